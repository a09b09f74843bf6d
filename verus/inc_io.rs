verus! {
// ---------- environment: std::io (assumed contracts; the medium is a byte sequence with a cursor) ----------
/// the medium after b was written at p: a gap is filled with zeros, writing nothing changes nothing
pub open spec fn splice(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { d } else { splice1(d, p, b) }
}
pub open spec fn splice1(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    Seq::new((if p + b.len() > d.len() { p + b.len() } else { d.len() as int }) as nat, |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
}
pub broadcast proof fn lemma_append(d: Seq<u8>, b: Seq<u8>) ensures #[trigger] splice(d, d.len() as int, b) == d + b
{ assert(splice(d, d.len() as int, b) =~= d + b); }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait VpMedium { spec fn bytes(&self) -> Seq<u8>; spec fn pos(&self) -> int;
    /// the medium may report errors other than end of file
    spec fn faulty(&self) -> bool; }
pub trait Seek: VpMedium {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>)
        ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(),
            r is Ok ==> final(self).pos() == r->Ok_0 && final(self).pos() == (match to { SeekFrom::Start(p) => p as int, SeekFrom::End(o) => old(self).bytes().len() + o, SeekFrom::Current(o) => old(self).pos() + o }),
            !old(self).faulty() && (to is Start || to == SeekFrom::End(0)) ==> r is Ok;
    fn stream_position(&mut self) -> (r: Result<u64>)
        ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(), final(self).pos() == old(self).pos(), r is Ok ==> r->Ok_0 == old(self).pos();
}
pub trait Read: VpMedium {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> ({ let n = r->Ok_0 as int; let p = old(self).pos();
                &&& n <= old(buf)@.len() && final(self).pos() == p + n && (n > 0 ==> 0 <= p && p + n <= old(self).bytes().len())
                &&& (n > 0 ==> final(buf)@ == old(self).bytes().subrange(p, p + n) + old(buf)@.subrange(n, old(buf)@.len() as int)) && (n == 0 ==> final(buf)@ == old(buf)@)
                &&& (n == 0 && old(buf)@.len() > 0 ==> p >= old(self).bytes().len()) }),
            !old(self).faulty() ==> r is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        ensures final(self).bytes() == old(self).bytes(), final(self).faulty() == old(self).faulty(), final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> 0 <= old(self).pos() && old(self).pos() + old(buf)@.len() <= old(self).bytes().len() && final(self).pos() == old(self).pos() + old(buf)@.len()
                && final(buf)@ == old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()),
            !old(self).faulty() && 0 <= old(self).pos() && old(self).pos() + old(buf)@.len() <= old(self).bytes().len() ==> r is Ok;
}
/// environment: reader.take(len).read_to_end(data), up to `len` bytes appended to data
#[verifier::external_body]
pub fn vp_take_read_to_end<R: Read>(reader: &mut R, len: u64, data: &mut Vec<u8>) -> (r: Result<usize>)
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> ({
            let n = final(data)@.len() - old(data)@.len(); let p = old(reader).pos();
            &&& 0 <= n <= len && final(reader).pos() == p + n && (n > 0 ==> 0 <= p && p + n <= old(reader).bytes().len())
            &&& final(data)@ == old(data)@ + old(reader).bytes().subrange(p, p + n)
            &&& (n < len ==> p + n >= old(reader).bytes().len())
        }),
        !old(reader).faulty() ==> r is Ok,
{ unimplemented!() }
/// environment: std::io::Cursor over a slice
pub struct VpCursor<'a> { pub d: &'a [u8], pub p: usize }
impl<'a> VpCursor<'a> { pub fn new(d: &'a [u8]) -> (r: Self) ensures r.d@ == d@, r.p == 0 { VpCursor { d, p: 0 } } }
impl<'a> VpMedium for VpCursor<'a> {
    open spec fn bytes(&self) -> Seq<u8> { self.d@ }
    open spec fn pos(&self) -> int { self.p as int }
    open spec fn faulty(&self) -> bool { false }
}
impl<'a> Read for VpCursor<'a> {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) {
        let m = if self.p > self.d.len() { 0 } else { self.d.len() - self.p };
        let n = vp_min(buf.len(), m);
        let ghost b0 = buf@;
        if n > 0 {
            let t = vp_sub_mut(buf, 0, n);
            t.copy_from_slice(&self.d[self.p..self.p + n]);
            self.p = self.p + n;
        }
        proof { if n > 0 { assert(buf@ =~= self.d@.subrange(self.p - n, self.p as int) + b0.subrange(n as int, b0.len() as int)); } }
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) {
        if self.p > self.d.len() || buf.len() > self.d.len() - self.p { return Err(vp_error()); }
        let n = buf.len();
        buf.copy_from_slice(&self.d[self.p..self.p + n]);
        self.p = self.p + n;
        Ok(())
    }
}
pub trait Write: VpMedium {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        ensures final(self).faulty() == old(self).faulty(),
            r is Ok ==> final(self).bytes() == splice(old(self).bytes(), old(self).pos(), buf@) && final(self).pos() == old(self).pos() + buf@.len();
}
impl VpMedium for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    open spec fn pos(&self) -> int { self@.len() as int }
    open spec fn faulty(&self) -> bool { false }
}
impl Write for Vec<u8> {
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { self.extend_from_slice(buf); Ok(()) }
}
}
