//@include inc_prelude.rs
//@include inc_sparse.rs
//@include inc_adpcm_spec.rs
verus! {
// ---------- environment: the codec crates (assumed: decoding what was encoded gives it back; nothing is encoded as the empty string) ----------
pub uninterp spec fn z_dec(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn b_dec(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn l_dec(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn p_dec(s: Seq<u8>) -> Option<Seq<u8>>;
pub axiom fn ax_dec_empty(s: Seq<u8>) requires s.len() == 0
    ensures z_dec(s) is None, b_dec(s) is None, l_dec(s) is None, p_dec(s) is None;
pub struct Compression { pub vp: u8 }
impl Compression { #[verifier::external_body] pub fn default() -> Compression { unimplemented!() } }
pub struct ZlibEncoder { pub vp: Ghost<Seq<u8>> }
impl ZlibEncoder {
    #[verifier::external_body] pub fn new(v: Vec<u8>, c: Compression) -> (r: Self) requires v@.len() == 0 ensures r.vp@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).vp@ == old(self).vp@ + d@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Result<Vec<u8>>) ensures r is Ok ==> z_dec(r->Ok_0@) == Some(self.vp@) && len_ok(r->Ok_0@.len() as int) { unimplemented!() }
}
/// the first n elements, or all of them
pub open spec fn first(s: Seq<u8>, n: int) -> Seq<u8> { if n >= s.len() { s } else { s.take(n) } }
pub struct ZlibDecoder<'a> { pub d: &'a [u8] }
impl<'a> ZlibDecoder<'a> {
    pub fn new(d: &'a [u8]) -> (r: Self) ensures r.d@ == d@ { ZlibDecoder { d } }
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize>)
        ensures z_dec(old(self).d@) is Some ==> r is Ok && final(out)@ == old(out)@ + z_dec(old(self).d@)->Some_0, len_ok(final(out)@.len() as int) { unimplemented!() }
    /// Read::take: at most n bytes of what the decoder gives
    pub fn take(self, n: u64) -> (r: ZlibTake<'a>) ensures r.d@ == self.d@, r.n == n { ZlibTake { d: self.d, n } }
}
pub struct ZlibTake<'a> { pub d: &'a [u8], pub n: u64 }
impl<'a> ZlibTake<'a> {
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize>)
        ensures z_dec(old(self).d@) is Some ==> r is Ok && final(out)@ == old(out)@ + first(z_dec(old(self).d@)->Some_0, old(self).n as int), len_ok(final(out)@.len() as int) { unimplemented!() }
}
pub struct BzEncoder { pub vp: Ghost<Seq<u8>> }
impl BzEncoder {
    #[verifier::external_body] pub fn new(v: Vec<u8>, c: Compression) -> (r: Self) requires v@.len() == 0 ensures r.vp@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).vp@ == old(self).vp@ + d@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(self) -> (r: Result<Vec<u8>>) ensures r is Ok ==> b_dec(r->Ok_0@) == Some(self.vp@) && len_ok(r->Ok_0@.len() as int) { unimplemented!() }
}
pub struct BzDecoder<'a> { pub d: &'a [u8] }
impl<'a> BzDecoder<'a> {
    pub fn new(d: &'a [u8]) -> (r: Self) ensures r.d@ == d@ { BzDecoder { d } }
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize>)
        ensures b_dec(old(self).d@) is Some ==> r is Ok && final(out)@ == old(out)@ + b_dec(old(self).d@)->Some_0, len_ok(final(out)@.len() as int) { unimplemented!() }
    /// Read::take: at most n bytes of what the decoder gives
    pub fn take(self, n: u64) -> (r: BzTake<'a>) ensures r.d@ == self.d@, r.n == n { BzTake { d: self.d, n } }
}
pub struct BzTake<'a> { pub d: &'a [u8], pub n: u64 }
impl<'a> BzTake<'a> {
    #[verifier::external_body] pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize>)
        ensures b_dec(old(self).d@) is Some ==> r is Ok && final(out)@ == old(out)@ + first(b_dec(old(self).d@)->Some_0, old(self).n as int), len_ok(final(out)@.len() as int) { unimplemented!() }
}
/// BufReader<Cursor<&[u8]>> read from its start
pub struct VpInput<'a> { pub d: &'a [u8] }
impl<'a> VpInput<'a> { pub fn new(d: &'a [u8]) -> (r: Self) ensures r.d@ == d@ { VpInput { d } } }
#[verifier::external_body] pub fn lzma_decompress(i: &mut VpInput, out: &mut Vec<u8>) -> (r: Result<()>)
    ensures l_dec(old(i).d@) is Some ==> r is Ok && final(out)@ == old(out)@ + l_dec(old(i).d@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn xz_decompress(i: &mut VpInput, out: &mut Vec<u8>) -> (r: Result<()>) { unimplemented!() }
#[verifier::external_body] pub fn lzma_compress(i: &mut VpInput, out: &mut Vec<u8>) -> (r: Result<()>)
    ensures r is Ok ==> exists|c: Seq<u8>| final(out)@ == old(out)@ + c && #[trigger] l_dec(c) == Some(old(i).d@), len_ok(final(out)@.len() as int) { unimplemented!() }
pub enum CompressionMode { Binary, ASCII }
pub enum DictionarySize { Size1K, Size2K, Size4K }
/// the crate loses data after every 4 KiB of input, so the contract stops there
#[verifier::external_body] pub fn implode_bytes(d: &[u8], m: CompressionMode, s: DictionarySize) -> (r: Result<Vec<u8>>)
    ensures r is Ok && 0 < d@.len() <= 0x1000 ==> p_dec(r->Ok_0@) == Some(d@), r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn explode_bytes(d: &[u8]) -> (r: Result<Vec<u8>>)
    ensures p_dec(d@) is Some ==> r is Ok && r->Ok_0@ == p_dec(d@)->Some_0, r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }
pub fn vp_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// [a, ..].iter().filter(|&&x| x).count()
pub open spec fn cnt(a: Seq<bool>) -> int decreases a.len() { if a.len() == 0 { 0 } else { cnt(a.drop_last()) + if a.last() { 1int } else { 0int } } }
pub fn vp_count(a: &[bool]) -> (r: usize) ensures r == cnt(a@)
{
    let mut n: usize = 0;
    for i in 0..a.len() invariant n == cnt(a@.take(i as int)), n <= i
    { proof { assert(a@.take(i + 1).drop_last() =~= a@.take(i as int)); } if a[i] { n = n + 1; } }
    proof { assert(a@.take(a@.len() as int) =~= a@); }
    n
}
// ---------- contracts proved elsewhere ----------
/// proved in unit sparse
#[verifier::external_body] pub fn sparse_compress(data: &[u8]) -> (r: Result<Vec<u8>>)
    ensures r is Ok, complete(r->Ok_0@, 0), emit(r->Ok_0@, 0) == data@, r->Ok_0@.len() <= 2 * data@.len() + 1 { unimplemented!() }
/// proved in unit sparse
#[verifier::external_body] pub fn sparse_decompress(data: &[u8], expected_size: usize) -> (r: Result<Vec<u8>>)
    requires len_ok(expected_size as int + 0x7F), len_ok(data@.len() as int)
    ensures complete(data@, 0) && emit(data@, 0).len() == expected_size ==> r is Ok && r->Ok_0@ == emit(data@, 0),
        complete(data@, 0) && emit(data@, 0).len() <= expected_size ==> r is Ok && r->Ok_0@ == emit(data@, 0) + zeros(expected_size - emit(data@, 0).len()),
        r is Ok ==> r->Ok_0@.len() >= expected_size && r->Ok_0@.len() <= expected_size + 0x7F,
{ unimplemented!() }
/// proved in unit adpcm
#[verifier::external_body] pub fn adpcm_compress_mono(data: &[u8], level: u8) -> (r: Result<Vec<u8>>)
    requires level == 5, len_ok((8 * data@.len() + 64) as int)
    ensures r is Ok && data@.len() > 0 ==> ad_fits(r->Ok_0@, 1, data@.len() as int), data@.len() == 0 && r is Ok ==> r->Ok_0@.len() == 0, r is Ok ==> r->Ok_0@.len() <= 4 * data@.len() { unimplemented!() }
/// proved in unit adpcm
#[verifier::external_body] pub fn adpcm_compress_stereo(data: &[u8], level: u8) -> (r: Result<Vec<u8>>)
    requires level == 5, len_ok((8 * data@.len() + 64) as int)
    ensures r is Ok && data@.len() > 0 ==> ad_fits(r->Ok_0@, 2, data@.len() as int), data@.len() == 0 && r is Ok ==> r->Ok_0@.len() == 0, r is Ok ==> r->Ok_0@.len() <= 4 * data@.len() { unimplemented!() }
/// proved in unit adpcm
#[verifier::external_body] pub fn adpcm_decompress_mono(data: &[u8], output_size: usize) -> (r: Result<Vec<u8>>)
    requires len_ok(data@.len() as int), len_ok(output_size + 2),
    ensures ad_fits(data@, 1, output_size as int) ==> r is Ok && r->Ok_0@.len() == output_size { unimplemented!() }
/// proved in unit adpcm
#[verifier::external_body] pub fn adpcm_decompress_stereo(data: &[u8], output_size: usize) -> (r: Result<Vec<u8>>)
    requires len_ok(data@.len() as int), len_ok(output_size + 2),
    ensures ad_fits(data@, 2, output_size as int) ==> r is Ok && r->Ok_0@.len() == output_size { unimplemented!() }
/// in-repository code used only for decoding foreign data; no contract needed here
/// these two: proved in unit huff
#[verifier::external_body] pub fn huffman_decompress(data: &[u8], n: usize) -> (r: Result<Vec<u8>>) requires len_ok(data@.len() as int), len_ok(n as int) ensures r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn implode_decompress(data: &[u8], n: usize) -> (r: Result<Vec<u8>>) requires len_ok(data@.len() as int) ensures r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }

// ---------- the codec wrappers ----------
//@extract mopaq/src/compression/algorithms/zlib.rs compress
//@opts ret=r name=zlib_compress
//@spec
    ensures r is Ok ==> z_dec(r->Ok_0@) == Some(data@) && len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/zlib.rs decompress
//@opts ret=r name=zlib_decompress
//@spec
    ensures z_dec(data@) is Some ==> r is Ok && r->Ok_0@ == z_dec(data@)->Some_0, r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/bzip2.rs compress
//@opts ret=r name=bzip2_compress
//@spec
    ensures r is Ok ==> b_dec(r->Ok_0@) == Some(data@) && len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/bzip2.rs decompress_stage
//@opts ret=r name=bzip2_decompress_stage
//@spec
    ensures b_dec(data@) is Some ==> r is Ok && r->Ok_0@ == b_dec(data@)->Some_0, r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/bzip2.rs decompress
//@opts ret=r name=bzip2_decompress
//@subst decompress_stage( ==> bzip2_decompress_stage(
//@spec
    ensures b_dec(data@) is Some && b_dec(data@)->Some_0.len() == expected_size ==> r is Ok && r->Ok_0@ == b_dec(data@)->Some_0,
//@end
//@extract mopaq/src/compression/algorithms/lzma.rs compress
//@opts ret=r name=lzma_compress_w
//@subst let cursor = Cursor::new(data); ==>
//@subst BufReader::new(cursor) ==> VpInput::new(data)
//@subst lzma_rs::lzma_compress ==> lzma_compress
//@spec
    ensures r is Ok ==> l_dec(r->Ok_0@) == Some(data@) && len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/lzma.rs decompress
//@opts ret=r name=lzma_decompress_w
//@subst let cursor = Cursor::new(data); ==>
//@subst BufReader::new(cursor) ==> VpInput::new(data)
//@subst lzma_rs::lzma_decompress ==> lzma_decompress
//@subst lzma_rs::xz_decompress ==> xz_decompress
//@spec
    ensures l_dec(data@) is Some ==> r is Ok && r->Ok_0@ == l_dec(data@)->Some_0,
//@end
//@extract mopaq/src/compression/algorithms/pkware.rs const:MAX_INPUT_LEN
//@end
//@extract mopaq/src/compression/algorithms/pkware.rs compress
//@opts ret=r name=pkware_compress
//@spec
    ensures r is Ok && 0 < data@.len() <= 0x1000 ==> p_dec(r->Ok_0@) == Some(data@), r is Ok && data@.len() == 0 ==> r->Ok_0@.len() == 0, r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@end
//@extract mopaq/src/compression/algorithms/pkware.rs decompress
//@opts ret=r name=pkware_decompress
//@spec
    ensures p_dec(data@) is Some ==> r is Ok && r->Ok_0@ == p_dec(data@)->Some_0, r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@body-start
    proof { if data@.len() == 0 { ax_dec_empty(data@); } }
//@end
//@extract mopaq/src/compression/algorithms/implode.rs compress
//@opts ret=r name=implode_compress
//@spec
    ensures r is Ok ==> data@.len() == 0 && r->Ok_0@.len() == 0,
//@end
//@extract mopaq/src/compression/algorithms/huffman.rs compress
//@opts ret=r name=huffman_compress
//@spec
    ensures r is Ok ==> data@.len() == 0 && r->Ok_0@.len() == 0,
//@end
// ---------- method byte ----------
//@extract mopaq/src/compression/methods.rs mod:flags
//@end
//@extract mopaq/src/compression/methods.rs enum:CompressionMethod
//@end
pub open spec fn method_of(f: u8) -> CompressionMethod {
    if f == 0x12 { CompressionMethod::Lzma } else if f == 0 { CompressionMethod::None } else if f == 1 { CompressionMethod::Huffman } else if f == 2 { CompressionMethod::Zlib } else if f == 4 { CompressionMethod::Implode }
    else if f == 8 { CompressionMethod::PKWare } else if f == 0x10 { CompressionMethod::BZip2 } else if f == 0x20 { CompressionMethod::Sparse } else if f == 0x40 { CompressionMethod::AdpcmMono } else if f == 0x80 { CompressionMethod::AdpcmStereo }
    else { CompressionMethod::Multiple(f) }
}
impl CompressionMethod {
//@extract mopaq/src/compression/methods.rs CompressionMethod::from_flags
//@opts ret=r
//@spec
    ensures r == method_of(flags)
//@end
}
// ---------- specification: sectors ----------
/// c is a whole stream of the one lossless method m for x
pub open spec fn stream(m: u8, c: Seq<u8>, x: Seq<u8>) -> bool {
    if m == 2 { z_dec(c) == Some(x) } else if m == 0x10 { b_dec(c) == Some(x) } else if m == 0x12 { l_dec(c) == Some(x) } else if m == 0x20 { complete(c, 0) && emit(c, 0) == x } else if m == 8 { p_dec(c) == Some(x) }
    else if m == 0 { c == x } else { false }
}
pub open spec fn audio(m: u8) -> bool { m & 0xC0 != 0 }
pub open spec fn chans(m: u8) -> int { if m & 0x80 != 0 { 2 } else { 1 } }
/// c is what method byte m stores for x
pub open spec fn stored(m: u8, c: Seq<u8>, x: Seq<u8>) -> bool {
    &&& c.len() > 0 && m != 0
    &&& if audio(m) { exists|mid: Seq<u8>| #[trigger] stream(m & 0x3F, c, mid) && ad_fits(mid, chans(m), x.len() as int) && m & 0x3F != 0x12 && mid.len() <= 4 * x.len() } else { stream(m, c, x) }
}
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }

pub proof fn lemma_flags(f: u8)
    ensures audio(f) == (f & 0x40 != 0 || f & 0x80 != 0),
        f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 0,
        f & 1 != 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 1,
        f & 1 == 0 && f & 2 != 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 2,
        f & 1 == 0 && f & 2 == 0 && f & 4 != 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 4,
        f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 != 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 8,
        f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 != 0 && f & 0x20 == 0 <==> f & 0x3F == 0x10,
        f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 != 0 <==> f & 0x3F == 0x20,
        !audio(f) ==> f & 0x3F == f,
        audio(0x40u8) && audio(0x80u8) && 0x40u8 & 0x3F == 0 && 0x80u8 & 0x3F == 0 && 0x80u8 & 0x80 != 0 && 0x40u8 & 0x80 == 0,
        !audio(0) && !audio(1) && !audio(4) && !audio(2) && !audio(8) && !audio(0x10) && !audio(0x12) && !audio(0x20),
{
    assert((f & 0xC0 != 0) == (f & 0x40 != 0 || f & 0x80 != 0)) by (bit_vector);
    assert(f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 0) by (bit_vector);
    assert(f & 1 != 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 1) by (bit_vector);
    assert(f & 1 == 0 && f & 2 != 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 2) by (bit_vector);
    assert(f & 1 == 0 && f & 2 == 0 && f & 4 != 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 4) by (bit_vector);
    assert(f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 != 0 && f & 0x10 == 0 && f & 0x20 == 0 <==> f & 0x3F == 8) by (bit_vector);
    assert(f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 != 0 && f & 0x20 == 0 <==> f & 0x3F == 0x10) by (bit_vector);
    assert(f & 1 == 0 && f & 2 == 0 && f & 4 == 0 && f & 8 == 0 && f & 0x10 == 0 && f & 0x20 != 0 <==> f & 0x3F == 0x20) by (bit_vector);
    assert(!(f & 0xC0 != 0) ==> f & 0x3F == f) by (bit_vector);
    assert(0x40u8 & 0xC0 != 0 && 0x80u8 & 0xC0 != 0 && 0x40u8 & 0x3F == 0 && 0x80u8 & 0x3F == 0 && 0x80u8 & 0x80 != 0 && 0x40u8 & 0x80 == 0) by (bit_vector);
    assert(0u8 & 0xC0 == 0 && 1u8 & 0xC0 == 0 && 4u8 & 0xC0 == 0 && 2u8 & 0xC0 == 0 && 8u8 & 0xC0 == 0 && 0x10u8 & 0xC0 == 0 && 0x12u8 & 0xC0 == 0 && 0x20u8 & 0xC0 == 0) by (bit_vector);
}
pub proof fn lemma_audio_plain(m: u8) requires m == 0x40 || m == 0x80
    ensures forall|c: Seq<u8>, x: Seq<u8>| ad_fits(c, chans(m), x.len() as int) && c.len() <= 4 * x.len() ==> #[trigger] stored(m, c, x),
        forall|c: Seq<u8>, x: Seq<u8>| #[trigger] stored(m, c, x) ==> ad_fits(c, chans(m), x.len() as int),
{
    lemma_flags(m);
    assert forall|c: Seq<u8>, x: Seq<u8>| ad_fits(c, chans(m), x.len() as int) && c.len() <= 4 * x.len() implies #[trigger] stored(m, c, x) by { assert(stream(m & 0x3F, c, c)); }
}
//@extract mopaq/src/compression/compress.rs compress_multiple
//@opts ret=r
//@subst let remaining_count = [ ==> let remaining_count = vp_count(&[
//@subst ] .iter() .filter(|&&x| x) .count(); ==> ]);
//@subst algorithms::adpcm:: ==> adpcm_
//@subst algorithms::huffman::compress ==> huffman_compress
//@subst algorithms::zlib::compress ==> zlib_compress
//@subst algorithms::implode::compress ==> implode_compress
//@subst algorithms::bzip2::compress ==> bzip2_compress
//@subst algorithms::sparse::compress ==> sparse_compress
//@subst algorithms::pkware::compress ==> pkware_compress
//@subst algorithms::pkware::MAX_INPUT_LEN ==> MAX_INPUT_LEN
//@spec
    requires method_of(flags) == CompressionMethod::Multiple(flags), small(data@.len() as int),
    ensures r is Ok ==> data@.len() == 0 || r->Ok_0@ == data@ || stored(flags, r->Ok_0@, data@), r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@after-let has_sparse
    proof { lemma_flags(flags); }
    let ghost fl = flags;
//@after-let remaining_count
    let ghost mid = current_data@;
    proof {
        let a = seq![has_huffman, has_zlib, has_implode, has_pkware, has_bzip2, has_sparse];
        reveal_with_fuel(cnt, 8);
        assert(a.drop_last() =~= seq![has_huffman, has_zlib, has_implode, has_pkware, has_bzip2]); assert(a.drop_last().drop_last() =~= seq![has_huffman, has_zlib, has_implode, has_pkware]);
        assert(a.drop_last().drop_last().drop_last() =~= seq![has_huffman, has_zlib, has_implode]); assert(a.drop_last().drop_last().drop_last().drop_last() =~= seq![has_huffman, has_zlib]);
        assert(remaining_count == cnt(a));
        assert(a.drop_last().drop_last().drop_last().drop_last().drop_last() =~= seq![has_huffman]);
        if data@.len() > 0 && flags & 0x3F == 0 { assert(stream(0, mid, mid)); assert(stored(flags, mid, data@)); }
    }
//@before-tail
    proof { if current_data@.len() == 0 { ax_dec_empty(current_data@); } if data@.len() > 0 { assert(stream(flags & 0x3F, current_data@, mid)); assert(current_data@.len() > 0); } }
//@end
//@extract mopaq/src/compression/compress.rs compress_internal
//@opts ret=r
//@subst algorithms::adpcm:: ==> adpcm_
//@subst algorithms::huffman::compress ==> huffman_compress
//@subst algorithms::zlib::compress ==> zlib_compress
//@subst algorithms::lzma::compress ==> lzma_compress_w
//@subst algorithms::implode::compress ==> implode_compress
//@subst algorithms::bzip2::compress ==> bzip2_compress
//@subst algorithms::sparse::compress ==> sparse_compress
//@subst algorithms::pkware::compress ==> pkware_compress
//@subst algorithms::pkware::MAX_INPUT_LEN ==> MAX_INPUT_LEN
//@spec
    requires small(data@.len() as int),
    ensures r is Ok ==> data@.len() == 0 || r->Ok_0@ == data@ || stored(method, r->Ok_0@, data@), r is Ok ==> len_ok(r->Ok_0@.len() as int),
//@after-let compression
    proof { lemma_flags(method); if method == 0x40 || method == 0x80 { lemma_audio_plain(method); } assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] z_dec(s) is None by { ax_dec_empty(s); } assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] b_dec(s) is None by { ax_dec_empty(s); } assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] l_dec(s) is None by { ax_dec_empty(s); } assert forall|s: Seq<u8>| s.len() == 0 implies #[trigger] p_dec(s) is None by { ax_dec_empty(s); } }
//@end
//@extract mopaq/src/compression/compress.rs compress
//@opts ret=r
//@spec
    requires small(data@.len() as int),
    ensures r is Ok ==> r->Ok_0@ == data@ || (r->Ok_0@.len() < data@.len() && r->Ok_0@.len() >= 2 && r->Ok_0@[0] == method && stored(method, r->Ok_0@.skip(1), data@)),
//@after-let compressed
    proof { assert forall|v: Seq<u8>| v =~= seq![method] + compressed@ implies #[trigger] v.skip(1) == compressed@ by { assert(v.skip(1) =~= compressed@); } }
//@end
//@extract mopaq/src/compression/decompress.rs decompress_multiple
//@opts ret=r
//@subst Some("stereo") ==> Some(2u8)
//@subst Some("mono") ==> Some(1u8)
//@subst "mono" => ==> 1 =>
//@subst "stereo" => ==> 2 =>
//@subst std::cmp::max ==> vp_max
//@subst algorithms::adpcm:: ==> adpcm_
//@subst algorithms::huffman::decompress ==> huffman_decompress
//@subst algorithms::zlib::decompress ==> zlib_decompress
//@subst algorithms::implode::decompress ==> implode_decompress
//@subst algorithms::bzip2:: ==> bzip2_
//@subst algorithms::sparse::decompress ==> sparse_decompress
//@subst algorithms::pkware::decompress ==> pkware_decompress
//@spec
    requires small(data@.len() as int), small(expected_size as int),
    ensures forall|x: Seq<u8>| audio(flags) && #[trigger] stored(flags, data@, x) && x.len() == expected_size ==> r is Ok && r->Ok_0@.len() == expected_size,
//@body-start
    let ghost ok = audio(flags) && exists|x: Seq<u8>| #[trigger] stored(flags, data@, x) && x.len() == expected_size;
    let ghost x0 = choose|x: Seq<u8>| #[trigger] stored(flags, data@, x) && x.len() == expected_size;
    let ghost mid = choose|mid: Seq<u8>| #[trigger] stream(flags & 0x3F, data@, mid) && ad_fits(mid, chans(flags), x0.len() as int) && flags & 0x3F != 0x12 && mid.len() <= 4 * x0.len();
    let ghost fl = flags;
    proof {
        lemma_flags(flags);
        if ok {
            assert(stream(flags & 0x3F, data@, mid) && ad_fits(mid, chans(flags), expected_size as int) && mid.len() <= 4 * expected_size);
            assert forall|t: Seq<u8>| ad_fits(#[trigger] (mid + t), chans(fl), expected_size as int) by { lemma_fits_append(mid, t, chans(fl), expected_size as int); }
        }
    }
//@end
//@extract mopaq/src/compression/decompress.rs decompress
//@opts ret=r
//@subst algorithms::adpcm:: ==> adpcm_
//@subst algorithms::huffman::decompress ==> huffman_decompress
//@subst algorithms::zlib::decompress ==> zlib_decompress
//@subst algorithms::lzma::decompress ==> lzma_decompress_w
//@subst algorithms::implode::decompress ==> implode_decompress
//@subst algorithms::bzip2:: ==> bzip2_
//@subst algorithms::sparse::decompress ==> sparse_decompress
//@subst algorithms::pkware::decompress ==> pkware_decompress
//@spec
    requires small(data@.len() as int), small(decompressed_size as int),
    ensures forall|x: Seq<u8>| #[trigger] stored(method, data@, x) && x.len() == decompressed_size ==> r is Ok && (if audio(method) { r->Ok_0@.len() == decompressed_size } else { r->Ok_0@ == x }),
//@body-start
    proof { lemma_flags(method); if method == 0x40 || method == 0x80 { lemma_audio_plain(method); } }
//@end
/// THEOREM: compress then decompress, as readers do it
fn vp_sector_roundtrip(x: &[u8], m: u8) -> (r: Result<Vec<u8>>)
    requires small(x@.len() as int)
    ensures r is Ok && !audio(m) ==> r->Ok_0@ == x@, r is Ok ==> r->Ok_0@.len() == x@.len()
{
    let c = compress(x, m)?;
    if c.len() < x.len() {
        let n = c.len();
        assert(c@.subrange(1, n as int) =~= c@.skip(1));
        let r = decompress(&c.as_slice()[1..n], c[0], x.len());
        assert(r is Ok);
        r
    } else { Ok(c) }
}
fn main() {}
}
