//@include inc_prelude.rs
verus! {
// ---------- environment: memory behind raw pointers ----------
#[derive(Clone, Copy)] pub struct c_void { pub vp: u8 }
pub type c_char = u8;
/// a raw pointer: an address
pub struct VpPtr<T> { pub addr: usize, pub vp: Ghost<Option<T>> }
impl<T> Clone for VpPtr<T> { fn clone(&self) -> (r: Self) ensures r.addr == self.addr { VpPtr { addr: self.addr, vp: self.vp } } }
impl<T> Copy for VpPtr<T> {}
impl<T> VpPtr<T> { pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 } }
pub type HANDLE = VpPtr<c_void>;
pub fn vp_addr<T>(p: VpPtr<T>) -> (r: usize) ensures r == p.addr { p.addr }
pub fn vp_cast<S, T>(p: VpPtr<S>) -> (r: VpPtr<T>) ensures r.addr == p.addr { VpPtr { addr: p.addr, vp: Ghost(None) } }
pub fn vp_handle(a: usize) -> (r: HANDLE) ensures r.addr == a { VpPtr { addr: a, vp: Ghost(None) } }
/// the bytes the caller handed over, by address: only these may be touched
pub struct VpMem { pub m: Ghost<Map<int, u8>> }
pub open spec fn can(m: VpMem, a: int, n: int) -> bool { forall|i: int| a <= i < a + n ==> #[trigger] m.m@.dom().contains(i) }
pub open spec fn put(m: Map<int, u8>, a: int, s: Seq<u8>) -> Map<int, u8> { Map::new(m.dom(), |k: int| if a <= k < a + s.len() { s[k - a] } else { m[k] }) }
pub open spec fn get(m: Map<int, u8>, a: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| m[a + i]) }
pub trait VpWord: Sized { spec fn le(self) -> Seq<u8>; }
pub open spec fn le4(v: u32) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] }
pub open spec fn le8(v: u64) -> Seq<u8> { le4((v & 0xffff_ffff) as u32) + le4((v >> 32) as u32) }
impl VpWord for u32 { open spec fn le(self) -> Seq<u8> { le4(self) } }
impl VpWord for i32 { open spec fn le(self) -> Seq<u8> { le4(self as u32) } }
impl VpWord for u64 { open spec fn le(self) -> Seq<u8> { le8(self) } }
impl VpWord for HANDLE { open spec fn le(self) -> Seq<u8> { le8(self.addr as u64) } }
#[verifier::external_body] pub fn vp_store<T: VpWord>(vp_mem: &mut VpMem, p: VpPtr<T>, v: T)
    requires p.addr != 0, can(*old(vp_mem), p.addr as int, v.le().len() as int) ensures final(vp_mem).m@ == put(old(vp_mem).m@, p.addr as int, v.le()) { unimplemented!() }
#[verifier::external_body] pub fn vp_load(vp_mem: &VpMem, p: VpPtr<i32>) -> (r: i32)
    requires p.addr != 0, can(*vp_mem, p.addr as int, 4) ensures r == i32_at(vp_mem.m@, p.addr as int) { unimplemented!() }
pub uninterp spec fn i32_at(m: Map<int, u8>, a: int) -> i32;
/// ptr::copy_nonoverlapping(src.as_ptr(), dst, n)
#[verifier::external_body] pub fn vp_copy(vp_mem: &mut VpMem, src: &[u8], dst: VpPtr<u8>, n: usize)
    requires n <= src@.len(), can(*old(vp_mem), dst.addr as int, n as int) ensures final(vp_mem).m@ == put(old(vp_mem).m@, dst.addr as int, src@.take(n as int)) { unimplemented!() }
/// CStr::from_ptr(p).to_str()
pub uninterp spec fn cstr(m: Map<int, u8>, a: int) -> Option<Seq<char>>;
#[verifier::external_body] pub fn vp_cstr(vp_mem: &VpMem, p: VpPtr<c_char>) -> (r: core::result::Result<&'static str, u8>)
    requires p.addr != 0 ensures r is Ok == cstr(vp_mem.m@, p.addr as int) is Some, r is Ok ==> r->Ok_0@ == cstr(vp_mem.m@, p.addr as int)->0 { unimplemented!() }
#[verifier::external_body] pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// CString::new(s).as_bytes_with_nul(): fails on an inner NUL
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub struct CString { pub b: Vec<u8> }
impl CString {
    #[verifier::external_body] pub fn new(s: &str) -> (r: core::result::Result<CString, u8>) ensures r is Ok == !utf8(s@).contains(0u8), r is Ok ==> r->Ok_0.b@ == utf8(s@).push(0u8) { unimplemented!() }
    pub fn as_bytes_with_nul(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
}
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
// ---------- environment: the global tables behind their mutexes ----------
/// Mutex<HashMap<usize, V>>, one thread, never poisoned (no call panics)
pub struct VpMap<V> { pub m: Ghost<Map<usize, V>>, pub vp: u8 }
impl<V> VpMap<V> {
    pub open spec fn view(self) -> Map<usize, V> { self.m@ }
    #[verifier::external_body] pub fn lock(&mut self) -> (r: core::result::Result<&mut VpMap<V>, u8>) ensures r is Ok, (r->Ok_0)@ == old(self)@, final(self)@ == final(r->Ok_0)@ { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &usize) -> (r: Option<&mut V>)
        ensures r is Some == old(self)@.dom().contains(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<V>) ensures r is Some == old(self)@.dom().contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl VpMap<FileHandle> {
    /// HashMap::retain with the function vp_keep (its contract is proved below)
    #[verifier::external_body] pub fn vp_retain(&mut self, handle_id: usize) ensures final(self)@ == kept(old(self)@, handle_id) { unimplemented!() }
}
pub open spec fn kept(f: Map<usize, FileHandle>, a: usize) -> Map<usize, FileHandle> { Map::new(f.dom().filter(|k: usize| keep(f[k], a)), |k: usize| f[k]) }
pub open spec fn keep(f: FileHandle, a: usize) -> bool { f.archive_handle != a }
pub struct VpNext { pub n: usize }
impl VpNext { #[verifier::external_body] pub fn lock(&mut self) -> (r: core::result::Result<&mut usize, u8>) ensures r is Ok, *(r->Ok_0) == old(self).n, final(self).n == *final(r->Ok_0) { unimplemented!() } }
// ---------- environment: the library (other units) ----------
pub mod mopaq { pub enum Error { FileNotFound(u8), InvalidFormat(u8), Io(u8), Other } }
pub struct MpqHeader { pub hash_table_size: u32, pub block_table_size: u32, pub vp_size: u64, pub vp_sector: usize }
impl MpqHeader {
    pub fn get_archive_size(&self) -> (r: u64) ensures r == self.vp_size { self.vp_size }
    pub fn sector_size(&self) -> (r: usize) ensures r == self.vp_sector { self.vp_sector }
}
pub struct FileInfo { pub file_size: u64 }
pub struct Archive { pub vp: Ghost<int>, pub h: MpqHeader }
pub uninterp spec fn located(a: Archive, n: Seq<char>) -> core::result::Result<Option<u64>, mopaq::Error>;
pub uninterp spec fn content(a: Archive, n: Seq<char>) -> core::result::Result<Seq<u8>, mopaq::Error>;
pub open spec fn same_archive(a: Archive, b: Archive) -> bool { a.h == b.h && forall|n: Seq<char>| #[trigger] located(a, n) == located(b, n) && #[trigger] content(a, n) == content(b, n) && names_in(a) == names_in(b) }
/// the names listing an archive gives (unit list, C17)
pub uninterp spec fn names_in(a: Archive) -> core::result::Result<Seq<Seq<char>>, mopaq::Error>;
pub struct FileEntry { pub name: String }
pub open spec fn names_of(v: Seq<FileEntry>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].name@) }
impl Archive {
    #[verifier::external_body] pub fn list(&mut self) -> (r: core::result::Result<Vec<FileEntry>, mopaq::Error>)
        ensures same_archive(*old(self), *final(self)), r is Ok == names_in(*old(self)) is Ok, r is Ok ==> names_of(r->Ok_0@) == names_in(*old(self))->Ok_0 { unimplemented!() }
    #[verifier::external_body] pub fn open(p: &str) -> (r: core::result::Result<Archive, mopaq::Error>) { unimplemented!() }
    pub fn header(&self) -> (r: &MpqHeader) ensures *r == self.h { &self.h }
    #[verifier::external_body] pub fn find_file(&self, filename: &str) -> (r: core::result::Result<Option<FileInfo>, mopaq::Error>)
        ensures ({ let c = located(*self, filename@); r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some) && (r->Ok_0 is Some ==> (r->Ok_0->0).file_size == c->Ok_0->0)) }) { unimplemented!() }
    #[verifier::external_body] pub fn read_file(&mut self, name: &str) -> (r: core::result::Result<Vec<u8>, mopaq::Error>)
        ensures same_archive(*old(self), *final(self)), r is Ok == content(*old(self), name@) is Ok, r is Ok ==> r->Ok_0@ == content(*old(self), name@)->Ok_0 && len_ok(r->Ok_0@.len() as int), r is Err ==> r->Err_0 == content(*old(self), name@)->Err_0 { unimplemented!() }
}
//@extract storm-ffi/src/lib.rs struct:ArchiveHandle
//@end
//@extract storm-ffi/src/lib.rs struct:FileHandle
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_SUCCESS
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_NOT_FOUND
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_ACCESS_DENIED
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_HANDLE
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_PARAMETER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INSUFFICIENT_BUFFER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_CORRUPT
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_NOT_SUPPORTED
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_ARCHIVE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_HASH_TABLE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_BLOCK_TABLE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_SECTOR_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_FILE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_POSITION
//@end
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
// ---------- specification ----------
/// the invariant of the tables: positions inside their files, handles fresh, files only of open archives
pub open spec fn wf(f: Map<usize, FileHandle>, a: Map<usize, ArchiveHandle>, next: int) -> bool {
    &&& forall|k: usize| #[trigger] f.dom().contains(k) ==> file_ok(f[k]) && 0 < k < next && !a.dom().contains(k) && a.dom().contains(f[k].archive_handle)
    &&& forall|k: usize| #[trigger] a.dom().contains(k) ==> 0 < k < next
    &&& 0 < next
}
pub open spec fn file_ok(f: FileHandle) -> bool { f.position <= f.data@.len() && len_ok(f.data@.len() as int) }
pub open spec fn files_ok(f: Map<usize, FileHandle>) -> bool { forall|k: usize| #[trigger] f.dom().contains(k) ==> file_ok(f[k]) }
pub open spec fn known<V>(f: Map<usize, V>, h: HANDLE) -> bool { h.addr != 0 && f.dom().contains(h.addr) }
/// only the position of file id changed, to p
pub open spec fn moved(f: Map<usize, FileHandle>, g: Map<usize, FileHandle>, id: usize, p: int) -> bool {
    g.dom() =~= f.dom() && (forall|k: usize| k != id && f.dom().contains(k) ==> #[trigger] g[k] == f[k]) && g[id].position == p && g[id].data@ == f[id].data@ && g[id].size == f[id].size && g[id].archive_handle == f[id].archive_handle && g[id].filename@ == f[id].filename@
}
pub open spec fn apart(a: int, n: int, b: int, m: int) -> bool { a + n <= b || b + m <= a }
/// the bytes s are at a, the word w is at p unless p is null, everything else is as it was
pub open spec fn stored<T>(m: Map<int, u8>, g: Map<int, u8>, a: int, s: Seq<u8>, p: VpPtr<T>, w: Seq<u8>) -> bool {
    g.dom() == m.dom() && forall|k: int| m.dom().contains(k) ==> #[trigger] g[k] == (if a <= k < a + s.len() { s[k - a] } else if p.addr != 0 && p.addr <= k < p.addr + w.len() { w[k - p.addr] } else { m[k] })
}
pub open spec fn none() -> Seq<u8> { Seq::empty() }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }

//@extract storm-ffi/src/lib.rs set_last_error
//@params LAST_ERROR: &mut u32
//@subst LAST_ERROR.with(|e| *e.borrow_mut() = error) ==> *LAST_ERROR = error
//@spec
    ensures *final(LAST_ERROR) == error
//@end
//@extract storm-ffi/src/lib.rs handle_to_id
//@opts ret=r ptrs
//@spec
    ensures r == (if handle.addr == 0 { None } else { Some(handle.addr) })
//@end
//@extract storm-ffi/src/lib.rs id_to_handle
//@opts ret=r ptrs
//@spec
    ensures r.addr == id
//@end
//@extract storm-ffi/src/lib.rs SFileReadFile
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    requires files_ok(old(FILES)@), buffer.addr != 0 ==> can(*old(vp_mem), buffer.addr as int, to_read as int), read.addr != 0 ==> can(*old(vp_mem), read.addr as int, 4), apart(buffer.addr as int, to_read as int, read.addr as int, 4)
    ensures
        files_ok(final(FILES)@),
        !(buffer.addr != 0 && known(old(FILES)@, file)) ==> !r && final(FILES)@ == old(FILES)@ && final(vp_mem).m@ == old(vp_mem).m@,
        buffer.addr != 0 && !known(old(FILES)@, file) ==> *final(LAST_ERROR) == ERROR_INVALID_HANDLE,
        buffer.addr == 0 ==> *final(LAST_ERROR) == ERROR_INVALID_HANDLE || *final(LAST_ERROR) == ERROR_INVALID_PARAMETER,
        buffer.addr != 0 && known(old(FILES)@, file) ==> ({
            let f = old(FILES)@[file.addr]; let n = least(to_read as int, f.data@.len() - f.position);
            &&& r && *final(LAST_ERROR) == ERROR_SUCCESS
            &&& moved(old(FILES)@, final(FILES)@, file.addr, f.position + n)
            &&& stored(old(vp_mem).m@, final(vp_mem).m@, buffer.addr as int, f.data@.subrange(f.position as int, f.position + n), read, le4(n as u32))
        }),
//@body-start
    proof { if known(old(FILES)@, file) { assert(file_ok(old(FILES)@[file.addr])); } }
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileSize
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    requires high.addr != 0 ==> can(*old(vp_mem), high.addr as int, 4)
    ensures final(FILES)@ == old(FILES)@,
        !known(old(FILES)@, file) ==> r == 0xFFFF_FFFF && *final(LAST_ERROR) == ERROR_INVALID_HANDLE && final(vp_mem).m@ == old(vp_mem).m@,
        known(old(FILES)@, file) ==> ({ let n = old(FILES)@[file.addr].size; r == n as int % 0x1_0000_0000 && *final(LAST_ERROR) == ERROR_SUCCESS && stored(old(vp_mem).m@, final(vp_mem).m@, 0, none(), high, le4((n as int / 0x1_0000_0000) as u32)) }),
//@body-start
    proof { if known(old(FILES)@, file) { lemma_split(old(FILES)@[file.addr].size); } }
//@end
pub proof fn lemma_split(n: u64) ensures (n & 0xFFFF_FFFF) == n as int % 0x1_0000_0000, (n >> 32) == n as int / 0x1_0000_0000
{
    assert(n & 0xFFFF_FFFF == n % 0x1_0000_0000) by (bit_vector);
    assert(n >> 32 == n / 0x1_0000_0000 && n >> 32 <= 0xFFFF_FFFF) by (bit_vector);
}
pub proof fn lemma_join(hi: i32, lo: i32) ensures ((hi as i64) << 32) | (lo as u32 as i64) == hi * 0x1_0000_0000 + (lo as u32)
{
    let l = lo as u32;
    assert(((hi as i64) << 32) | (l as i64) == add(mul(hi as i64, 0x1_0000_0000i64), l as i64)) by (bit_vector);
    assert(mul(hi as i64, 0x1_0000_0000i64) == hi * 0x1_0000_0000);
}
/// the 64-bit distance a seek is given: the low word carries the sign only without a high word
pub open spec fn distance(m: Map<int, u8>, lo: i32, hi: VpPtr<i32>) -> int { if hi.addr == 0 { lo as int } else { i32_at(m, hi.addr as int) * 0x1_0000_0000 + (lo as u32) } }
pub open spec fn origin(f: FileHandle, how: u32) -> int { if how == 0 { 0 } else if how == 1 { f.position as int } else { f.data@.len() as int } }
//@extract storm-ffi/src/lib.rs SFileSetFilePointer
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    requires files_ok(old(FILES)@), file_pos_high.addr != 0 ==> can(*old(vp_mem), file_pos_high.addr as int, 4)
    ensures
        files_ok(final(FILES)@),
        !known(old(FILES)@, file) ==> r == 0xFFFF_FFFF && *final(LAST_ERROR) == ERROR_INVALID_HANDLE && final(FILES)@ == old(FILES)@ && final(vp_mem).m@ == old(vp_mem).m@,
        known(old(FILES)@, file) ==> ({
            let f = old(FILES)@[file.addr]; let to = origin(f, move_method) + distance(old(vp_mem).m@, file_pos, file_pos_high); let p = least(to, f.data@.len() as int);
            if move_method > 2 || to < 0 { r == 0xFFFF_FFFF && *final(LAST_ERROR) == ERROR_INVALID_PARAMETER && moved(old(FILES)@, final(FILES)@, file.addr, f.position as int) && final(vp_mem).m@ == old(vp_mem).m@ }
            else { r == p % 0x1_0000_0000 && *final(LAST_ERROR) == ERROR_SUCCESS && moved(old(FILES)@, final(FILES)@, file.addr, p) && stored(old(vp_mem).m@, final(vp_mem).m@, 0, none(), file_pos_high, le4((p / 0x1_0000_0000) as u32)) }
        }),
//@body-start
    proof { if known(old(FILES)@, file) { assert(file_ok(old(FILES)@[file.addr])); } lemma_join(i32_at(vp_mem.m@, file_pos_high.addr as int), file_pos); assert forall|n: u64| true implies #[trigger] (n & 0xFFFF_FFFF) == n as int % 0x1_0000_0000 by { lemma_split(n); } assert forall|n: u64| true implies #[trigger] (n >> 32) == n as int / 0x1_0000_0000 by { lemma_split(n); } }
//@end
//@extract storm-ffi/src/lib.rs SFileCloseFile
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, LAST_ERROR: &mut u32
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    ensures r == known(old(FILES)@, file), *final(LAST_ERROR) == (if r { ERROR_SUCCESS } else { ERROR_INVALID_HANDLE }), final(FILES)@ =~= (if r { old(FILES)@.remove(file.addr) } else { old(FILES)@ }),
//@end
//@extract storm-ffi/src/lib.rs SFileCloseArchive@retain
//@opts ret=r name=vp_keep
//@params handle_id: usize
//@ptypes &usize; &mut FileHandle
//@out bool
//@spec
    ensures r == keep(*old(file), handle_id), *final(file) == *old(file)
//@end
//@extract storm-ffi/src/lib.rs SFileCloseArchive
//@opts ret=r ptrs hoist=retain:vp_keep
//@params FILES: &mut VpMap<FileHandle>, ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst .retain(vp_keep) ==> .vp_retain(handle_id)
//@spec
    ensures
        r == known(old(ARCHIVES)@, handle), *final(LAST_ERROR) == (if r { ERROR_SUCCESS } else { ERROR_INVALID_HANDLE }),
        final(ARCHIVES)@ =~= (if r { old(ARCHIVES)@.remove(handle.addr) } else { old(ARCHIVES)@ }),
        handle.addr != 0 ==> final(FILES)@ == kept(old(FILES)@, handle.addr), handle.addr == 0 ==> final(FILES)@ == old(FILES)@,
        forall|n: int| #[trigger] wf(old(FILES)@, old(ARCHIVES)@, n) ==> wf(final(FILES)@, final(ARCHIVES)@, n),
//@end
/// the value a file handle reports for an information class, and its width
pub open spec fn file_info_of(f: FileHandle, c: u32) -> Option<Seq<u8>> { if c == SFILE_INFO_FILE_SIZE { Some(le8(f.size)) } else if c == SFILE_INFO_POSITION { Some(le8(f.position as u64)) } else { None } }
pub open spec fn archive_info_of(a: ArchiveHandle, c: u32) -> Option<Seq<u8>> {
    if c == SFILE_INFO_ARCHIVE_SIZE { Some(le8(a.archive.h.vp_size)) } else if c == SFILE_INFO_HASH_TABLE_SIZE { Some(le4(a.archive.h.hash_table_size)) }
    else if c == SFILE_INFO_BLOCK_TABLE_SIZE { Some(le4(a.archive.h.block_table_size)) } else if c == SFILE_INFO_SECTOR_SIZE { Some(le4(a.archive.h.vp_sector as u32)) } else { None }
}
/// the result of an information call: the value if it fits the buffer, its width where asked for, and nothing else
pub open spec fn info_result(v: Option<Seq<u8>>, r: bool, e: u32, m: Map<int, u8>, g: Map<int, u8>, buffer: VpPtr<c_void>, buffer_size: u32, size_needed: VpPtr<u32>) -> bool {
    if v is None { !r && e == ERROR_NOT_SUPPORTED && g == m }
    else if buffer_size >= (v->0).len() { r && e == ERROR_SUCCESS && stored(m, g, buffer.addr as int, v->0, size_needed, le4((v->0).len() as u32)) }
    else { !r && e == ERROR_INSUFFICIENT_BUFFER && stored(m, g, 0, none(), size_needed, le4((v->0).len() as u32)) }
}
pub open spec fn info_pre(m: VpMem, buffer: VpPtr<c_void>, buffer_size: u32, size_needed: VpPtr<u32>) -> bool {
    (buffer.addr != 0 ==> can(m, buffer.addr as int, buffer_size as int)) && (size_needed.addr != 0 ==> can(m, size_needed.addr as int, 4)) && apart(buffer.addr as int, buffer_size as int, size_needed.addr as int, 4)
}
//@extract storm-ffi/src/lib.rs get_file_info
//@opts ret=r ptrs
//@params LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    requires info_pre(*old(vp_mem), buffer, buffer_size, size_needed), buffer.addr == 0 ==> buffer_size == 0
    ensures info_result(file_info_of(*file_handle, info_class), r, *final(LAST_ERROR), old(vp_mem).m@, final(vp_mem).m@, buffer, buffer_size, size_needed)
//@end
//@extract storm-ffi/src/lib.rs get_archive_info
//@opts ret=r ptrs
//@params LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@spec
    requires info_pre(*old(vp_mem), buffer, buffer_size, size_needed), buffer.addr == 0 ==> buffer_size == 0
    ensures info_result(archive_info_of(*archive_handle, info_class), r, *final(LAST_ERROR), old(vp_mem).m@, final(vp_mem).m@, buffer, buffer_size, size_needed)
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileInfo
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst get_file_info( ==> get_file_info(LAST_ERROR, vp_mem,
//@subst get_archive_info( ==> get_archive_info(LAST_ERROR, vp_mem,
//@spec
    requires info_pre(*old(vp_mem), buffer, buffer_size, size_needed)
    ensures final(FILES)@ == old(FILES)@, final(ARCHIVES)@ == old(ARCHIVES)@,
        buffer.addr == 0 && buffer_size > 0 ==> !r && final(vp_mem).m@ == old(vp_mem).m@,
        !known(old(FILES)@, file_or_archive) && !known(old(ARCHIVES)@, file_or_archive) ==> !r && final(vp_mem).m@ == old(vp_mem).m@ && (*final(LAST_ERROR) == ERROR_INVALID_HANDLE || (buffer.addr == 0 && buffer_size > 0 && *final(LAST_ERROR) == ERROR_INVALID_PARAMETER)),
        !(buffer.addr == 0 && buffer_size > 0) && known(old(FILES)@, file_or_archive) ==> info_result(file_info_of(old(FILES)@[file_or_archive.addr], info_class), r, *final(LAST_ERROR), old(vp_mem).m@, final(vp_mem).m@, buffer, buffer_size, size_needed),
        !(buffer.addr == 0 && buffer_size > 0) && !known(old(FILES)@, file_or_archive) && known(old(ARCHIVES)@, file_or_archive) ==> info_result(archive_info_of(old(ARCHIVES)@[file_or_archive.addr], info_class), r, *final(LAST_ERROR), old(vp_mem).m@, final(vp_mem).m@, buffer, buffer_size, size_needed),
//@end
//@extract storm-ffi/src/lib.rs SFileOpenArchive
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, ARCHIVES: &mut VpMap<ArchiveHandle>, NEXT_HANDLE: &mut VpNext, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(vp_mem, filename)
//@subst drop(next_id); ==> 
//@subst filename_str.to_string() ==> vp_to_string(filename_str)
//@spec
    requires wf(old(FILES)@, old(ARCHIVES)@, old(NEXT_HANDLE).n as int), old(NEXT_HANDLE).n < usize::MAX, handle.addr != 0 ==> can(*old(vp_mem), handle.addr as int, 8)
    ensures wf(final(FILES)@, final(ARCHIVES)@, final(NEXT_HANDLE).n as int), final(FILES)@ == old(FILES)@,
        filename.addr == 0 || handle.addr == 0 ==> !r && *final(LAST_ERROR) == ERROR_INVALID_PARAMETER,
        !r ==> final(ARCHIVES)@ == old(ARCHIVES)@ && final(vp_mem).m@ == old(vp_mem).m@ && *final(LAST_ERROR) != ERROR_SUCCESS,
        r ==> *final(LAST_ERROR) == ERROR_SUCCESS && ({ let id = old(NEXT_HANDLE).n; !old(ARCHIVES)@.dom().contains(id) && !old(FILES)@.dom().contains(id) && final(ARCHIVES)@.dom() =~= old(ARCHIVES)@.dom().insert(id)
            && (forall|k: usize| old(ARCHIVES)@.dom().contains(k) ==> #[trigger] final(ARCHIVES)@[k] == old(ARCHIVES)@[k]) && stored(old(vp_mem).m@, final(vp_mem).m@, 0, none(), handle, le8(id as u64)) }),
//@end
//@extract storm-ffi/src/lib.rs SFileOpenFileEx
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, ARCHIVES: &mut VpMap<ArchiveHandle>, NEXT_HANDLE: &mut VpNext, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(vp_mem, filename)
//@subst drop(next_id); ==> 
//@subst filename_str.to_string() ==> vp_to_string(filename_str)
//@spec
    requires wf(old(FILES)@, old(ARCHIVES)@, old(NEXT_HANDLE).n as int), old(NEXT_HANDLE).n < usize::MAX, file_handle.addr != 0 ==> can(*old(vp_mem), file_handle.addr as int, 8)
    ensures wf(final(FILES)@, final(ARCHIVES)@, final(NEXT_HANDLE).n as int),
        final(ARCHIVES)@.dom() =~= old(ARCHIVES)@.dom(), forall|k: usize| old(ARCHIVES)@.dom().contains(k) ==> same_archive(old(ARCHIVES)@[k].archive, (#[trigger] final(ARCHIVES)@[k]).archive),
        filename.addr == 0 || file_handle.addr == 0 ==> !r,
        filename.addr != 0 && file_handle.addr != 0 && !known(old(ARCHIVES)@, archive) && cstr(old(vp_mem).m@, filename.addr as int) is Some ==> !r && *final(LAST_ERROR) == ERROR_INVALID_HANDLE,
        !known(old(ARCHIVES)@, archive) ==> !r,
        !r ==> final(FILES)@ == old(FILES)@ && final(vp_mem).m@ == old(vp_mem).m@ && *final(LAST_ERROR) != ERROR_SUCCESS,
        r ==> *final(LAST_ERROR) == ERROR_SUCCESS && ({ let id = old(NEXT_HANDLE).n; let n = cstr(old(vp_mem).m@, filename.addr as int)->0; let f = final(FILES)@[id]; let a = old(ARCHIVES)@[archive.addr].archive;
            &&& !old(ARCHIVES)@.dom().contains(id) && !old(FILES)@.dom().contains(id) && final(FILES)@.dom() =~= old(FILES)@.dom().insert(id)
            &&& forall|k: usize| old(FILES)@.dom().contains(k) ==> #[trigger] final(FILES)@[k] == old(FILES)@[k]
            &&& f.archive_handle == archive.addr && f.position == 0 && content(a, n) is Ok && f.data@ == content(a, n)->Ok_0 && f.filename@ == n && located(a, n) is Ok && located(a, n)->Ok_0 is Some && f.size == located(a, n)->Ok_0->0
            &&& stored(old(vp_mem).m@, final(vp_mem).m@, 0, none(), file_handle, le8(id as u64)) }),
//@end
//@extract storm-ffi/src/lib.rs SFileHasFile
//@opts ret=r ptrs
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(vp_mem, filename)
//@spec
    ensures final(ARCHIVES)@ == old(ARCHIVES)@, final(vp_mem).m@ == old(vp_mem).m@,
        r <==> filename.addr != 0 && known(old(ARCHIVES)@, archive) && ({ let n = cstr(old(vp_mem).m@, filename.addr as int); n is Some && ({ let l = located(old(ARCHIVES)@[archive.addr].archive, n->0); l is Ok && l->Ok_0 is Some }) }),
//@end
//@extract storm-ffi/src/lib.rs SFileGetArchiveName
//@opts ret=r ptrs
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst archive_handle.path.as_str() ==> vp_as_str(&archive_handle.path)
//@spec
    requires buffer.addr != 0 ==> can(*old(vp_mem), buffer.addr as int, buffer_size as int)
    ensures final(ARCHIVES)@ == old(ARCHIVES)@, !r ==> final(vp_mem).m@ == old(vp_mem).m@ && *final(LAST_ERROR) != ERROR_SUCCESS,
        buffer.addr != 0 && buffer_size > 0 && !known(old(ARCHIVES)@, archive) ==> !r && *final(LAST_ERROR) == ERROR_INVALID_HANDLE,
        r ==> *final(LAST_ERROR) == ERROR_SUCCESS && known(old(ARCHIVES)@, archive) && ({ let n = utf8(old(ARCHIVES)@[archive.addr].path@).push(0u8); n.len() <= buffer_size && stored(old(vp_mem).m@, final(vp_mem).m@, buffer.addr as int, n, VpPtr::<u32> { addr: 0, vp: Ghost(None) }, none()) }),
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileName
//@opts ret=r ptrs
//@params FILES: &mut VpMap<FileHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst file_handle.filename.as_str() ==> vp_as_str(&file_handle.filename)
//@subst vp_copy(vp_mem, c_name, ==> vp_copy(vp_mem, c_name.b.as_slice(),
//@spec
    requires buffer.addr != 0 && known(old(FILES)@, file) ==> can(*old(vp_mem), buffer.addr as int, utf8(old(FILES)@[file.addr].filename@).len() as int + 1)
    ensures final(FILES)@ == old(FILES)@, !r ==> final(vp_mem).m@ == old(vp_mem).m@ && *final(LAST_ERROR) != ERROR_SUCCESS,
        buffer.addr != 0 && !known(old(FILES)@, file) ==> !r && *final(LAST_ERROR) == ERROR_INVALID_HANDLE,
        r ==> *final(LAST_ERROR) == ERROR_SUCCESS && known(old(FILES)@, file) && stored(old(vp_mem).m@, final(vp_mem).m@, buffer.addr as int, utf8(old(FILES)@[file.addr].filename@).push(0u8), VpPtr::<u32> { addr: 0, vp: Ghost(None) }, none()),
//@end
// ---------- extraction ----------
/// environment: the files completely written so far
pub struct VpDisk { pub log: Ghost<Seq<(Seq<char>, Seq<u8>)>>, pub vp: u8 }
#[derive(Clone, Copy)]
pub struct VpPath { pub s: &'static str }
pub fn vp_path(s: &'static str) -> (r: VpPath) ensures r.s@ == s@ { VpPath { s } }
impl VpPath { #[verifier::external_body] pub fn parent(&self) -> (r: Option<VpPath>) { unimplemented!() } }
impl VpDisk {
    #[verifier::external_body] pub fn create_dir_all(&mut self, p: VpPath) -> (r: core::result::Result<(), u8>) ensures final(self).log == old(self).log { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, p: VpPath, d: Vec<u8>) -> (r: core::result::Result<(), u8>) ensures r is Ok ==> final(self).log@ == old(self).log@.push((p.s@, d@)), r is Err ==> final(self).log == old(self).log { unimplemented!() }
}
pub open spec fn err_code(e: mopaq::Error) -> u32 { match e { mopaq::Error::FileNotFound(_) => ERROR_FILE_NOT_FOUND, mopaq::Error::Io(_) => ERROR_ACCESS_DENIED, _ => ERROR_FILE_CORRUPT } }
//@extract storm-ffi/src/lib.rs SFileExtractFile
//@opts ret=r ptrs
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem, vp_disk: &mut VpDisk
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(vp_mem, filename)
//@subst CStr::from_ptr(local_filename).to_str() ==> vp_cstr(vp_mem, local_filename)
//@subst Path::new(dest_filename) ==> vp_path(dest_filename)
//@subst std::fs:: ==> fs::
//@subst fs::create_dir_all( ==> vp_disk.create_dir_all(
//@subst fs::write( ==> vp_disk.write(
//@spec
    ensures final(vp_mem).m@ == old(vp_mem).m@, !r ==> final(vp_disk).log@ == old(vp_disk).log@ && *final(LAST_ERROR) != ERROR_SUCCESS,
        final(ARCHIVES)@.dom() =~= old(ARCHIVES)@.dom(), known(old(ARCHIVES)@, archive) ==> same_archive(old(ARCHIVES)@[archive.addr].archive, final(ARCHIVES)@[archive.addr].archive),
        filename.addr != 0 && local_filename.addr != 0 && !known(old(ARCHIVES)@, archive) ==> !r && (*final(LAST_ERROR) == ERROR_INVALID_HANDLE || *final(LAST_ERROR) == ERROR_INVALID_PARAMETER),
        r ==> *final(LAST_ERROR) == ERROR_SUCCESS && known(old(ARCHIVES)@, archive) && filename.addr != 0 && local_filename.addr != 0 && ({
            let n = cstr(old(vp_mem).m@, filename.addr as int); let d = cstr(old(vp_mem).m@, local_filename.addr as int);
            n is Some && d is Some && ({ let c = content(old(ARCHIVES)@[archive.addr].archive, n->0); c is Ok && final(vp_disk).log@ == old(vp_disk).log@.push((d->0, c->Ok_0)) }) }),
        known(old(ARCHIVES)@, archive) && filename.addr != 0 && local_filename.addr != 0 ==> ({
            let n = cstr(old(vp_mem).m@, filename.addr as int); let d = cstr(old(vp_mem).m@, local_filename.addr as int); let c = content(old(ARCHIVES)@[archive.addr].archive, n->0);
            n is Some && d is Some && c is Err ==> !r && *final(LAST_ERROR) == err_code(c->Err_0) }),
//@end
// ---------- enumeration ----------
/// environment: the calls of the callback so far: the name passed, the user data passed, the answer
pub struct VpCalls { pub log: Ghost<Seq<(Seq<u8>, int, bool)>>, pub vp: u8 }
pub struct VpCallback { pub vp: u8 }
impl VpCallback { #[verifier::external_body] pub fn call(&self, vp_calls: &mut VpCalls, name: &CString, data: VpPtr<c_void>) -> (r: bool) ensures final(vp_calls).log@ == old(vp_calls).log@.push((name.b@, data.addr as int, r)) { unimplemented!() } }
pub open spec fn star() -> Seq<char> { "*"@ }
/// environment: str::replace("*", "") and str::contains
pub uninterp spec fn has_part(n: Seq<char>, mask: Seq<char>) -> bool;
#[verifier::external_body] pub fn vp_contains(s: &String, p: &String) -> (r: bool) ensures r == has_part(s@, p@) { unimplemented!() }
#[verifier::external_body] pub fn vp_is_star(p: &String) -> (r: bool) ensures r == (p@ == star()) { unimplemented!() }
pub open spec fn matches(n: Seq<char>, mask: Seq<char>) -> bool { mask == star() || has_part(n, mask) }
/// the names among the first k that fit the mask and a C string, as the callback is to see them
pub open spec fn due(n: Seq<Seq<char>>, mask: Seq<char>, k: int) -> Seq<Seq<u8>> decreases k {
    if k <= 0 { Seq::empty() } else { let p = due(n, mask, k - 1); if matches(n[k - 1], mask) && !utf8(n[k - 1]).contains(0u8) { p.push(utf8(n[k - 1]).push(0u8)) } else { p } }
}
pub open spec fn stage(a: Seq<(Seq<u8>, int, bool)>, b: Seq<(Seq<u8>, int, bool)>, d: Seq<Seq<u8>>, data: int) -> bool {
    b.len() == a.len() + d.len() && b.take(a.len() as int) =~= a && forall|i: int| 0 <= i < d.len() ==> (#[trigger] b[a.len() + i]).0 == d[i] && b[a.len() + i].1 == data
}
pub proof fn lemma_stage(a: Seq<(Seq<u8>, int, bool)>, l: Seq<(Seq<u8>, int, bool)>, d: Seq<Seq<u8>>, data: int, x: Seq<u8>)
    requires stage(a, l, d, data) ensures forall|b: bool| stage(a, #[trigger] l.push((x, data, b)), d.push(x), data)
{
    assert forall|b: bool| stage(a, #[trigger] l.push((x, data, b)), d.push(x), data) by {
        let m = l.push((x, data, b)); let e = d.push(x);
        assert(m.take(a.len() as int) =~= l.take(a.len() as int));
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] m[a.len() + i]).0 == e[i] && m[a.len() + i].1 == data by { if i < d.len() { assert(m[a.len() + i] == l[a.len() + i]); } }
    }
}
pub open spec fn agreed(a: Seq<(Seq<u8>, int, bool)>, b: Seq<(Seq<u8>, int, bool)>, k: int) -> bool { forall|i: int| a.len() <= i < k ==> (#[trigger] b[i]).2 }
/// each due name was passed once, in order, up to the first refusal
pub open spec fn called(a: Seq<(Seq<u8>, int, bool)>, b: Seq<(Seq<u8>, int, bool)>, n: Seq<Seq<char>>, mask: Seq<char>, data: int) -> bool {
    exists|k: int| 0 <= k <= n.len() && #[trigger] stage(a, b, due(n, mask, k), data) && ((k == n.len() && agreed(a, b, b.len() as int)) || (b.len() > a.len() && !b.last().2 && agreed(a, b, b.len() - 1)))
}
//@extract storm-ffi/src/lib.rs SFileEnumFiles
//@opts ret=r ptrs while=0 drop=archives
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem, vp_calls: &mut VpCalls
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst drop(archives); ==> 
//@subst CStr::from_ptr(search_mask).to_str() ==> vp_cstr(vp_mem, search_mask)
//@subst s.to_string() ==> vp_to_string(s)
//@subst "*".to_string() ==> vp_to_string("*")
//@subst pattern == "*" || entry.name.contains(&pattern.replace("*", "")) ==> vp_is_star(&pattern) || vp_contains(&entry.name, &pattern)
//@subst CString::new(entry.name.as_str()) ==> CString::new(vp_as_str(&entry.name))
//@subst callback: Option<extern "C" fn(*const c_char, *mut c_void) -> bool> ==> callback: Option<VpCallback>
//@subst callback: Option<extern "C" fn(VpPtr<c_char>, VpPtr<c_void>) -> bool> ==> callback: Option<VpCallback>
//@subst callback_fn(c_name.as_ptr(), user_data) ==> callback_fn.call(vp_calls, &c_name, user_data)
//@spec
    ensures
        final(ARCHIVES)@.dom() =~= old(ARCHIVES)@.dom(), !r ==> final(vp_calls).log@ == old(vp_calls).log@ && *final(LAST_ERROR) != ERROR_SUCCESS, r ==> *final(LAST_ERROR) == ERROR_SUCCESS,
        r ==> callback is Some && known(old(ARCHIVES)@, archive) && (search_mask.addr != 0 ==> cstr(old(vp_mem).m@, search_mask.addr as int) is Some) && ({
            let mask = if search_mask.addr == 0 { star() } else { cstr(old(vp_mem).m@, search_mask.addr as int)->0 }; let l = names_in(old(ARCHIVES)@[archive.addr].archive);
            if l is Ok { called(old(vp_calls).log@, final(vp_calls).log@, l->Ok_0, mask, user_data.addr as int) } else { final(vp_calls).log@ == old(vp_calls).log@ } }),
        callback is Some && known(old(ARCHIVES)@, archive) && (search_mask.addr != 0 ==> cstr(old(vp_mem).m@, search_mask.addr as int) is Some) ==> r,
//@body-start
    let ghost c0 = vp_calls.log@; let ghost data = user_data.addr as int;
//@loop 0
    invariant_except_break data == user_data.addr, vp_i0 <= vp_s0@.len(), stage(c0, vp_calls.log@, due(names_of(vp_s0@), pattern@, vp_i0 as int), data), agreed(c0, vp_calls.log@, vp_calls.log@.len() as int)
    ensures called(c0, vp_calls.log@, names_of(vp_s0@), pattern@, data)
    decreases vp_s0.len() - vp_i0
//@loop-start 0
    let ghost l1 = vp_calls.log@; let ghost k1 = vp_i0 as int;
    proof { assert(names_of(vp_s0@)[k1] == vp_s0@[k1].name@); lemma_stage(c0, l1, due(names_of(vp_s0@), pattern@, k1), data, utf8(vp_s0@[k1].name@).push(0u8));
        assert(due(names_of(vp_s0@), pattern@, k1 + 1) == (if matches(vp_s0@[k1].name@, pattern@) && !utf8(vp_s0@[k1].name@).contains(0u8) { due(names_of(vp_s0@), pattern@, k1).push(utf8(vp_s0@[k1].name@).push(0u8)) } else { due(names_of(vp_s0@), pattern@, k1) })); }
//@end
fn main() {}
}
