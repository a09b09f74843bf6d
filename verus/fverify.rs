//@include inc_prelude.rs
verus! {
// ---------- environment: memory behind raw pointers ----------
#[derive(Clone, Copy)] pub struct c_void { pub vp: u8 }
pub type c_char = u8;
/// a raw pointer: an address
pub struct VpPtr<T> { pub addr: usize, pub vp: Ghost<Option<T>> }
impl<T> Clone for VpPtr<T> { fn clone(&self) -> (r: Self) ensures r.addr == self.addr { VpPtr { addr: self.addr, vp: self.vp } } }
impl<T> Copy for VpPtr<T> {}
impl<T> VpPtr<T> { pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 } }
pub type HANDLE = VpPtr<c_void>;
pub fn vp_addr<T>(p: VpPtr<T>) -> (r: usize) ensures r == p.addr { p.addr }
pub fn vp_cast<S, T>(p: VpPtr<S>) -> (r: VpPtr<T>) ensures r.addr == p.addr { VpPtr { addr: p.addr, vp: Ghost(None) } }
pub fn vp_handle(a: usize) -> (r: HANDLE) ensures r.addr == a { VpPtr { addr: a, vp: Ghost(None) } }
/// the bytes the caller handed over, by address: only these may be touched
pub struct VpMem { pub m: Ghost<Map<int, u8>> }
pub open spec fn can(m: VpMem, a: int, n: int) -> bool { forall|i: int| a <= i < a + n ==> #[trigger] m.m@.dom().contains(i) }
pub open spec fn put(m: Map<int, u8>, a: int, s: Seq<u8>) -> Map<int, u8> { Map::new(m.dom(), |k: int| if a <= k < a + s.len() { s[k - a] } else { m[k] }) }
pub open spec fn get(m: Map<int, u8>, a: int, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| m[a + i]) }
pub trait VpWord: Sized { spec fn le(self) -> Seq<u8>; }
pub open spec fn le4(v: u32) -> Seq<u8> { seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8] }
pub open spec fn le8(v: u64) -> Seq<u8> { le4((v & 0xffff_ffff) as u32) + le4((v >> 32) as u32) }
impl VpWord for u32 { open spec fn le(self) -> Seq<u8> { le4(self) } }
impl VpWord for i32 { open spec fn le(self) -> Seq<u8> { le4(self as u32) } }
impl VpWord for u64 { open spec fn le(self) -> Seq<u8> { le8(self) } }
impl VpWord for HANDLE { open spec fn le(self) -> Seq<u8> { le8(self.addr as u64) } }
#[verifier::external_body] pub fn vp_store<T: VpWord>(vp_mem: &mut VpMem, p: VpPtr<T>, v: T)
    requires p.addr != 0, can(*old(vp_mem), p.addr as int, v.le().len() as int) ensures final(vp_mem).m@ == put(old(vp_mem).m@, p.addr as int, v.le()) { unimplemented!() }
#[verifier::external_body] pub fn vp_load(vp_mem: &VpMem, p: VpPtr<i32>) -> (r: i32)
    requires p.addr != 0, can(*vp_mem, p.addr as int, 4) ensures r == i32_at(vp_mem.m@, p.addr as int) { unimplemented!() }
pub uninterp spec fn i32_at(m: Map<int, u8>, a: int) -> i32;
/// ptr::copy_nonoverlapping(src.as_ptr(), dst, n)
#[verifier::external_body] pub fn vp_copy(vp_mem: &mut VpMem, src: &[u8], dst: VpPtr<u8>, n: usize)
    requires n <= src@.len(), can(*old(vp_mem), dst.addr as int, n as int) ensures final(vp_mem).m@ == put(old(vp_mem).m@, dst.addr as int, src@.take(n as int)) { unimplemented!() }
/// CStr::from_ptr(p).to_str()
pub uninterp spec fn cstr(m: Map<int, u8>, a: int) -> Option<Seq<char>>;
#[verifier::external_body] pub fn vp_cstr(vp_mem: &VpMem, p: VpPtr<c_char>) -> (r: core::result::Result<&'static str, u8>)
    requires p.addr != 0 ensures r is Ok == cstr(vp_mem.m@, p.addr as int) is Some, r is Ok ==> r->Ok_0@ == cstr(vp_mem.m@, p.addr as int)->0 { unimplemented!() }
#[verifier::external_body] pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// CString::new(s).as_bytes_with_nul(): fails on an inner NUL
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub struct CString { pub b: Vec<u8> }
impl CString {
    #[verifier::external_body] pub fn new(s: &str) -> (r: core::result::Result<CString, u8>) ensures r is Ok == !utf8(s@).contains(0u8), r is Ok ==> r->Ok_0.b@ == utf8(s@).push(0u8) { unimplemented!() }
    pub fn as_bytes_with_nul(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
}
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
// ---------- environment: the global tables behind their mutexes ----------
/// Mutex<HashMap<usize, V>>, one thread, never poisoned (no call panics)
pub struct VpMap<V> { pub m: Ghost<Map<usize, V>>, pub vp: u8 }
impl<V> VpMap<V> {
    pub open spec fn view(self) -> Map<usize, V> { self.m@ }
    #[verifier::external_body] pub fn lock(&mut self) -> (r: core::result::Result<&mut VpMap<V>, u8>) ensures r is Ok, (r->Ok_0)@ == old(self)@, final(self)@ == final(r->Ok_0)@ { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &usize) -> (r: Option<&mut V>)
        ensures r is Some == old(self)@.dom().contains(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<V>) ensures r is Some == old(self)@.dom().contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
// ---------- environment: the library (other units) ----------
pub mod mopaq {
    pub enum Error { ChecksumMismatch { vp: u8 }, Other }
    pub mod archive { pub enum SignatureStatus { None, WeakValid, WeakInvalid, StrongValid, StrongInvalid, StrongNoKey } }
}
use mopaq::archive::SignatureStatus;
type MResult<T> = core::result::Result<T, mopaq::Error>;
pub struct FileInfo { pub file_size: u64, pub block_index: usize, pub vp_crc: bool }
impl FileInfo { pub fn has_sector_crc(&self) -> (r: bool) ensures r == self.vp_crc { self.vp_crc } }
pub struct FileEntry { pub name: String, pub vp_crc: bool }
impl FileEntry { pub fn has_sector_crc(&self) -> (r: bool) ensures r == self.vp_crc { self.vp_crc } }
pub struct FileAttributes { pub crc32: Option<u32>, pub md5: Option<[u8; 16]> }
pub struct Archive { pub vp: Ghost<int> }
/// what the library says of the archive: where a name is (None: not there; the outer None: an error), what reading it returns, what the attributes record per block, whether the signature may pass, the names listed
pub uninterp spec fn located(a: Archive, n: Seq<char>) -> Option<Option<FileInfo>>;
pub uninterp spec fn content(a: Archive, n: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn recorded(a: Archive, i: usize) -> Option<FileAttributes>;
pub uninterp spec fn signature(a: Archive) -> Option<SignatureStatus>;
pub uninterp spec fn listed(a: Archive) -> Option<Seq<FileEntry>>;
pub uninterp spec fn enumerated(a: Archive) -> Option<Seq<FileEntry>>;
pub uninterp spec fn attributes_loaded(a: Archive) -> bool;
pub open spec fn same_archive(a: Archive, b: Archive) -> bool {
    &&& forall|n: Seq<char>| #[trigger] located(b, n) == located(a, n)
    &&& forall|n: Seq<char>| #[trigger] content(b, n) == content(a, n)
    &&& forall|i: usize| #[trigger] recorded(b, i) == recorded(a, i)
    &&& signature(b) == signature(a) && listed(b) == listed(a) && enumerated(b) == enumerated(a)
    &&& (attributes_loaded(a) ==> attributes_loaded(b))
}
impl Archive {
    #[verifier::external_body] pub fn find_file(&self, filename: &str) -> (r: MResult<Option<FileInfo>>) ensures r is Ok == located(*self, filename@) is Some, r is Ok ==> r->Ok_0 == located(*self, filename@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn read_file(&mut self, name: &str) -> (r: MResult<Vec<u8>>) ensures same_archive(*old(self), *final(self)), r is Ok == content(*old(self), name@) is Some, r is Ok ==> r->Ok_0@ == content(*old(self), name@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn list(&mut self) -> (r: MResult<Vec<FileEntry>>) ensures same_archive(*old(self), *final(self)), r is Ok == listed(*old(self)) is Some, r is Ok ==> r->Ok_0@ == listed(*old(self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn list_all(&mut self) -> (r: MResult<Vec<FileEntry>>) ensures same_archive(*old(self), *final(self)), r is Ok == enumerated(*old(self)) is Some, r is Ok ==> r->Ok_0@ == enumerated(*old(self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn load_attributes(&mut self) -> (r: MResult<()>) ensures same_archive(*old(self), *final(self)), attributes_loaded(*final(self)) { unimplemented!() }
    /// without the attributes loaded nothing is known to be recorded
    #[verifier::external_body] pub fn get_file_attributes(&self, i: usize) -> (r: Option<FileAttributes>) ensures attributes_loaded(*self) ==> r == recorded(*self, i) { unimplemented!() }
    #[verifier::external_body] pub fn verify_signature(&mut self) -> (r: MResult<SignatureStatus>) ensures same_archive(*old(self), *final(self)), r is Ok == signature(*old(self)) is Some, r is Ok ==> r->Ok_0 == signature(*old(self))->0 { unimplemented!() }
}
/// crc32fast::hash and Md5 (update, finalize)
pub uninterp spec fn crc(d: Seq<u8>) -> u32;
pub uninterp spec fn md5(d: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn vp_crc(d: &Vec<u8>) -> (r: u32) ensures r == crc(d@) { unimplemented!() }
#[verifier::external_body] pub fn vp_md5(d: &Vec<u8>) -> (r: [u8; 16]) ensures r@ == md5(d@) { unimplemented!() }
pub fn vp_md5_eq(a: &[u8; 16], b: &[u8; 16]) -> (r: bool) ensures r == (a@ == b@) { vp_slice_eq(a.as_slice(), b.as_slice()) }
#[verifier::external_body] pub fn vp_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn vp_ends(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { unimplemented!() }
/// the C string stays allocated while it is used: its bytes are part of the memory
#[verifier::external_body] pub fn vp_as_ptr(vp_mem: &VpMem, s: &CString) -> (r: VpPtr<c_char>) ensures r.addr != 0, forall|n: Seq<char>| s.b@ == #[trigger] utf8(n).push(0u8) ==> cstr(vp_mem.m@, r.addr as int) == Some(n) { unimplemented!() }
//@extract storm-ffi/src/lib.rs struct:ArchiveHandle
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_SUCCESS
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_NOT_FOUND
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_HANDLE
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_PARAMETER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_CORRUPT
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_SECTOR_CRC
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_FILE_CRC
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_FILE_MD5
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_SIGNATURE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_ALL_FILES
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_ALL
//@end
// ---------- specification ----------
pub open spec fn known<V>(f: Map<usize, V>, h: HANDLE) -> bool { h.addr != 0 && f.dom().contains(h.addr) }
/// the tables are the same, up to what the library caches in the archive h
pub open spec fn same_tables(f: Map<usize, ArchiveHandle>, g: Map<usize, ArchiveHandle>, h: usize) -> bool {
    g.dom() =~= f.dom() && (forall|k: usize| k != h && f.dom().contains(k) ==> #[trigger] g[k] == f[k]) && (f.dom().contains(h) ==> same_archive(f[h].archive, g[h].archive) && g[h].path@ == f[h].path@)
}
/// which checks apply: 1 reading with the sector checksums, 2 the recorded CRC-32, 4 the recorded MD5; no bits at all ask for every check
pub open spec fn asked(flags: u32, bit: u32) -> bool { flags == 0 || flags & bit != 0 }
pub open spec fn recorded_crc(a: Archive, i: usize) -> Option<u32> { if recorded(a, i) is Some { recorded(a, i)->0.crc32 } else { None } }
pub open spec fn recorded_md5(a: Archive, i: usize) -> Option<[u8; 16]> { if recorded(a, i) is Some { recorded(a, i)->0.md5 } else { None } }
/// every check asked for that the archive has data for passes
pub open spec fn intact(a: Archive, n: Seq<char>, i: FileInfo, flags: u32) -> bool {
    let c = content(a, n);
    &&& (asked(flags, 1) && i.vp_crc ==> c is Some)
    &&& (asked(flags, 2) && recorded_crc(a, i.block_index) is Some ==> c is Some && crc(c->0) == recorded_crc(a, i.block_index)->0)
    &&& (asked(flags, 4) && recorded_md5(a, i.block_index) is Some ==> c is Some && md5(c->0) == recorded_md5(a, i.block_index)->0@)
}
/// the verdict on one name, as an error code (0: good)
pub open spec fn verdict(a: Archive, n: Seq<char>, flags: u32) -> u32 {
    let l = located(a, n);
    if l is None { ERROR_FILE_CORRUPT } else if l->0 is None { ERROR_FILE_NOT_FOUND } else if intact(a, n, l->0->0, flags) { ERROR_SUCCESS } else { ERROR_FILE_CORRUPT }
}
pub open spec fn last_is(n: Seq<char>, c: char) -> bool { n.len() > 0 && n.last() == c }
/// the files a whole-archive verification visits
pub open spec fn visited(n: Seq<char>) -> bool { !(n.len() > 0 && n[0] == '(' && last_is(n, ')')) && !last_is(n, '/') && !last_is(n, '\\') && !utf8(n).contains(0u8) }
pub open spec fn flags_of(e: FileEntry) -> u32 { if e.vp_crc { 7 } else { 6 } }
pub open spec fn damaged(a: Archive, e: FileEntry) -> bool { visited(e.name@) && verdict(a, e.name@, flags_of(e)) == ERROR_FILE_CORRUPT }
pub open spec fn names_of(a: Archive) -> Option<Seq<FileEntry>> { if listed(a) is Some { listed(a) } else { enumerated(a) } }
pub open spec fn signature_passes(a: Archive) -> bool { let s = signature(a); s is Some && s->0 != SignatureStatus::WeakInvalid && s->0 != SignatureStatus::StrongInvalid }
pub open spec fn all_pass(a: Archive) -> bool { names_of(a) is Some && forall|k: int| 0 <= k < names_of(a)->0.len() ==> !damaged(a, #[trigger] names_of(a)->0[k]) }
/// the verdict on a whole archive: flags 0 ask for the signature; 0x10 signature, 0x20 all files
pub open spec fn archive_passes(a: Archive, flags: u32) -> bool {
    &&& (flags == 0 || flags & 0x10 != 0 ==> signature_passes(a))
    &&& (flags & 0x20 != 0 ==> all_pass(a))
}

//@extract storm-ffi/src/lib.rs set_last_error
//@params LAST_ERROR: &mut u32
//@subst LAST_ERROR.with(|e| *e.borrow_mut() = error) ==> *LAST_ERROR = error
//@spec
    ensures *final(LAST_ERROR) == error
//@end
//@extract storm-ffi/src/lib.rs SFileGetLastError
//@opts ret=r
//@params LAST_ERROR: &mut u32
//@subst LAST_ERROR.with(|e| *e.borrow()) ==> *LAST_ERROR
//@spec
    ensures r == *old(LAST_ERROR), *final(LAST_ERROR) == *old(LAST_ERROR)
//@end
//@extract storm-ffi/src/lib.rs handle_to_id
//@opts ret=r ptrs
//@spec
    ensures r == (if handle.addr == 0 { None } else { Some(handle.addr) })
//@end
//@extract storm-ffi/src/lib.rs SFileVerifyFile
//@opts ret=r ptrs
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(vp_mem, filename)
//@subst crc32fast::hash(&data) ==> vp_crc(&data)
//@subst use md5::{Digest, Md5}; ==> 
//@subst let mut hasher = Md5::new(); ==> 
//@subst hasher.update(&data); ==> 
//@subst hasher.finalize().into() ==> vp_md5(&data)
//@subst actual_md5 != expected_md5 ==> !vp_md5_eq(&actual_md5, &expected_md5)
//@spec
    ensures final(vp_mem).m@ == old(vp_mem).m@, same_tables(old(ARCHIVES)@, final(ARCHIVES)@, archive.addr), r == (*final(LAST_ERROR) == ERROR_SUCCESS),
        filename.addr != 0 && !known(old(ARCHIVES)@, archive) ==> !r && (archive.addr == 0 ==> *final(LAST_ERROR) == ERROR_INVALID_HANDLE) && (*final(LAST_ERROR) == ERROR_INVALID_HANDLE || *final(LAST_ERROR) == ERROR_INVALID_PARAMETER),
        filename.addr == 0 ==> !r,
        filename.addr != 0 && known(old(ARCHIVES)@, archive) ==> ({
            let n = cstr(old(vp_mem).m@, filename.addr as int); let a = old(ARCHIVES)@[archive.addr].archive;
            *final(LAST_ERROR) == (if n is None { ERROR_INVALID_PARAMETER } else { verdict(a, n->0, flags) })
        }),
//@body-start
    proof { lemma_bits(flags); }
//@end
pub proof fn lemma_bits(f: u32) ensures 0xFFu32 & 1 != 0, 0xFFu32 & 2 != 0, 0xFFu32 & 4 != 0, 0x10u32 & 0x10 != 0, 0x10u32 & 0x20 == 0, 0u32 & 0x20 == 0, 1u32 | 2 | 4 == 7, 0u32 | 2 | 4 == 6
{
    assert(0xFFu32 & 1 != 0 && 0xFFu32 & 2 != 0 && 0xFFu32 & 4 != 0 && 0x10u32 & 0x10 != 0 && 0x10u32 & 0x20 == 0 && 0u32 & 0x20 == 0 && 1u32 | 2 | 4 == 7 && 0u32 | 2 | 4 == 6) by (bit_vector);
}
#[verifier::loop_isolation(false)]
//@extract storm-ffi/src/lib.rs SFileVerifyArchive
//@opts ret=r ptrs while=0 drop=archives
//@params ARCHIVES: &mut VpMap<ArchiveHandle>, LAST_ERROR: &mut u32, vp_mem: &mut VpMem
//@subst set_last_error( ==> set_last_error(LAST_ERROR,
//@subst SFileGetLastError() ==> SFileGetLastError(LAST_ERROR)
//@subst drop(archives); ==> 
//@subst file_entry.name.starts_with( ==> vp_starts(&file_entry.name,
//@subst file_entry.name.ends_with( ==> vp_ends(&file_entry.name,
//@subst std::ffi::CString::new(file_entry.name.as_str()) ==> CString::new(vp_as_str(&file_entry.name))
//@subst SFileVerifyFile(archive, filename_cstr.as_ptr(), ==> SFileVerifyFile(ARCHIVES, LAST_ERROR, vp_mem, archive, vp_as_ptr(vp_mem, &filename_cstr),
//@spec
    ensures final(vp_mem).m@ == old(vp_mem).m@, same_tables(old(ARCHIVES)@, final(ARCHIVES)@, archive.addr),
        !known(old(ARCHIVES)@, archive) ==> !r && *final(LAST_ERROR) == ERROR_INVALID_HANDLE,
        known(old(ARCHIVES)@, archive) ==> r == archive_passes(old(ARCHIVES)@[archive.addr].archive, flags) && *final(LAST_ERROR) == (if r { ERROR_SUCCESS } else { ERROR_FILE_CORRUPT }),
//@body-start
    proof { lemma_bits(flags); }
//@loop 0
    invariant vp_i0 <= vp_s0.len(), vp_mem.m@ == old(vp_mem).m@, same_tables(old(ARCHIVES)@, ARCHIVES@, archive.addr), known(old(ARCHIVES)@, archive),
        names_of(old(ARCHIVES)@[archive.addr].archive) == Some(vp_s0@),
        forall|k: int| 0 <= k < vp_i0 ==> !damaged(old(ARCHIVES)@[archive.addr].archive, #[trigger] vp_s0@[k])
    decreases vp_s0.len() - vp_i0
//@end
}
fn main() {}
