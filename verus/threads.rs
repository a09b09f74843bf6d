//@include inc_prelude.rs
verus! {
// ---------- environment: raw pointers and strings (memory is the subject of unit ffi) ----------
#[derive(Clone, Copy)] pub struct c_void { pub vp: u8 }
pub type c_char = u8;
pub struct VpPtr<T> { pub addr: usize, pub vp: Ghost<Option<T>> }
impl<T> Clone for VpPtr<T> { fn clone(&self) -> (r: Self) ensures r.addr == self.addr { VpPtr { addr: self.addr, vp: self.vp } } }
impl<T> Copy for VpPtr<T> {}
impl<T> VpPtr<T> { pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 } }
pub type HANDLE = VpPtr<c_void>;
pub fn vp_addr<T>(p: VpPtr<T>) -> (r: usize) ensures r == p.addr { p.addr }
pub fn vp_cast<S, T>(p: VpPtr<S>) -> (r: VpPtr<T>) ensures r.addr == p.addr { VpPtr { addr: p.addr, vp: Ghost(None) } }
pub fn vp_handle(a: usize) -> (r: HANDLE) ensures r.addr == a { VpPtr { addr: a, vp: Ghost(None) } }
pub struct VpMem { pub vp: u8 }
#[verifier::external_body] pub fn vp_store<T>(vp_mem: &mut VpMem, p: VpPtr<T>, v: T) { unimplemented!() }
#[verifier::external_body] pub fn vp_load(vp_mem: &VpMem, p: VpPtr<i32>) -> (r: i32) { unimplemented!() }
#[verifier::external_body] pub fn vp_copy(vp_mem: &mut VpMem, src: &[u8], dst: VpPtr<u8>, n: usize) { unimplemented!() }
#[verifier::external_body] pub fn vp_cstr(p: VpPtr<c_char>) -> (r: core::result::Result<&'static str, u8>) { unimplemented!() }
#[verifier::external_body] pub fn vp_to_string(s: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) { unimplemented!() }
#[verifier::external_body] pub fn vp_contains(s: &String, p: &String) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vp_is_star(p: &String) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vp_starts(s: &String, c: char) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vp_ends(s: &String, c: char) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vp_path_exists(s: &str) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vp_digest_eq(a: &Vec<u8>, e: u32) -> (r: bool) { unimplemented!() }
pub struct CString { pub b: Vec<u8> }
impl CString {
    #[verifier::external_body] pub fn new(s: &str) -> (r: core::result::Result<CString, u8>) { unimplemented!() }
    pub fn as_bytes_with_nul(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
    #[verifier::external_body] pub fn as_ptr(&self) -> (r: VpPtr<c_char>) { unimplemented!() }
}
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64) ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
// ---------- environment: the library (any result; that it returns and does not panic is C16) ----------
pub mod mopaq {
    pub enum Error { FileNotFound(u8), InvalidFormat(u8), Io(u8), ChecksumMismatch { vp: u8 }, Other }
    pub mod archive { pub enum SignatureStatus { None, WeakValid, WeakInvalid, StrongValid, StrongInvalid, StrongNoKey } }
}
pub struct MpqHeader { pub hash_table_size: u32, pub block_table_size: u32, pub vp_size: u64, pub vp_sector: usize }
impl MpqHeader {
    pub fn get_archive_size(&self) -> (r: u64) { self.vp_size }
    pub fn sector_size(&self) -> (r: usize) { self.vp_sector }
}
pub struct FileInfo { pub file_size: u64, pub block_index: usize, pub vp_crc: bool }
impl FileInfo { pub fn has_sector_crc(&self) -> (r: bool) { self.vp_crc } }
pub struct FileEntry { pub name: String, pub vp_crc: bool }
impl FileEntry { pub fn has_sector_crc(&self) -> (r: bool) { self.vp_crc } }
pub struct FileAttributes { pub crc32: Option<u32>, pub md5: Option<[u8; 16]> }
pub struct Archive { pub vp: Ghost<int>, pub h: MpqHeader }
type MResult<T> = core::result::Result<T, mopaq::Error>;
impl Archive {
    #[verifier::external_body] pub fn open(p: &str) -> (r: MResult<Archive>) { unimplemented!() }
    pub fn header(&self) -> (r: &MpqHeader) { &self.h }
    #[verifier::external_body] pub fn find_file(&self, filename: &str) -> (r: MResult<Option<FileInfo>>) { unimplemented!() }
    #[verifier::external_body] pub fn read_file(&mut self, name: &str) -> (r: MResult<Vec<u8>>) ensures r is Ok ==> len_ok(r->Ok_0@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn list(&mut self) -> (r: MResult<Vec<FileEntry>>) { unimplemented!() }
    #[verifier::external_body] pub fn list_all(&mut self) -> (r: MResult<Vec<FileEntry>>) { unimplemented!() }
    #[verifier::external_body] pub fn load_attributes(&mut self) -> (r: MResult<()>) { unimplemented!() }
    #[verifier::external_body] pub fn get_file_attributes(&self, i: usize) -> (r: Option<FileAttributes>) { unimplemented!() }
    #[verifier::external_body] pub fn verify_signature(&mut self) -> (r: MResult<mopaq::archive::SignatureStatus>) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_build(p: &str) -> (r: MResult<()>) { unimplemented!() }
pub fn vp_is_power_of_two(n: u32) -> (r: bool) { n != 0 && (n & (n - 1) as u32) == 0 }
#[verifier::external_body] pub fn vp_crc(d: &Vec<u8>) -> (r: u32) { unimplemented!() }
#[verifier::external_body] pub fn vp_md5(d: &Vec<u8>) -> (r: [u8; 16]) { unimplemented!() }
pub fn vp_md5_eq(a: &[u8; 16], b: &[u8; 16]) -> (r: bool) { vp_slice_eq(a.as_slice(), b.as_slice()) }
pub fn set_last_error(error: u32) {}
#[verifier::external_body] pub fn SFileGetLastError() -> (r: u32) { unimplemented!() }
/// fs::create_dir_all(parent of p) and fs::write(p, data)
pub struct Path { pub vp: u8 }
impl Path {
    #[verifier::external_body] pub fn new(s: &str) -> (r: &'static Path) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&'static Path>) { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) { unimplemented!() }
}
pub mod fs {
    use super::*;
    #[verifier::external_body] pub fn create_dir_all(p: &Path) -> (r: core::result::Result<(), u8>) { unimplemented!() }
    #[verifier::external_body] pub fn write(p: &Path, d: Vec<u8>) -> (r: core::result::Result<(), u8>) { unimplemented!() }
}
//@extract storm-ffi/src/lib.rs struct:ArchiveHandle
//@end
//@extract storm-ffi/src/lib.rs struct:FileHandle
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_SUCCESS
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_NOT_FOUND
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_ACCESS_DENIED
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_HANDLE
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_PARAMETER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INSUFFICIENT_BUFFER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_CORRUPT
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_NOT_SUPPORTED
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_ARCHIVE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_HASH_TABLE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_BLOCK_TABLE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_SECTOR_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_FILE_SIZE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_INFO_POSITION
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_SECTOR_CRC
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_FILE_CRC
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_FILE_MD5
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_SIGNATURE
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_ALL_FILES
//@end
//@extract storm-ffi/src/lib.rs const:SFILE_VERIFY_ALL
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_ALREADY_EXISTS
//@end
//@extract storm-ffi/src/lib.rs const:CREATE_NEW
//@end
//@extract storm-ffi/src/lib.rs const:CREATE_ALWAYS
//@end
//@extract storm-ffi/src/lib.rs const:OPEN_EXISTING
//@end
//@extract storm-ffi/src/lib.rs const:OPEN_ALWAYS
//@end
//@extract storm-ffi/src/lib.rs const:TRUNCATE_EXISTING
//@end
// ---------- specification: the lock protocol ----------
// A = ARCHIVES, F = FILES, N = NEXT_HANDLE.  Order A < F; nothing is acquired while N is held.
// What a lock protects (assumed when it is taken, proved when it is given back, so it holds whatever the other threads do in between):
//   F: every position is inside its file;   N: the counter only grows;
//   keys: a table only gains keys that this thread drew from the counter and has not used, so handles are never shared, reused or of two kinds;
//   A with F: every open file belongs to an open archive: a file may be added only while A is held (others then cannot close the archive), and A is
//   given back only with every archive that still has files in it.
/// the thread's view of the protocol
pub struct VpT {
    pub ha: Ghost<bool>, pub hf: Ghost<bool>, pub hn: Ghost<bool>,
    /// the tables as they were when their lock was taken
    pub a0: Ghost<Map<usize, ArchiveHandle>>, pub f0: Ghost<Map<usize, FileHandle>>, pub n0: Ghost<usize>,
    /// numbers drawn from the counter by this thread and not yet used
    pub mine: Ghost<ISet<usize>>,
    /// while A is held: the archives that may have open files
    pub busy: Ghost<ISet<usize>>,
    /// in this call: a table lock was given back; something was changed; A, F were taken
    pub rel: Ghost<bool>, pub chg: Ghost<bool>, pub ta: Ghost<bool>, pub tf: Ghost<bool>,
    /// a table lock was taken after one had been given back
    pub multi: Ghost<bool>,
}
pub open spec fn idle(t: VpT) -> bool { !t.ha@ && !t.hf@ && !t.hn@ }
pub open spec fn file_ok(f: FileHandle) -> bool { f.position <= f.data@.len() && len_ok(f.data@.len() as int) }
pub open spec fn files_ok(f: Map<usize, FileHandle>) -> bool { forall|k: usize| #[trigger] f.dom().contains(k) ==> file_ok(f[k]) }
/// the start of a call
pub fn vp_begin(t: &mut VpT) requires idle(*old(t)) ensures idle(*final(t)), final(t).mine == old(t).mine, !final(t).rel@, !final(t).chg@, !final(t).multi@, !final(t).ta@, !final(t).tf@
{ t.rel = Ghost(false); t.multi = Ghost(false); t.chg = Ghost(false); t.ta = Ghost(false); t.tf = Ghost(false); }
/// a guard of a table lock
pub struct VpGuard<V> { pub m: Ghost<Map<usize, V>> }
impl<V> VpGuard<V> {
    pub open spec fn view(self) -> Map<usize, V> { self.m@ }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &usize) -> (r: Option<&mut V>)
        ensures r is Some == old(self)@.dom().contains(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<V>) ensures r is Some == old(self)@.dom().contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    /// a fresh handle never replaces an entry
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) requires !old(self)@.dom().contains(k) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl VpGuard<FileHandle> {
    /// HashMap::retain with the function vp_keep (its contract is proved below)
    #[verifier::external_body] pub fn vp_retain(&mut self, handle_id: usize) ensures final(self)@ == kept(old(self)@, handle_id) { unimplemented!() }
}
pub open spec fn kept(f: Map<usize, FileHandle>, a: usize) -> Map<usize, FileHandle> { Map::new(f.dom().filter(|k: usize| keep(f[k], a)), |k: usize| f[k]) }
pub open spec fn keep(f: FileHandle, a: usize) -> bool { f.archive_handle != a }
pub struct VpNext { pub vp_val: usize }
/// what a lock operation leaves alone
pub open spec fn same_but_a(t: VpT, u: VpT) -> bool { u.hf == t.hf && u.hn == t.hn && u.f0 == t.f0 && u.n0 == t.n0 && u.tf == t.tf }
pub open spec fn same_but_f(t: VpT, u: VpT) -> bool { u.ha == t.ha && u.hn == t.hn && u.a0 == t.a0 && u.n0 == t.n0 && u.ta == t.ta }
pub open spec fn new_keys<V>(a: Map<usize, V>, b: Map<usize, V>) -> ISet<usize> { ISet::new(|k: usize| b.dom().contains(k) && !a.dom().contains(k)) }
/// busy archives are in the table; numbers of one's own are in none
pub open spec fn open(s: ISet<usize>, a: Map<usize, ArchiveHandle>) -> bool { forall|k: usize| #[trigger] s.contains(k) ==> a.dom().contains(k) }
pub open spec fn unused<V>(s: ISet<usize>, a: Map<usize, V>) -> bool { forall|k: usize| #![trigger s.contains(k)] #![trigger a.dom().contains(k)] s.contains(k) ==> !a.dom().contains(k) }
/// two-phase: all locks are taken before the first is given back, so that the call is one step to the others; a call that takes a lock later only looks.
/// A table is taken once per call.
pub open spec fn may_take(t: VpT) -> bool { t.rel@ ==> !t.chg@ }
pub open spec fn took(t: VpT, u: VpT) -> bool { u.multi@ == (t.multi@ || t.rel@) && u.rel == t.rel && u.chg == t.chg && u.mine == t.mine }
#[verifier::external_body] pub fn vp_lock_ARCHIVES(t: &mut VpT) -> (g: VpGuard<ArchiveHandle>)
    requires !old(t).ha@, !old(t).hf@, !old(t).hn@, !old(t).ta@, may_take(*old(t))
    ensures final(t).ha@, final(t).ta@, final(t).a0@ == g@, took(*old(t), *final(t)), same_but_a(*old(t), *final(t)),
        open(final(t).busy@, g@), unused(final(t).mine@, g@) { unimplemented!() }
pub open spec fn give_a(t: VpT, g: Map<usize, ArchiveHandle>) -> bool { t.ha@ && new_keys(t.a0@, g).subset_of(t.mine@) && open(t.busy@, g) && (t.multi@ ==> g == t.a0@) }
pub open spec fn gave_a(t: VpT, u: VpT, g: Map<usize, ArchiveHandle>) -> bool {
    !u.ha@ && u.rel@ && u.chg@ == (t.chg@ || g != t.a0@) && u.multi == t.multi && u.ta == t.ta && u.mine@ == t.mine@.difference(new_keys(t.a0@, g)) && same_but_a(t, u)
}
#[verifier::external_body] pub fn vp_end_ARCHIVES(t: &mut VpT, g: &VpGuard<ArchiveHandle>) requires old(t).ha@ ==> give_a(*old(t), g@)
    ensures !old(t).ha@ ==> *final(t) == *old(t), old(t).ha@ ==> gave_a(*old(t), *final(t), g@) { unimplemented!() }
pub fn vp_drop_ARCHIVES(t: &mut VpT, g: &VpGuard<ArchiveHandle>) requires give_a(*old(t), g@) ensures gave_a(*old(t), *final(t), g@) { vp_end_ARCHIVES(t, g) }
#[verifier::external_body] pub fn vp_lock_FILES(t: &mut VpT) -> (g: VpGuard<FileHandle>)
    requires !old(t).hf@, !old(t).hn@, !old(t).tf@, may_take(*old(t))
    ensures final(t).hf@, final(t).tf@, final(t).f0@ == g@, took(*old(t), *final(t)), same_but_f(*old(t), *final(t)), final(t).busy == old(t).busy,
        files_ok(g@), unused(final(t).mine@, g@), old(t).ha@ ==> owned_by(g@, final(t).busy@) { unimplemented!() }
/// every file's archive is in s
pub open spec fn owned_by(f: Map<usize, FileHandle>, s: ISet<usize>) -> bool { forall|k: usize| #[trigger] f.dom().contains(k) ==> s.contains(f[k].archive_handle) }
pub open spec fn owners(f: Map<usize, FileHandle>) -> ISet<usize> { ISet::new(|a: usize| exists|k: usize| #[trigger] f.dom().contains(k) && f[k].archive_handle == a) }
pub open spec fn give_f(t: VpT, g: Map<usize, FileHandle>) -> bool {
    t.hf@ && files_ok(g) && new_keys(t.f0@, g).subset_of(t.mine@) && (t.multi@ ==> g == t.f0@) && (!t.ha@ ==> owned_by(g, owners(t.f0@)))
}
pub open spec fn gave_f(t: VpT, u: VpT, g: Map<usize, FileHandle>) -> bool {
    !u.hf@ && u.rel@ && u.chg@ == (t.chg@ || g != t.f0@) && u.multi == t.multi && u.tf == t.tf && u.mine@ == t.mine@.difference(new_keys(t.f0@, g)) && same_but_f(t, u) && (t.ha@ ==> u.busy@ == owners(g))
}
#[verifier::external_body] pub fn vp_end_FILES(t: &mut VpT, g: &VpGuard<FileHandle>) requires old(t).hf@ ==> give_f(*old(t), g@)
    ensures !old(t).hf@ ==> *final(t) == *old(t), old(t).hf@ ==> gave_f(*old(t), *final(t), g@) { unimplemented!() }
pub fn vp_drop_FILES(t: &mut VpT, g: &VpGuard<FileHandle>) requires give_f(*old(t), g@) ensures gave_f(*old(t), *final(t), g@) { vp_end_FILES(t, g) }
pub open spec fn same_but_n(t: VpT, u: VpT) -> bool { u.ha == t.ha && u.hf == t.hf && u.a0 == t.a0 && u.f0 == t.f0 && u.busy == t.busy && u.rel == t.rel && u.chg == t.chg && u.multi == t.multi && u.ta == t.ta && u.tf == t.tf }
/// the counter never reaches its maximum (2^64 handles)
#[verifier::external_body] pub fn vp_lock_NEXT_HANDLE(t: &mut VpT) -> (g: VpNext) requires !old(t).hn@
    ensures final(t).hn@, final(t).n0@ == g.vp_val, 0 < g.vp_val < usize::MAX, final(t).mine == old(t).mine, same_but_n(*old(t), *final(t)), forall|k: usize| #[trigger] final(t).mine@.contains(k) ==> k < g.vp_val,
        old(t).ha@ ==> (forall|k: usize| #[trigger] final(t).a0@.dom().contains(k) ==> k < g.vp_val), old(t).hf@ ==> (forall|k: usize| #[trigger] final(t).f0@.dom().contains(k) ==> k < g.vp_val) { unimplemented!() }
pub open spec fn give_n(t: VpT, g: VpNext) -> bool { t.hn@ && g.vp_val >= t.n0@ }
pub open spec fn gave_n(t: VpT, u: VpT, g: VpNext) -> bool { !u.hn@ && same_but_n(t, u) && u.mine@ == t.mine@.union(ISet::new(|k: usize| t.n0@ <= k < g.vp_val)) }
#[verifier::external_body] pub fn vp_end_NEXT_HANDLE(t: &mut VpT, g: &VpNext) requires old(t).hn@ ==> give_n(*old(t), *g)
    ensures !old(t).hn@ ==> *final(t) == *old(t), old(t).hn@ ==> gave_n(*old(t), *final(t), *g) { unimplemented!() }
pub fn vp_drop_NEXT_HANDLE(t: &mut VpT, g: &VpNext) requires give_n(*old(t), *g) ensures gave_n(*old(t), *final(t), *g) { vp_end_NEXT_HANDLE(t, g) }
/// a callback of the caller may use the API: no lock may be held
pub struct VpCallback { pub vp: u8 }
impl VpCallback { #[verifier::external_body] pub fn call(&self, t: &mut VpT, name: VpPtr<c_char>, data: VpPtr<c_void>) -> (r: bool) requires idle(*old(t)) ensures idle(*final(t)) { unimplemented!() } }

//@extract storm-ffi/src/lib.rs handle_to_id
//@opts ret=r ptrs
//@spec
    ensures r == (if handle.addr == 0 { None } else { Some(handle.addr) })
//@end
//@extract storm-ffi/src/lib.rs id_to_handle
//@opts ret=r ptrs
//@spec
    ensures r.addr == id
//@end
//@extract storm-ffi/src/lib.rs get_file_info
//@opts ret=r ptrs
//@params vp_mem: &mut VpMem
//@end
//@extract storm-ffi/src/lib.rs get_archive_info
//@opts ret=r ptrs
//@params vp_mem: &mut VpMem
//@end
//@extract storm-ffi/src/lib.rs SFileCloseArchive@retain
//@opts ret=r name=vp_keep
//@params handle_id: usize
//@ptypes &usize; &mut FileHandle
//@out bool
//@spec
    ensures r == keep(*old(file), handle_id), *final(file) == *old(file)
//@end
//@extract storm-ffi/src/lib.rs SFileOpenArchive
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst filename_str.to_string() ==> vp_to_string(filename_str)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileCreateArchive
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst SFileOpenArchive( ==> SFileOpenArchive(vp_t, vp_mem,
//@subst mopaq::is_power_of_two( ==> vp_is_power_of_two(
//@subst let version = FormatVersion::V2; ==> 
//@subst ArchiveBuilder::new().version(version).listfile_option(ListfileOption::Generate).build(filename_str) ==> vp_build(filename_str)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileCloseArchive
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE hoist=retain:vp_keep
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst .retain(vp_keep) ==> .vp_retain(handle_id)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileOpenFileEx
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst filename_str.to_string() ==> vp_to_string(filename_str)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileCloseFile
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileReadFile
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileSize
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileSetFilePointer
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileHasFile
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileInfo
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst get_file_info( ==> get_file_info(vp_mem,
//@subst get_archive_info( ==> get_archive_info(vp_mem,
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileGetArchiveName
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst archive_handle.path.as_str() ==> vp_as_str(&archive_handle.path)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileGetFileName
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst file_handle.filename.as_str() ==> vp_as_str(&file_handle.filename)
//@subst vp_copy(vp_mem, c_name, ==> vp_copy(vp_mem, c_name.b.as_slice(),
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileExtractFile
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst CStr::from_ptr(local_filename).to_str() ==> vp_cstr(local_filename)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
//@extract storm-ffi/src/lib.rs SFileVerifyFile
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst crc32fast::hash(&data) ==> vp_crc(&data)
//@subst use md5::{Digest, Md5}; ==> 
//@subst let mut hasher = Md5::new(); ==> 
//@subst hasher.update(&data); ==> 
//@subst hasher.finalize().into() ==> vp_md5(&data)
//@subst actual_md5 != expected_md5 ==> !vp_md5_eq(&actual_md5, &expected_md5)
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@end
#[verifier::loop_isolation(false)]
//@extract storm-ffi/src/lib.rs SFileVerifyArchive
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE while=0
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst file_entry.name.starts_with( ==> vp_starts(&file_entry.name,
//@subst file_entry.name.ends_with( ==> vp_ends(&file_entry.name,
//@subst std::ffi::CString::new(file_entry.name.as_str()) ==> CString::new(vp_as_str(&file_entry.name))
//@subst SFileVerifyFile( ==> SFileVerifyFile(vp_t, vp_mem,
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@loop 0
    invariant idle(*vp_t), vp_i0 <= vp_s0.len()
    decreases vp_s0.len() - vp_i0
//@end
#[verifier::loop_isolation(false)]
//@extract storm-ffi/src/lib.rs SFileEnumFiles
//@opts ret=r ptrs locks=ARCHIVES,FILES,NEXT_HANDLE while=0
//@params vp_t: &mut VpT, vp_mem: &mut VpMem
//@subst CStr::from_ptr(search_mask).to_str() ==> vp_cstr(search_mask)
//@subst s.to_string() ==> vp_to_string(s)
//@subst "*".to_string() ==> vp_to_string("*")
//@subst pattern == "*" || entry.name.contains(&pattern.replace("*", "")) ==> vp_is_star(&pattern) || vp_contains(&entry.name, &pattern)
//@subst CString::new(entry.name.as_str()) ==> CString::new(vp_as_str(&entry.name))
//@subst callback: Option<extern "C" fn(*const c_char, *mut c_void) -> bool> ==> callback: Option<VpCallback>
//@subst callback: Option<extern "C" fn(VpPtr<c_char>, VpPtr<c_void>) -> bool> ==> callback: Option<VpCallback>
//@subst callback_fn( ==> callback_fn.call(vp_t,
//@spec
    requires idle(*old(vp_t))
    ensures idle(*final(vp_t))
//@body-start
    vp_begin(vp_t);
//@loop 0
    invariant idle(*vp_t), vp_i0 <= vp_s0.len()
    decreases vp_s0.len() - vp_i0
//@end
fn main() {}
}
