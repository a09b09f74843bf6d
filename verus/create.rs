//@include inc_prelude.rs
verus! {
// ---------- environment: pointers, strings, the file system ----------
#[derive(Clone, Copy)] pub struct c_void { pub vp: u8 }
pub type c_char = u8;
/// a raw pointer: an address
pub struct VpPtr<T> { pub addr: usize, pub vp: Ghost<Option<T>> }
impl<T> Clone for VpPtr<T> { fn clone(&self) -> (r: Self) ensures r.addr == self.addr { VpPtr { addr: self.addr, vp: self.vp } } }
impl<T> Copy for VpPtr<T> {}
impl<T> VpPtr<T> { pub fn is_null(&self) -> (r: bool) ensures r == (self.addr == 0) { self.addr == 0 } }
pub type HANDLE = VpPtr<c_void>;
/// CStr::from_ptr(p).to_str(): the text at an address, which no call here changes
pub uninterp spec fn cstr(a: usize) -> Option<Seq<char>>;
#[verifier::external_body] pub fn vp_cstr(p: VpPtr<c_char>) -> (r: core::result::Result<&'static str, u8>)
    requires p.addr != 0 ensures r is Ok == cstr(p.addr) is Some, r is Ok ==> r->Ok_0@ == cstr(p.addr)->0 { unimplemented!() }
pub uninterp spec fn pow2(n: u32) -> bool;
#[verifier::external_body] pub fn vp_is_power_of_two(n: u32) -> (r: bool) ensures r == pow2(n) { unimplemented!() }
/// what the paths name
pub struct VpFs { pub files: Ghost<Map<Seq<char>, Seq<u8>>> }
/// Path::new(p) and its exists()
pub struct VpTarget<'a> { pub s: &'a str }
impl<'a> VpTarget<'a> {
    pub fn new(s: &'a str) -> (r: VpTarget<'a>) ensures r.s == s { VpTarget { s } }
    #[verifier::external_body] pub fn exists(&self, vp_fs: &VpFs) -> (r: bool) ensures r == vp_fs.files@.dom().contains(self.s@) { unimplemented!() }
}
/// other ways to change what a path names: none of them may be used on the way to a build
pub mod fs {
    use super::*;
    #[verifier::external_body] pub fn remove_file(p: &str) -> (r: Result<()>) requires false { unimplemented!() }
    #[verifier::external_body] pub fn write(p: &str, d: &[u8]) -> (r: Result<()>) requires false { unimplemented!() }
    #[verifier::external_body] pub fn rename(a: &str, b: &str) -> (r: Result<()>) requires false { unimplemented!() }
    #[verifier::external_body] pub fn copy(a: &str, b: &str) -> (r: Result<u64>) requires false { unimplemented!() }
    #[verifier::external_body] pub fn vp_create(p: &str) -> (r: Result<u8>) requires false { unimplemented!() }
}
// ---------- the builder (units bcfg, warch, build) ----------
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
pub struct PathBuf { pub vp: u8 }
pub enum ListfileOption { Generate, External(PathBuf), None }
impl ListfileOption { pub fn clone(&self) -> (r: ListfileOption) ensures r == *self { match self { ListfileOption::Generate => ListfileOption::Generate, ListfileOption::External(p) => ListfileOption::External(PathBuf { vp: p.vp }), ListfileOption::None => ListfileOption::None } } }
pub mod mopaq { pub enum Error { FileNotFound(u8), InvalidFormat(u8), Io(u8), Other } }
pub type MResult<T> = core::result::Result<T, mopaq::Error>;
pub struct ArchiveBuilder { pub v: FormatVersion, pub c: u8, pub bs: u16, pub l: ListfileOption, pub added: Ghost<Seq<(Seq<char>, Seq<char>)>> }
/// x is a complete archive of b (unit build: finished)
pub uninterp spec fn whole(b: ArchiveBuilder, x: Seq<u8>) -> bool;
impl ArchiveBuilder {
    pub fn new() -> (r: ArchiveBuilder) ensures r.added@ == Seq::<(Seq<char>, Seq<char>)>::empty() { ArchiveBuilder { v: FormatVersion::V1, c: 2, bs: 3, l: ListfileOption::Generate, added: Ghost(Seq::empty()) } }
    pub fn version(self, x: FormatVersion) -> (r: ArchiveBuilder) ensures r == (ArchiveBuilder { v: x, ..self }) { let mut b = self; b.v = x; b }
    pub fn default_compression(self, x: u8) -> (r: ArchiveBuilder) ensures r == (ArchiveBuilder { c: x, ..self }) { let mut b = self; b.c = x; b }
    pub fn block_size(self, x: u16) -> (r: ArchiveBuilder) ensures r == (ArchiveBuilder { bs: x, ..self }) { let mut b = self; b.bs = x; b }
    pub fn listfile_option(self, x: ListfileOption) -> (r: ArchiveBuilder) ensures r == (ArchiveBuilder { l: x, ..self }) { let mut b = self; b.l = x; b }
    #[verifier::external_body] pub fn add_file(self, p: &str, n: &String) -> (r: ArchiveBuilder) ensures r == (ArchiveBuilder { added: Ghost(self.added@.push((p@, n@))), ..self }) { unimplemented!() }
    /// unit build: a completed build replaces what the path names, a failed one changes nothing
    #[verifier::external_body] pub fn build(self, vp_fs: &mut VpFs, p: &str) -> (r: MResult<()>)
        ensures r is Err ==> final(vp_fs).files == old(vp_fs).files, r is Ok ==> replaced(old(vp_fs).files@, final(vp_fs).files@, p@, self) { unimplemented!() }
}
/// the path names a complete archive of b, every other path what it named before
pub open spec fn replaced(f0: Map<Seq<char>, Seq<u8>>, f1: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: ArchiveBuilder) -> bool { exists|x: Seq<u8>| #[trigger] whole(b, x) && f1 == f0.insert(p, x) }
// ---------- C API: creating an archive ----------
//@extract storm-ffi/src/lib.rs const:ERROR_SUCCESS
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_FILE_NOT_FOUND
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_ACCESS_DENIED
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_INVALID_PARAMETER
//@end
//@extract storm-ffi/src/lib.rs const:ERROR_ALREADY_EXISTS
//@end
//@extract storm-ffi/src/lib.rs const:CREATE_NEW
//@end
//@extract storm-ffi/src/lib.rs const:CREATE_ALWAYS
//@end
//@extract storm-ffi/src/lib.rs const:OPEN_EXISTING
//@end
//@extract storm-ffi/src/lib.rs const:OPEN_ALWAYS
//@end
//@extract storm-ffi/src/lib.rs const:TRUNCATE_EXISTING
//@end
pub fn set_last_error(vp_err: &mut u32, error: u32) ensures *final(vp_err) == error { *vp_err = error; }
/// unit ffi: opening reads files and changes none
#[verifier::external_body] pub fn SFileOpenArchive(vp_err: &mut u32, filename: VpPtr<c_char>, a: u32, b: u32, handle: VpPtr<HANDLE>) -> (r: bool) { unimplemented!() }
/// creating with this disposition may put a new archive at a path that names something (or nothing)
pub open spec fn creates(disposition: u32, there: bool) -> bool { disposition == 2 || (disposition == 1 && !there) || (disposition == 4 && !there) || (disposition == 5 && there) }
/// an existing archive is opened instead
pub open spec fn opens(disposition: u32, there: bool) -> bool { disposition == 4 && there }
pub open spec fn valid(f: usize, h: usize, n: u32) -> bool { f != 0 && h != 0 && pow2(n) && n >= 4 && cstr(f) is Some }
//@extract storm-ffi/src/lib.rs SFileCreateArchive
//@opts ret=r ptrs
//@params vp_err: &mut u32, vp_fs: &mut VpFs
//@subst set_last_error( ==> set_last_error(vp_err,
//@subst CStr::from_ptr(filename).to_str() ==> vp_cstr(filename)
//@subst SFileOpenArchive( ==> SFileOpenArchive(vp_err,
//@subst mopaq::is_power_of_two( ==> vp_is_power_of_two(
//@subst Path::new( ==> VpTarget::new(
//@subst .exists() ==> .exists(vp_fs)
//@subst .build(filename_str) ==> .build(vp_fs, filename_str)
//@subst std::fs:: ==> fs::
//@subst fs::File::create( ==> fs::vp_create(
//@spec
    ensures ({ let n = cstr(filename.addr)->0; let there = old(vp_fs).files@.dom().contains(n); let ok = valid(filename.addr, handle.addr, hash_table_size);
        &&& final(vp_fs).files == old(vp_fs).files || (ok && creates(creation_disposition, there) && exists|b: ArchiveBuilder| b.v == FormatVersion::V2 && b.l == ListfileOption::Generate && b.added@.len() == 0 && #[trigger] replaced(old(vp_fs).files@, final(vp_fs).files@, n, b))
        &&& r ==> ok && (opens(creation_disposition, there) && final(vp_fs).files == old(vp_fs).files || creates(creation_disposition, there))
        &&& !ok ==> *final(vp_err) == 87
        &&& ok && creation_disposition == 1 && there ==> !r && *final(vp_err) == 183
        &&& ok && creation_disposition == 5 && !there ==> !r && *final(vp_err) == 2 })
//@end
// ---------- command line: creating an archive ----------
pub struct GlobalOpts { pub quiet: bool, pub verbose: bool }
#[verifier::external_body] pub fn vp_opts() -> (r: GlobalOpts) { unimplemented!() }
pub struct CreateOptions { pub version: FormatVersion, pub compression: u16, pub block_size: u16, pub listfile: ListfileOption }
/// Path::new(source) and the questions asked about it; nothing of it changes files
#[derive(Clone, Copy)] pub struct VpPath { pub vp: u8 }
pub struct VpOs { pub vp: u8 }
impl VpOs { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) { unimplemented!() } }
pub trait VpContext<T>: Sized { spec fn vp_ok(self) -> Option<T>; fn vp_context(self) -> (r: Result<T>) ensures r is Ok == self.vp_ok() is Some, r is Ok ==> r->Ok_0 == self.vp_ok()->0; }
impl<T> VpContext<T> for Option<T> { open spec fn vp_ok(self) -> Option<T> { self } fn vp_context(self) -> (r: Result<T>) { match self { Some(x) => Ok(x), None => Err(vp_error()) } } }
#[verifier::external_body] pub fn vp_path(s: &str) -> (r: VpPath) { unimplemented!() }
impl VpPath {
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<VpOs>) { unimplemented!() }
}
/// the files below a directory (outside the contracts: walkdir)
#[verifier::external_body] fn add_directory_to_archive(builder: ArchiveBuilder, dir: VpPath, prefix: &str, options: &CreateOptions, quiet: bool) -> (r: Result<ArchiveBuilder>)
    ensures r is Ok ==> exists|a: Seq<(Seq<char>, Seq<char>)>| r->Ok_0 == (ArchiveBuilder { added: Ghost(a), ..builder }) { unimplemented!() }
pub open spec fn built_from(b: ArchiveBuilder, o: CreateOptions) -> bool { b.v == o.version && b.c == o.compression as u8 && b.bs == o.block_size && b.l == o.listfile }
pub fn vp_any<T>(r: MResult<T>) -> (q: Result<T>) ensures q is Ok == r is Ok, r is Ok ==> q->Ok_0 == r->Ok_0 { match r { Ok(x) => Ok(x), Err(_) => Err(vp_error()) } }
//@extract storm-cli/src/commands/archive.rs create
//@opts ret=r
//@params vp_fs: &mut VpFs
//@subst GLOBAL_OPTS.get().expect("Global options not set") ==> vp_opts()
//@subst Path::new(source) ==> vp_path(source)
//@subst std::fs:: ==> fs::
//@subst fs::File::create( ==> fs::vp_create(
//@subst anyhow::bail!("Source path does not exist: {}", source) ==> return Err(vp_error())
//@subst builder.build(archive_path)? ==> vp_any(builder.build(vp_fs, archive_path))?
//@spec
    ensures r is Err ==> final(vp_fs).files == old(vp_fs).files, r is Ok ==> exists|b: ArchiveBuilder| built_from(b, options) && #[trigger] replaced(old(vp_fs).files@, final(vp_fs).files@, archive_path@, b)
//@end
fn main() {}
}
