//@include inc_prelude.rs
//@include inc_io.rs
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
pub open spec fn vnum(v: FormatVersion) -> int { match v { FormatVersion::V1 => 0, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 } }
pub open spec fn hsize(v: FormatVersion) -> int { match v { FormatVersion::V1 => 32, FormatVersion::V2 => 44, FormatVersion::V3 => 68, FormatVersion::V4 => 208 } }
/// environment: the derived ordering of FormatVersion
pub fn vp_version_ge(a: FormatVersion, b: FormatVersion) -> (r: bool) ensures r == (vnum(a) >= vnum(b))
{ let x = match a { FormatVersion::V1 => 0u8, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 };
  let y = match b { FormatVersion::V1 => 0u8, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 }; x >= y }
impl FormatVersion {
//@extract mopaq/src/header.rs FormatVersion::header_size
//@opts ret=r
//@spec
    ensures r == hsize(*self)
//@end
}
// ---------- environment: the file system ----------
#[derive(Clone, Copy)]
pub struct Path { pub id: u64 }
impl Path { #[verifier::external_body] pub fn exists(self) -> (r: bool) { unimplemented!() } pub fn as_ref(self) -> (r: Path) ensures r == self { self } }
/// the path that is being built: what it names changes only by a completed build
pub uninterp spec fn is_target(p: Path) -> bool;
/// the directory part of a path
#[verifier::external_body] pub fn vp_dir(p: Path) -> (r: Path) { unimplemented!() }
/// what the target names: the content of the file, or nothing
pub struct VpFs { pub target: Ghost<Option<Seq<u8>>>, pub job: Ghost<ArchiveBuilder> }
/// a new file of its own, never the target (O_EXCL); removed when dropped
pub struct NamedTempFile { pub f: File }
pub struct File { pub b: Ghost<Seq<u8>>, pub p: Ghost<int>, pub vp: u8 }
impl VpMedium for File { open spec fn bytes(&self) -> Seq<u8> { self.b@ } open spec fn pos(&self) -> int { self.p@ } uninterp spec fn faulty(&self) -> bool; }
impl Seek for File { #[verifier::external_body] fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>) { unimplemented!() } #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() } }
impl Read for File { #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() } #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() } }
impl Write for File { #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() } }
impl File {
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<()>) ensures final(self).b == old(self).b, final(self).p == old(self).p { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&self) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] pub fn set_len(&self, n: u64) -> (r: Result<()>) requires false { unimplemented!() }
    /// truncates what the path names
    #[verifier::external_body] pub fn create(p: Path) -> (r: Result<File>) requires !is_target(p) ensures r is Ok ==> r->Ok_0.b@ == Seq::<u8>::empty() && r->Ok_0.p@ == 0 { unimplemented!() }
}
impl NamedTempFile {
    #[verifier::external_body] pub fn new_in(dir: Path) -> (r: Result<NamedTempFile>) ensures r is Ok ==> r->Ok_0.f.b@ == Seq::<u8>::empty() && r->Ok_0.f.p@ == 0 { unimplemented!() }
    pub fn as_file_mut(&mut self) -> (r: &mut File) ensures *r == old(self).f, *final(r) == final(self).f { &mut self.f }
    pub fn as_file(&self) -> (r: &File) ensures *r == self.f { &self.f }
    pub fn path(&self) -> (r: Path) ensures !is_target(r) { self.name() }
    #[verifier::external_body] fn name(&self) -> (r: Path) ensures !is_target(r) { unimplemented!() }
    /// the same, but fails when the path names something already
    #[verifier::external_body] pub fn vp_persist_noclobber(self, vp_fs: &mut VpFs, p: Path) -> (r: core::result::Result<File, PersistError>)
        requires is_target(p) ==> finished(old(vp_fs).job@, self.f.b@)
        ensures final(vp_fs).job == old(vp_fs).job, r is Ok && is_target(p) ==> final(vp_fs).target@ == Some(self.f.b@), r is Err || !is_target(p) ==> final(vp_fs).target == old(vp_fs).target,
            r is Err ==> r->Err_0.file.f.b == self.f.b { unimplemented!() }
    /// rename(2): replaces the target in one step or leaves it; may only be given the target once the file is complete
    #[verifier::external_body] pub fn vp_persist(self, vp_fs: &mut VpFs, p: Path) -> (r: core::result::Result<File, PersistError>)
        requires is_target(p) ==> finished(old(vp_fs).job@, self.f.b@)
        ensures final(vp_fs).job == old(vp_fs).job, r is Ok && is_target(p) ==> final(vp_fs).target@ == Some(self.f.b@), r is Err || !is_target(p) ==> final(vp_fs).target == old(vp_fs).target,
            r is Err ==> r->Err_0.file.f.b == self.f.b { unimplemented!() }
}
pub struct PersistError { pub error: u8, pub file: NamedTempFile }
/// other ways to change what a path names
pub mod fs {
    use super::*;
    #[verifier::external_body] pub fn remove_file(p: Path) -> (r: Result<()>) requires !is_target(p) { unimplemented!() }
    #[verifier::external_body] pub fn write(p: Path, d: &[u8]) -> (r: Result<()>) requires !is_target(p) { unimplemented!() }
    #[verifier::external_body] pub fn rename(a: Path, b: Path) -> (r: Result<()>) requires !is_target(a), !is_target(b) { unimplemented!() }
    #[verifier::external_body] pub fn copy(a: Path, b: Path) -> (r: Result<u64>) requires !is_target(b) { unimplemented!() }
}
// ---------- environment: std::io::Cursor over a vector ----------
pub struct VpBuf { pub d: Vec<u8>, pub p: u64 }
impl VpBuf { pub fn new(d: Vec<u8>) -> (r: VpBuf) ensures r.d@ == d@, r.p == 0 { VpBuf { d, p: 0 } } pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.d@ { &self.d } pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.d@ { self.d } }
impl VpMedium for VpBuf { open spec fn bytes(&self) -> Seq<u8> { self.d@ } open spec fn pos(&self) -> int { self.p as int } open spec fn faulty(&self) -> bool { false } }
impl Seek for VpBuf { #[verifier::external_body] fn seek(&mut self, to: SeekFrom) -> (r: Result<u64>) { unimplemented!() } #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64>) { unimplemented!() } }
impl Read for VpBuf { #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() } #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() } }
impl Write for VpBuf { #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() } }
pub fn vp_zeros(n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| 0u8) { let v = vp_fill(n); proof { assert(v@ =~= Seq::new(n as nat, |i: int| 0u8)); } v }
pub fn vp_fill(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0u8 { let mut v: Vec<u8> = Vec::new(); for i in 0..n invariant v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == 0u8 { v.push(0u8); } v }
// ---------- specification ----------
pub struct ArchiveBuilder { pub version: FormatVersion, pub vp: Ghost<int> }
/// b1 is b with its list added (unit list)
pub uninterp spec fn prepared(b: ArchiveBuilder, b1: ArchiveBuilder) -> bool;
/// writing b's archive to a medium that held `from` with the cursor at `at` leaves `to` (units files, tables, header)
pub uninterp spec fn image_of(b: ArchiveBuilder, from: Seq<u8>, at: int, to: Seq<u8>) -> bool;
/// all of b's archive: written to an empty file, or to a buffer of header size for version 3 and later
pub open spec fn complete(b: ArchiveBuilder, x: Seq<u8>) -> bool { if vnum(b.version) >= 2 { image_of(b, Seq::new(hsize(b.version) as nat, |i: int| 0u8), hsize(b.version), x) } else { image_of(b, Seq::empty(), 0, x) } }
pub open spec fn finished(job: ArchiveBuilder, x: Seq<u8>) -> bool { exists|b: ArchiveBuilder| #[trigger] prepared(job, b) && complete(b, x) }
impl ArchiveBuilder {
    #[verifier::external_body] fn prepare_listfile(&mut self) -> (r: Result<()>) ensures r is Ok ==> prepared(*old(self), *final(self)) && final(self).version == old(self).version { unimplemented!() }
    #[verifier::external_body] fn write_archive<W: Write + Seek + Read>(&self, writer: &mut W) -> (r: Result<()>) ensures r is Ok ==> image_of(*self, old(writer).bytes(), old(writer).pos(), final(writer).bytes()) { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::build
//@opts ret=r
//@params vp_fs: &mut VpFs
//@subst build<P: AsRef<Path>>( ==> build(
//@subst path: P ==> path: Path
//@subst mut self ==> self
//@subst self. ==> this.
//@subst path.parent().unwrap_or_else(|| Path::new(".")) ==> vp_dir(path)
//@subst use std::io::{Seek as _, Write as _}; ==> 
//@subst this.version >= FormatVersion::V3 ==> vp_version_ge(this.version, FormatVersion::V3)
//@subst vec![0u8; header_size] ==> vp_zeros(header_size)
//@subst std::io::Cursor::new( ==> VpBuf::new(
//@subst .persist(path) ==> .vp_persist(vp_fs, path)
//@subst .persist_noclobber(path) ==> .vp_persist_noclobber(vp_fs, path)
//@subst std::fs:: ==> fs::
//@subst fs::File:: ==> File::
//@spec
    requires is_target(path), old(vp_fs).job@ == self
    ensures r is Ok ==> final(vp_fs).target@ is Some && finished(self, final(vp_fs).target@->0), r is Err ==> final(vp_fs).target == old(vp_fs).target
//@body-start
    broadcast use lemma_append;
    let mut this = self;
//@end
}
fn main() {}
}
