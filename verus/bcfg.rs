//@include inc_prelude.rs
verus! {
// ---------- environment ----------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
/// std::path::PathBuf
pub struct PathBuf { pub id: u64 }
pub fn vp_to_path_buf(p: &PathBuf) -> (r: PathBuf) ensures r == *p { PathBuf { id: p.id } }
#[verifier::external_body] pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
//@extract mopaq/src/compression/methods.rs mod:flags
//@end
pub use flags as compression_flags;
// ---------- the builder ----------
//@extract mopaq/src/builder.rs enum:FileSource
//@end
//@extract mopaq/src/builder.rs enum:ListfileOption
//@end
//@extract mopaq/src/builder.rs struct:PendingFile
//@end
//@extract mopaq/src/builder.rs struct:ArchiveBuilder
//@end
pub open spec fn files(b: ArchiveBuilder) -> Seq<PendingFile> { b.pending_files@ }
pub open spec fn method(b: ArchiveBuilder) -> u8 { b.default_compression }
/// everything but the files and the option numbered k (0 version, 1 sector size, 2 method, 3 list, 4 checksums, 5 table compression, 6 its method)
pub open spec fn same_but(a: ArchiveBuilder, b: ArchiveBuilder, k: int) -> bool {
    &&& k == 0 || a.version == b.version
    &&& k == 1 || a.block_size == b.block_size
    &&& k == 2 || a.default_compression == b.default_compression
    &&& k == 3 || a.listfile_option == b.listfile_option
    &&& k == 4 || a.generate_crcs == b.generate_crcs
    &&& k == 5 || a.compress_tables == b.compress_tables
    &&& k == 6 || a.table_compression == b.table_compression
}
pub open spec fn is_file(f: PendingFile, s: FileSource, n: Seq<char>, m: u8, e: bool, x: bool, l: u16) -> bool {
    f.source == s && f.archive_name@ == n && f.compression == m && f.encrypt == e && f.use_fix_key == x && f.locale == l
}
/// b is a with exactly that file behind the ones it had
pub open spec fn plus(a: ArchiveBuilder, b: ArchiveBuilder, s: FileSource, n: Seq<char>, m: u8, e: bool, x: bool, l: u16) -> bool {
    same_but(a, b, 7) && b.pending_files@.len() == a.pending_files@.len() + 1 && is_file(b.pending_files@.last(), s, n, m, e, x, l) && forall|i: int| 0 <= i < a.pending_files@.len() ==> #[trigger] b.pending_files@[i] == a.pending_files@[i]
}
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::new
//@opts ret=r
//@spec
    ensures r.pending_files@.len() == 0
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::version
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 0), r.pending_files@ == files(self), r.version == version,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::block_size
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 1), r.pending_files@ == files(self), r.block_size == block_size,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::default_compression
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 2), r.pending_files@ == files(self), r.default_compression == compression,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::listfile_option
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 3), r.pending_files@ == files(self), r.listfile_option == option,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::generate_crcs
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 4), r.pending_files@ == files(self), r.generate_crcs == generate,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::compress_tables
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 5), r.pending_files@ == files(self), r.compress_tables == compress,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::table_compression
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures same_but(self, r, 6), r.pending_files@ == files(self), r.table_compression == compression,
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file
//@opts ret=r
//@subst <P: AsRef<Path>>( ==> (
//@subst path: P ==> path: &PathBuf
//@subst path.as_ref().to_path_buf() ==> vp_to_path_buf(path)
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Path(*path), archive_name@, method(self), false, false, 0),
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file_with_options
//@opts ret=r
//@subst <P: AsRef<Path>>( ==> (
//@subst path: P ==> path: &PathBuf
//@subst path.as_ref().to_path_buf() ==> vp_to_path_buf(path)
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Path(*path), archive_name@, compression, encrypt, false, locale),
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file_data
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Data(data), archive_name@, method(self), false, false, 0),
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file_data_with_options
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Data(data), archive_name@, compression, encrypt, false, locale),
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file_with_encryption
//@opts ret=r
//@subst <P: AsRef<Path>>( ==> (
//@subst path: P ==> path: &PathBuf
//@subst path.as_ref().to_path_buf() ==> vp_to_path_buf(path)
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Path(*path), archive_name@, compression, true, use_fix_key, locale),
//@body-start
    let mut this = self;
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_file_data_with_encryption
//@opts ret=r
//@subst mut self ==> self
//@subst self. ==> this.
//@subst ; self ==> ; this
//@subst archive_name.to_string() ==> vp_to_string(archive_name)
//@spec
    ensures plus(self, r, FileSource::Data(data), archive_name@, compression, true, use_fix_key, locale),
//@body-start
    let mut this = self;
//@end
}
fn main() {}
}
