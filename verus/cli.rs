//@include inc_prelude.rs
verus! {
// ---------- environment: paths (std::path) ----------
/// the kinds of path components
pub enum Comp { Prefix, RootDir, CurDir, ParentDir, Normal(Seq<char>) }
pub struct OsStr { pub vp: u8 }
pub uninterp spec fn os_chars(s: OsStr) -> Seq<char>;
#[derive(Clone, Copy)]
pub enum Component<'a> { Prefix(u8), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
pub open spec fn comp_of(c: Component) -> Comp { match c { Component::Prefix(_) => Comp::Prefix, Component::RootDir => Comp::RootDir, Component::CurDir => Comp::CurDir, Component::ParentDir => Comp::ParentDir, Component::Normal(n) => Comp::Normal(os_chars(*n)) } }
/// Path::new(s).components()
pub uninterp spec fn comps(s: Seq<char>) -> Seq<Comp>;
/// Path::new(s).components(), all of them
#[verifier::external_body] pub fn vp_components<'a>(s: &'a str) -> (r: Vec<Component<'a>>) ensures r@.len() == comps(s@).len(), forall|i: int| 0 <= i < r@.len() ==> comp_of(#[trigger] r@[i]) == comps(s@)[i] { unimplemented!() }
/// a path is the sequence of its components
pub struct PathBuf { pub c: Ghost<Seq<Comp>>, pub vp: u8 }
pub open spec fn normal(c: Seq<Comp>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] is Normal }
pub trait VpPath { spec fn path_of(&self) -> Seq<Comp>; }
impl VpPath for &str { open spec fn path_of(&self) -> Seq<Comp> { comps((*self)@) } }
impl<'a> VpPath for &'a OsStr { open spec fn path_of(&self) -> Seq<Comp> { seq![Comp::Normal(os_chars(**self))] } }
impl VpPath for PathBuf { open spec fn path_of(&self) -> Seq<Comp> { self.c@ } }
impl PathBuf {
    /// PathBuf::from; an OsStr here is a component of a path
    #[verifier::external_body] pub fn from<P: VpPath>(p: P) -> (r: PathBuf) ensures r.c@ == p.path_of() { unimplemented!() }
    /// joining a path of plain components appends them; anything else may replace or leave the base
    #[verifier::external_body] pub fn join<P: VpPath>(&self, p: P) -> (r: PathBuf) ensures normal(p.path_of()) ==> r.c@ == self.c@ + p.path_of() { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<PathBuf>) ensures r is Some ==> self.c@.len() > 0 && (r->0).c@ == self.c@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn vp_is_empty(&self) -> (r: bool) ensures normal(self.c@) ==> r == (self.c@.len() == 0) { unimplemented!() }
}
/// what filter_map leaves of the components
pub struct VpParts<'a> { pub v: Vec<&'a OsStr> }
pub open spec fn names(v: Seq<&OsStr>) -> Seq<Comp> { Seq::new(v.len(), |i: int| Comp::Normal(os_chars(*v[i]))) }
impl<'a> VpParts<'a> {
    /// Iterator::collect into a PathBuf pushes one component after the other
    #[verifier::external_body] pub fn collect(self) -> (r: PathBuf) ensures r.c@ == names(self.v@) { unimplemented!() }
    pub fn next_back(&mut self) -> (r: Option<&'a OsStr>) ensures r is Some == (old(self).v@.len() > 0), r is Some ==> r->0 == old(self).v@.last() { self.v.pop() }
    pub fn next(&mut self) -> (r: Option<&'a OsStr>) ensures r is Some == (old(self).v@.len() > 0), r is Some ==> r->0 == old(self).v@[0] { if self.v.len() > 0 { Some(self.v.remove(0)) } else { None } }
}
#[verifier::external_body] pub fn vp_then_some<T>(b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None }) { b.then_some(t) }
// ---------- specification ----------
/// the plain components, in order
pub open spec fn plain(c: Seq<Comp>, k: int) -> Seq<Comp> decreases k { if k <= 0 { Seq::empty() } else if c[k - 1] is Normal { plain(c, k - 1).push(c[k - 1]) } else { plain(c, k - 1) } }
/// where a name is extracted to, relative to the output directory
pub open spec fn target(n: Seq<char>, keep: bool) -> Option<Seq<Comp>> {
    let p = plain(comps(n), comps(n).len() as int);
    if p.len() == 0 { None } else if keep { Some(p) } else { Some(seq![p.last()]) }
}
pub proof fn lemma_plain(c: Seq<Comp>, k: int) requires 0 <= k <= c.len() ensures normal(plain(c, k)) decreases k { if k > 0 { lemma_plain(c, k - 1); } }
/// a name of plain components only is extracted to exactly that path
pub proof fn thm_exact(n: Seq<char>) requires normal(comps(n)), comps(n).len() > 0 ensures target(n, true) == Some(comps(n)) { lemma_all(comps(n), comps(n).len() as int); assert(comps(n).take(comps(n).len() as int) =~= comps(n)); }
pub proof fn lemma_all(c: Seq<Comp>, k: int) requires 0 <= k <= c.len(), normal(c) ensures plain(c, k) =~= c.take(k) decreases k { if k > 0 { lemma_all(c, k - 1); assert(c[k - 1] is Normal); assert(c.take(k) =~= c.take(k - 1).push(c[k - 1])); } }
//@extract storm-cli/src/commands/file.rs member_path@filter_map
//@opts ret=r name=vp_part
//@generics <'a>
//@ptypes Component<'a>
//@out Option<&'a OsStr>
//@spec
    ensures r is Some == part is Normal, r is Some ==> r->0 == part->Normal_0
//@end
/// environment: Path::new(s).components().filter_map(vp_part)
pub fn vp_parts<'a>(s: &'a str) -> (r: VpParts<'a>) ensures names(r.v@) == plain(comps(s@), comps(s@).len() as int)
{
    let cs = vp_components(s);
    let mut v: Vec<&'a OsStr> = Vec::new();
    let mut i = 0usize;
    while i < cs.len()
        invariant i <= cs@.len(), cs@.len() == comps(s@).len(), forall|j: int| 0 <= j < cs@.len() ==> comp_of(#[trigger] cs@[j]) == comps(s@)[j], names(v@) == plain(comps(s@), i as int)
        decreases cs@.len() - i
    {
        let ghost v0 = v@;
        if let Some(x) = vp_part(cs[i]) { v.push(x); proof { assert(names(v@) =~= names(v0).push(Comp::Normal(os_chars(*x)))); } }
        i += 1;
    }
    VpParts { v }
}
//@extract storm-cli/src/commands/file.rs member_path
//@opts ret=r hoist=filter_map:vp_part
//@subst Path::new(filename).components().filter_map(vp_part) ==> vp_parts(filename)
//@subst (!path.as_os_str().is_empty()).then_some(path) ==> vp_then_some(!path.vp_is_empty(), path)
//@spec
    ensures r is Some == target(filename@, preserve_path) is Some, r is Some ==> (r->0).c@ == target(filename@, preserve_path)->0
//@body-start
    proof { lemma_plain(comps(filename@), comps(filename@).len() as int); }
//@after-let parts
    proof { assert(parts.v@.len() == names(parts.v@).len()); if parts.v@.len() > 0 { assert(names(parts.v@).last() == Comp::Normal(os_chars(*parts.v@.last()))); } }
    let ghost p0 = parts.v@;
//@before-tail
    proof { if preserve_path { assert(path.c@ == names(p0)); } else { assert(path.c@ =~= seq![names(p0).last()]); } }
//@end
// ---------- environment: the archive, the file system, the options ----------
pub trait VpContext<T>: Sized { spec fn vp_ok(self) -> Option<T>; fn vp_context(self) -> (r: Result<T>) ensures r is Ok == self.vp_ok() is Some, r is Ok ==> r->Ok_0 == self.vp_ok()->0; }
impl<T> VpContext<T> for Option<T> { open spec fn vp_ok(self) -> Option<T> { self } fn vp_context(self) -> (r: Result<T>) { match self { Some(x) => Ok(x), None => Err(vp_error()) } } }
impl<T> VpContext<T> for Result<T> { open spec fn vp_ok(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } fn vp_context(self) -> (r: Result<T>) { self } }
pub struct GlobalOpts { pub quiet: bool, pub verbose: bool }
#[verifier::external_body] pub fn vp_opts() -> (r: GlobalOpts) { unimplemented!() }
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) ensures r@ == s@ { unimplemented!() }
pub struct FileEntry { pub name: String }
pub struct Archive { pub vp: Ghost<int> }
/// what the archive at a path holds
pub uninterp spec fn archive_at(p: Seq<char>) -> int;
pub uninterp spec fn content(a: int, n: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn listing(a: int) -> Seq<Seq<char>>;
impl Archive {
    #[verifier::external_body] pub fn open(p: &str) -> (r: Result<Archive>) ensures r is Ok ==> r->Ok_0.vp@ == archive_at(p@) { unimplemented!() }
    #[verifier::external_body] pub fn read_file(&mut self, n: &str) -> (r: Result<Vec<u8>>) ensures final(self).vp == old(self).vp, r is Ok == content(old(self).vp@, n@) is Some, r is Ok ==> r->Ok_0@ == content(old(self).vp@, n@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn list(&mut self) -> (r: Result<Vec<FileEntry>>) ensures final(self).vp == old(self).vp, r is Ok ==> r->Ok_0@.len() == listing(old(self).vp@).len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]).name@ == listing(old(self).vp@)[i] { unimplemented!() }
}
/// the closure |e| e.name
#[verifier::external_body] pub fn vp_collect_names(v: Vec<FileEntry>) -> (r: Vec<String>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == v@[i].name@ { unimplemented!() }
/// the files written so far, and the place nothing may be written outside of
pub struct VpFs { pub root: Ghost<Seq<Comp>>, pub log: Ghost<Seq<(Seq<Comp>, Seq<u8>)>> }
/// p is the chosen path itself or lies below it: no parent, root or prefix component after it
pub open spec fn inside(root: Seq<Comp>, p: Seq<Comp>) -> bool { root.len() <= p.len() && p.take(root.len() as int) == root && normal(p.skip(root.len() as int)) }
/// directories made on the way: inside, or one that the chosen path lies in
pub open spec fn inside_or_above(root: Seq<Comp>, p: Seq<Comp>) -> bool { inside(root, p) || (p.len() <= root.len() && root.take(p.len() as int) == p) }
impl VpFs {
    #[verifier::external_body] pub fn write(&mut self, p: &PathBuf, d: Vec<u8>) -> (r: Result<()>) requires inside(old(self).root@, p.c@)
        ensures final(self).root == old(self).root, r is Ok ==> final(self).log@ == old(self).log@.push((p.c@, d@)) { unimplemented!() }
    #[verifier::external_body] pub fn create_dir_all(&mut self, p: PathBuf) -> (r: Result<()>) requires inside_or_above(old(self).root@, p.c@)
        ensures final(self).root == old(self).root, r is Ok ==> final(self).log@ == old(self).log@ { unimplemented!() }
}
pub proof fn lemma_inside(root: Seq<Comp>, p: Seq<Comp>) requires inside(root, p), p.len() > 0 ensures inside_or_above(root, p.drop_last())
{
    let d = p.drop_last();
    if p.len() > root.len() {
        assert(d.take(root.len() as int) =~= p.take(root.len() as int));
        assert(d.skip(root.len() as int) =~= p.skip(root.len() as int).drop_last());
        assert forall|i: int| 0 <= i < d.skip(root.len() as int).len() implies #[trigger] d.skip(root.len() as int)[i] is Normal by { assert(p.skip(root.len() as int)[i] is Normal); }
    } else { assert(p =~= root) by { assert(p.take(root.len() as int) =~= p); } assert(root.take(d.len() as int) =~= d); }
}
pub proof fn lemma_join_inside(root: Seq<Comp>, t: Seq<Comp>) requires normal(t) ensures inside(root, root + t) { let p = root + t; assert(p.take(root.len() as int) =~= root); assert(p.skip(root.len() as int) =~= t); }
pub proof fn lemma_target(n: Seq<char>, keep: bool) ensures target(n, keep) is Some ==> normal(target(n, keep)->0) { lemma_plain(comps(n), comps(n).len() as int); }
/// the chosen place: the output path, or the current directory for a single file without one
pub open spec fn chosen(file: Option<&str>, output: Option<&str>) -> Seq<Comp> { if output is Some { comps((output->0)@) } else if file is Some { Seq::empty() } else { comps("."@) } }
/// what extracting the first k listed names writes: each readable one with a usable name, once, in order
pub open spec fn writes(a: int, n: Seq<Seq<char>>, k: int, dir: Seq<Comp>, keep: bool) -> Seq<(Seq<Comp>, Seq<u8>)> decreases k {
    if k <= 0 { Seq::empty() } else { let p = writes(a, n, k - 1, dir, keep); if content(a, n[k - 1]) is Some && target(n[k - 1], keep) is Some { p.push((dir + target(n[k - 1], keep)->0, content(a, n[k - 1])->0)) } else { p } }
}
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
//@extract storm-cli/src/commands/file.rs extract
//@opts ret=r while=0 loops=1
//@params vp_fs: &mut VpFs
//@subst GLOBAL_OPTS.get().expect("Global options not set") ==> vp_opts()
//@subst fs::create_dir_all( ==> vp_fs.create_dir_all(
//@subst let filename = &vp_s0[vp_i0]; ==> let filename = vp_as_str(&vp_s0[vp_i0]);
//@subst fs::write( ==> vp_fs.write(
//@subst file_entries.into_iter().map(|e| e.name).collect() ==> vp_collect_names(file_entries)
//@spec
    requires old(vp_fs).root@ == chosen(file, output)
    ensures
        final(vp_fs).root == old(vp_fs).root,
        r is Ok && file is Some ==> ({ let n = (file->0)@; let c = content(archive_at(archive_path@), n); c is Some && (output is None ==> target(n, preserve_path) is Some)
            && final(vp_fs).log@ == old(vp_fs).log@.push((if output is Some { comps((output->0)@) } else { target(n, preserve_path)->0 }, c->0)) }),
        r is Ok && file is None ==> ({ let a = archive_at(archive_path@); let l = listing(a); final(vp_fs).log@ == old(vp_fs).log@ + writes(a, l, l.len() as int, chosen(file, output), preserve_path) }),
//@body-start
    let ghost fs0 = *vp_fs;
    proof {
        if file is Some { lemma_target((file->0)@, preserve_path); let t = target((file->0)@, preserve_path)->0; if target((file->0)@, preserve_path) is Some { lemma_join_inside(Seq::empty(), t); assert(Seq::<Comp>::empty() + t =~= t); } }
        let o = comps((output->0)@); assert(o + Seq::<Comp>::empty() =~= o); lemma_join_inside(o, Seq::empty());
        assert forall|p: Seq<Comp>| inside(fs0.root@, p) && p.len() > 0 implies inside_or_above(fs0.root@, #[trigger] p.drop_last()) by { lemma_inside(fs0.root@, p); }
    }
//@after-let files
    proof { assert(strs(files@) =~= listing(archive_at(archive_path@))); }
//@loop 0
    invariant vp_i0 <= vp_s0@.len(), archive.vp@ == archive_at(archive_path@), strs(vp_s0@) == listing(archive_at(archive_path@)), vp_fs.root == fs0.root, fs0.root@ == comps(output_dir@), fs0 == *old(vp_fs), file is None, chosen(file, output) == comps(output_dir@),
        vp_fs.log@ =~= fs0.log@ + writes(archive_at(archive_path@), strs(vp_s0@), vp_i0 as int, comps(output_dir@), preserve_path),
        forall|p: Seq<Comp>| inside(fs0.root@, p) && p.len() > 0 ==> inside_or_above(fs0.root@, #[trigger] p.drop_last()),
    decreases vp_s0@.len() - vp_i0
//@loop-start 0
    proof { let n = vp_s0@[vp_i0 as int]@; assert(strs(vp_s0@)[vp_i0 as int] == n); lemma_target(n, preserve_path); let t = target(n, preserve_path)->0; if target(n, preserve_path) is Some { lemma_join_inside(comps(output_dir@), t); } }
//@end
fn main() {}
}
