//@include inc_prelude.rs
//@include inc_list.rs
verus! {
//@extract mopaq/src/special_files/listfile.rs parse_listfile@filter_map
//@ptypes &str
//@out Option<String>
//@opts ret=r name=vp_line
//@subst line.trim() ==> vp_trim(line)
//@subst line.is_empty() ==> vp_is_empty(line)
//@subst filename.is_empty() ==> vp_is_empty(filename)
//@subst line.starts_with( ==> vp_starts_with(line,
//@subst line.find( ==> vp_find(line,
//@subst line[..pos].trim() ==> vp_trim(vp_prefix(line, pos))
//@subst filename.to_string() ==> vp_to_string(filename)
//@spec
    ensures r is Some == line_name(line@) is Some, r is Some ==> (r->0)@ == line_name(line@)->0
//@body-start
    broadcast use ax_byte_at;
    proof { lemma_first(trim(line@), ';'); }
//@end
/// environment: content.lines().filter_map(vp_line).collect()
pub fn vp_lines_filter_map(content: &str) -> (r: Vec<String>) ensures strs(r@) == names_of(lines(content@), lines(content@).len() as int)
{
    let ls = vp_lines(content);
    let mut v: Vec<String> = Vec::new();
    let mut i = 0usize;
    while i < ls.len()
        invariant i <= ls@.len(), ls@.len() == lines(content@).len(), forall|j: int| 0 <= j < ls@.len() ==> (#[trigger] ls@[j])@ == lines(content@)[j], strs(v@) == names_of(lines(content@), i as int)
        decreases ls@.len() - i
    {
        let ghost v0 = v@;
        if let Some(x) = vp_line(ls[i]) { v.push(x); proof { assert(strs(v@) =~= strs(v0).push(x@)); } }
        i += 1;
    }
    v
}
//@extract mopaq/src/special_files/listfile.rs parse_listfile
//@opts ret=r hoist=filter_map:vp_line
//@subst std::str::from_utf8(data) ==> vp_from_utf8(data)
//@subst s.to_string() ==> vp_to_string(s)
//@subst String::from_utf8_lossy(data).into_owned() ==> vp_from_utf8_lossy(data)
//@subst content.lines().filter_map(vp_line).collect() ==> vp_lines_filter_map(vp_as_str(&content))
//@spec
    ensures r is Ok && strs(r->Ok_0@) == parsed(text_of(data@))
//@end
// ---------- the generated list ----------
//@extract mopaq/src/builder.rs struct:PendingFile
//@end
//@extract mopaq/src/builder.rs enum:FileSource
//@end
//@extract mopaq/src/builder.rs enum:ListfileOption
//@end
pub struct ArchiveBuilder { pub pending_files: Vec<PendingFile>, pub listfile_option: ListfileOption, pub default_compression: u8 }
pub open spec fn added(p: Seq<PendingFile>) -> Seq<Seq<char>> { Seq::new(p.len(), |i: int| p[i].archive_name@) }
/// a file that holds d under the list's name, unencrypted
pub open spec fn list_file(f: PendingFile, d: Seq<u8>) -> bool { f.source is Data && f.source->Data_0@ == d && f.archive_name@ == list_name() && !f.encrypt && !f.use_fix_key && f.locale == 0 }
pub open spec fn list_bytes(o: ListfileOption, n: Seq<Seq<char>>) -> Seq<u8> { if o is Generate { utf8(generated(n)) } else { file_content(o->External_0) } }
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::prepare_listfile
//@opts ret=r loops=1
//@subst content.push_str( ==> vp_push_str(&mut content,
//@subst content.push( ==> vp_push(&mut content,
//@subst &file.archive_name ==> vp_as_str(&file.archive_name)
//@subst String::new() ==> vp_new_string()
//@subst content.into_bytes() ==> vp_into_bytes(content)
//@subst "(listfile)".to_string() ==> vp_to_string("(listfile)")
//@subst fs::read(path)? ==> vp_fs_read(path)?
//@spec
    ensures
        old(self).listfile_option is None ==> r is Ok && final(self).pending_files@ == old(self).pending_files@,
        r is Ok ==> final(self).listfile_option == old(self).listfile_option && final(self).default_compression == old(self).default_compression,
        r is Ok && !(old(self).listfile_option is None) ==> ({ let n = old(self).pending_files@.len() as int;
            final(self).pending_files@.len() == n + 1 && (forall|i: int| 0 <= i < n ==> #[trigger] final(self).pending_files@[i] == old(self).pending_files@[i])
            && list_file(final(self).pending_files@[n], list_bytes(old(self).listfile_option, added(old(self).pending_files@))) }),
//@body-start
    proof { lemma_list_literal(); }
    let ghost p0 = self.pending_files@;
//@loop 0
    invariant vp_s0@ == p0, content@ == joined(added(p0).take(vp_i0 as int)),
//@loop-end 0
    proof { assert(added(p0).take(vp_i0 + 1).drop_last() =~= added(p0).take(vp_i0 as int)); assert(content@ =~= joined(added(p0).take(vp_i0 + 1))); }
//@loop-after 0
    proof { assert(added(p0).take(p0.len() as int) =~= added(p0)); }
//@end
}
/// a name the list can hold: no line end, no semicolon, no blank at either end, no comment sign in front
pub open spec fn plain(n: Seq<char>) -> bool { n.len() > 0 && trim(n) == n && n[0] != '#' && !n.contains(';') && !n.contains('\n') && !n.contains('\r') }
pub proof fn lemma_list_trim() ensures trim(list_name()) == list_name() { reveal_strlit("(listfile)"); ax_ws(); assert(list_name().last() == ')'); assert(trim_l(list_name()) == list_name()); }
/// the position of the first line end
pub proof fn lemma_first_at(s: Seq<char>, c: char, k: int) requires 0 <= k < s.len(), s[k] == c, forall|i: int| 0 <= i < k ==> s[i] != c ensures first(s, c) == k
{ lemma_first(s, c); if first(s, c) < k { } else if first(s, c) > k { assert(s[k] != c); } }
pub proof fn lemma_joined_front(n: Seq<Seq<char>>) requires n.len() > 0 ensures joined(n) == n[0] + crlf() + joined(n.skip(1)) decreases n.len()
{
    if n.len() == 1 { assert(n.drop_last() =~= Seq::<Seq<char>>::empty()); assert(n.skip(1) =~= Seq::<Seq<char>>::empty()); assert(joined(n) =~= n[0] + crlf() + joined(n.skip(1))); }
    else {
        lemma_joined_front(n.drop_last());
        assert(n.drop_last().skip(1) =~= n.skip(1).drop_last());
        assert(n.skip(1).last() == n.last());
        assert(joined(n) =~= n[0] + crlf() + joined(n.skip(1)));
    }
}
pub proof fn lemma_joined_lines(n: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < n.len() ==> plain(#[trigger] n[i])
    ensures lines(joined(n)) == n
    decreases n.len()
{
    if n.len() == 0 { assert(lines(joined(n)) =~= n); }
    else {
        lemma_joined_front(n);
        let s = joined(n); let k = n[0].len() as int; let rest = joined(n.skip(1));
        assert(plain(n[0]));
        assert forall|i: int| 0 <= i < k + 1 implies s[i] != '\n' by { if i < k { assert(s[i] == n[0][i]); assert(n[0].contains(n[0][i])); } else { assert(s[i] == '\r'); } }
        assert(s[k + 1] == '\n');
        lemma_first_at(s, '\n', k + 1);
        assert(s.take(k + 1) =~= n[0].push('\r'));
        assert(strip_cr(s.take(k + 1)) =~= n[0]);
        assert(s.skip(k + 2) =~= rest);
        assert forall|i: int| 0 <= i < n.skip(1).len() implies plain(#[trigger] n.skip(1)[i]) by { assert(plain(n[i + 1])); }
        lemma_joined_lines(n.skip(1));
        assert(seq![n[0]] + n.skip(1) =~= n);
        assert(lines(s) == seq![strip_cr(s.take(k + 1))] + lines(s.skip(k + 2)));
    }
}
pub proof fn lemma_plain_names(n: Seq<Seq<char>>, k: int)
    requires forall|i: int| 0 <= i < n.len() ==> plain(#[trigger] n[i]), 0 <= k <= n.len()
    ensures names_of(n, k) == n.take(k)
    decreases k
{
    if k == 0 { assert(n.take(0) =~= Seq::<Seq<char>>::empty()); }
    else {
        lemma_plain_names(n, k - 1);
        let l = n[k - 1];
        assert(plain(l));
        lemma_first(l, ';');
        if first(l, ';') < l.len() { assert(l.contains(l[first(l, ';')])); }
        assert(l[0] != ';') by { assert(l.contains(l[0])); }
        assert(line_name(l) == Some(l));
        assert(n.take(k) =~= n.take(k - 1).push(l));
    }
}
/// the generated list reads back as the names and its own
pub proof fn thm_listfile(n: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < n.len() ==> plain(#[trigger] n[i])
    ensures parsed(text_of(utf8(generated(n)))) == n.push(list_name())
{
    broadcast use ax_utf8;
    let m = n.push(list_name());
    assert(plain(list_name())) by { reveal_strlit("(listfile)"); lemma_list_trim(); }
    assert(joined(m) =~= generated(n)) by { assert(m.drop_last() =~= n); }
    lemma_joined_lines(m);
    assert(lines(joined(m)) == m);
    lemma_plain_names(m, m.len() as int);
    assert(m.take(m.len() as int) =~= m);
}
// ---------- listing ----------
pub open spec fn live(e: HashEntry) -> bool { e.block_index != 0xFFFF_FFFF && e.block_index != 0xFFFF_FFFE }
pub open spec fn exists_flag(f: u32) -> bool { f & 0x8000_0000 != 0 }
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
//@extract mopaq/src/archive.rs struct:FileEntry
//@end
impl HashEntry {
//@extract mopaq/src/tables/hash.rs assoc:HashEntry::EMPTY_NEVER_USED
//@end
//@extract mopaq/src/tables/hash.rs assoc:HashEntry::EMPTY_DELETED
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_empty
//@opts ret=r
//@spec
    ensures r == (self.block_index == 0xFFFF_FFFF)
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_deleted
//@opts ret=r
//@spec
    ensures r == (self.block_index == 0xFFFF_FFFE)
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_valid
//@opts ret=r
//@spec
    ensures r == live(*self)
//@end
}
impl HashTable {
//@extract mopaq/src/tables/hash.rs HashTable::entries
//@opts ret=r
//@spec
    ensures r@ == self.entries@
//@end
}
impl BlockEntry {
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_EXISTS
//@end
//@extract mopaq/src/tables/block.rs BlockEntry::exists
//@opts ret=r
//@spec
    ensures r == exists_flag(self.flags)
//@end
}
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::get
//@opts ret=r
//@spec
    ensures r == (if index < self.entries@.len() { Some(&self.entries@[index as int]) } else { None })
//@end
}
pub mod tables { pub use super::BlockEntry; }
pub mod special_files { pub use super::parse_listfile; }
pub struct HetHeader { pub max_file_count: u32 }
pub struct HetTable { pub header: HetHeader }
pub struct BetHeader { pub file_count: u32 }
pub struct BetTable { pub header: BetHeader }
pub struct BetFileInfo { pub file_pos: u64, pub file_size: u64, pub compressed_size: u64, pub flags: u32 }
/// what the extended block table reports for a file (units bits, bet: C08)
pub uninterp spec fn info_of(b: BetTable, i: u32) -> Option<BetFileInfo>;
impl BetTable { #[verifier::external_body] pub fn get_file_info(&self, i: u32) -> (r: Option<BetFileInfo>) ensures r == info_of(*self, i) { unimplemented!() } }
/// environment: format!("file_{:08}.dat", i)
pub uninterp spec fn anon(i: int) -> Seq<char>;
pub trait VpIdx: Sized { spec fn ix(self) -> int; }
impl VpIdx for u32 { open spec fn ix(self) -> int { self as int } }
impl VpIdx for usize { open spec fn ix(self) -> int { self as int } }
#[verifier::external_body] pub fn vp_anon<T: VpIdx>(i: T) -> (r: String) ensures r@ == anon(i.ix()) { unimplemented!() }
#[verifier::external_body] pub fn vp_anon32(i: u32) -> (r: String) ensures r@ == anon(i as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_anon64(i: usize) -> (r: String) ensures r@ == anon(i as int) { unimplemented!() }
/// std::collections::HashSet<usize>
#[verifier::external_body] pub struct VpSeen { s: std::collections::HashSet<usize> }
impl VpSeen {
    pub uninterp spec fn view(&self) -> Set<usize>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
}
/// what an enumeration reports about one file
pub struct Rec { pub name: Seq<char>, pub size: int, pub csize: int, pub flags: u32, pub hashes: Option<(u32, u32)> }
pub open spec fn rec(e: FileEntry) -> Rec { Rec { name: e.name@, size: e.size as int, csize: e.compressed_size as int, flags: e.flags, hashes: e.hashes } }
pub open spec fn recs(v: Seq<FileEntry>) -> Seq<Rec> { Seq::new(v.len(), |i: int| rec(v[i])) }
/// environment: entries.sort_by(|a, b| a.name.cmp(&b.name))
#[verifier::external_body] pub fn vp_sort_entries(v: &mut Vec<FileEntry>) ensures recs(final(v)@).to_multiset() == recs(old(v)@).to_multiset() { unimplemented!() }
/// the files among the first k of the extended block table that exist, in order
pub open spec fn bet_files(b: BetTable, k: int) -> Seq<Rec> decreases k {
    if k <= 0 { Seq::empty() } else { let p = bet_files(b, k - 1); let x = info_of(b, (k - 1) as u32);
        if x is Some && exists_flag((x->0).flags) { p.push(Rec { name: anon(k - 1), size: (x->0).file_size as int, csize: (x->0).compressed_size as int, flags: (x->0).flags, hashes: None }) } else { p } }
}
/// block b belongs to one of the first k hash entries
pub open spec fn seen(h: Seq<HashEntry>, k: int, b: int) -> bool { exists|j: int| 0 <= j < k && live(#[trigger] h[j]) && h[j].block_index == b }
/// the hash entries among the first k that name an existing block nobody named before
pub open spec fn firsts(h: Seq<HashEntry>, t: Seq<BlockEntry>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { let p = firsts(h, t, k - 1); let e = h[k - 1];
        if live(e) && !seen(h, k - 1, e.block_index as int) && e.block_index < t.len() && exists_flag(t[e.block_index as int].flags) { p.push(k - 1) } else { p } }
}
pub open spec fn block_rec(h: Seq<HashEntry>, t: Seq<BlockEntry>, j: int, w: bool) -> Rec {
    let e = h[j]; let b = t[e.block_index as int];
    Rec { name: anon(e.block_index as int), size: b.file_size as int, csize: b.compressed_size as int, flags: b.flags, hashes: if w { Some((e.name_1, e.name_2)) } else { None } }
}
pub open spec fn block_recs(h: Seq<HashEntry>, t: Seq<BlockEntry>, k: int, w: bool) -> Seq<Rec> { let f = firsts(h, t, k); Seq::new(f.len(), |i: int| block_rec(h, t, f[i], w)) }
pub open spec fn by_bet(a: Archive) -> bool { a.het_table is Some && a.bet_table is Some && (a.het_table->0).header.max_file_count > 0 && (a.bet_table->0).header.file_count > 0 && bet_files(a.bet_table->0, (a.bet_table->0).header.file_count as int).len() > 0 }
/// what enumerating the tables gives
pub open spec fn enumerates(a: Archive, r: Result<Vec<FileEntry>>, w: bool) -> bool {
    if by_bet(a) { r is Ok && recs(r->Ok_0@) == bet_files(a.bet_table->0, (a.bet_table->0).header.file_count as int) }
    else if a.hash_table is None || a.block_table is None { r is Err }
    else { let h = (a.hash_table->0).entries@; let t = (a.block_table->0).entries@; r is Ok && recs(r->Ok_0@).to_multiset() == block_recs(h, t, h.len() as int, w).to_multiset() }
}
/// without a list of names: every hash entry of an existing block, under its own index
pub open spec fn slots(h: Seq<HashEntry>, t: Seq<BlockEntry>, k: int) -> Seq<Rec> decreases k {
    if k <= 0 { Seq::empty() } else { let p = slots(h, t, k - 1); let e = h[k - 1]; let b = t[e.block_index as int];
        if live(e) && e.block_index < t.len() && exists_flag(b.flags) { p.push(Rec { name: anon(k - 1), size: b.file_size as int, csize: b.compressed_size as int, flags: b.flags, hashes: None }) } else { p } }
}
pub open spec fn unnamed(a: Archive, r: Result<Vec<FileEntry>>) -> bool {
    if by_bet(a) { r is Ok && recs(r->Ok_0@) == bet_files(a.bet_table->0, (a.bet_table->0).header.file_count as int) }
    else if a.hash_table is None || a.block_table is None { r is Err }
    else { let h = (a.hash_table->0).entries@; r is Ok && recs(r->Ok_0@) == slots(h, (a.block_table->0).entries@, h.len() as int) }
}
pub proof fn lemma_seen(h: Seq<HashEntry>, k: int, b: int) requires 0 <= k < h.len() ensures seen(h, k + 1, b) == (seen(h, k, b) || (live(h[k]) && h[k].block_index == b))
{ if seen(h, k + 1, b) { let j = choose|j: int| 0 <= j < k + 1 && live(#[trigger] h[j]) && h[j].block_index == b; } if seen(h, k, b) { let j = choose|j: int| 0 <= j < k && live(#[trigger] h[j]) && h[j].block_index == b; assert(live(h[j])); } if live(h[k]) && h[k].block_index == b { assert(live(h[k])); } }
pub proof fn lemma_step(h: Seq<HashEntry>, t: Seq<BlockEntry>, k: int, w: bool) requires 0 <= k < h.len()
    ensures block_recs(h, t, k + 1, w) == (if live(h[k]) && !seen(h, k, h[k].block_index as int) && h[k].block_index < t.len() && exists_flag(t[h[k].block_index as int].flags) { block_recs(h, t, k, w).push(block_rec(h, t, k, w)) } else { block_recs(h, t, k, w) })
{ let f = firsts(h, t, k); let g = firsts(h, t, k + 1); if g.len() > f.len() { assert(block_recs(h, t, k + 1, w) =~= block_recs(h, t, k, w).push(block_rec(h, t, k, w))); } }
/// every existing block some hash entry names is enumerated exactly once
pub proof fn thm_each_once(h: Seq<HashEntry>, t: Seq<BlockEntry>, k: int)
    requires 0 <= k <= h.len()
    ensures
        forall|i: int| 0 <= i < firsts(h, t, k).len() ==> 0 <= #[trigger] firsts(h, t, k)[i] < k && live(h[firsts(h, t, k)[i]]) && h[firsts(h, t, k)[i]].block_index < t.len() && exists_flag(t[h[firsts(h, t, k)[i]].block_index as int].flags),
        forall|i: int, j: int| 0 <= i < j < firsts(h, t, k).len() ==> h[#[trigger] firsts(h, t, k)[i]].block_index != h[#[trigger] firsts(h, t, k)[j]].block_index,
        forall|b: int| 0 <= b < t.len() && exists_flag(t[b].flags) && #[trigger] seen(h, k, b) ==> exists|i: int| 0 <= i < firsts(h, t, k).len() && h[#[trigger] firsts(h, t, k)[i]].block_index == b,
    decreases k
{
    if k > 0 {
        thm_each_once(h, t, k - 1);
        let p = firsts(h, t, k - 1); let f = firsts(h, t, k);
        assert forall|b: int| 0 <= b < t.len() && exists_flag(t[b].flags) && #[trigger] seen(h, k, b) implies exists|i: int| 0 <= i < f.len() && h[#[trigger] f[i]].block_index == b by {
            lemma_seen(h, k - 1, b);
            if seen(h, k - 1, b) { let i = choose|i: int| 0 <= i < p.len() && h[#[trigger] p[i]].block_index == b; assert(f[i] == p[i]); }
            else { assert(f[f.len() - 1] == k - 1); }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies h[#[trigger] f[i]].block_index != h[#[trigger] f[j]].block_index by {
            if j < p.len() { assert(f[i] == p[i] && f[j] == p[j]); } else { assert(f[i] == p[i]); assert(live(h[p[i]])); }
        }
        assert forall|i: int| 0 <= i < f.len() implies 0 <= #[trigger] f[i] < k && live(h[f[i]]) && h[f[i]].block_index < t.len() && exists_flag(t[h[f[i]].block_index as int].flags) by { if i < p.len() { assert(f[i] == p[i]); } }
    } else { assert forall|b: int| 0 <= b < t.len() && exists_flag(t[b].flags) && #[trigger] seen(h, k, b) implies false by {} }
}
/// the archive's contents: the bytes of its file and the tables loaded from it; the reader's position does not matter
pub struct Archive { pub vp_data: Ghost<int>, pub vp_pos: u64, pub hash_table: Option<HashTable>, pub block_table: Option<BlockTable>, pub het_table: Option<HetTable>, pub bet_table: Option<BetTable> }
/// the hash of a name (unit hash, C03)
pub uninterp spec fn name_hash(n: Seq<char>, t: u32) -> u32;
#[verifier::external_body] pub fn vp_hash(n: &String, t: u32) -> (r: u32) ensures r == name_hash(n@, t) { unimplemented!() }
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
/// environment: entry.hashes = h through iteration over &mut entries
#[verifier::external_body] pub fn vp_set_hashes(v: &mut Vec<FileEntry>, i: usize, h: Option<(u32, u32)>) requires i < old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> #[trigger] final(v)@[j] == old(v)@[j],
        final(v)@[i as int].hashes == h, ({ let a = final(v)@[i as int]; let b = old(v)@[i as int]; a.name == b.name && a.size == b.size && a.compressed_size == b.compressed_size && a.flags == b.flags }) { unimplemented!() }
/// the first k entries carry both hashes of their names
pub open spec fn hashed(v: Seq<FileEntry>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).hashes == Some((name_hash(v[i].name@, 1), name_hash(v[i].name@, 2))) }
pub struct Loc { pub size: u64, pub csize: u64, pub flags: u32 }
/// where a name is found, and what reading it gives (units fread, tables)
pub uninterp spec fn locate_in(d: int, h: Option<HashTable>, b: Option<BlockTable>, e: Option<HetTable>, t: Option<BetTable>, n: Seq<char>) -> Result<Option<Loc>>;
pub uninterp spec fn content_in(d: int, h: Option<HashTable>, b: Option<BlockTable>, e: Option<HetTable>, t: Option<BetTable>, n: Seq<char>) -> Result<Seq<u8>>;
pub open spec fn locate(a: Archive, n: Seq<char>) -> Result<Option<Loc>> { locate_in(a.vp_data@, a.hash_table, a.block_table, a.het_table, a.bet_table, n) }
pub open spec fn content(a: Archive, n: Seq<char>) -> Result<Seq<u8>> { content_in(a.vp_data@, a.hash_table, a.block_table, a.het_table, a.bet_table, n) }
pub open spec fn same(a: Archive, b: Archive) -> bool { a.vp_data == b.vp_data && a.hash_table == b.hash_table && a.block_table == b.block_table && a.het_table == b.het_table && a.bet_table == b.bet_table }
pub open spec fn there(a: Archive, n: Seq<char>) -> bool { locate(a, n) is Ok && locate(a, n)->Ok_0 is Some }
/// those of the first k names that are in the archive
pub open spec fn present(a: Archive, n: Seq<Seq<char>>, k: int) -> Seq<Seq<char>> decreases k { if k <= 0 { Seq::empty() } else if there(a, n[k - 1]) { present(a, n, k - 1).push(n[k - 1]) } else { present(a, n, k - 1) } }
pub open spec fn entry_ok(a: Archive, e: FileEntry) -> bool { let l = locate(a, e.name@)->Ok_0->0; there(a, e.name@) && e.size == l.size && e.compressed_size == l.csize && e.flags == l.flags }
pub open spec fn listed(a: Archive, es: Seq<FileEntry>, n: Seq<Seq<char>>) -> bool { es.len() == n.len() && forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).name@ == n[i] && entry_ok(a, es[i]) }
impl Archive {
    #[verifier::external_body]
    pub fn find_file(&self, filename: &str) -> (r: Result<Option<FileInfo>>)
        ensures ({ let c = locate(*self, filename@); r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some) && (r->Ok_0 is Some ==> (r->Ok_0->0).file_size == (c->Ok_0->0).size && (r->Ok_0->0).compressed_size == (c->Ok_0->0).csize && (r->Ok_0->0).flags == (c->Ok_0->0).flags)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_file(&mut self, name: &str) -> (r: Result<Vec<u8>>)
        ensures same(*old(self), *final(self)), r is Ok ==> content(*old(self), name@) is Ok && r->Ok_0@ == content(*old(self), name@)->Ok_0,
    { unimplemented!() }
//@extract mopaq/src/archive.rs Archive::list
//@opts ret=r
//@subst self.find_file(&filename)? ==> self.find_file(vp_as_str(&filename))?
//@subst name: filename, ==> name: vp_to_string(vp_as_str(&filename)),
//@subst format!("file_{:08}.dat", i) ==> vp_anon(i)
//@subst crate::tables:: ==> tables::
//@spec
    ensures same(*old(self), *final(self)), locate(*old(self), list_name()) is Err ==> r is Err,
        r is Ok && there(*old(self), list_name()) ==> content(*old(self), list_name()) is Ok && ({ let n = parsed(text_of(content(*old(self), list_name())->Ok_0)); listed(*old(self), r->Ok_0@, present(*old(self), n, n.len() as int)) }),
        locate(*old(self), list_name()) is Ok && !there(*old(self), list_name()) ==> unnamed(*old(self), r),
//@body-start
    let ghost a0 = *old(self);
//@loop 0
    invariant same(a0, *self), a0 == *old(self), there(a0, list_name()), content(a0, list_name()) is Ok, strs(vp_s0@) == parsed(text_of(content(a0, list_name())->Ok_0)),
        listed(a0, entries@, present(a0, strs(vp_s0@), vp_i0 as int)),
//@loop-start 0
    proof { assert(strs(vp_s0@)[vp_i0 as int] == vp_s0@[vp_i0 as int]@); }
//@loop 1
    invariant *self == *old(self), recs(entries@) =~= bet_files(*bet, i as int)
//@loop 2
    invariant *self == *old(self), *block_table == self.block_table->0, vp_s2@ == (self.hash_table->0).entries@, recs(entries@) =~= slots(vp_s2@, block_table.entries@, i as int)
//@end
//@extract mopaq/src/archive.rs Archive::list_all
//@opts ret=r while=1
//@subst format!("file_{:08}.dat", i) ==> vp_anon32(i)
//@subst format!("file_{:08}.dat", block_index) ==> vp_anon64(block_index)
//@subst std::collections::HashSet::new() ==> VpSeen::new()
//@subst entries.sort_by(|a, b| a.name.cmp(&b.name)) ==> vp_sort_entries(&mut entries)
//@subst crate::tables:: ==> tables::
//@spec
    ensures same(*old(self), *final(self)), enumerates(*old(self), r, false)
//@loop 0
    invariant *self == *old(self), recs(entries@) =~= bet_files(*bet, i as int)
//@loop 1
    invariant *self == *old(self), *block_table == self.block_table->0, vp_i1 <= vp_s1@.len(), vp_s1@ == (self.hash_table->0).entries@, recs(entries@) =~= block_recs(vp_s1@, block_table.entries@, vp_i1 as int, false),
        forall|b: usize| block_indices_seen@.contains(b) <==> #[trigger] seen(vp_s1@, vp_i1 as int, b as int)
    decreases vp_s1@.len() - vp_i1
//@loop-start 1
    proof { lemma_step(vp_s1@, block_table.entries@, vp_i1 as int, false); assert forall|b: int| true implies #[trigger] seen(vp_s1@, vp_i1 + 1, b) == (seen(vp_s1@, vp_i1 as int, b) || (live(vp_s1@[vp_i1 as int]) && vp_s1@[vp_i1 as int].block_index == b)) by { lemma_seen(vp_s1@, vp_i1 as int, b); } }
//@end
//@extract mopaq/src/archive.rs Archive::list_all_with_hashes
//@opts ret=r while=1
//@subst format!("file_{:08}.dat", i) ==> vp_anon32(i)
//@subst format!("file_{:08}.dat", block_index) ==> vp_anon64(block_index)
//@subst std::collections::HashSet::new() ==> VpSeen::new()
//@subst entries.sort_by(|a, b| a.name.cmp(&b.name)) ==> vp_sort_entries(&mut entries)
//@subst crate::tables:: ==> tables::
//@spec
    ensures same(*old(self), *final(self)), enumerates(*old(self), r, true)
//@loop 0
    invariant *self == *old(self), recs(entries@) =~= bet_files(*bet, i as int)
//@loop 1
    invariant *self == *old(self), *block_table == self.block_table->0, vp_i1 <= vp_s1@.len(), vp_s1@ == (self.hash_table->0).entries@, recs(entries@) =~= block_recs(vp_s1@, block_table.entries@, vp_i1 as int, true),
        forall|b: usize| block_indices_seen@.contains(b) <==> #[trigger] seen(vp_s1@, vp_i1 as int, b as int)
    decreases vp_s1@.len() - vp_i1
//@loop-start 1
    proof { lemma_step(vp_s1@, block_table.entries@, vp_i1 as int, true); assert forall|b: int| true implies #[trigger] seen(vp_s1@, vp_i1 + 1, b) == (seen(vp_s1@, vp_i1 as int, b) || (live(vp_s1@[vp_i1 as int]) && vp_s1@[vp_i1 as int].block_index == b)) by { lemma_seen(vp_s1@, vp_i1 as int, b); } }
//@end
//@extract mopaq/src/archive.rs Archive::list_with_hashes
//@opts ret=r
//@subst let vp_s0 = &mut entries; ==> let vp_n0 = entries.len();
//@subst for vp_i0 in 0..vp_s0.len() ==> for vp_i0 in 0..vp_n0
//@subst let entry = &vp_s0[vp_i0]; ==> let entry = &entries[vp_i0];
//@subst entry.hashes = Some((hash1, hash2)); ==> vp_set_hashes(&mut entries, vp_i0, Some((hash1, hash2)));
//@subst crate::crypto::hash_string(&entry.name, ==> vp_hash(&entry.name,
//@subst crate::crypto::hash_type:: ==> hash_type::
//@spec
    ensures same(*old(self), *final(self)), locate(*old(self), list_name()) is Err ==> r is Err,
        r is Ok ==> hashed(r->Ok_0@, r->Ok_0@.len() as int),
        r is Ok && there(*old(self), list_name()) ==> content(*old(self), list_name()) is Ok && ({ let n = parsed(text_of(content(*old(self), list_name())->Ok_0)); listed(*old(self), r->Ok_0@, present(*old(self), n, n.len() as int)) }),
//@loop 0
    invariant vp_n0 == entries@.len(), hashed(entries@, vp_i0 as int), same(*old(self), *self),
        there(*old(self), list_name()) ==> content(*old(self), list_name()) is Ok && ({ let n = parsed(text_of(content(*old(self), list_name())->Ok_0)); listed(*old(self), entries@, present(*old(self), n, n.len() as int)) }),
//@end
}
/// an archive built with the generated list lists each added name once, in order, with the list itself last
pub proof fn thm_list_all(a: Archive, n: Seq<Seq<char>>, es: Seq<FileEntry>)
    requires forall|i: int| 0 <= i < n.len() ==> plain(#[trigger] n[i]) && there(a, n[i]), there(a, list_name()),
        content(a, list_name()) == Ok::<Seq<u8>, Error>(utf8(generated(n))),
        ({ let m = parsed(text_of(content(a, list_name())->Ok_0)); listed(a, es, present(a, m, m.len() as int)) }),
    ensures es.len() == n.len() + 1, forall|i: int| 0 <= i < n.len() ==> (#[trigger] es[i]).name@ == n[i], es[n.len() as int].name@ == list_name(), forall|i: int| 0 <= i < es.len() ==> entry_ok(a, #[trigger] es[i])
{
    thm_listfile(n);
    let m = n.push(list_name());
    lemma_present(a, m, m.len() as int);
    assert(m.take(m.len() as int) =~= m);
}
pub proof fn lemma_present(a: Archive, n: Seq<Seq<char>>, k: int) requires 0 <= k <= n.len(), forall|i: int| 0 <= i < n.len() ==> there(a, #[trigger] n[i]) ensures present(a, n, k) == n.take(k) decreases k
{ if k == 0 { assert(n.take(0) =~= Seq::<Seq<char>>::empty()); } else { lemma_present(a, n, k - 1); assert(there(a, n[k - 1])); assert(n.take(k) =~= n.take(k - 1).push(n[k - 1])); } }
fn main() {}
}
