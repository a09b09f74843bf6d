//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_wle.rs
//@include inc_files.rs
//@include inc_htable.rs
//@include inc_loc.rs
//@include inc_tser.rs
//@include inc_hdr.rs
//@include inc_hdrt.rs
//@include inc_whole.rs
//@include inc_locate.rs
verus! {
pub uninterp spec fn md5(b: Seq<u8>) -> Seq<u8>;
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
//@extract mopaq/src/tables/block.rs struct:HiBlockTable
//@end
// ---------- the functions below (contracts proved in the units named) ----------
pub mod header {
    use super::*;
    pub use super::FormatVersion;
    /// proved in unit header (C09)
    #[verifier::external_body] pub fn find_header<R: Read + Seek>(reader: &mut R) -> (r: Result<(u64, Option<UserDataHeader>, MpqHeader)>)
        requires !old(reader).faulty(), len_ok(old(reader).bytes().len() as int)
        ensures final(reader).bytes() == old(reader).bytes(), !final(reader).faulty(),
            r is Ok ==> exists|o: int| #[trigger] skipped(old(reader).bytes(), o) && found(old(reader).bytes(), o, r->Ok_0),
            r is Err ==> forall|o: int| 0 <= o < old(reader).bytes().len() && o % 512 == 0 && #[trigger] skipped(old(reader).bytes(), o) ==> !offered(old(reader).bytes(), o),
    { unimplemented!() }
}
impl HashTable {
    /// proved in unit tables (C10)
    #[verifier::external_body] pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> (r: Result<HashTable>)
        ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
            r is Ok ==> r->Ok_0.entries@.len() == size && hash_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
            r is Ok ==> pow2(size as int), !old(reader).faulty() && pow2(size as int) && offset + 16 * size <= old(reader).bytes().len() ==> r is Ok,
    { unimplemented!() }
}
impl BlockTable {
    /// proved in unit tables (C10)
    #[verifier::external_body] pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> (r: Result<BlockTable>)
        ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
            r is Ok ==> r->Ok_0.entries@.len() == size && block_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
            !old(reader).faulty() && offset + 16 * size <= old(reader).bytes().len() ==> r is Ok,
    { unimplemented!() }
//@extract mopaq/src/tables/block.rs BlockTable::entries
//@opts ret=r
//@spec
    ensures r@ == self.entries@
//@end
}
impl HiBlockTable {
    /// proved in unit tables (C10)
    #[verifier::external_body] pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> (r: Result<HiBlockTable>)
        ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
            r is Ok ==> hi_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
            !old(reader).faulty() && offset + 2 * size <= old(reader).bytes().len() ==> r is Ok,
    { unimplemented!() }
}
impl HetTable {
    /// unit ext (C16); which table comes out does not matter here
    #[verifier::external_body] pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, compressed_size: u64, key: u32) -> (r: Result<HetTable>)
        requires small(old(reader).bytes().len() as int)
        ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty() { unimplemented!() }
}
/// b is the table read from these bytes (unit ext: bet_in)
pub uninterp spec fn bet_read(raw: Seq<u8>, key: u32, b: BetTable) -> bool;
impl BetTable {
    /// proved in unit ext (C08, C16)
    #[verifier::external_body] pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, compressed_size: u64, key: u32) -> (r: Result<BetTable>)
        requires small(old(reader).bytes().len() as int)
        ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
            r is Ok ==> offset + compressed_size <= old(reader).bytes().len() && bet_read(old(reader).bytes().subrange(offset as int, offset + compressed_size), key, r->Ok_0)
    { unimplemented!() }
}
impl Attributes {
    /// unit attrs (C15)
    #[verifier::external_body] pub fn parse(data: &Vec<u8>, block_count: usize) -> (r: Result<Attributes>) requires block_count <= u32::MAX { unimplemented!() }
}
pub mod special_files { pub use super::Attributes; }
pub mod compression {
    use super::*;
    /// unit comp (C06)
    #[verifier::external_body] pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> (r: Result<Vec<u8>>) requires small(data@.len() as int), small(decompressed_size as int) { unimplemented!() }
}
/// the bounds check of s[a..]; no buffer holds 2^56 bytes
#[verifier::external_body] pub fn vp_tail<'a>(s: &'a Vec<u8>, a: usize) -> (r: &'a [u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int), small(r@.len() as int) { unimplemented!() }
/// environment: Option::as_ref().map(field).unwrap_or(0)
pub fn vp_het_size(v: &Option<MpqHeaderV4Data>) -> (r: u64) ensures r == (if v is Some { (v->0).het_table_size_64 } else { 0 }) { match v { Some(x) => x.het_table_size_64, None => 0 } }
pub fn vp_bet_size(v: &Option<MpqHeaderV4Data>) -> (r: u64) ensures r == (if v is Some { (v->0).bet_table_size_64 } else { 0 }) { match v { Some(x) => x.bet_table_size_64, None => 0 } }
impl MpqHeader {
//@extract mopaq/src/header.rs MpqHeader::get_hash_table_pos
//@opts ret=r
//@spec
    ensures r == hpos(*self), r < 0x1_0000_0000_0000
//@body-start
    proof { lemma_hi32(self.hash_table_pos, if self.hash_table_pos_hi is Some { self.hash_table_pos_hi->0 } else { 0 }); }
//@end
//@extract mopaq/src/header.rs MpqHeader::get_block_table_pos
//@opts ret=r
//@spec
    ensures r == bpos(*self), r < 0x1_0000_0000_0000
//@body-start
    proof { lemma_hi32(self.block_table_pos, if self.block_table_pos_hi is Some { self.block_table_pos_hi->0 } else { 0 }); }
//@end
}
// ---------- specification: what opening an archive delivers ----------
pub open spec fn hpos(h: MpqHeader) -> int { (if h.hash_table_pos_hi is Some { h.hash_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.hash_table_pos }
pub open spec fn bpos(h: MpqHeader) -> int { (if h.block_table_pos_hi is Some { h.block_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.block_table_pos }
pub open spec fn sat(a: int) -> int { if a <= u64::MAX { a } else { u64::MAX as int } }
pub open spec fn has_hi(h: MpqHeader) -> bool { h.hi_block_table_pos is Some && h.hi_block_table_pos->0 != 0 }
/// what every archive value satisfies
pub open spec fn wf<R: VpMedium>(a: Archive<R>) -> bool { small(a.archive_offset as int) && small(a.reader.bytes().len() as int) && hwf(a.hash_table) && (a.block_table is Some ==> (a.block_table->0).entries@.len() <= u32::MAX) }
/// the classic tables are those the header points to; a: before, b: after
pub open spec fn tabled<R: VpMedium>(a: Archive<R>, b: Archive<R>) -> bool {
    let d = b.reader.bytes(); let h = b.header; let o = b.archive_offset as int;
    &&& if use_ext(b) && h.hash_table_size == 0 { b.hash_table == a.hash_table && b.block_table == a.block_table } else {
            b.hash_table is Some && b.block_table is Some && pow2(h.hash_table_size as int) && hash_read(d, o + hpos(h), h.hash_table_size as int, (b.hash_table->0).entries@)
            && block_read(d, o + bpos(h), h.block_table_size as int, (b.block_table->0).entries@) }
    &&& if has_hi(h) { b.hi_block_table is Some && hi_read(d, sat(o + h.hi_block_table_pos->0), h.block_table_size as int, (b.hi_block_table->0).entries@) } else { b.hi_block_table == a.hi_block_table }
    &&& vnum(h.format_version) < 2 ==> b.het_table == a.het_table && b.bet_table == a.bet_table
    &&& a.bet_table is None && b.bet_table is Some ==> bet_loaded(d, o, h, b.bet_table->0)
}
pub open spec fn block_key() -> u32 { mpq_hash("(block table)".spec_bytes(), 3) }
/// the length of the extended block table: as recorded, or up to the hash table
pub open spec fn bet_len(h: MpqHeader) -> int {
    let n = if h.v4_data is Some { (h.v4_data->0).bet_table_size_64 as int } else { 0 };
    if n == 0 && h.format_version == FormatVersion::V3 { if hpos(h) >= h.bet_table_pos->0 { hpos(h) - h.bet_table_pos->0 } else { 0 } } else { n }
}
/// the extended block table is the one the header points to
pub open spec fn bet_loaded(d: Seq<u8>, o: int, h: MpqHeader, b: BetTable) -> bool {
    let at = sat(o + h.bet_table_pos->0); let n = bet_len(h);
    h.bet_table_pos is Some && at + n <= d.len() && bet_read(d.subrange(at, at + n), block_key(), b)
}
/// the tables the header names lie inside the file
pub open spec fn tables_there<R: VpMedium>(a: Archive<R>) -> bool {
    let d = a.reader.bytes(); let h = a.header; let o = a.archive_offset as int;
    pow2(h.hash_table_size as int) && o + hpos(h) + 16 * h.hash_table_size <= d.len() && o + bpos(h) + 16 * h.block_table_size <= d.len() && (has_hi(h) ==> sat(o + h.hi_block_table_pos->0) + 2 * h.block_table_size <= d.len())
}
pub open spec fn attr_name() -> Seq<u8> { "(attributes)".spec_bytes() }
pub open spec fn no_attributes<R>(a: Archive<R>) -> bool { a.attributes is Some || (locate(a, attr_name()) is Ok && locate(a, attr_name())->Ok_0 is None) }
pub open spec fn kept<R: VpMedium>(a: Archive<R>, b: Archive<R>) -> bool { a.reader.bytes() == b.reader.bytes() && a.reader.faulty() == b.reader.faulty() && a.header == b.header && a.archive_offset == b.archive_offset && a.user_data == b.user_data }
/// all but the attributes
pub open spec fn same_tables<R: VpMedium>(a: Archive<R>, b: Archive<R>) -> bool {
    kept(a, b) && a.hash_table == b.hash_table && a.block_table == b.block_table && a.hi_block_table == b.hi_block_table && a.het_table == b.het_table && a.bet_table == b.bet_table
}
impl<R: Read + Seek> Archive<R> {
    /// proved in unit fread (C11)
    #[verifier::external_body] pub fn read_file(&mut self, name: &str) -> (r: Result<Vec<u8>>)
        requires len_ok(old(self).archive_offset as int), hwf(old(self).hash_table), small(old(self).reader.bytes().len() as int),
        ensures same_archive(*old(self), *final(self)),
            ({ let l = locate(*old(self), name.spec_bytes()); (l is Err || l->Ok_0 is None ==> r is Err) && (l is Ok && l->Ok_0 is None ==> r->Err_0.vp == 1) }),
            !old(self).reader.faulty() ==> forall|x: Seq<u8>, m: u8, b: Seq<u8>| #[trigger] stored_at(*old(self), name.spec_bytes(), x, m, b) ==> r is Ok && r->Ok_0@ == x,
    { unimplemented!() }
//@extract mopaq/src/archive.rs Archive::read_het_table_size
//@opts ret=r
//@spec
    ensures r is Ok, *final(self) == *old(self)
//@end
//@extract mopaq/src/archive.rs Archive::read_bet_table_size
//@opts ret=r
//@spec
    ensures r is Ok, *final(self) == *old(self), r->Ok_0 == (if hpos(old(self).header) >= bet_pos { hpos(old(self).header) - bet_pos } else { 0 })
//@end
//@extract mopaq/src/archive.rs Archive::load_attributes
//@opts ret=r
//@subst &data[1..] ==> vp_tail(&data, 1)
//@subst &data.into() ==> &data
//@spec
    requires wf(*old(self))
    ensures same_tables(*old(self), *final(self)), no_attributes(*old(self)) ==> r is Ok, r is Err ==> final(self).attributes == old(self).attributes && !no_attributes(*final(self))
//@end
//@extract mopaq/src/archive.rs Archive::load_tables
//@opts ret=r
//@subst self.header.format_version >= header::FormatVersion::V3 ==> vp_version_ge(self.header.format_version, header::FormatVersion::V3)
//@subst self.header.v4_data.as_ref().map(|v4| v4.het_table_size_64).unwrap_or(0) ==> vp_het_size(&self.header.v4_data)
//@subst self.header.v4_data.as_ref().map(|v4| v4.bet_table_size_64).unwrap_or(0) ==> vp_bet_size(&self.header.v4_data)
//@spec
    requires wf(*old(self))
    ensures kept(*old(self), *final(self)), wf(*final(self)), r is Ok ==> tabled(*old(self), *final(self)),
        !old(self).reader.faulty() && tables_there(*old(self)) ==> tabled(*old(self), *final(self)) && (no_attributes(*final(self)) ==> r is Ok)
//@body-start
    hide(hash_read); hide(block_read); hide(hi_read); hide(classic); hide(pow2); hide(mpq_hash); hide(attr_name); hide(hpos); hide(bpos); hide(locate); hide(no_attributes);
//@after-let has_valid_het_bet
    assert(old(self).bet_table is None && self.bet_table is Some ==> bet_loaded(self.reader.bytes(), self.archive_offset as int, self.header, self.bet_table->0));
    assert(wf(*self) && kept(*old(self), *self) && has_valid_het_bet == use_ext(*self));
//@end
//@extract mopaq/src/archive.rs Archive::open_with_options
//@opts ret=r
//@subst open_with_options<P: AsRef<Path>>( ==> open_with_options(
//@subst path: P, ==> path: &PathBuf,
//@subst path.as_ref().to_path_buf() ==> vp_to_path_buf(path)
//@spec
    ensures ({ let d = on_disk(*path);
        &&& r is Ok ==> r->Ok_0.reader.bytes() == d && !r->Ok_0.reader.faulty() && wf(r->Ok_0) && hfound(d, r->Ok_0) && (options.load_tables ==> tabled(bare(r->Ok_0), r->Ok_0))
        &&& openable(*path) && offered(d, 0) && (options.load_tables ==> loads::<R>(d)) ==> r is Ok })
//@body-start
    hide(tabled); hide(tables_there); hide(found); hide(offered); hide(step); hide(valid_at); hide(no_attributes);
    let ghost gd = on_disk(*path);
    proof { assert(skipped(gd, 0)); assert(offered(gd, 0) ==> gd.len() > 0) by { reveal(offered); reveal(step); } }
//@after-let archive
    let ghost a0 = archive;
    proof { assert(hfound(gd, a0)); lemma_hfound(gd, a0); assert(a0 == bare(a0)); }
//@before-tail
    proof { if options.load_tables { lemma_bare(a0, archive); } }
//@end
}
// ---------- environment: the file system ----------
//@extract mopaq/src/archive.rs struct:OpenOptions
//@subst crate::header::FormatVersion ==> FormatVersion
//@end
pub uninterp spec fn on_disk(p: PathBuf) -> Seq<u8>;
pub uninterp spec fn openable(p: PathBuf) -> bool;
pub struct File { pub p: PathBuf }
pub struct BufReader { }
impl File { #[verifier::external_body] pub fn open(p: &PathBuf) -> (r: Result<File>) ensures r is Ok ==> r->Ok_0.p == *p, openable(*p) ==> r is Ok { unimplemented!() } }
impl BufReader { #[verifier::external_body] pub fn new<R: Read + Seek>(f: File) -> (r: R) ensures r.bytes() == on_disk(f.p), !r.faulty(), small(r.bytes().len() as int) { unimplemented!() } }
#[verifier::external_body] pub fn vp_to_path_buf(p: &PathBuf) -> (r: PathBuf) ensures r == *p { unimplemented!() }
// ---------- specification: opening ----------
/// the header found in d is the archive's
pub open spec fn hfound<R>(d: Seq<u8>, a: Archive<R>) -> bool { exists|o: int| #[trigger] skipped(d, o) && found(d, o, (a.archive_offset, a.user_data, a.header)) }
/// the archive before its tables are loaded
pub open spec fn bare<R>(a: Archive<R>) -> Archive<R> { Archive { hash_table: None, block_table: None, hi_block_table: None, het_table: None, bet_table: None, attributes: None, ..a } }
/// every archive found in d can be loaded
pub open spec fn loads<R: VpMedium>(d: Seq<u8>) -> bool {
    (forall|a: Archive<R>| #[trigger] hfound(d, a) && a.reader.bytes() == d ==> tables_there(a))
    && forall|a: Archive<R>, b: Archive<R>| #![trigger tabled(a, b)] hfound(d, b) && b.reader.bytes() == d && a == bare(a) && tabled(a, b) ==> no_attributes(b)
}
pub proof fn lemma_bare<R: VpMedium>(a: Archive<R>, b: Archive<R>) requires a == bare(a), tabled(a, b) ensures tabled(bare(b), b) {}
pub proof fn lemma_hfound<R>(d: Seq<u8>, a: Archive<R>) requires hfound(d, a) ensures a.archive_offset + 32 <= d.len()
{ let o = choose|o: int| #[trigger] skipped(d, o) && found(d, o, (a.archive_offset, a.user_data, a.header)); }
// ---------- what the builder wrote is what the archive delivers ----------
/// the extended tables, if any, do not answer for this name
pub open spec fn quiet<R>(a: Archive<R>, n: Seq<u8>) -> bool { !use_ext(a) || ext_loc(a, n) is None }
/// neither hash pair of a source
pub open spec fn stranger(s: Seq<Src>, n: Seq<u8>) -> bool { forall|q: int| 0 <= q < s.len() ==> !(mpq_hash(n, 1) == n1(#[trigger] s[q]) && mpq_hash(n, 2) == n2(s[q])) }
pub open spec fn hi_as_planned(h: MpqHeader, q: HeaderWriteParams) -> bool { if has_hi(h) { q.hi_block_table_pos == h.hi_block_table_pos } else { q.hi_block_table_pos is None } }
/// the header the search delivers is the one written
pub proof fn lemma_planned<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000
    ensures offered(d, 0), 0 < d.len(), hfound(d, a) ==> a.archive_offset == 0 && a.header.format_version == v && a.header.block_size == bsz && a.header.hash_table_size == p.t.len() && a.header.block_table_size == s.len()
        && hpos(a.header) == p.q.hash_table_pos && bpos(a.header) == p.q.block_table_pos && hi_as_planned(a.header, p.q)
{
    hide(hdr1); hide(hdr2); hide(hdr3); hide(hdr4a); hide(hdr4); hide(files_ok); hide(his_ok); hide(names_ok); hide(hash_image); hide(block_image); hide(hiser); hide(digests_on); hide(pow2); hide(v4_at);
    let q = p.q; let h = hdr(v, bsz, q); let n = hsize(v); let b = d.subrange(0, n);
    lemma_prefixes(v, bsz, q);
    assert(splice(d, 0, b) =~= d);
    assert(b.subrange(0, 32) =~= h.subrange(0, 32)) by { if vnum(v) == 3 { assert(d.subrange(0, 192).subrange(0, 32) =~= d.subrange(0, 32)); assert(h.subrange(0, 192).subrange(0, 32) =~= h.subrange(0, 32)); } }
    lemma_hdr1(d, 0, b, v, bsz, q);
    if vnum(v) >= 1 {
        assert(b.subrange(0, 44) =~= h.subrange(0, 44)) by { if vnum(v) == 3 { assert(d.subrange(0, 192).subrange(0, 44) =~= d.subrange(0, 44)); assert(h.subrange(0, 192).subrange(0, 44) =~= h.subrange(0, 44)); } }
        lemma_hdr2(d, 0, b, v, bsz, q);
    }
    assert(q.hash_table_pos <= d.len() && q.block_table_pos <= d.len());
    lemma_pos48(q.hash_table_pos); lemma_pos48(q.block_table_pos);
    assert(step(d, 0) == 1 && valid_at(d, 0));
    if hfound(d, a) {
        let o = choose|o: int| #[trigger] skipped(d, o) && found(d, o, (a.archive_offset, a.user_data, a.header));
        if o > 0 { assert(step(d, 0) == 0); }
        assert(header_at(d, 0, a.header));
    }
}
/// the tables delivered are the ones written
pub proof fn lemma_delivered<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a)
    ensures a.hash_table is Some && (a.hash_table->0).entries@ == p.t, a.block_table is Some && (a.block_table->0).entries@ == p.bt, if p.q.hi_block_table_pos is Some { a.hi_block_table is Some && (a.hi_block_table->0).entries@ == p.hi } else { a.hi_block_table is None && zeros(p.hi) },
        vnum(v) < 2 ==> !use_ext(a)
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(files_ok); hide(his_ok); hide(names_ok); hide(digests_on); hide(header_on); hide(hfound);
    lemma_planned(d, v, bsz, s, ss, p, a);
    let c = choose|c: Seq<u8>| #[trigger] hash_image(p.t, c) && fits(d, p.q.hash_table_pos as int, c);
    thm_hash_rt(d, p.q.hash_table_pos as int, c, p.t, (a.hash_table->0).entries@);
    let e = choose|c: Seq<u8>| #[trigger] block_image(p.bt, c) && fits(d, p.q.block_table_pos as int, c);
    thm_block_rt(d, p.q.block_table_pos as int, e, p.bt, (a.block_table->0).entries@);
    if p.q.hi_block_table_pos is Some {
        let f = choose|c: Seq<u8>| #[trigger] hiser(p.hi, c) && fits(d, p.q.hi_block_table_pos->0 as int, c);
        thm_hi_rt(d, p.q.hi_block_table_pos->0 as int, f, p.hi, (a.hi_block_table->0).entries@);
    }
}
// ---------- the extended tables of formats 3 and 4 ----------
/// no two names share the 64-bit hash
pub open spec fn distinct_j(s: Seq<Src>) -> bool { forall|p: int, q: int| 0 <= p < q < s.len() ==> jenkins((#[trigger] s[p]).name) != jenkins((#[trigger] s[q]).name) }
/// nor does the name share it with one of them
pub open spec fn stranger_j(s: Seq<Src>, n: Seq<u8>) -> bool { forall|q: int| 0 <= q < s.len() ==> jenkins(n) != jenkins((#[trigger] s[q]).name) }
/// the table answers for a name only with an index whose hash is the name's, and reports for an index what was recorded for it
pub open spec fn tells(b: BetTable, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>) -> bool {
    &&& forall|i: u32, n: Seq<u8>| #[trigger] bet_match(b, i, n) ==> i < js.len() && js[i as int] == jenkins(n)
    &&& forall|i: u32| i < js.len() && (#[trigger] bet_info(b, i)) is Some ==> info_right(bet_info(b, i)->0, bt[i as int], hi[i as int])
}
pub open spec fn info_right(x: BetFileInfo, e: BlockEntry, hi: u16) -> bool { x.file_pos == hi * 0x1_0000_0000 + e.file_pos && x.file_size == e.file_size && x.compressed_size == e.compressed_size && x.flags == e.flags }
/// proved in units bet (thm_bet), ext (name_hash_matches) and bits (get_file_info)
#[verifier::external_body] pub proof fn ax_bet(c: Seq<u8>, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>, b: BetTable) requires bet_image(c, bt, hi, js), bet_read(c, block_key(), b) ensures tells(b, bt, hi, js) {}
/// the header names the extended block table that was written, and its length
pub proof fn lemma_planned3<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), vnum(v) >= 2
    ensures a.header.bet_table_pos == p.q.bet_table_pos, bet_len(a.header) == p.q.hash_table_pos - p.q.bet_table_pos->0
{
    hide(hdr1); hide(hdr2); hide(hdr3); hide(hdr4a); hide(hdr4); hide(files_ok); hide(his_ok); hide(names_ok); hide(hash_on); hide(block_on); hide(hi_on); hide(bet_on); hide(pow2); hide(splice); hide(digests_on);
    let q = p.q; let h = hdr(v, bsz, q); let n = hsize(v); let b = d.subrange(0, n);
    lemma_planned(d, v, bsz, s, ss, p, a);
    lemma_prefixes(v, bsz, q);
    assert(splice(d, 0, b) =~= d) by { reveal(splice); }
    assert(b.subrange(0, 68) =~= h.subrange(0, 68)) by { if vnum(v) == 3 { assert(d.subrange(0, 192).subrange(0, 68) =~= d.subrange(0, 68)); assert(h.subrange(0, 192).subrange(0, 68) =~= h.subrange(0, 68)); } }
    lemma_hdr3(d, 0, b, v, bsz, q);
    let o = choose|o: int| #[trigger] skipped(d, o) && found(d, o, (a.archive_offset, a.user_data, a.header));
    assert(header_at(d, 0, a.header));
    if vnum(v) == 3 {
        assert forall|i: int| 0 <= i < 192 implies d[i] == h[i] by { assert(d.subrange(0, 192)[i] == h.subrange(0, 192)[i]); }
        assert(b.subrange(0, 112) =~= h.subrange(0, 112));
        lemma_hdr4a(d, 0, b, v, bsz, q);
        assert(v4_at(d, 0, a.header.v4_data->0));
    }
}
/// the extended block table delivered tells what was recorded
pub proof fn lemma_bet<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), vnum(v) >= 2, few(s.len() as int), a.bet_table is Some
    ensures tells(a.bet_table->0, p.bt, p.hi, js_of(s))
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(files_ok); hide(his_ok); hide(names_ok); hide(digests_on); hide(header_on); hide(hfound); hide(bet_len); hide(tells); hide(block_key); hide(mpq_hash); hide(hash_on); hide(block_on); hide(hi_on);
    lemma_planned(d, v, bsz, s, ss, p, a); lemma_planned3(d, v, bsz, s, ss, p, a);
    let js = js_of(s); let at = p.q.bet_table_pos->0 as int; let n = p.q.hash_table_pos - at;
    let c = choose|c: Seq<u8>| #[trigger] bet_image(c, p.bt, p.hi, js) && fits(d, at, c) && c.len() == n;
    assert(d.subrange(at, at + n) == c);
    ax_bet(c, p.bt, p.hi, js, a.bet_table->0);
}
/// the place of source j
pub open spec fn loc_j(p: Plan, j: int) -> Loc { Loc { pos: p.pos[j], csize: p.bt[j].compressed_size as int, size: p.bt[j].file_size as int, flags: p.bt[j].flags, block: j } }
/// the extended tables leave the name to the classic ones, or give source j's place
pub open spec fn ext_right<R>(a: Archive<R>, n: Seq<u8>, p: Plan, j: int) -> bool { quiet(a, n) || ext_loc(a, n) == Some(loc_j(p, j)) }
pub proof fn lemma_ext<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>, j: int, n: Seq<u8>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), vnum(v) >= 2 ==> few(s.len() as int) && distinct_j(s), 0 <= j < s.len(), same_name(n, s[j].name)
    ensures ext_right(a, n, p, j)
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(names_ok); hide(digests_on); hide(header_on); hide(hfound); hide(bet_len); hide(block_key); hide(mpq_hash); hide(tabled); hide(hash_on); hide(block_on); hide(hi_on); hide(bet_on); hide(imaged); hide(inside);
    lemma_delivered(d, v, bsz, s, ss, p, a);
    if !quiet(a, n) {
        lemma_planned(d, v, bsz, s, ss, p, a);
        lemma_bet(d, v, bsz, s, ss, p, a);
        let b = a.bet_table->0; let i = het_find(a.het_table->0, n)->0; let w = s[j].name;
        thm_hash_folds(n, w, 0, n.len() as int);
        assert(jenkins(n) == jenkins(w));
        assert(bet_match(b, i, n));
        assert(js_of(s)[i as int] == jenkins(s[i as int].name));
        assert(i == j) by { if i < j { assert(jenkins(s[i as int].name) != jenkins(s[j].name)); } else if j < i { assert(jenkins(s[j].name) != jenkins(s[i as int].name)); } }
        assert(info_right(bet_info(b, i)->0, p.bt[j], p.hi[j]));
        assert(imaged(p.im[j], s[j], p.bt[j], p.pos[j], ss)) by { assert(p.pos[j] >= 0); }
        assert(p.bt[j].file_pos == p.pos[j] as u32) by { reveal(imaged); }
        assert(p.hi[j] == ((p.pos[j] as u64) >> 32) as u16);
        assert(p.pos[j] + p.im[j].len() <= d.len());
        lemma_pos48(p.pos[j] as u64);
    }
}
pub proof fn lemma_quiet<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>, n: Seq<u8>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), vnum(v) >= 2 ==> few(s.len() as int) && stranger_j(s, n)
    ensures quiet(a, n)
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(files_ok); hide(his_ok); hide(names_ok); hide(digests_on); hide(header_on); hide(hfound); hide(bet_len); hide(block_key); hide(mpq_hash); hide(tabled); hide(hash_on); hide(block_on); hide(hi_on); hide(bet_on);
    lemma_delivered(d, v, bsz, s, ss, p, a);
    if !quiet(a, n) {
        lemma_bet(d, v, bsz, s, ss, p, a);
        let b = a.bet_table->0; let i = het_find(a.het_table->0, n)->0;
        assert(bet_match(b, i, n)); assert(js_of(s)[i as int] == jenkins(s[i as int].name));
    }
}
/// every source is where its name is found, under every case and slash variant
pub proof fn lemma_located<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>, j: int, n: Seq<u8>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), distinct(s), 0 <= j < s.len(), same_name(n, s[j].name), ext_right(a, n, p, j), !audio(s[j].m), ss == sector_bytes_of(bsz)
    ensures stored_at(a, n, s[j].x, s[j].m, p.im[j])
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(digests_on); hide(header_on); hide(hfound); hide(tabled); hide(file_image); hide(lookup); hide(mpq_hash); hide(sector_bytes_of); hide(pow2); hide(hash_on); hide(block_on); hide(hi_on);
    let w = s[j].name;
    lemma_planned(d, v, bsz, s, ss, p, a); lemma_delivered(d, v, bsz, s, ss, p, a);
    assert(mpq_hash(n, 0) == mpq_hash(w, 0) && mpq_hash(n, 1) == mpq_hash(w, 1) && mpq_hash(n, 2) == mpq_hash(w, 2) && mpq_hash(n, 3) == mpq_hash(w, 3)) by {
        reveal(mpq_hash); let l = n.len() as int;
        thm_hash_folds(n, w, 0, l); thm_hash_folds(n, w, 1, l); thm_hash_folds(n, w, 2, l); thm_hash_folds(n, w, 3, l);
    }
    assert(found0(p.t, s[j], j));
    assert(imaged(p.im[j], s[j], p.bt[j], p.pos[j], ss)) by { assert(p.pos[j] >= 0); }
    lemma_pos48(p.pos[j] as u64);
    assert(p.hi[j] == ((p.pos[j] as u64) >> 32) as u16);
    assert(pos48(p.bt[j].file_pos, a.hi_block_table, j) == p.pos[j]);
    assert(fits(d, p.pos[j], p.im[j])) by { if p.im[j].len() == 0 { lemma_empty_fits(d, p.pos[j], p.im[j]); } }
}
/// a name that shares its hashes with no source is not found
pub proof fn lemma_absent<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan, a: Archive<R>, n: Seq<u8>)
    requires laid(d, v, bsz, s, ss, p), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), distinct(s), stranger(s, n), quiet(a, n)
    ensures locate(a, n) is Ok, locate(a, n)->Ok_0 is None
{
    hide(hash_image); hide(block_image); hide(hiser); hide(hash_read); hide(block_read); hide(hi_read); hide(digests_on); hide(header_on); hide(hfound); hide(tabled); hide(file_image); hide(lookup); hide(mpq_hash); hide(files_ok); hide(his_ok);
    lemma_delivered(d, v, bsz, s, ss, p, a);
    let t = p.t; let m = s.len() as int;
    lemma_start(mpq_hash(n, 0), t.len() as int);
    lemma_lookup_shape(t, start_of(n, t.len() as int), 0, mpq_hash(n, 1), mpq_hash(n, 2), 0);
    if slot_of(t, n) is Some {
        let i = slot_of(t, n)->0;
        assert(!never_used(t[i]));
        let q = choose|q: int| 0 <= q < m && owns(#[trigger] s[q], t[i]);
    }
}
/// THEOREM: an archive that was written and opened delivers every source under every spelling of its name, and nothing under other names
pub proof fn thm_reads_back<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, a: Archive<R>)
    requires written(d, v, bsz, s, sector_bytes_of(bsz) as int), d.len() < 0x1_0000_0000_0000, hfound(d, a), a.reader.bytes() == d, tabled(bare(a), a), distinct(s), vnum(v) >= 2 ==> few(s.len() as int) && distinct_j(s)
    ensures
        forall|j: int, n: Seq<u8>| #![trigger same_name(n, s[j].name)] 0 <= j < s.len() && same_name(n, s[j].name) && !audio(s[j].m) ==> exists|b: Seq<u8>| #[trigger] stored_at(a, n, s[j].x, s[j].m, b),
        forall|n: Seq<u8>| #[trigger] stranger(s, n) && (vnum(v) >= 2 ==> stranger_j(s, n)) ==> locate(a, n) is Ok && locate(a, n)->Ok_0 is None,
{
    hide(laid); hide(stored_at); hide(same_name); hide(stranger); hide(stranger_j); hide(distinct_j); hide(distinct); hide(locate); hide(ext_right); hide(quiet); hide(hfound); hide(tabled);
    let ss = sector_bytes_of(bsz) as int;
    let p = choose|p: Plan| laid(d, v, bsz, s, ss, p);
    assert forall|j: int, n: Seq<u8>| #![trigger same_name(n, s[j].name)] 0 <= j < s.len() && same_name(n, s[j].name) && !audio(s[j].m) implies exists|b: Seq<u8>| #[trigger] stored_at(a, n, s[j].x, s[j].m, b) by { lemma_ext(d, v, bsz, s, ss, p, a, j, n); lemma_located(d, v, bsz, s, ss, p, a, j, n); }
    assert forall|n: Seq<u8>| #[trigger] stranger(s, n) && (vnum(v) >= 2 ==> stranger_j(s, n)) implies locate(a, n) is Ok && locate(a, n)->Ok_0 is None by { lemma_quiet(d, v, bsz, s, ss, p, a, n); lemma_absent(d, v, bsz, s, ss, p, a, n); }
}
/// THEOREM: such an archive opens (a source called "(attributes)" aside)
pub proof fn thm_opens<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>)
    requires written(d, v, bsz, s, sector_bytes_of(bsz) as int), d.len() < 0x1_0000_0000_0000, distinct(s), stranger(s, attr_name()), vnum(v) >= 2 ==> few(s.len() as int) && stranger_j(s, attr_name())
    ensures offered(d, 0), loads::<R>(d)
{
    hide(stranger); hide(files_ok); hide(his_ok); hide(names_ok); hide(header_on); hide(hash_image); hide(block_image); hide(hiser); hide(pow2); hide(tabled); hide(locate); hide(hfound); hide(offered); hide(mpq_hash);
    let ss = sector_bytes_of(bsz) as int;
    let p = choose|p: Plan| laid(d, v, bsz, s, ss, p);
    let a0 = arbitrary::<Archive<R>>();
    lemma_planned(d, v, bsz, s, ss, p, a0);
    assert forall|a: Archive<R>| #[trigger] hfound(d, a) && a.reader.bytes() == d implies tables_there(a) by {
        lemma_planned(d, v, bsz, s, ss, p, a);
        let c = choose|c: Seq<u8>| #[trigger] hash_image(p.t, c) && fits(d, p.q.hash_table_pos as int, c); lemma_lens_tab(p.t, c);
        let e = choose|c: Seq<u8>| #[trigger] block_image(p.bt, c) && fits(d, p.q.block_table_pos as int, c); lemma_lens_blk(p.bt, e);
        if p.q.hi_block_table_pos is Some { let f = choose|c: Seq<u8>| #[trigger] hiser(p.hi, c) && fits(d, p.q.hi_block_table_pos->0 as int, c); lemma_lens_hi(p.hi, f); }
    }
    assert forall|a: Archive<R>, b: Archive<R>| #![trigger tabled(a, b)] hfound(d, b) && b.reader.bytes() == d && a == bare(a) && tabled(a, b) implies no_attributes(b) by {
        assert(tabled(bare(b), b)) by { reveal(tabled); }
        lemma_quiet(d, v, bsz, s, ss, p, b, attr_name()); lemma_absent(d, v, bsz, s, ss, p, b, attr_name());
    }
}
/// the digest g is that of n bytes at `at`, or nothing is stored there
pub open spec fn good(d: Seq<u8>, at: int, n: int, g: Seq<u8>) -> bool { n == 0 || (at + n <= d.len() && md5(d.subrange(at, at + n)) == g) }
/// THEOREM: in a version-4 archive just written every digest the header carries, its own included, is that of the bytes on the medium
pub proof fn thm_digests<R: VpMedium>(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, a: Archive<R>)
    requires written(d, v, bsz, s, ss), vnum(v) == 3, d.len() < 0x1_0000_0000_0000, hfound(d, a)
    ensures a.header.v4_data is Some, ({ let x = a.header.v4_data->0; let h = a.header;
        &&& good(d, hpos(h), x.hash_table_size_64 as int, x.md5_hash_table@) && good(d, bpos(h), x.block_table_size_64 as int, x.md5_block_table@)
        &&& has_hi(h) ==> good(d, h.hi_block_table_pos->0 as int, x.hi_block_table_size_64 as int, x.md5_hi_block_table@)
        &&& h.het_table_pos is Some && h.bet_table_pos is Some && good(d, h.het_table_pos->0 as int, x.het_table_size_64 as int, x.md5_het_table@) && good(d, h.bet_table_pos->0 as int, x.bet_table_size_64 as int, x.md5_bet_table@)
        &&& x.md5_mpq_header@ == md5(d.subrange(0, 192)) })
{
    hide(hdr1); hide(hdr2); hide(hdr3); hide(hdr4a); hide(hdr4); hide(files_ok); hide(his_ok); hide(names_ok); hide(hash_on); hide(block_on); hide(hi_on); hide(pow2); hide(splice);
    let p = choose|p: Plan| laid(d, v, bsz, s, ss, p);
    let q = p.q; let h = hdr(v, bsz, q); let b = d.subrange(0, 208);
    lemma_planned(d, v, bsz, s, ss, p, a);
    lemma_prefixes(v, bsz, q);
    let e = splice(d, 0, h);
    assert(splice(d, 0, b) =~= d) by { reveal(splice); }
    assert(e.len() >= 208 && forall|i: int| 0 <= i < 208 ==> e[i] == h[i]) by { reveal(splice); }
    assert forall|i: int| 0 <= i < 192 implies d[i] == h[i] by { assert(d.subrange(0, 192)[i] == h.subrange(0, 192)[i]); }
    assert(b.subrange(0, 68) =~= h.subrange(0, 68)); assert(b.subrange(0, 112) =~= h.subrange(0, 112));
    lemma_hdr3(d, 0, b, v, bsz, q); lemma_hdr4a(d, 0, b, v, bsz, q); lemma_hdr4(d, 0, v, bsz, q);
    assert(d.subrange(0x70, 0x80) =~= e.subrange(0x70, 0x80)); assert(d.subrange(0x80, 0x90) =~= e.subrange(0x80, 0x90)); assert(d.subrange(0x90, 0xA0) =~= e.subrange(0x90, 0xA0));
    assert(d.subrange(0xA0, 0xB0) =~= e.subrange(0xA0, 0xB0)); assert(d.subrange(0xB0, 0xC0) =~= e.subrange(0xB0, 0xC0));
    let o = choose|o: int| #[trigger] skipped(d, o) && found(d, o, (a.archive_offset, a.user_data, a.header));
    assert(header_at(d, 0, a.header));
    assert(v4_at(d, 0, a.header.v4_data->0));
}
fn main() {}
}
