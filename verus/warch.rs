//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_wle.rs
//@include inc_files.rs
//@include inc_htable.rs
//@include inc_loc.rs
//@include inc_tser.rs
//@include inc_hdr.rs
//@include inc_hdrt.rs
//@include inc_whole.rs
verus! {
pub uninterp spec fn md5(b: Seq<u8>) -> Seq<u8>;
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
//@extract mopaq/src/tables/block.rs struct:HiBlockTable
//@end
impl BlockEntry {
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_EXISTS
//@end
}
//@extract mopaq/src/builder.rs struct:FileWriteParams
//@end
//@extract mopaq/src/builder.rs struct:PendingFile
//@end
//@extract mopaq/src/builder.rs enum:FileSource
//@end
//@extract mopaq/src/builder.rs enum:ListfileOption
//@end
pub struct HetHeader { pub vp: u8 }
pub struct BetHeader { pub vp: u8 }
#[verifier::external_body] pub fn vp_split_at<'a>(s: &'a [u8], k: usize) -> (r: (&'a [u8], &'a [u8])) requires k <= s@.len() ensures r.0@ == s@.subrange(0, k as int), r.1@ == s@.subrange(k as int, s@.len() as int) { unimplemented!() }
/// proved in unit comp (C06); which bytes come out does not matter here
#[verifier::external_body] pub fn compress(data: &[u8], method: u8) -> (r: Result<Vec<u8>>) requires small(data@.len() as int) ensures r is Ok ==> r->Ok_0@.len() <= data@.len() { unimplemented!() }
/// bytes with this length and digest were written where the writer stood
pub open spec fn ext_put(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, n: u64, g: Seq<u8>) -> bool { exists|c: Seq<u8>| #[trigger] put(d0, p0, d1, p1, c) && c.len() >= 12 && c.len() == n && g == md5(c) }
/// t is the plain extended block table of these entries, high words and name hashes (unit bet: packs)
pub uninterp spec fn bet_tab(t: Seq<u8>, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>) -> bool;
/// c is the stored form of t (unit bet: packing)
pub uninterp spec fn bet_pack(t: Seq<u8>, c: Seq<u8>, encrypt: bool, m: u8) -> bool;
pub open spec fn audio_method(m: u8) -> bool { m & 0xC0 != 0 }
/// what bet_image stands for
#[verifier::external_body] pub proof fn ax_bet_image(t: Seq<u8>, c: Seq<u8>, m: u8, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>) requires bet_tab(t, bt, hi, js), bet_pack(t, c, true, m), !audio_method(m) ensures bet_image(c, bt, hi, js) {}
pub open spec fn bet_put(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, n: u64, g: Seq<u8>, t: Seq<u8>, encrypt: bool, m: u8) -> bool { exists|c: Seq<u8>| #[trigger] put(d0, p0, d1, p1, c) && c.len() >= 12 && c.len() == n && g == md5(c) && bet_pack(t, c, encrypt, m) }
pub open spec fn hi_ref(hi: Option<&HiBlockTable>, n: int) -> Seq<u16> { if hi is Some { (hi->0).entries@ } else { Seq::new(n as nat, |j: int| 0u16) } }
pub struct PathBuf { pub vp: u8 }
/// the UTF-8 bytes of a name
pub uninterp spec fn bytes_of(s: String) -> Seq<u8>;
#[verifier::external_body] pub fn vp_as_str<'a>(s: &'a String) -> (r: &'a str) ensures r.spec_bytes() == bytes_of(*s) { unimplemented!() }
/// environment: what a file on disk holds while the archive is built
pub uninterp spec fn disk(p: PathBuf) -> Seq<u8>;
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }
#[verifier::external_body] pub fn vp_fs_read(p: &PathBuf) -> (r: Result<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == disk(*p) && small(r->Ok_0@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vp_clone_data(d: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == d@, small(r@.len() as int) { unimplemented!() }
pub open spec fn content(f: FileSource) -> Seq<u8> { match f { FileSource::Path(p) => disk(p), FileSource::Data(d) => d@ } }
pub open spec fn src_of(f: PendingFile) -> Src { Src { name: bytes_of(f.archive_name), x: content(f.source), m: f.compression, loc: f.locale } }
pub open spec fn srcs(f: Seq<PendingFile>) -> Seq<Src> { f.map_values(|g: PendingFile| src_of(g)) }
pub open spec fn sector_bytes_of(shift: u16) -> usize { 512usize << (if shift <= 22 { shift } else { 22u16 }) }
//@extract mopaq/src/lib.rs calculate_sector_size
//@opts ret=r
//@spec
    ensures r == sector_bytes_of(block_size_shift), 512 <= r <= 0x8000_0000
//@body-start
    proof { let s = block_size_shift; assert(forall|k: u16| k <= 22 ==> 512 <= #[trigger] (512usize << k) <= 0x8000_0000) by (bit_vector); }
//@end
impl FormatVersion {
//@extract mopaq/src/header.rs FormatVersion::header_size
//@opts ret=r
//@spec
    ensures r == hsize(*self)
//@end
}
impl HashTable {
    /// proved in unit htable (C04)
    #[verifier::external_body] pub fn new(size: usize) -> (r: Result<HashTable>)
        requires size <= 0xFFFF_FFFF
        ensures r is Ok ==> pow2(size as int) && r->Ok_0.entries@.len() == size && forall|i: int| 0 <= i < size ==> never_used(#[trigger] r->Ok_0.entries@[i])
    { unimplemented!() }
}
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::new
//@opts ret=r
//@spec
    ensures r is Ok ==> r->Ok_0.entries@.len() == size
//@end
//@extract mopaq/src/tables/block.rs BlockTable::get_mut
//@opts ret=r
//@spec
    ensures
        index >= old(self).entries@.len() ==> r is None && final(self).entries@ == old(self).entries@,
        index < old(self).entries@.len() ==> r is Some && *(r->0) == old(self).entries@[index as int] && final(self).entries@ == old(self).entries@.update(index as int, *final(r->0)),
//@end
}
impl HiBlockTable {
//@extract mopaq/src/tables/block.rs HiBlockTable::new
//@opts ret=r
//@spec
    ensures r.entries@.len() == size, forall|i: int| 0 <= i < size ==> #[trigger] r.entries@[i] == 0
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::set
//@spec
    ensures final(self).entries@ == (if index < old(self).entries@.len() { old(self).entries@.update(index as int, value) } else { old(self).entries@ })
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::is_needed
//@opts ret=r loops=1
//@spec
    ensures r == exists|i: int| 0 <= i < self.entries@.len() && #[trigger] self.entries@[i] != 0
//@loop 0
    invariant vp_b0 == exists|i: int| 0 <= i < vp_i0 && #[trigger] self.entries@[i] != 0
//@end
}
pub struct ArchiveBuilder { pub version: FormatVersion, pub block_size: u16, pub pending_files: Vec<PendingFile>, pub listfile_option: ListfileOption, pub generate_crcs: bool, pub compress_tables: bool, pub table_compression: u8 }
impl ArchiveBuilder {
    /// proved in unit htable (C04)
    #[verifier::external_body] fn calculate_hash_table_size(&self) -> (r: u32)
        requires self.pending_files@.len() < 0x3FFF_FFFF
        ensures pow2(r as int), r >= 16, r >= 2 * self.pending_files@.len()
    { unimplemented!() }
    /// proved in unit htable (C04)
    #[verifier::external_body] fn add_to_hash_table(&self, hash_table: &mut HashTable, filename: &str, block_index: u32, locale: u16) -> (r: Result<()>)
        requires pow2(old(hash_table).entries@.len() as int), has_room(old(hash_table).entries@)
        ensures pow2(final(hash_table).entries@.len() as int), r is Ok ==> inserted(old(hash_table).entries@, final(hash_table).entries@, filename.spec_bytes(), locale, block_index), r is Ok ==> final(hash_table).entries@.len() == old(hash_table).entries@.len()
    { unimplemented!() }
    /// proved in unit files (C11)
    #[verifier::external_body] fn write_file<W: Write>(&self, writer: &mut W, params: &FileWriteParams<'_>) -> (r: Result<(usize, u32)>)
        requires 512 <= params.sector_size <= 0x8000_0000, 0 <= old(writer).pos(), small(params.file_data@.len() as int)
        ensures r is Ok ==> wrote(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), params.file_data@, r->Ok_0.0 as int, r->Ok_0.1,
                fk(params.archive_name.spec_bytes(), params.file_pos as u32, params.file_data@.len() as u32, r->Ok_0.1), params.compression, params.sector_size as int),
            r is Ok ==> r->Ok_0.0 <= u32::MAX && params.file_data@.len() <= u32::MAX,
            r is Ok ==> fbit(r->Ok_0.1, F_CRC) == self.generate_crcs && fbit(r->Ok_0.1, F_ENCRYPTED) == params.encrypt && !fbit(r->Ok_0.1, F_IMPLODE) && fbit(r->Ok_0.1, F_SINGLE) == (params.file_data@.len() <= params.sector_size),
    { unimplemented!() }
    /// proved in unit tables (C10)
    #[verifier::external_body] fn write_hash_table<W: Write>(&self, writer: &mut W, hash_table: &HashTable) -> (r: Result<[u8; 16]>)
        requires len_ok(16 * hash_table.entries@.len() as int)
        ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] hash_image(hash_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c)
    { unimplemented!() }
    /// proved in unit tables (C10)
    #[verifier::external_body] fn write_block_table<W: Write>(&self, writer: &mut W, block_table: &BlockTable) -> (r: Result<[u8; 16]>)
        requires len_ok(16 * block_table.entries@.len() as int)
        ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] block_image(block_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c)
    { unimplemented!() }
    /// proved in unit tables (C10)
    #[verifier::external_body] fn write_hi_block_table<W: Write>(&self, writer: &mut W, hi_block_table: &HiBlockTable) -> (r: Result<[u8; 16]>)
        ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] hiser(hi_block_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c)
    { unimplemented!() }
    /// proved in unit header (C09)
    #[verifier::external_body] fn write_header<W: Write + Seek>(&self, writer: &mut W, params: &HeaderWriteParams) -> (r: Result<()>)
        requires 0 <= old(writer).pos(), vnum(self.version) >= 1 || (params.hash_table_pos <= u32::MAX && params.block_table_pos <= u32::MAX)
        ensures r is Ok ==> put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), hdr(self.version, self.block_size, *params)) && (vnum(self.version) == 3 ==> params.v4_data is Some)
    { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::write_archive
//@opts ret=r
//@subst self.version >= FormatVersion::V3 ==> vp_version_ge(self.version, FormatVersion::V3)
//@subst self.version >= FormatVersion::V2 ==> vp_version_ge(self.version, FormatVersion::V2)
//@subst crate::calculate_sector_size ==> calculate_sector_size
//@subst fs::read(path)? ==> vp_fs_read(path)?
//@subst data.clone() ==> vp_clone_data(data)
//@subst &pending_file.archive_name ==> vp_as_str(&pending_file.archive_name)
//@spec
    requires vnum(self.version) >= 2 ==> !audio_method(self.table_compression), old(writer).bytes().len() <= hsize(self.version), self.pending_files@.len() < 0x3FFF_FFFF
    ensures r is Ok && final(writer).bytes().len() < 0x1_0000_0000_0000 ==> written(final(writer).bytes(), self.version, self.block_size, srcs(self.pending_files@), sector_bytes_of(self.block_size) as int)
//@body-start
    hide(slot_for); hide(file_image); hide(splice); hide(hash_image); hide(block_image); hide(hiser); hide(hdr); hide(fk); hide(start_of); hide(laid); hide(has_room); hide(pow2); hide(srcs); hide(sector_bytes_of); hide(mpq_hash); hide(entry_is); hide(never_used); hide(wrote); hide(inserted); hide(written); hide(tailed); hide(js_of); hide(audio_method);
    let ghost s = srcs(self.pending_files@); let ghost v = self.version; let ghost ss = sector_bytes_of(self.block_size) as int; let ghost hs = hsize(v); let ghost n = s.len() as int;
    let ghost mut gpos: Seq<int> = seq![]; let ghost mut gim: Seq<Seq<u8>> = seq![];
    proof { lemma_srcs(self.pending_files@); }
//@loop-before 0
    proof { lemma_nst_new(hash_table.entries@, s); lemma_fst_new(writer.bytes(), writer.pos(), hs, s, block_table.entries@, hi_block_table, ss); }
//@loop 0
    invariant
        s == srcs(self.pending_files@), v == self.version, ss == sector_bytes_of(self.block_size), hs == hsize(v), n == s.len(), n == self.pending_files@.len(), n < 0x3FFF_FFFF, vp_s0@ == self.pending_files@,
        512 <= sector_size <= 0x8000_0000, sector_size == ss, block_table.entries@.len() == n, hash_table.entries@.len() == hash_table_size,
        fst(writer.bytes(), writer.pos(), hs, s, block_table.entries@, hi_block_table, gpos, gim, block_index as int, ss), nst(hash_table.entries@, s, block_index as int),
        hi_block_table is Some == (vnum(v) >= 1), hi_block_table is Some ==> (hi_block_table->0).entries@.len() == n,
//@loop-start 0
    let ghost w0 = writer.bytes(); let ghost p0 = writer.pos(); let ghost t0 = hash_table.entries@; let ghost bt0 = block_table.entries@; let ghost h0 = hi_block_table; let ghost k = block_index as int;
    proof { lemma_nst_room(t0, s, k); lemma_srcs(self.pending_files@); lemma_fst_facts(w0, p0, hs, s, bt0, h0, gpos, gim, k, ss); }
//@loop-end 0
    proof {
        lemma_nst_step(t0, hash_table.entries@, s, k);
        let g = lemma_fst_step(w0, p0, writer.bytes(), writer.pos(), hs, s, bt0, block_table.entries@, h0, hi_block_table, gpos, gim, k, ss, compressed_size as int, flags);
        gpos = g.0; gim = g.1;
    }
//@loop-after 0
    let ghost dF = writer.bytes(); let ghost pF = writer.pos();
    proof { lemma_nst_room(hash_table.entries@, s, n); lemma_fst_facts(dF, pF, hs, s, block_table.entries@, hi_block_table, gpos, gim, n, ss); }
//@subst self.write_block_table(writer, &block_table)?; ==> self.write_block_table(writer, &block_table)?; let ghost dM = writer.bytes(); let ghost pM = writer.pos();
//@after-let block_table_pos
    let ghost dB = writer.bytes();
    let ghost ch = choose|c: Seq<u8>| #[trigger] hash_image(hash_table.entries@, c) && put(dF, pF, dB, block_table_pos as int, c);
//@after-let hi_block_table_pos
    let ghost dC = writer.bytes(); let ghost pC = writer.pos();
    let ghost cb = choose|c: Seq<u8>| #[trigger] block_image(block_table.entries@, c) && put(dB, block_table_pos as int, dM, pM, c);
    let ghost cc = lemma_hi_part(dM, pM, dC, pC, hi_block_table, hi_block_table_pos);
    let ghost z = Tail { x: seq![], y: seq![], a: ch, b: cb, c: cc };
    proof { lemma_same(dF, pF, z.x); lemma_same(dF, pF, z.y); assert(dC == tailed(dF, pF, z)) by { reveal(tailed); } }
//@before-tail
    proof {
        lemma_lens_tab(hash_table.entries@, ch); lemma_lens_blk(block_table.entries@, cb);
        assert(pb(pF, z) == block_table_pos && pc(pF, z) == pM && pend(pF, z) == archive_size && pa(pF, z) == hash_table_pos);
        assert(hash_image(hash_table.entries@, z.a) && block_image(block_table.entries@, z.b));
        assert(hi_stage(hi_block_table, header_params.hi_block_table_pos, pc(pF, z), z.c));
        assert(header_params.hash_table_size == hash_table.entries@.len());
        assert(header_params.block_table_size == block_table.entries@.len());
        assert(vnum(v) < 2);
        assert(vnum(v) == 0 ==> pend(pF, z) <= u32::MAX);
        lemma_done(dF, pF, writer.bytes(), v, self.block_size, s, hash_table.entries@, block_table.entries@, hi_block_table, gpos, gim, ss, z, header_params);
    }
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::write_het_table
//@opts ret=r
//@subst data.split_at(12) ==> vp_split_at(data, 12)
//@subst matches!(self.version, FormatVersion::V3 | FormatVersion::V4) ==> vp_version_ge(self.version, FormatVersion::V3)
//@subst hash_type::FILE_KEY ==> 3
//@spec
    requires small(data@.len() as int)
    ensures r is Ok ==> ext_put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), r->Ok_0.0, r->Ok_0.1@)
//@before-tail
    proof { assert(final_data@.len() >= 12); assert(put(old(writer).bytes(), old(writer).pos(), writer.bytes(), writer.pos(), final_data@)); }
//@end
    /// proved in unit bet (C08)
    #[verifier::external_body] fn write_bet_table<W: Write>(&self, writer: &mut W, data: &[u8], encrypt: bool) -> (r: Result<(u64, [u8; 16])>)
        requires small(data@.len() as int)
        ensures r is Ok ==> bet_put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), r->Ok_0.0, r->Ok_0.1@, data@, encrypt, self.table_compression)
    { unimplemented!() }
    /// not under contract: which bytes the extended tables hold (allocations stay below 2^56 bytes)
    #[verifier::external_body] fn create_het_table(&self) -> (r: Result<(Vec<u8>, HetHeader)>) ensures r is Ok ==> small(r->Ok_0.0@.len() as int) { unimplemented!() }
    /// proved in unit bet (C08); beyond 2^24 files only that it stays below 2^56 bytes is used
    #[verifier::external_body] fn create_bet_table(&self, block_table: &BlockTable, hi_block_table: Option<&HiBlockTable>) -> (r: Result<(Vec<u8>, BetHeader)>)
        requires block_table.entries@.len() >= self.pending_files@.len(), hi_block_table is Some ==> (hi_block_table->0).entries@.len() == self.pending_files@.len()
        ensures r is Ok ==> small(r->Ok_0.0@.len() as int) && (few(self.pending_files@.len() as int) ==> bet_tab(r->Ok_0.0@, block_table.entries@, hi_ref(hi_block_table, self.pending_files@.len() as int), js_of(srcs(self.pending_files@))))
    { unimplemented!() }
    /// proved in unit bytes (C01); what it does to the bytes does not matter here
    #[verifier::external_body] fn encrypt_data(&self, data: &mut [u8], key: u32) requires len_ok(old(data)@.len() as int) ensures final(data)@.len() == old(data)@.len() { unimplemented!() }
    /// environment: the md5 crate
    #[verifier::external_body] fn calculate_md5(&self, data: &[u8]) -> (r: [u8; 16]) ensures r@ == md5(data@) { unimplemented!() }
    /// proved in unit v4 (C12)
    #[verifier::external_body] fn finalize_v4_header_md5<W: Write + Seek + Read>(&self, writer: &mut W) -> (r: Result<()>)
        requires self.version == FormatVersion::V4
        ensures r is Ok ==> old(writer).bytes().len() >= 192 && final(writer).bytes() == splice(old(writer).bytes(), 192, md5(old(writer).bytes().subrange(0, 192))) && md5(old(writer).bytes().subrange(0, 192)).len() == 16
    { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::write_archive_with_het_bet
//@opts ret=r
//@subst crate::calculate_sector_size ==> calculate_sector_size
//@subst fs::read(path)? ==> vp_fs_read(path)?
//@subst data.clone() ==> vp_clone_data(data)
//@subst &pending_file.archive_name ==> vp_as_str(&pending_file.archive_name)
//@subst self.write_block_table(writer, &block_table)?; ==> self.write_block_table(writer, &block_table)?; let ghost dM = writer.bytes(); let ghost pM = writer.pos();
//@spec
    requires vnum(self.version) >= 2, !audio_method(self.table_compression), old(writer).bytes().len() <= hsize(self.version), self.pending_files@.len() < 0x3FFF_FFFF
    ensures r is Ok && final(writer).bytes().len() < 0x1_0000_0000_0000 ==> written(final(writer).bytes(), self.version, self.block_size, srcs(self.pending_files@), sector_bytes_of(self.block_size) as int)
//@body-start
    hide(slot_for); hide(file_image); hide(splice); hide(hash_image); hide(block_image); hide(hiser); hide(hdr); hide(fk); hide(start_of); hide(laid); hide(has_room); hide(pow2); hide(srcs); hide(sector_bytes_of); hide(mpq_hash); hide(entry_is); hide(never_used); hide(wrote); hide(inserted); hide(written); hide(tailed); hide(js_of); hide(audio_method);
    let ghost s = srcs(self.pending_files@); let ghost v = self.version; let ghost ss = sector_bytes_of(self.block_size) as int; let ghost hs = hsize(v); let ghost n = s.len() as int;
    let ghost mut gpos: Seq<int> = seq![]; let ghost mut gim: Seq<Seq<u8>> = seq![];
    proof { lemma_srcs(self.pending_files@); }
//@loop-before 0
    proof { lemma_fst_new(writer.bytes(), writer.pos(), hs, s, block_table.entries@, hi_block_table, ss); }
//@loop 0
    invariant
        s == srcs(self.pending_files@), v == self.version, ss == sector_bytes_of(self.block_size), hs == hsize(v), n == s.len(), n == self.pending_files@.len(), n < 0x3FFF_FFFF, vp_s0@ == self.pending_files@,
        512 <= sector_size <= 0x8000_0000, sector_size == ss, block_table.entries@.len() == n,
        fst(writer.bytes(), writer.pos(), hs, s, block_table.entries@, hi_block_table, gpos, gim, block_index as int, ss),
        hi_block_table is Some, (hi_block_table->0).entries@.len() == n,
//@loop-start 0
    let ghost w0 = writer.bytes(); let ghost p0 = writer.pos(); let ghost bt0 = block_table.entries@; let ghost h0 = hi_block_table; let ghost k = block_index as int;
    proof { lemma_srcs(self.pending_files@); lemma_fst_facts(w0, p0, hs, s, bt0, h0, gpos, gim, k, ss); }
//@loop-end 0
    proof {
        let g = lemma_fst_step(w0, p0, writer.bytes(), writer.pos(), hs, s, bt0, block_table.entries@, h0, hi_block_table, gpos, gim, k, ss, compressed_size as int, flags);
        gpos = g.0; gim = g.1;
    }
//@loop-after 0
    let ghost dF = writer.bytes(); let ghost pF = writer.pos();
    proof { lemma_fst_facts(dF, pF, hs, s, block_table.entries@, hi_block_table, gpos, gim, n, ss); }
//@after-let bet_table_pos
    let ghost dY = writer.bytes();
    let ghost cx = choose|c: Seq<u8>| #[trigger] put(dF, pF, dY, bet_table_pos as int, c) && c.len() >= 12 && c.len() == het_table_size && het_table_md5@ == md5(c);
//@loop-before 1
    let ghost dH = writer.bytes(); let ghost pH = writer.pos();
    let ghost cy = choose|c: Seq<u8>| #[trigger] put(dY, bet_table_pos as int, dH, pH, c) && c.len() >= 12 && c.len() == bet_table_size && bet_table_md5@ == md5(c) && bet_pack(bet_data@, c, true, self.table_compression);
    proof { lemma_nst_new(hash_table.entries@, s); }
//@loop 1
    invariant s == srcs(self.pending_files@), n == s.len(), n == self.pending_files@.len(), n < 0x3FFF_FFFF, vp_s1@ == self.pending_files@, hash_table.entries@.len() == hash_table_size, nst(hash_table.entries@, s, block_index as int),
//@loop-start 1
    let ghost t0 = hash_table.entries@; let ghost k = block_index as int;
    proof { lemma_nst_room(t0, s, k); lemma_srcs(self.pending_files@); }
//@loop-end 1
    proof { lemma_nst_step(t0, hash_table.entries@, s, k); }
//@loop-after 1
    proof { lemma_nst_room(hash_table.entries@, s, n); }
//@after-let block_table_pos
    let ghost dB = writer.bytes();
    let ghost ch = choose|c: Seq<u8>| #[trigger] hash_image(hash_table.entries@, c) && put(dH, pH, dB, block_table_pos as int, c) && hash_table_md5@ == md5(c);
//@after-let hi_block_table_md5
    let ghost dC = writer.bytes(); let ghost pC = writer.pos();
    let ghost cb = choose|c: Seq<u8>| #[trigger] block_image(block_table.entries@, c) && put(dB, block_table_pos as int, dM, pM, c) && block_table_md5@ == md5(c);
    let ghost cc = lemma_hi_part5(dM, pM, dC, pC, hi_block_table, hi_block_table_pos, hi_block_table_md5@);
    let ghost z = Tail { x: cx, y: cy, a: ch, b: cb, c: cc };
    proof { assert(dC == tailed(dF, pF, z)) by { reveal(tailed); } }
//@before-tail
    proof {
        lemma_lens_tab(hash_table.entries@, ch); lemma_lens_blk(block_table.entries@, cb);
        if hi_block_table_pos is Some { lemma_lens_hi((hi_block_table->0).entries@, cc); }
        assert(py(pF, z) == bet_table_pos && pb(pF, z) == block_table_pos && pc(pF, z) == pM && pend(pF, z) == archive_size && pa(pF, z) == hash_table_pos);
        if few(n) { ax_bet_image(bet_data@, cy, self.table_compression, block_table.entries@, hi_seq(hi_block_table, n), js_of(s)); }
        assert(vnum(v) == 3 ==> v4_ok(z, n, hi_block_table, header_params));
        lemma_done(dF, pF, writer.bytes(), v, self.block_size, s, hash_table.entries@, block_table.entries@, hi_block_table, gpos, gim, ss, z, header_params);
    }
//@end
}
pub proof fn lemma_srcs(f: Seq<PendingFile>) ensures srcs(f).len() == f.len(), forall|k: int| 0 <= k < f.len() ==> #[trigger] srcs(f)[k] == src_of(f[k]) {}
fn main() {}
}
