verus! {
// ---------- specification: where an opened archive finds a name ----------
/// no medium or buffer holds 2^56 bytes
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }
pub open spec fn sector_bytes_of(shift: u16) -> usize { 512usize << (if shift <= 22 { shift } else { 22u16 }) }
pub proof fn lemma_sector_bytes(shift: u16) ensures 512 <= sector_bytes_of(shift) <= 0x8000_0000
{ assert(forall|k: u16| k <= 22 ==> 512 <= #[trigger] (512usize << k) <= 0x8000_0000) by (bit_vector); }
pub struct HetHeader { pub max_file_count: u32 }
pub struct HetTable { pub header: HetHeader }
pub struct BetHeader { pub file_count: u32 }
pub struct BetTable { pub header: BetHeader }
pub struct PathBuf { pub vp: u8 }
pub struct Attributes { pub vp: u8 }
pub struct BetFileInfo { pub file_pos: u64, pub file_size: u64, pub compressed_size: u64, pub flags: u32 }
pub uninterp spec fn het_find(h: HetTable, n: Seq<u8>) -> Option<u32>;
pub uninterp spec fn bet_match(b: BetTable, i: u32, n: Seq<u8>) -> bool;
pub uninterp spec fn bet_info(b: BetTable, i: u32) -> Option<BetFileInfo>;
pub struct Archive<R> { pub reader: R, pub header: MpqHeader, pub hash_table: Option<HashTable>, pub block_table: Option<BlockTable>, pub hi_block_table: Option<HiBlockTable>, pub het_table: Option<HetTable>, pub bet_table: Option<BetTable>, pub archive_offset: u64, pub path: PathBuf, pub user_data: Option<UserDataHeader>, pub attributes: Option<Attributes> }
pub open spec fn use_ext<R>(a: Archive<R>) -> bool { a.het_table is Some && a.bet_table is Some && (a.het_table->0).header.max_file_count > 0 && (a.bet_table->0).header.file_count > 0 }
pub open spec fn ext_loc<R>(a: Archive<R>, n: Seq<u8>) -> Option<Loc> {
    let i = het_find(a.het_table->0, n);
    if i is Some && bet_match(a.bet_table->0, i->0, n) && bet_info(a.bet_table->0, i->0) is Some {
        let b = bet_info(a.bet_table->0, i->0)->0; let p = a.archive_offset + b.file_pos;
        Some(Loc { pos: if p <= u64::MAX { p } else { u64::MAX as int }, csize: b.compressed_size as int, size: b.file_size as int, flags: b.flags, block: (i->0) as int })
    } else { None }
}
/// where a name is found
pub open spec fn locate<R>(a: Archive<R>, n: Seq<u8>) -> Result<Option<Loc>> {
    if use_ext(a) && ext_loc(a, n) is Some { Ok(ext_loc(a, n)) }
    else if use_ext(a) && (a.hash_table is None || a.block_table is None) { Ok(None) }
    else { classic(a.hash_table, a.block_table, a.hi_block_table, a.archive_offset, n) }
}
/// b, an image of x, lies where name is found
pub open spec fn stored_at<R: VpMedium>(a: Archive<R>, name: Seq<u8>, x: Seq<u8>, m: u8, b: Seq<u8>) -> bool {
    let l = locate(a, name)->Ok_0->0;
    &&& locate(a, name) is Ok && locate(a, name)->Ok_0 is Some && l.size == x.len() && x.len() <= u32::MAX && !audio(m) && fits(a.reader.bytes(), l.pos, b)
    &&& file_image(b, x, l.csize, l.flags, fk(name, (l.pos - a.archive_offset) as u32, x.len() as u32, l.flags), m, sector_bytes_of(a.header.block_size) as int)
}
pub open spec fn same_archive<R: VpMedium>(a: Archive<R>, b: Archive<R>) -> bool {
    a.reader.bytes() == b.reader.bytes() && a.reader.faulty() == b.reader.faulty() && a.header == b.header && a.hash_table == b.hash_table && a.block_table == b.block_table && a.hi_block_table == b.hi_block_table
    && a.het_table == b.het_table && a.bet_table == b.bet_table && a.archive_offset == b.archive_offset && a.user_data == b.user_data && a.attributes == b.attributes
}
}
