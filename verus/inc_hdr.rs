verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract mopaq/src/header.rs enum:FormatVersion
//@end
//@extract mopaq/src/header.rs const:MPQ_HEADER_SIGNATURE
//@end
//@extract mopaq/src/header.rs const:MPQ_USERDATA_SIGNATURE
//@end
//@extract mopaq/src/header.rs const:HEADER_ALIGNMENT
//@end
//@extract mopaq/src/lib.rs mod:signatures
//@end
//@extract mopaq/src/header.rs struct:UserDataHeader
//@end
//@extract mopaq/src/header.rs struct:MpqHeader
//@end
//@extract mopaq/src/header.rs struct:MpqHeaderV4Data
//@end
//@extract mopaq/src/builder.rs struct:HeaderWriteParams
//@end
// ---------- specification: the header layout ----------
pub open spec fn vnum(v: FormatVersion) -> int { match v { FormatVersion::V1 => 0, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 } }
pub open spec fn hsize(v: FormatVersion) -> int { match v { FormatVersion::V1 => 32, FormatVersion::V2 => 44, FormatVersion::V3 => 68, FormatVersion::V4 => 208 } }
/// environment: the derived ordering of FormatVersion
pub fn vp_version_ge(a: FormatVersion, b: FormatVersion) -> (r: bool) ensures r == (vnum(a) >= vnum(b))
{ let x = match a { FormatVersion::V1 => 0u8, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 };
  let y = match b { FormatVersion::V1 => 0u8, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 }; x >= y }
/// environment: the cast of FormatVersion, whose discriminants are 0 to 3 in declaration order
pub fn vp_version_as_u16(a: FormatVersion) -> (r: u16) ensures r == vnum(a)
{ match a { FormatVersion::V1 => 0u16, FormatVersion::V2 => 1, FormatVersion::V3 => 2, FormatVersion::V4 => 3 } }
pub open spec fn a2(d: Seq<u8>, p: int) -> u16 { le2(d.subrange(p, p + 2)) }
pub open spec fn a4(d: Seq<u8>, p: int) -> u32 { le4(d.subrange(p, p + 4)) }
pub open spec fn a8(d: Seq<u8>, p: int) -> u64 { le8(d.subrange(p, p + 8)) }
pub open spec fn version_of(n: u16) -> Option<FormatVersion> {
    if n == 0 { Some(FormatVersion::V1) } else if n == 1 { Some(FormatVersion::V2) } else if n == 2 { Some(FormatVersion::V3) } else if n == 3 { Some(FormatVersion::V4) } else { None }
}
/// a complete header of a known version starts at p
pub open spec fn valid_at(d: Seq<u8>, p: int) -> bool {
    0 <= p && p + 32 <= d.len() && a4(d, p) == 0x1A51504D && version_of(a2(d, p + 12)) is Some && a4(d, p + 4) >= hsize(version_of(a2(d, p + 12))->0) && p + hsize(version_of(a2(d, p + 12))->0) <= d.len()
}
pub open spec fn v4_at(d: Seq<u8>, p: int, v: MpqHeaderV4Data) -> bool {
    &&& v.hash_table_size_64 == a8(d, p + 0x44) &&& v.block_table_size_64 == a8(d, p + 0x4C) &&& v.hi_block_table_size_64 == a8(d, p + 0x54)
    &&& v.het_table_size_64 == a8(d, p + 0x5C) &&& v.bet_table_size_64 == a8(d, p + 0x64) &&& v.raw_chunk_size == a4(d, p + 0x6C)
    &&& v.md5_block_table@ == d.subrange(p + 0x70, p + 0x80) &&& v.md5_hash_table@ == d.subrange(p + 0x80, p + 0x90) &&& v.md5_hi_block_table@ == d.subrange(p + 0x90, p + 0xA0)
    &&& v.md5_bet_table@ == d.subrange(p + 0xA0, p + 0xB0) &&& v.md5_het_table@ == d.subrange(p + 0xB0, p + 0xC0) &&& v.md5_mpq_header@ == d.subrange(p + 0xC0, p + 0xD0)
}
/// h is the header stored at p
pub open spec fn header_at(d: Seq<u8>, p: int, h: MpqHeader) -> bool {
    &&& valid_at(d, p)
    &&& h.header_size == a4(d, p + 4) &&& h.archive_size == a4(d, p + 8) &&& version_of(a2(d, p + 12)) == Some(h.format_version) &&& h.block_size == a2(d, p + 14)
    &&& h.hash_table_pos == a4(d, p + 16) &&& h.block_table_pos == a4(d, p + 20) &&& h.hash_table_size == a4(d, p + 24) &&& h.block_table_size == a4(d, p + 28)
    &&& h.hi_block_table_pos == (if vnum(h.format_version) >= 1 { Some(a8(d, p + 32)) } else { None })
    &&& h.hash_table_pos_hi == (if vnum(h.format_version) >= 1 { Some(a2(d, p + 40)) } else { None })
    &&& h.block_table_pos_hi == (if vnum(h.format_version) >= 1 { Some(a2(d, p + 42)) } else { None })
    &&& h.archive_size_64 == (if vnum(h.format_version) >= 2 { Some(a8(d, p + 44)) } else { None })
    &&& h.bet_table_pos == (if vnum(h.format_version) >= 2 { Some(a8(d, p + 52)) } else { None })
    &&& h.het_table_pos == (if vnum(h.format_version) >= 2 { Some(a8(d, p + 60)) } else { None })
    &&& (h.v4_data is Some <==> vnum(h.format_version) >= 3)
    &&& (h.v4_data is Some ==> v4_at(d, p, h.v4_data->0))
}
pub proof fn lemma_hi32(lo: u32, hi: u16) ensures ((hi as u64) << 32) | (lo as u64) == hi * 0x1_0000_0000 + lo
{ assert(((hi as u64) << 32) | (lo as u64) == (hi as u64) * 0x1_0000_0000 + (lo as u64)) by (bit_vector); }
/// what the search does at offset o: 0 nothing there, 1 an archive header, 2 a user data header pointing at an archive header, 3 a truncated user data header
pub open spec fn step(d: Seq<u8>, o: int) -> int {
    if o + 4 > d.len() { 0 } else if a4(d, o) == 0x1A51504D { 1 } else if a4(d, o) != 0x1B51504D { 0 }
    else if o + 16 > d.len() { 3 } else if o + a4(d, o + 8) >= d.len() { 0 } else if o + a4(d, o + 8) + 4 > d.len() { 3 }
    else if a4(d, o + a4(d, o + 8)) == 0x1A51504D { 2 } else { 0 }
}
pub open spec fn skipped(d: Seq<u8>, o: int) -> bool { forall|j: int| 0 <= j < o && j % 512 == 0 ==> #[trigger] step(d, j) == 0 }
/// the archive header the search has to deliver, seen from the first offset where something is
pub open spec fn found(d: Seq<u8>, o: int, r: (u64, Option<UserDataHeader>, MpqHeader)) -> bool {
    0 <= o < d.len() && o % 512 == 0 && skipped(d, o) && header_at(d, r.0 as int, r.2) && (
        (step(d, o) == 1 && r.0 == o && r.1 is None)
        || (step(d, o) == 2 && r.0 == o + a4(d, o + 8) && r.1 is Some && r.1->0.user_data_size == a4(d, o + 4) && r.1->0.header_offset == a4(d, o + 8) && r.1->0.user_data_header_size == a4(d, o + 12)))
}
/// a complete archive header is there, or where the user data header at o points
pub open spec fn offered(d: Seq<u8>, o: int) -> bool { (step(d, o) == 1 && valid_at(d, o)) || (step(d, o) == 2 && valid_at(d, o + a4(d, o + 8))) }
pub open spec fn or0(x: Option<u64>) -> u64 { if x is Some { x->0 } else { 0 } }
pub open spec fn hdr1(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    le4b(0x1A51504D) + le4b(hsize(v) as u32) + le4b((if q.archive_size <= u32::MAX { q.archive_size } else { u32::MAX as u64 }) as u32) + le2b(vnum(v) as u16) + le2b(block_size)
        + le4b(q.hash_table_pos as u32) + le4b(q.block_table_pos as u32) + le4b(q.hash_table_size) + le4b(q.block_table_size)
}
pub open spec fn hdr2(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    hdr1(v, block_size, q) + le8b(or0(q.hi_block_table_pos)) + le2b((q.hash_table_pos >> 32) as u16) + le2b((q.block_table_pos >> 32) as u16)
}
pub open spec fn hdr3(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    hdr2(v, block_size, q) + le8b(q.archive_size) + le8b(or0(q.bet_table_pos)) + le8b(or0(q.het_table_pos))
}
pub open spec fn hdr4a(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    let x = q.v4_data->0;
    hdr3(v, block_size, q) + le8b(x.hash_table_size_64) + le8b(x.block_table_size_64) + le8b(x.hi_block_table_size_64) + le8b(x.het_table_size_64) + le8b(x.bet_table_size_64) + le4b(x.raw_chunk_size)
}
pub open spec fn hdr4(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    let x = q.v4_data->0;
    hdr4a(v, block_size, q) + x.md5_block_table@ + x.md5_hash_table@ + x.md5_hi_block_table@ + x.md5_bet_table@ + x.md5_het_table@ + x.md5_mpq_header@
}
pub open spec fn hdr(v: FormatVersion, block_size: u16, q: HeaderWriteParams) -> Seq<u8> {
    match v { FormatVersion::V1 => hdr1(v, block_size, q), FormatVersion::V2 => hdr2(v, block_size, q), FormatVersion::V3 => hdr3(v, block_size, q), FormatVersion::V4 => hdr4(v, block_size, q) }
}
}
