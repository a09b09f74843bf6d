verus! {
/// what is written at p is what is read at p
pub proof fn lemma_window(d: Seq<u8>, p: int, b: Seq<u8>, k: int, n: int, x: Seq<u8>)
    requires 0 <= p <= d.len(), 0 <= k, k + n <= b.len(), x.len() == n, forall|i: int| 0 <= i < n ==> b[k + i] == #[trigger] x[i]
    ensures splice(d, p, b).subrange(p + k, p + k + n) == x
{ assert(splice(d, p, b).subrange(p + k, p + k + n) =~= x); }
pub proof fn lemma_hdr1(d: Seq<u8>, p: int, b: Seq<u8>, v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires 0 <= p <= d.len(), b.len() >= 32, b.subrange(0, 32) == hdr1(v, bs, q)
    ensures ({ let e = splice(d, p, b);
        &&& a4(e, p) == 0x1A51504D &&& a4(e, p + 4) == hsize(v) &&& a4(e, p + 8) == (if q.archive_size <= u32::MAX { q.archive_size } else { u32::MAX as u64 })
        &&& a2(e, p + 12) == vnum(v) &&& a2(e, p + 14) == bs &&& a4(e, p + 16) == q.hash_table_pos as u32 &&& a4(e, p + 20) == q.block_table_pos as u32
        &&& a4(e, p + 24) == q.hash_table_size &&& a4(e, p + 28) == q.block_table_size })
{
    let h = hdr1(v, bs, q);
    assert forall|i: int| 0 <= i < 32 implies b[i] == h[i] by { assert(b.subrange(0, 32)[i] == b[i]); }
    let sz = (if q.archive_size <= u32::MAX { q.archive_size } else { u32::MAX as u64 }) as u32;
    lemma_window(d, p, b, 0, 4, le4b(0x1A51504D)); lemma_le4_rt(0x1A51504D);
    lemma_window(d, p, b, 4, 4, le4b(hsize(v) as u32)); lemma_le4_rt(hsize(v) as u32);
    lemma_window(d, p, b, 8, 4, le4b(sz)); lemma_le4_rt(sz);
    lemma_window(d, p, b, 12, 2, le2b(vnum(v) as u16)); lemma_le2_rt(vnum(v) as u16);
    lemma_window(d, p, b, 14, 2, le2b(bs)); lemma_le2_rt(bs);
    lemma_window(d, p, b, 16, 4, le4b(q.hash_table_pos as u32)); lemma_le4_rt(q.hash_table_pos as u32);
    lemma_window(d, p, b, 20, 4, le4b(q.block_table_pos as u32)); lemma_le4_rt(q.block_table_pos as u32);
    lemma_window(d, p, b, 24, 4, le4b(q.hash_table_size)); lemma_le4_rt(q.hash_table_size);
    lemma_window(d, p, b, 28, 4, le4b(q.block_table_size)); lemma_le4_rt(q.block_table_size);
}
pub proof fn lemma_hdr2(d: Seq<u8>, p: int, b: Seq<u8>, v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires 0 <= p <= d.len(), b.len() >= 44, b.subrange(0, 44) == hdr2(v, bs, q)
    ensures ({ let e = splice(d, p, b); a8(e, p + 32) == or0(q.hi_block_table_pos) && a2(e, p + 40) == (q.hash_table_pos >> 32) as u16 && a2(e, p + 42) == (q.block_table_pos >> 32) as u16 })
{
    let h = hdr2(v, bs, q);
    assert(hdr1(v, bs, q).len() == 32);
    assert forall|i: int| 0 <= i < 44 implies b[i] == h[i] by { assert(b.subrange(0, 44)[i] == b[i]); }
    lemma_window(d, p, b, 32, 8, le8b(or0(q.hi_block_table_pos))); lemma_le8_rt(or0(q.hi_block_table_pos));
    lemma_window(d, p, b, 40, 2, le2b((q.hash_table_pos >> 32) as u16)); lemma_le2_rt((q.hash_table_pos >> 32) as u16);
    lemma_window(d, p, b, 42, 2, le2b((q.block_table_pos >> 32) as u16)); lemma_le2_rt((q.block_table_pos >> 32) as u16);
}
pub proof fn lemma_hdr3(d: Seq<u8>, p: int, b: Seq<u8>, v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires 0 <= p <= d.len(), b.len() >= 68, b.subrange(0, 68) == hdr3(v, bs, q)
    ensures ({ let e = splice(d, p, b); a8(e, p + 44) == q.archive_size && a8(e, p + 52) == or0(q.bet_table_pos) && a8(e, p + 60) == or0(q.het_table_pos) })
{
    let h = hdr3(v, bs, q);
    assert(hdr2(v, bs, q).len() == 44);
    assert forall|i: int| 0 <= i < 68 implies b[i] == h[i] by { assert(b.subrange(0, 68)[i] == b[i]); }
    lemma_window(d, p, b, 44, 8, le8b(q.archive_size)); lemma_le8_rt(q.archive_size);
    lemma_window(d, p, b, 52, 8, le8b(or0(q.bet_table_pos))); lemma_le8_rt(or0(q.bet_table_pos));
    lemma_window(d, p, b, 60, 8, le8b(or0(q.het_table_pos))); lemma_le8_rt(or0(q.het_table_pos));
}
pub proof fn lemma_hdr4a(d: Seq<u8>, p: int, b: Seq<u8>, v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires 0 <= p <= d.len(), b.len() >= 112, b.subrange(0, 112) == hdr4a(v, bs, q)
    ensures ({ let e = splice(d, p, b); let x = q.v4_data->0; a8(e, p + 0x44) == x.hash_table_size_64 && a8(e, p + 0x4C) == x.block_table_size_64 && a8(e, p + 0x54) == x.hi_block_table_size_64
        && a8(e, p + 0x5C) == x.het_table_size_64 && a8(e, p + 0x64) == x.bet_table_size_64 && a4(e, p + 0x6C) == x.raw_chunk_size })
{
    hide(hdr3);
    let h = hdr4a(v, bs, q); let x = q.v4_data->0;
    lemma_lens(v, bs, q);
    assert forall|i: int| 0 <= i < 112 implies b[i] == h[i] by { assert(b.subrange(0, 112)[i] == b[i]); }
    lemma_window(d, p, b, 0x44, 8, le8b(x.hash_table_size_64)); lemma_le8_rt(x.hash_table_size_64);
    lemma_window(d, p, b, 0x4C, 8, le8b(x.block_table_size_64)); lemma_le8_rt(x.block_table_size_64);
    lemma_window(d, p, b, 0x54, 8, le8b(x.hi_block_table_size_64)); lemma_le8_rt(x.hi_block_table_size_64);
    lemma_window(d, p, b, 0x5C, 8, le8b(x.het_table_size_64)); lemma_le8_rt(x.het_table_size_64);
    lemma_window(d, p, b, 0x64, 8, le8b(x.bet_table_size_64)); lemma_le8_rt(x.bet_table_size_64);
    lemma_window(d, p, b, 0x6C, 4, le4b(x.raw_chunk_size)); lemma_le4_rt(x.raw_chunk_size);
}
pub proof fn lemma_hdr4(d: Seq<u8>, p: int, v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires 0 <= p <= d.len(), q.v4_data is Some
    ensures ({ let e = splice(d, p, hdr4(v, bs, q)); let x = q.v4_data->0; e.subrange(p + 0x70, p + 0x80) == x.md5_block_table@ && e.subrange(p + 0x80, p + 0x90) == x.md5_hash_table@
        && e.subrange(p + 0x90, p + 0xA0) == x.md5_hi_block_table@ && e.subrange(p + 0xA0, p + 0xB0) == x.md5_bet_table@ && e.subrange(p + 0xB0, p + 0xC0) == x.md5_het_table@ && e.subrange(p + 0xC0, p + 0xD0) == x.md5_mpq_header@ })
{
    hide(hdr4a);
    let b = hdr4(v, bs, q); let x = q.v4_data->0;
    lemma_lens(v, bs, q);
    lemma_window(d, p, b, 0x70, 16, x.md5_block_table@); lemma_window(d, p, b, 0x80, 16, x.md5_hash_table@); lemma_window(d, p, b, 0x90, 16, x.md5_hi_block_table@);
    lemma_window(d, p, b, 0xA0, 16, x.md5_bet_table@); lemma_window(d, p, b, 0xB0, 16, x.md5_het_table@); lemma_window(d, p, b, 0xC0, 16, x.md5_mpq_header@);
}
pub proof fn lemma_lens(v: FormatVersion, bs: u16, q: HeaderWriteParams)
    ensures hdr1(v, bs, q).len() == 32, hdr2(v, bs, q).len() == 44, hdr3(v, bs, q).len() == 68, hdr4a(v, bs, q).len() == 112, q.v4_data is Some ==> hdr4(v, bs, q).len() == 208
{ }
pub proof fn lemma_prefixes(v: FormatVersion, bs: u16, q: HeaderWriteParams)
    requires vnum(v) == 3 ==> q.v4_data is Some
    ensures ({ let b = hdr(v, bs, q); b.len() == hsize(v) && b.subrange(0, 32) == hdr1(v, bs, q) && (vnum(v) >= 1 ==> b.subrange(0, 44) == hdr2(v, bs, q)) && (vnum(v) >= 2 ==> b.subrange(0, 68) == hdr3(v, bs, q))
        && (vnum(v) >= 3 ==> b.subrange(0, 112) == hdr4a(v, bs, q)) })
{
    lemma_lens(v, bs, q);
    let b = hdr(v, bs, q); let b1 = hdr1(v, bs, q); let b2 = hdr2(v, bs, q); let b3 = hdr3(v, bs, q); let b4 = hdr4a(v, bs, q);
    lemma_pre2(v, bs, q); lemma_pre3(v, bs, q); lemma_pre4(v, bs, q); lemma_pre5(v, bs, q);
    if vnum(v) >= 3 { assert(b.subrange(0, 68) =~= b.subrange(0, 112).subrange(0, 68)); }
    if vnum(v) >= 2 { assert(b.subrange(0, 44) =~= b.subrange(0, 68).subrange(0, 44)); }
    if vnum(v) >= 1 { assert(b.subrange(0, 32) =~= b.subrange(0, 44).subrange(0, 32)); }
    if vnum(v) == 2 { assert(b.subrange(0, 68) =~= b); }
    if vnum(v) == 1 { assert(b.subrange(0, 44) =~= b); }
    if vnum(v) == 0 { assert(b.subrange(0, 32) =~= b); }
}
pub proof fn lemma_pre2(v: FormatVersion, bs: u16, q: HeaderWriteParams) ensures hdr2(v, bs, q).subrange(0, 32) == hdr1(v, bs, q)
{ hide(hdr1); lemma_lens(v, bs, q); assert(hdr2(v, bs, q).subrange(0, 32) =~= hdr1(v, bs, q)); }
pub proof fn lemma_pre3(v: FormatVersion, bs: u16, q: HeaderWriteParams) ensures hdr3(v, bs, q).subrange(0, 44) == hdr2(v, bs, q)
{ hide(hdr2); lemma_lens(v, bs, q); assert(hdr3(v, bs, q).subrange(0, 44) =~= hdr2(v, bs, q)); }
pub proof fn lemma_pre4(v: FormatVersion, bs: u16, q: HeaderWriteParams) ensures hdr4a(v, bs, q).subrange(0, 68) == hdr3(v, bs, q)
{ hide(hdr3); lemma_lens(v, bs, q); assert(hdr4a(v, bs, q).subrange(0, 68) =~= hdr3(v, bs, q)); }
pub proof fn lemma_pre5(v: FormatVersion, bs: u16, q: HeaderWriteParams) requires true ensures q.v4_data is Some ==> hdr4(v, bs, q).subrange(0, 112) == hdr4a(v, bs, q)
{ hide(hdr4a); lemma_lens(v, bs, q); if q.v4_data is Some { assert(hdr4(v, bs, q).subrange(0, 112) =~= hdr4a(v, bs, q)); } }
pub proof fn lemma_pos48(x: u64) requires x < 0x1_0000_0000_0000 ensures ((x >> 32) as u16) * 0x1_0000_0000 + (x as u32) == x
{ assert(x < 0x1_0000_0000_0000 ==> ((((x >> 32) as u16) as u64) << 32) | ((x as u32) as u64) == x) by (bit_vector); lemma_hi32(x as u32, (x >> 32) as u16); }
pub open spec fn same_v4(y: MpqHeaderV4Data, x: MpqHeaderV4Data) -> bool {
    &&& y.hash_table_size_64 == x.hash_table_size_64 &&& y.block_table_size_64 == x.block_table_size_64 &&& y.hi_block_table_size_64 == x.hi_block_table_size_64
    &&& y.het_table_size_64 == x.het_table_size_64 &&& y.bet_table_size_64 == x.bet_table_size_64 &&& y.raw_chunk_size == x.raw_chunk_size
    &&& y.md5_block_table@ == x.md5_block_table@ &&& y.md5_hash_table@ == x.md5_hash_table@ &&& y.md5_hi_block_table@ == x.md5_hi_block_table@
    &&& y.md5_bet_table@ == x.md5_bet_table@ &&& y.md5_het_table@ == x.md5_het_table@ &&& y.md5_mpq_header@ == x.md5_mpq_header@
}
/// A written header reads back with the written values, in every version.
pub proof fn thm_header_rt(d: Seq<u8>, p: int, v: FormatVersion, bs: u16, q: HeaderWriteParams, h: MpqHeader)
    requires 0 <= p <= d.len(), vnum(v) == 3 ==> q.v4_data is Some, q.hash_table_pos < 0x1_0000_0000_0000, q.block_table_pos < 0x1_0000_0000_0000,
        vnum(v) >= 1 || (q.hash_table_pos <= u32::MAX && q.block_table_pos <= u32::MAX),
    ensures ({ let e = splice(d, p, hdr(v, bs, q));
        &&& valid_at(e, p)
        &&& header_at(e, p, h) ==> {
            &&& h.format_version == v &&& h.block_size == bs &&& h.header_size == hsize(v) &&& h.hash_table_size == q.hash_table_size &&& h.block_table_size == q.block_table_size
            &&& (if h.hash_table_pos_hi is Some { h.hash_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.hash_table_pos == q.hash_table_pos
            &&& (if h.block_table_pos_hi is Some { h.block_table_pos_hi->0 * 0x1_0000_0000 } else { 0 }) + h.block_table_pos == q.block_table_pos
            &&& (vnum(v) >= 1 ==> h.hi_block_table_pos == Some(or0(q.hi_block_table_pos)))
            &&& (vnum(v) >= 2 ==> h.archive_size_64 == Some(q.archive_size) && h.bet_table_pos == Some(or0(q.bet_table_pos)) && h.het_table_pos == Some(or0(q.het_table_pos)))
            &&& (vnum(v) == 3 ==> h.v4_data is Some && same_v4(h.v4_data->0, q.v4_data->0))
            &&& (vnum(v) < 2 && q.archive_size <= u32::MAX ==> h.archive_size == q.archive_size)
        } })
{
    hide(hdr1); hide(hdr2); hide(hdr3); hide(hdr4a); hide(hdr4);
    let b = hdr(v, bs, q);
    lemma_pos48(q.hash_table_pos); lemma_pos48(q.block_table_pos);
    lemma_prefixes(v, bs, q);
    lemma_hdr1(d, p, b, v, bs, q);
    if vnum(v) >= 1 { lemma_hdr2(d, p, b, v, bs, q); }
    if vnum(v) >= 2 { lemma_hdr3(d, p, b, v, bs, q); }
    if vnum(v) >= 3 { lemma_hdr4a(d, p, b, v, bs, q); lemma_hdr4(d, p, v, bs, q); }
    if vnum(v) == 0 { assert((q.hash_table_pos as u32) == q.hash_table_pos && (q.block_table_pos as u32) == q.block_table_pos); }
}
}
