verus! {
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/bet.rs struct:BetHeader
//@end
//@extract mopaq/src/tables/bet.rs struct:BetTable
//@end
//@extract mopaq/src/tables/bet.rs struct:BetFileInfo
//@end
// ---------- specification: extended block table ----------
pub open spec fn cdiv(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
/// no medium or buffer holds 2^56 bytes
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }
pub open spec fn w4(b: Seq<u8>, i: int) -> u32 { le4(b.subrange(i, i + 4)) }
pub open spec fn tail(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i, b.len() as int) }
pub open spec fn bet_head(b: Seq<u8>, h: BetHeader) -> bool {
    &&& h.table_size == w4(b, 0) && h.file_count == w4(b, 4) && h.unknown_08 == w4(b, 8) && h.table_entry_size == w4(b, 12)
    &&& h.bit_index_file_pos == w4(b, 16) && h.bit_index_file_size == w4(b, 20) && h.bit_index_cmp_size == w4(b, 24) && h.bit_index_flag_index == w4(b, 28) && h.bit_index_unknown == w4(b, 32)
    &&& h.bit_count_file_pos == w4(b, 36) && h.bit_count_file_size == w4(b, 40) && h.bit_count_cmp_size == w4(b, 44) && h.bit_count_flag_index == w4(b, 48) && h.bit_count_unknown == w4(b, 52)
    &&& h.total_bet_hash_size == w4(b, 56) && h.bet_hash_size_extra == w4(b, 60) && h.bet_hash_size == w4(b, 64) && h.bet_hash_array_size == w4(b, 68) && h.flag_count == w4(b, 72)
}
pub open spec fn bet_plain(t: Seq<u8>, b: BetTable) -> bool {
    let f = b.header.flag_count as int; let n = cdiv(b.header.file_count * b.header.table_entry_size, 8); let k = (b.header.bet_hash_array_size / 8) as int;
    &&& t.len() >= 88 + 4 * f + n + 8 * k && bet_head(tail(t, 12), b.header)
    &&& b.file_flags@.len() == f && (forall|i: int| 0 <= i < f ==> #[trigger] b.file_flags@[i] == w4(t, 88 + 4 * i))
    &&& b.file_table@ == t.subrange(88 + 4 * f, 88 + 4 * f + n)
    &&& b.bet_hashes@.len() == k && (forall|i: int| 0 <= i < k ==> #[trigger] b.bet_hashes@[i] == le8(t.subrange(88 + 4 * f + n + 8 * i, 88 + 4 * f + n + 8 * i + 8)))
}
/// d is the stored table with everything behind the twelve-byte header decrypted
pub open spec fn opened(raw: Seq<u8>, key: u32, d: Seq<u8>) -> bool { raw.len() >= 12 && d.len() == raw.len() && d.subrange(0, 12) == raw.subrange(0, 12) && benc(tail(d, 12), tail(raw, 12), key) }
/// decompression is a function of its arguments
pub uninterp spec fn dec_of(m: u8, c: Seq<u8>, n: int) -> Result<Seq<u8>>;
/// t is the plain table: as opened when the stated size fits, otherwise decompressed to the stated size
pub open spec fn unpacked(d: Seq<u8>, t: Seq<u8>) -> bool {
    let n = w4(d, 8);
    if n + 12 <= d.len() { t == d } else { d.len() > 12 && dec_of(d[12], tail(d, 13), n as int) is Ok && t == d.subrange(0, 12) + dec_of(d[12], tail(d, 13), n as int)->Ok_0 }
}
pub open spec fn bet_from(raw: Seq<u8>, key: u32, d: Seq<u8>, t: Seq<u8>, b: BetTable) -> bool { opened(raw, key, d) && unpacked(d, t) && w4(raw, 0) == 0x1A544542 && bet_plain(t, b) }
pub open spec fn bet_in(raw: Seq<u8>, key: u32, h: BetTable) -> bool { exists|d: Seq<u8>, t: Seq<u8>| #[trigger] bet_from(raw, key, d, t, h) }
/// d2 is d1 with the w bits from position o on replaced by the low bits of v, and nothing else changed
pub open spec fn written(d1: Seq<u8>, d2: Seq<u8>, o: int, w: int, v: u128) -> bool {
    d1.len() == d2.len() && forall|k: int| 0 <= k < 8 * d1.len() ==> #[trigger] bit(d2, k) == (if o <= k < o + w { vbit(v, k - o) } else { bit(d1, k) })
}
/// the entry's bits are inside the table and inside the value they are read into
pub open spec fn readable(d: Seq<u8>, index: int, w: int) -> bool {
    index * w <= usize::MAX && (index * w) / 8 + ceil8((index * w) % 8 + w) <= d.len() && (index * w) % 8 + w <= 128
}
/// r is the w-bit little-endian field at bit position o of d
pub open spec fn field(r: u64, d: Seq<u8>, o: int, off: int, cnt: int, w: int) -> bool {
    forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(r, k) == (k < cnt && k + off < w && bit(d, o + off + k))
}
/// i is what the table holds for the file of that index
pub open spec fn info_of(b: BetTable, index: int, i: BetFileInfo) -> bool {
    let d = b.file_table@; let w = b.header.table_entry_size as int; let o = index * w; let h = b.header;
    &&& field(i.file_pos, d, o, h.bit_index_file_pos as int, h.bit_count_file_pos as int, w)
    &&& field(i.file_size, d, o, h.bit_index_file_size as int, h.bit_count_file_size as int, w)
    &&& field(i.compressed_size, d, o, h.bit_index_cmp_size as int, h.bit_count_cmp_size as int, w)
    &&& exists|f: u64| #[trigger] field(f, d, o, h.bit_index_flag_index as int, h.bit_count_flag_index as int, w)
        && i.flags == (if (f as u32) < h.flag_count { b.file_flags@[(f as u32) as int] } else { 0 })
}
}
