//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_bits.rs
//@include inc_betl.rs
verus! {
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/het.rs struct:HetHeader
//@end
//@extract mopaq/src/tables/het.rs struct:HetTable
//@end
// ---------- environment ----------
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == cdiv(a as int, b as int);
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == cdiv(a as int, b as int);
pub trait VpContains { fn vp_contains(&self, x: &u32) -> (r: bool); }
impl VpContains for core::ops::Range<u32> { fn vp_contains(&self, x: &u32) -> (r: bool) ensures r == (self.start <= *x && *x < self.end) { self.start <= *x && *x < self.end } }
/// v.get(a..).unwrap_or_default()
pub fn vp_tail_or_empty<'a>(v: &'a Vec<u8>, a: usize) -> (r: &'a [u8]) ensures r@ == (if a <= v@.len() { v@.subrange(a as int, v@.len() as int) } else { Seq::<u8>::empty() })
{ if a <= v.len() { &v.as_slice()[a..v.len()] } else { &v.as_slice()[0..0] } }
/// the bounds check of v[a..]
pub fn vp_tail<'a>(s: &'a Vec<u8>, a: usize) -> (r: &'a [u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { &s.as_slice()[a..s.len()] }
/// &mut v[a..]
pub fn vp_tail_mut(v: &mut Vec<u8>, a: usize) -> (r: &mut [u8]) requires a <= old(v)@.len()
    ensures r@ == tail(old(v)@, a as int), final(r)@.len() == r@.len() ==> final(v)@.len() == old(v)@.len() && tail(final(v)@, a as int) == final(r)@ && final(v)@.subrange(0, a as int) == old(v)@.subrange(0, a as int)
{
    let n = v.len(); let ghost v0 = v@;
    let r = vp_sub_mut(v.as_mut_slice(), a, n);
    proof {
        let h = v0.subrange(0, a as int); let e = v0.subrange(n as int, n as int);
        assert forall|f: Seq<u8>| f.len() == n - a implies tail(#[trigger] (h + f) + e, a as int) == f && ((h + f) + e).subrange(0, a as int) == h by { assert(tail((h + f) + e, a as int) =~= f); assert(((h + f) + e).subrange(0, a as int) =~= h); }
    }
    r
}
pub proof fn lemma_shl1() ensures forall|k: u32| k < 64 ==> #[trigger] (1u64 << k) >= 1 { assert(forall|k: u32| k < 64 ==> #[trigger] (1u64 << k) >= 1) by (bit_vector); }
/// v.get(i) == Some(&x)
pub fn vp_at_is(v: &Vec<u64>, i: usize, x: u64) -> (r: bool) ensures r == (i < v@.len() && v@[i as int] == x) { i < v.len() && v[i] == x }
pub fn vp_size_het() -> (r: usize) ensures r == 32 { 32 }
pub fn vp_size_bet() -> (r: usize) ensures r == 76 { 76 }
/// proved in unit comp (C06), apart from being a function of its arguments
#[verifier::external_body] pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> (r: Result<Vec<u8>>)
    requires small(data@.len() as int), small(decompressed_size as int),
    ensures r is Ok == dec_of(method, data@, decompressed_size as int) is Ok, r is Ok ==> r->Ok_0@ == dec_of(method, data@, decompressed_size as int)->Ok_0 && small(r->Ok_0@.len() as int),
{ unimplemented!() }
/// proved in unit bytes (C02)
#[verifier::external_body] pub fn decrypt_table_data(data: &mut [u8], key: u32)
    requires len_ok(old(data)@.len() as int)
    ensures benc(final(data)@, old(data)@, key)
{ unimplemented!() }
//@extract mopaq/src/tables/common.rs read_bytes
//@opts ret=r
//@subst reader.take(len).read_to_end(&mut data)? ==> vp_take_read_to_end(reader, len, &mut data)?
//@subst std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into() ==> vp_error()
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> took(old(reader).pos(), final(reader).pos(), old(reader).bytes(), len as int) || len == 0,
        r is Ok ==> r->Ok_0@.len() == len && r->Ok_0@ == old(reader).bytes().subrange(old(reader).pos(), old(reader).pos() + len) && final(reader).pos() == old(reader).pos() + len,
        !old(reader).faulty() && 0 <= old(reader).pos() && old(reader).pos() + len <= old(reader).bytes().len() ==> r is Ok,
//@before-tail
    proof { assert(Seq::<u8>::empty() + reader.bytes().subrange(reader.pos() - data@.len(), reader.pos()) =~= reader.bytes().subrange(reader.pos() - data@.len(), reader.pos())); }
//@end
// ---------- specification: extended tables ----------
pub open spec fn het_head(b: Seq<u8>, h: HetHeader) -> bool {
    &&& h.table_size == w4(b, 0) && h.max_file_count == w4(b, 4) && h.hash_table_size == w4(b, 8) && h.hash_entry_size == w4(b, 12)
    &&& h.total_index_size == w4(b, 16) && h.index_size_extra == w4(b, 20) && h.index_size == w4(b, 24) && h.block_table_size == w4(b, 28)
}
pub open spec fn het_plain(t: Seq<u8>, h: HetTable) -> bool {
    let n = h.header.hash_table_size as int; let m = cdiv(h.header.total_index_size as int, 8);
    t.len() >= 44 + n + m && het_head(tail(t, 12), h.header) && h.hash_table@ == t.subrange(44, 44 + n) && h.file_indices@ == t.subrange(44 + n, 44 + n + m)
}
pub open spec fn het_from(raw: Seq<u8>, key: u32, d: Seq<u8>, t: Seq<u8>, h: HetTable) -> bool { opened(raw, key, d) && unpacked(d, t) && w4(raw, 0) == 0x1A544548 && het_plain(t, h) }
pub open spec fn het_in(raw: Seq<u8>, key: u32, h: HetTable) -> bool { exists|d: Seq<u8>, t: Seq<u8>| #[trigger] het_from(raw, key, d, t, h) }
pub proof fn lemma_het_in(raw: Seq<u8>, key: u32, d: Seq<u8>, t: Seq<u8>, h: HetTable) requires het_from(raw, key, d, t, h) ensures het_in(raw, key, h) {}
pub proof fn lemma_bet_in(raw: Seq<u8>, key: u32, d: Seq<u8>, t: Seq<u8>, h: BetTable) requires bet_from(raw, key, d, t, h) ensures bet_in(raw, key, h) {}
pub proof fn lemma_w4(b: Seq<u8>, i: int) requires 0 <= i, i + 4 <= b.len() ensures w4(b, i) == le4(seq![b[i], b[i + 1], b[i + 2], b[i + 3]])
{ assert(b.subrange(i, i + 4) =~= seq![b[i], b[i + 1], b[i + 2], b[i + 3]]); }
/// the three header words, read byte by byte
pub proof fn lemma_ext(a: Seq<u8>, b: Seq<u8>) requires a.len() >= 12, b.len() >= 12, a.subrange(0, 12) == b.subrange(0, 12) ensures w4(a, 0) == w4(b, 0), w4(a, 8) == w4(b, 8)
{
    assert(a.subrange(0, 4) =~= a.subrange(0, 12).subrange(0, 4)); assert(b.subrange(0, 4) =~= b.subrange(0, 12).subrange(0, 4));
    assert(a.subrange(8, 12) =~= a.subrange(0, 12).subrange(8, 12)); assert(b.subrange(8, 12) =~= b.subrange(0, 12).subrange(8, 12));
}
pub proof fn lemma_empty(e: Seq<u8>, key: u32) requires e.len() == 0 ensures benc(e, e, key) { assert(words(e).len() == 0); }
pub proof fn lemma_unpacked(d: Seq<u8>, t: Seq<u8>) requires d.len() >= 12, t.len() >= 12, w4(d, 8) + 12 <= d.len() ==> t == d,
    w4(d, 8) + 12 > d.len() ==> d.len() > 12 && dec_of(d[12], tail(d, 13), w4(d, 8) as int) is Ok && t == d.subrange(0, 12) + dec_of(d[12], tail(d, 13), w4(d, 8) as int)->Ok_0
    ensures unpacked(d, t) {}
impl HetTable {
//@extract mopaq/src/tables/het.rs assoc:HetTable::SIGNATURE
//@end
//@extract mopaq/src/tables/het.rs HetTable::parse_header
//@opts ret=r
//@subst std::mem::size_of::<HetHeader>() ==> vp_size_het()
//@subst std::io::Cursor::new(data) ==> VpCursor::new(data)
//@spec
    ensures r is Ok <==> data@.len() >= 32, r is Ok ==> het_head(data@, r->Ok_0),
//@end
//@extract mopaq/src/tables/het.rs HetTable::read
//@opts ret=r
//@subst std::mem::size_of::<HetHeader>() ==> vp_size_het()
//@subst table_data.get(12..).unwrap_or_default() ==> vp_tail_or_empty(&table_data, 12)
//@subst let data_portion = &mut data[12..]; ==> let data_portion = vp_tail_mut(&mut data, 12);
//@subst &data[13..] ==> vp_tail(&data, 13)
//@spec
    requires small(old(reader).bytes().len() as int)
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> offset + compressed_size <= old(reader).bytes().len() && het_in(old(reader).bytes().subrange(offset as int, offset + compressed_size), key, r->Ok_0),
//@after-let data
    let ghost raw = data@;
//@after-let ext_data_size
    proof { lemma_w4(raw, 0); lemma_w4(raw, 8); }
//@after-let total_size
    let ghost d = data@;
    proof { if key == 0 || raw.len() == 12 { assert(d == raw); if raw.len() == 12 { lemma_empty(tail(raw, 12), key); } } lemma_ext(d, raw); assert(opened(raw, key, d)); }
//@after-let compressed_data
    assert(compressed_data@ == tail(d, 13));
//@after-let table_data
    proof { if w4(d, 8) + 12 > d.len() { assert(table_data@ =~= d.subrange(0, 12) + dec_of(d[12], tail(d, 13), w4(d, 8) as int)->Ok_0); } lemma_unpacked(d, table_data@); }
//@before-tail
    proof { lemma_het_in(raw, key, d, table_data@, HetTable { header, hash_table, file_indices }); }
//@end
//@extract mopaq/src/tables/het.rs HetTable::read_hash_entry
//@opts ret=r loops=1
//@spec
    requires index * self.header.hash_entry_size <= 0x7FFF_FFFF_FFFF_FFFF, self.header.hash_entry_size > 0, len_ok(self.hash_table@.len() as int)
//@body-start
    proof { lemma_shl1(); }
//@loop 0
    invariant byte_offset + 8 <= self.hash_table@.len(), len_ok(self.hash_table@.len() as int),
//@end
//@extract mopaq/src/tables/het.rs HetTable::find_file
//@opts ret=r
//@subst .contains ==> .vp_contains
//@spec
    requires len_ok(self.hash_table@.len() as int)
    ensures r is Some ==> r->0 < self.header.max_file_count,
//@body-start
    proof { lemma_shl1(); }
//@after-let hash_index
    proof {
        let n = hash_table_entries; let m = (if n >= 1 { n - 1 } else { 0 }) as u64; let s = self.header.hash_entry_size as int; let t = self.header.hash_table_size * 8;
        assert(hash & m <= m) by (bit_vector);
        assert(n * s <= t) by (nonlinear_arith) requires n == t / s, s > 0, t >= 0;
        assert(hash_index * s <= t) by (nonlinear_arith) requires hash_index <= n, s > 0, n * s <= t;
    }
//@end
}
impl BetTable {
//@extract mopaq/src/tables/bet.rs assoc:BetTable::SIGNATURE
//@end
//@extract mopaq/src/tables/bet.rs BetTable::parse_header
//@opts ret=r
//@subst std::mem::size_of::<BetHeader>() ==> vp_size_bet()
//@subst std::io::Cursor::new(data) ==> VpCursor::new(data)
//@spec
    ensures r is Ok <==> data@.len() >= 76, r is Ok ==> bet_head(data@, r->Ok_0),
//@end
//@extract mopaq/src/tables/bet.rs BetTable::read
//@opts ret=r loops=2
//@subst std::mem::size_of::<BetHeader>() ==> vp_size_bet()
//@subst table_data.get(12..).unwrap_or_default() ==> vp_tail_or_empty(&table_data, 12)
//@subst let data_portion = &mut data[12..]; ==> let data_portion = vp_tail_mut(&mut data, 12);
//@subst &data[13..] ==> vp_tail(&data, 13)
//@subst std::io::Cursor::new(&table_data[data_start..]) ==> VpCursor::new(vp_tail(&table_data, data_start))
//@spec
    requires small(old(reader).bytes().len() as int)
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> offset + compressed_size <= old(reader).bytes().len() && bet_in(old(reader).bytes().subrange(offset as int, offset + compressed_size), key, r->Ok_0),
//@after-let data
    let ghost raw = data@;
//@after-let ext_data_size
    proof { lemma_w4(raw, 0); lemma_w4(raw, 8); }
//@after-let total_size
    let ghost d = data@;
    proof { if key == 0 || raw.len() == 12 { assert(d == raw); if raw.len() == 12 { lemma_empty(tail(raw, 12), key); } } lemma_ext(d, raw); assert(opened(raw, key, d)); }
//@after-let compressed_data
    assert(compressed_data@ == tail(d, 13));
//@after-let table_data
    let ghost t = table_data@;
    proof { if w4(d, 8) + 12 > d.len() { assert(table_data@ =~= d.subrange(0, 12) + dec_of(d[12], tail(d, 13), w4(d, 8) as int)->Ok_0); } lemma_unpacked(d, table_data@); }
//@loop 0
    invariant reader.bytes() == old(reader).bytes(), reader.faulty() == old(reader).faulty(), t.len() >= 88, cursor.bytes() == tail(t, 88), cursor.pos() == 4 * file_flags@.len(), file_flags@.len() == vp_n0, 4 * file_flags@.len() <= tail(t, 88).len(), forall|i: int| 0 <= i < file_flags@.len() ==> #[trigger] file_flags@[i] == w4(t, 88 + 4 * i),
//@loop-after 0
    proof { let a = header.file_count as int; let b = header.table_entry_size as int; assert(0 <= a * b <= 0xFFFF_FFFF * 0xFFFF_FFFF) by (nonlinear_arith) requires 0 <= a <= 0xFFFF_FFFF, 0 <= b <= 0xFFFF_FFFF; }
//@loop-start 0
    proof { let o: int = (file_flags@.len() * 4) as int; assert(tail(t, 88).len() == t.len() - 88); if o + 4 <= tail(t, 88).len() { assert(tail(t, 88).subrange(o as int, o + 4) =~= t.subrange(88 + o, 88 + o + 4)); } }
//@loop-before 1
    let ghost g = 4 * header.flag_count + file_table_size;
//@loop 1
    invariant reader.bytes() == old(reader).bytes(), reader.faulty() == old(reader).faulty(), t.len() >= 88, g >= 0, cursor.bytes() == tail(t, 88), cursor.pos() == g + 8 * bet_hashes@.len(), bet_hashes@.len() == vp_n1, g + 8 * bet_hashes@.len() <= tail(t, 88).len(), forall|i: int| 0 <= i < bet_hashes@.len() ==> #[trigger] bet_hashes@[i] == le8(t.subrange(88 + g + 8 * i, 88 + g + 8 * i + 8)),
//@loop-start 1
    proof { let o: int = g + bet_hashes@.len() * 8; if o + 8 <= tail(t, 88).len() { assert(tail(t, 88).subrange(o as int, o + 8) =~= t.subrange(88 + o, 88 + o + 8)); } }
//@before-tail
    assert(file_table@ =~= t.subrange(88 + 4 * header.flag_count, 88 + 4 * header.flag_count + file_table_size));
    proof { lemma_bet_in(raw, key, d, t, BetTable { header, file_flags, file_table, bet_hashes }); }
//@end
//@extract mopaq/src/tables/bet.rs BetTable::name_hash_matches
//@opts ret=r
//@subst self.bet_hashes.get(index as usize) == Some(&jenkins_hash(filename)) ==> vp_at_is(&self.bet_hashes, index as usize, jenkins_hash(filename))
//@spec
    ensures r == (self.header.bet_hash_size != 64 || (index < self.bet_hashes@.len() && self.bet_hashes@[index as int] == jenkins(filename.spec_bytes()))),
//@end
}
fn main() {}
}
