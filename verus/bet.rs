//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_wle.rs
//@include inc_bits.rs
//@include inc_betl.rs
verus! {
// ---------- environment ----------
pub uninterp spec fn md5(b: Seq<u8>) -> Seq<u8>;
pub assume_specification [u32::div_ceil] (a: u32, b: u32) -> (r: u32) requires b > 0 ensures r == cdiv(a as int, b as int);
/// the number of bits below the highest set one, that one included
pub open spec fn width(v: u64) -> int decreases v { if v == 0 { 0 } else { 1 + width(v / 2) } }
/// u64::leading_zeros
#[verifier::external_body] pub fn vp_leading_zeros(v: u64) -> (r: u32) ensures r == 64 - width(v) { v.leading_zeros() }
pub fn vp_max32(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vp_max64(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vp_size_bet() -> (r: usize) ensures r == 76 { 76 }
/// std::collections::HashSet<u32>
#[verifier::external_body] pub struct VpSet { s: std::collections::HashSet<u32> }
impl VpSet {
    pub uninterp spec fn view(&self) -> Set<u32>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: u32) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
/// set.into_iter().collect::<Vec<u32>>()
#[verifier::external_body] pub fn vp_collect(s: VpSet) -> (r: Vec<u32>) ensures r@.len() == s@.len(), forall|x: u32| #[trigger] s@.contains(x) <==> r@.contains(x) { unimplemented!() }
/// slice::sort
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<u32>) ensures final(v)@.len() == old(v)@.len(), forall|x: u32| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
/// std::collections::HashMap<u32, u32>
#[verifier::external_body] pub struct VpMap { s: std::collections::HashMap<u32, u32> }
impl VpMap {
    pub uninterp spec fn view(&self) -> Map<u32, u32>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<u32, u32>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: u32, v: u32) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &u32) -> (r: Option<&u32>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
}
/// the 64-bit hash of a name (unit hash, C03)
pub uninterp spec fn jenkins(n: Seq<u8>) -> u64;
/// the UTF-8 bytes of a name
pub uninterp spec fn bytes_of(s: String) -> Seq<u8>;
#[verifier::external_body] pub fn jenkins_hash(n: &String) -> (r: u64) ensures r == jenkins(bytes_of(*n)) { unimplemented!() }
pub open spec fn hashes_of(f: Seq<PendingFile>) -> Seq<u64> { Seq::new(f.len(), |j: int| jenkins(bytes_of(f[j].archive_name))) }
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::get
//@opts ret=r
//@subst self.entries.get(index) ==> (if index < self.entries.len() { Some(&self.entries[index]) } else { None })
//@spec
    ensures r is Some <==> index < self.entries@.len(), r is Some ==> *r->0 == self.entries@[index as int],
//@end
}
//@extract mopaq/src/tables/block.rs struct:HiBlockTable
//@end
impl HiBlockTable {
//@extract mopaq/src/tables/block.rs HiBlockTable::get
//@opts ret=r
//@subst self.entries.get(index).copied() ==> (if index < self.entries.len() { Some(self.entries[index]) } else { None })
//@spec
    ensures r == if index < self.entries@.len() { Some(self.entries@[index as int]) } else { None::<u16> },
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::get_file_pos_high
//@opts ret=r
//@spec
    ensures r == hi_word(Some(self), index as int),
//@end
}
pub struct PendingFile { pub archive_name: String }
#[derive(Clone, Copy)]
pub struct FormatVersion { pub v: u8 }
/// whether the version has extended tables (what follows holds either way)
#[verifier::external_body] pub fn vp_ext(v: FormatVersion) -> (r: bool) { unimplemented!() }
pub struct ArchiveBuilder { pub pending_files: Vec<PendingFile>, pub version: FormatVersion, pub compress_tables: bool, pub table_compression: u8 }
/// c decompresses to x under m (unit comp)
pub uninterp spec fn stored(m: u8, c: Seq<u8>, x: Seq<u8>) -> bool;
pub open spec fn audio(m: u8) -> bool { m & 0xC0 != 0 }
/// proved in unit comp (C06)
#[verifier::external_body] pub fn compress(data: &[u8], method: u8) -> (r: Result<Vec<u8>>)
    requires small(data@.len() as int),
    ensures r is Ok ==> r->Ok_0@ == data@ || (r->Ok_0@.len() < data@.len() && r->Ok_0@.len() >= 2 && r->Ok_0@[0] == method && stored(method, r->Ok_0@.skip(1), data@)),
{ unimplemented!() }
/// proved in unit comp (C06), as the contract of decompress
#[verifier::external_body] pub proof fn ax_dec(m: u8, c: Seq<u8>, x: Seq<u8>) requires !audio(m), stored(m, c, x) ensures dec_of(m, c, x.len() as int) is Ok, dec_of(m, c, x.len() as int)->Ok_0 == x {}
/// the key of the extended block table (unit hash, C03)
pub uninterp spec fn key_of(n: Seq<char>) -> u32;
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
#[verifier::external_body] pub fn hash_string(n: &str, t: u32) -> (r: u32) requires t == 3 ensures r == key_of(n@) { unimplemented!() }
#[verifier::external_body] pub fn vp_split_at<'a>(s: &'a [u8], k: usize) -> (r: (&'a [u8], &'a [u8])) requires k <= s@.len() ensures r.0@ == s@.subrange(0, k as int), r.1@ == s@.subrange(k as int, s@.len() as int) { unimplemented!() }
// ---------- widths ----------
pub open spec fn in_width(v: u64, n: int) -> bool { forall|k: int| n <= k < 64 ==> !#[trigger] wbit(v, k) }
pub proof fn lemma_width(v: u64) ensures 0 <= width(v) <= 64, in_width(v, width(v)), v > 0 ==> width(v) > 0 decreases v
{
    if v == 0 { assert forall|k: int| 0 <= k < 64 implies !#[trigger] wbit(v, k) by { lemma_wzero(k); } }
    else {
        lemma_width(v / 2);
        lemma_half(v);
        assert forall|k: int| width(v) <= k < 64 implies !#[trigger] wbit(v, k) by {
            assert(!wbit(v / 2, k - 1));
            let a = k as u64; let b = (k - 1) as u64; let h = v / 2;
            assert(a < 64 && a >= 1 && b == a - 1 && h == v / 2 && (h >> b) & 1u64 != 1u64 ==> (v >> a) & 1u64 != 1u64) by (bit_vector);
        }
    }
}
/// a value is narrower than 64 bits once halved
pub proof fn lemma_half(v: u64) requires v > 0 ensures width(v / 2) <= 63 { assert(pow2i(63) == 0x8000_0000_0000_0000) by (compute); lemma_width_le(v / 2, 63); }
pub proof fn lemma_width_le(v: u64, n: int) requires 0 <= n <= 64, v < pow2i(n) ensures width(v) <= n decreases n
{
    if v > 0 { reveal_with_fuel(pow2i, 2); if n == 0 { } else { lemma_width_le(v / 2, n - 1); } }
}
pub open spec fn pow2i(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }
pub proof fn lemma_width_mono(a: u64, b: u64) requires a <= b ensures width(a) <= width(b) decreases b
{ lemma_width(b); if a > 0 { lemma_width_mono(a / 2, b / 2); } }
pub proof fn lemma_width32(v: u64, n: int) requires v <= 0xFFFF_FFFF ensures width(v) <= 32
{ assert(pow2i(32) == 0x1_0000_0000) by (compute); lemma_width_le(v, 32); }
/// a 32-bit value of at most n bits has no bit from n on
pub proof fn lemma_narrow(x: u64, n: int)
    requires width(x) <= n
    ensures forall|k: int| 0 <= n <= k < 128 ==> !#[trigger] vbit(x as u128, k), forall|k: int| 0 <= n <= k < 64 ==> !#[trigger] wbit(x, k)
{
    lemma_width(x);
    assert forall|k: int| 0 <= n <= k < 128 implies !#[trigger] vbit(x as u128, k) by {
        if k < 64 { assert(!wbit(x, k)); lemma_same(x, k); }
        else { let s = k as u128; assert(s >= 64 && s < 128 ==> ((x as u128) >> s) & 1u128 != 1u128) by (bit_vector); }
    }
}
pub proof fn lemma_same(x: u64, k: int) requires 0 <= k < 64 ensures vbit(x as u128, k) == wbit(x, k)
{ let s = k as u128; let t = k as u64; assert(t < 64 && t as u128 == s ==> ((((x as u128) >> s) & 1u128 == 1u128) <==> ((x >> t) & 1u64 == 1u64))) by (bit_vector); }
/// bits off .. off + cnt of e are those of x
pub open spec fn packed(e: u128, x: u64, off: int, cnt: int) -> bool { forall|k: int| 0 <= k < cnt ==> #[trigger] vbit(e, off + k) == vbit(x as u128, k) }
/// entry j of the table has the bits of e
pub open spec fn holds(d: Seq<u8>, j: int, w: int, e: u128) -> bool { forall|k: int| 0 <= k < w ==> #[trigger] bit(d, j * w + k) == vbit(e, k) }
/// what the block table and the hi-block table say of a file
pub struct Ent { pub file_pos: u64, pub file_size: u32, pub compressed_size: u32, pub flags: u32 }
pub open spec fn hi_word(hi: Option<&HiBlockTable>, j: int) -> u16 { if hi is Some && 0 <= j < (hi->0).entries@.len() { (hi->0).entries@[j] } else { 0 } }
pub open spec fn ent(e: BlockEntry, hi: Option<&HiBlockTable>, j: int) -> Ent { Ent { file_pos: ((hi_word(hi, j) as u64) << 32) | (e.file_pos as u64), file_size: e.file_size, compressed_size: e.compressed_size, flags: e.flags } }
pub open spec fn ents(b: Seq<BlockEntry>, hi: Option<&HiBlockTable>, n: int) -> Seq<Ent> { Seq::new(n as nat, |j: int| ent(b[j], hi, j)) }
pub proof fn lemma_ent(e: BlockEntry, hi: Option<&HiBlockTable>, j: int) ensures ent(e, hi, j).file_pos < 0x1_0000_0000_0000, ent(e, hi, j).file_pos == hi_word(hi, j) * 0x1_0000_0000 + e.file_pos
{ let h = hi_word(hi, j); let p = e.file_pos; assert(((h as u64) << 32) | (p as u64) < 0x1_0000_0000_0000 && ((h as u64) << 32) | (p as u64) == (h as u64) * 0x1_0000_0000 + (p as u64)) by (bit_vector); }
pub struct Lay { pub p: int, pub s: int, pub c: int, pub f: int }
pub open spec fn lay_ok(l: Lay) -> bool { 0 <= l.p && 0 <= l.s && 0 <= l.c && 0 <= l.f <= 24 && l.p + l.s + l.c <= 112 }
pub open spec fn wid(l: Lay) -> int { l.p + l.s + l.c + l.f }
pub open spec fn narrow(x: u64, n: int) -> bool { width(x) <= n }
pub open spec fn all_narrow(l: Lay, e: Ent, fi: u32) -> bool { narrow(e.file_pos, l.p) && narrow(e.file_size as u64, l.s) && narrow(e.compressed_size as u64, l.c) && narrow(fi as u64, l.f) }
pub open spec fn entry_packed(v: u128, l: Lay, e: Ent, fi: u32) -> bool { packed(v, e.file_pos, 0, l.p) && packed(v, e.file_size as u64, l.p, l.s) && packed(v, e.compressed_size as u64, l.p + l.s, l.c) && packed(v, fi as u64, l.p + l.s + l.c, l.f) }
pub open spec fn pack(e: Ent, fi: u32, a: u32, b: u32, c: u32, d: u32) -> u128 { (((0u128 | ((e.file_pos as u128) << a)) | ((e.file_size as u128) << b)) | ((e.compressed_size as u128) << c)) | ((fi as u128) << d) }
pub proof fn lemma_pack(l: Lay, e: Ent, fi: u32)
    requires lay_ok(l), all_narrow(l, e, fi)
    ensures wid(l) <= 128 ==> entry_packed(pack(e, fi, 0, l.p as u32, (l.p + l.s) as u32, (l.p + l.s + l.c) as u32), l, e, fi)
{
    if wid(l) > 128 { return; }
    let (a, b, c) = (l.p, l.p + l.s, l.p + l.s + l.c);
    let v = pack(e, fi, 0, a as u32, b as u32, c as u32);
    let x0 = (e.file_pos as u128) << 0u32; let x1 = (e.file_size as u128) << (a as u32); let x2 = (e.compressed_size as u128) << (b as u32); let x3 = (fi as u128) << (c as u32);
    lemma_narrow(e.file_pos, l.p); lemma_narrow(e.file_size as u64, l.s); lemma_narrow(e.compressed_size as u64, l.c); lemma_narrow(fi as u64, l.f);
    assert forall|k: int| 0 <= k < wid(l) implies #[trigger] vbit(v, k) == (vbit(e.file_pos as u128, k) || (k >= a && vbit(e.file_size as u128, k - a)) || (k >= b && vbit(e.compressed_size as u128, k - b)) || (k >= c && vbit(fi as u128, k - c))) by {
        lemma_or(((0u128 | x0) | x1) | x2, x3, k); lemma_or((0u128 | x0) | x1, x2, k); lemma_or(0u128 | x0, x1, k); lemma_or(0u128, x0, k); lemma_zero(k);
        lemma_shl(e.file_pos as u128, 0, k); lemma_shl(e.file_size as u128, a, k); lemma_shl(e.compressed_size as u128, b, k); lemma_shl(fi as u128, c, k);
    }
    assert forall|k: int| 0 <= k < l.p implies #[trigger] vbit(v, 0 + k) == vbit(e.file_pos as u128, k) by {}
    assert forall|k: int| 0 <= k < l.s implies #[trigger] vbit(v, a + k) == vbit(e.file_size as u128, k) by {}
    assert forall|k: int| 0 <= k < l.c implies #[trigger] vbit(v, b + k) == vbit(e.compressed_size as u128, k) by { if k + b - a < 64 { } assert(!vbit(e.file_size as u128, b + k - a)); }
    assert forall|k: int| 0 <= k < l.f implies #[trigger] vbit(v, c + k) == vbit(fi as u128, k) by { assert(!vbit(e.file_size as u128, c + k - a)); assert(!vbit(e.compressed_size as u128, c + k - b)); }
}
/// a field read from a packed entry is the packed value
pub proof fn lemma_field(r: u64, d: Seq<u8>, j: int, w: int, v: u128, x: u64, off: int, cnt: int)
    requires holds(d, j, w, v), packed(v, x, off, cnt), narrow(x, cnt), 0 <= off, 0 <= cnt, off + cnt <= w, field(r, d, j * w, off, cnt, w)
    ensures r == x
{
    lemma_narrow(x, cnt);
    assert forall|k: int| 0 <= k < 64 implies wbit(r, k) == #[trigger] wbit(x, k) by {
        assert(wbit(r, k) == (k < cnt && k + off < w && bit(d, j * w + off + k)));
        if k < cnt { assert(bit(d, j * w + (off + k)) == vbit(v, off + k)); assert(vbit(v, off + k) == vbit(x as u128, k)); lemma_same(x, k); }
    }
    thm_same_bits(r, x);
}
// ---------- name hashes ----------
pub open spec fn hashed(d: Seq<u8>, js: Seq<u64>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] le8(d.subrange(8 * j, 8 * j + 8)) == js[j] }
pub proof fn lemma_same_byte(a: u8, b: u8) requires forall|k: int| 0 <= k < 8 ==> #[trigger] bbit(a, k) == bbit(b, k) ensures a == b
{
    assert(bbit(a, 0) == bbit(b, 0) && bbit(a, 1) == bbit(b, 1) && bbit(a, 2) == bbit(b, 2) && bbit(a, 3) == bbit(b, 3) && bbit(a, 4) == bbit(b, 4) && bbit(a, 5) == bbit(b, 5) && bbit(a, 6) == bbit(b, 6) && bbit(a, 7) == bbit(b, 7));
    assert(((a >> 0u8) & 1u8 == 1u8) == ((b >> 0u8) & 1u8 == 1u8) && ((a >> 1u8) & 1u8 == 1u8) == ((b >> 1u8) & 1u8 == 1u8) && ((a >> 2u8) & 1u8 == 1u8) == ((b >> 2u8) & 1u8 == 1u8) && ((a >> 3u8) & 1u8 == 1u8) == ((b >> 3u8) & 1u8 == 1u8)
        && ((a >> 4u8) & 1u8 == 1u8) == ((b >> 4u8) & 1u8 == 1u8) && ((a >> 5u8) & 1u8 == 1u8) == ((b >> 5u8) & 1u8 == 1u8) && ((a >> 6u8) & 1u8 == 1u8) == ((b >> 6u8) & 1u8 == 1u8) && ((a >> 7u8) & 1u8 == 1u8) == ((b >> 7u8) & 1u8 == 1u8) ==> a == b) by (bit_vector);
}
pub open spec fn byte_at(h: u64, q: int) -> u8 { ((h >> ((8 * q) as u64)) & 0xFFu64) as u8 }
pub proof fn lemma_byte_at(h: u64, q: int, k: int) requires 0 <= q < 8, 0 <= k < 8 ensures bbit(byte_at(h, q), k) == wbit(h, 8 * q + k)
{
    let a = (8 * q) as u64; let b = k as u8; let c = (8 * q + k) as u64; let y = byte_at(h, q);
    assert(a <= 56 && b < 8 && c == a + (b as u64) && y == ((h >> a) & 0xFFu64) as u8 ==> (((y >> b) & 1u8 == 1u8) <==> ((h >> c) & 1u64 == 1u64))) by (bit_vector);
}
pub proof fn lemma_le8b_at(h: u64) ensures le8b(h).len() == 8, forall|q: int| 0 <= q < 8 ==> #[trigger] le8b(h)[q] == byte_at(h, q)
{
    let lo = (h & 0xFFFF_FFFF) as u32; let hi = ((h >> 32u64) & 0xFFFF_FFFF) as u32;
    assert(lo == (h & 0xFFFF_FFFF) as u32 ==> (lo & 0xFF) as u8 == ((h >> 0u64) & 0xFFu64) as u8 && ((lo >> 8u32) & 0xFF) as u8 == ((h >> 8u64) & 0xFFu64) as u8 && ((lo >> 16u32) & 0xFF) as u8 == ((h >> 16u64) & 0xFFu64) as u8 && ((lo >> 24u32) & 0xFF) as u8 == ((h >> 24u64) & 0xFFu64) as u8) by (bit_vector);
    assert(hi == ((h >> 32u64) & 0xFFFF_FFFF) as u32 ==> (hi & 0xFF) as u8 == ((h >> 32u64) & 0xFFu64) as u8 && ((hi >> 8u32) & 0xFF) as u8 == ((h >> 40u64) & 0xFFu64) as u8 && ((hi >> 16u32) & 0xFF) as u8 == ((h >> 48u64) & 0xFFu64) as u8 && ((hi >> 24u32) & 0xFF) as u8 == ((h >> 56u64) & 0xFFu64) as u8) by (bit_vector);
    assert forall|q: int| 0 <= q < 8 implies #[trigger] le8b(h)[q] == byte_at(h, q) by {
        if q == 0 { } else if q == 1 { } else if q == 2 { } else if q == 3 { } else if q == 4 { } else if q == 5 { } else if q == 6 { } else { }
    }
}
pub proof fn lemma_le8_bits(d: Seq<u8>, j: int, h: u64)
    requires 0 <= j, 8 * j + 8 <= d.len(), forall|k: int| 0 <= k < 64 ==> #[trigger] bit(d, j * 64 + k) == vbit(h as u128, k)
    ensures le8(d.subrange(8 * j, 8 * j + 8)) == h
{
    let s = d.subrange(8 * j, 8 * j + 8);
    lemma_le8b_at(h);
    assert forall|q: int| 0 <= q < 8 implies #[trigger] s[q] == le8b(h)[q] by {
        assert forall|k: int| 0 <= k < 8 implies #[trigger] bbit(s[q], k) == bbit(byte_at(h, q), k) by {
            lemma_byte_at(h, q, k); lemma_same(h, 8 * q + k);
            assert(bit(d, j * 64 + (8 * q + k)) == vbit(h as u128, 8 * q + k));
            assert((j * 64 + (8 * q + k)) / 8 == 8 * j + q && (j * 64 + (8 * q + k)) % 8 == k);
        }
        lemma_same_byte(s[q], byte_at(h, q));
    }
    assert(s =~= le8b(h)); lemma_le8_rt(h);
}
pub proof fn lemma_hashed_step(d1: Seq<u8>, d2: Seq<u8>, js: Seq<u64>, i: int)
    requires hashed(d1, js, i), 0 <= i < js.len(), d1.len() == 8 * js.len(), written(d1, d2, i * 64, 64, js[i] as u128)
    ensures hashed(d2, js, i + 1), d2.len() == d1.len()
{
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] le8(d2.subrange(8 * j, 8 * j + 8)) == js[j] by {
        if j < i {
            assert(le8(d1.subrange(8 * j, 8 * j + 8)) == js[j]);
            assert forall|q: int| 8 * j <= q < 8 * j + 8 implies d2[q] == d1[q] by {
                assert forall|k: int| 0 <= k < 8 implies #[trigger] bbit(d2[q], k) == bbit(d1[q], k) by { assert(bit(d2, 8 * q + k) == bit(d1, 8 * q + k)); assert((8 * q + k) / 8 == q && (8 * q + k) % 8 == k); }
                lemma_same_byte(d2[q], d1[q]);
            }
            assert(d2.subrange(8 * j, 8 * j + 8) =~= d1.subrange(8 * j, 8 * j + 8));
        } else {
            assert forall|k: int| 0 <= k < 64 implies #[trigger] bit(d2, j * 64 + k) == vbit(js[j] as u128, k) by { }
            lemma_le8_bits(d2, j, js[j]);
        }
    }
}
// ---------- little-endian words in sequence ----------
pub open spec fn le4s(ws: Seq<u32>) -> Seq<u8> decreases ws.len() { if ws.len() == 0 { Seq::<u8>::empty() } else { le4s(ws.drop_last()) + le4b(ws.last()) } }
pub proof fn lemma_le4s_len(ws: Seq<u32>) ensures le4s(ws).len() == 4 * ws.len() decreases ws.len() { if ws.len() > 0 { lemma_le4s_len(ws.drop_last()); } }
pub broadcast proof fn lemma_put4(ws: Seq<u32>, p: int, x: u32)
    requires p == 4 * ws.len()
    ensures #[trigger] splice(le4s(ws), p, le4b(x)) == le4s(ws.push(x)), 4 * ws.push(x).len() == p + 4
{
    lemma_le4s_len(ws); assert(ws.push(x).drop_last() =~= ws); assert(splice(le4s(ws), p, le4b(x)) =~= le4s(ws) + le4b(x));
}
pub proof fn lemma_w4_at(ws: Seq<u32>, rest: Seq<u8>, i: int) requires 0 <= i < ws.len() ensures w4(le4s(ws) + rest, 4 * i) == ws[i] decreases ws.len()
{
    lemma_le4s_len(ws); lemma_le4s_len(ws.drop_last());
    if i == ws.len() - 1 { assert((le4s(ws) + rest).subrange(4 * i, 4 * i + 4) =~= le4b(ws.last())); lemma_le4_rt(ws.last()); }
    else { lemma_w4_at(ws.drop_last(), le4b(ws.last()) + rest, i); assert(le4s(ws) + rest =~= le4s(ws.drop_last()) + (le4b(ws.last()) + rest)); }
}
// ---------- the table ----------
pub open spec fn head_words(h: BetHeader, data_size: u32) -> Seq<u32> {
    Seq::<u32>::empty().push(0x1A544542u32).push(1u32).push(data_size).push(h.table_size).push(h.file_count).push(h.unknown_08).push(h.table_entry_size)
        .push(h.bit_index_file_pos).push(h.bit_index_file_size).push(h.bit_index_cmp_size).push(h.bit_index_flag_index).push(h.bit_index_unknown)
        .push(h.bit_count_file_pos).push(h.bit_count_file_size).push(h.bit_count_cmp_size).push(h.bit_count_flag_index).push(h.bit_count_unknown)
        .push(h.total_bet_hash_size).push(h.bet_hash_size_extra).push(h.bet_hash_size).push(h.bet_hash_array_size).push(h.flag_count)
}
pub open spec fn lay_of(h: BetHeader) -> Lay { Lay { p: h.bit_count_file_pos as int, s: h.bit_count_file_size as int, c: h.bit_count_cmp_size as int, f: h.bit_count_flag_index as int } }
pub open spec fn head_ok(h: BetHeader, n: int) -> bool {
    let l = lay_of(h);
    h.file_count == n && lay_ok(l) && h.table_entry_size == wid(l) && h.bit_index_file_pos == 0 && h.bit_index_file_size == l.p && h.bit_index_cmp_size == l.p + l.s && h.bit_index_flag_index == l.p + l.s + l.c
}
/// the file table holds the entries, flags replaced by their place among the distinct flags
#[verifier::opaque]
pub open spec fn rows(d: Seq<u8>, h: BetHeader, flags: Seq<u32>, es: Seq<Ent>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> #[trigger] row(d, h, flags, es[j], j)
}
pub open spec fn row(d: Seq<u8>, h: BetHeader, flags: Seq<u32>, e: Ent, j: int) -> bool {
    (j * wid(lay_of(h))) % 8 + wid(lay_of(h)) <= 128 && exists|v: u128, fi: u32| #[trigger] entry_packed(v, lay_of(h), e, fi) && holds(d, j, wid(lay_of(h)), v) && all_narrow(lay_of(h), e, fi) && fi < flags.len() && flags[fi as int] == e.flags
}
pub open spec fn info_is(i: BetFileInfo, e: Ent) -> bool { i.file_pos == e.file_pos && i.file_size == e.file_size && i.compressed_size == e.compressed_size && i.flags == e.flags }
/// whatever the table reports for a file is that file's entry, and it reports every file
pub open spec fn reports(b: BetTable, es: Seq<Ent>, js: Seq<u64>) -> bool { reports_e(b, es) && b.header.bet_hash_size == 64 && b.bet_hashes@ == js && js.len() == es.len() }
pub open spec fn reports_e(b: BetTable, es: Seq<Ent>) -> bool {
    &&& b.header.file_count == es.len() && b.header.flag_count == b.file_flags@.len()
    &&& forall|j: int| 0 <= j < es.len() ==> #[trigger] readable(b.file_table@, j, b.header.table_entry_size as int)
    &&& forall|j: int, i: BetFileInfo| 0 <= j < es.len() && #[trigger] info_of(b, j, i) ==> info_is(i, es[j])
}
pub open spec fn packs(t: Seq<u8>, es: Seq<Ent>, js: Seq<u64>) -> bool { forall|b: BetTable| #[trigger] bet_plain(t, b) ==> reports(b, es, js) }
pub proof fn lemma_readable(n: int, j: int, w: int, d: Seq<u8>)
    requires 0 <= j < n, 0 <= w <= 136, n <= 0x100_0000, d.len() == cdiv(n * w, 8), (j * w) % 8 + w <= 128
    ensures readable(d, j, w)
{
    assert(j * w + w <= n * w) by (nonlinear_arith) requires j + 1 <= n, w >= 0;
    assert(0 <= j * w) by (nonlinear_arith) requires j >= 0, w >= 0;
    assert(n * w <= 0x100_0000 * 136) by (nonlinear_arith) requires n <= 0x100_0000, 0 <= w <= 136, n >= 0;
}
pub proof fn lemma_hash_part(t: Seq<u8>, h: BetHeader, ds: u32, flags: Seq<u32>, d: Seq<u8>, hb: Seq<u8>, js: Seq<u64>, b: BetTable)
    requires h.bet_hash_size == 64, h.bet_hash_array_size == 8 * js.len(), hb.len() == 8 * js.len(), hashed(hb, js, js.len() as int), t == le4s(head_words(h, ds) + flags) + d + hb, h.flag_count == flags.len(), d.len() == cdiv(h.file_count * h.table_entry_size, 8), bet_plain(t, b)
    ensures b.header.bet_hash_size == 64, b.bet_hashes@ == js
{
    hide(le4s);
    let ws = head_words(h, ds) + flags; let rest = d + hb;
    assert(t =~= le4s(ws) + rest); lemma_le4s_len(ws);
    assert forall|i: int| 3 <= i < 22 implies w4(tail(t, 12), 4 * i - 12) == #[trigger] ws[i] by { lemma_w4_at(ws, rest, i); assert(tail(t, 12).subrange(4 * i - 12, 4 * i - 8) =~= t.subrange(4 * i, 4 * i + 4)); }
    assert(ws[4] == h.file_count && ws[6] == h.table_entry_size && ws[19] == h.bet_hash_size && ws[20] == h.bet_hash_array_size && ws[21] == h.flag_count);
    let o = 88 + 4 * flags.len() + d.len();
    assert forall|i: int| 0 <= i < js.len() implies b.bet_hashes@[i] == js[i] by { assert(t.subrange(o + 8 * i, o + 8 * i + 8) =~= hb.subrange(8 * i, 8 * i + 8)); }
    assert(b.bet_hashes@ =~= js);
}
pub proof fn lemma_reports(t: Seq<u8>, h: BetHeader, ds: u32, flags: Seq<u32>, d: Seq<u8>, hb: Seq<u8>, es: Seq<Ent>, b: BetTable)
    requires t == le4s(head_words(h, ds) + flags) + d + hb, head_ok(h, es.len() as int), h.flag_count == flags.len(), es.len() <= 0x100_0000, d.len() == cdiv(es.len() * wid(lay_of(h)), 8), rows(d, h, flags, es, es.len() as int), bet_plain(t, b)
    ensures reports_e(b, es)
{
    reveal(rows);
    let ws = head_words(h, ds) + flags; let rest = d + hb;
    assert(t =~= le4s(ws) + rest); lemma_le4s_len(ws);
    let g = b.header;
    assert forall|i: int| 3 <= i < 22 implies w4(tail(t, 12), 4 * i - 12) == #[trigger] ws[i] by { lemma_w4_at(ws, rest, i); assert(tail(t, 12).subrange(4 * i - 12, 4 * i - 8) =~= t.subrange(4 * i, 4 * i + 4)); }
    assert(ws[4] == h.file_count && ws[6] == h.table_entry_size && ws[7] == h.bit_index_file_pos && ws[8] == h.bit_index_file_size && ws[9] == h.bit_index_cmp_size && ws[10] == h.bit_index_flag_index);
    assert(ws[12] == h.bit_count_file_pos && ws[13] == h.bit_count_file_size && ws[14] == h.bit_count_cmp_size && ws[15] == h.bit_count_flag_index && ws[21] == h.flag_count);
    assert(g.file_count == h.file_count && g.table_entry_size == h.table_entry_size && g.flag_count == h.flag_count);
    assert forall|i: int| 0 <= i < flags.len() implies b.file_flags@[i] == flags[i] by { lemma_w4_at(ws, rest, 22 + i); assert(ws[22 + i] == flags[i]); }
    let l = lay_of(h); let w = wid(l); let n = es.len() as int;
    assert(b.file_table@ =~= d);
    assert forall|j: int| 0 <= j < n implies #[trigger] readable(b.file_table@, j, g.table_entry_size as int) by { assert(row(d, h, flags, es[j], j)); lemma_readable(n, j, w, d); }
    assert forall|j: int, i: BetFileInfo| 0 <= j < n && #[trigger] info_of(b, j, i) implies info_is(i, es[j]) by {
        let e = es[j];
        assert(row(d, h, flags, e, j));
        let (v, fi) = choose|v: u128, fi: u32| #[trigger] entry_packed(v, lay_of(h), e, fi) && holds(d, j, wid(lay_of(h)), v) && all_narrow(lay_of(h), e, fi) && fi < flags.len() && flags[fi as int] == e.flags;
        lemma_field(i.file_pos, d, j, w, v, e.file_pos, 0, l.p); lemma_field(i.file_size, d, j, w, v, e.file_size as u64, l.p, l.s); lemma_field(i.compressed_size, d, j, w, v, e.compressed_size as u64, l.p + l.s, l.c);
        let f = choose|f: u64| #[trigger] field(f, d, j * w, g.bit_index_flag_index as int, g.bit_count_flag_index as int, w) && i.flags == (if (f as u32) < g.flag_count { b.file_flags@[(f as u32) as int] } else { 0 });
        lemma_field(f, d, j, w, v, fi as u64, l.p + l.s + l.c, l.f);
    }
}
/// the place of each flag word among the distinct ones
#[verifier::opaque]
pub open spec fn mapped(m: Map<u32, u32>, fa: Seq<u32>, es: Seq<Ent>, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> m.contains_key((#[trigger] es[j]).flags) && m[es[j].flags] < fa.len() && fa[m[es[j].flags] as int] == es[j].flags
}
pub proof fn lemma_mapped(m: Map<u32, u32>, fa: Seq<u32>, s: Set<u32>, es: Seq<Ent>, n: int)
    requires forall|x: u32| #[trigger] s.contains(x) ==> fa.contains(x), forall|j: int| 0 <= j < n ==> s.contains((#[trigger] es[j]).flags),
        forall|k: int| 0 <= k < fa.len() ==> m.contains_key(#[trigger] fa[k]), forall|x: u32| #[trigger] m.contains_key(x) ==> m[x] < fa.len() && fa[m[x] as int] == x
    ensures mapped(m, fa, es, n)
{
    reveal(mapped);
    assert forall|j: int| 0 <= j < n implies m.contains_key((#[trigger] es[j]).flags) && m[es[j].flags] < fa.len() && fa[m[es[j].flags] as int] == es[j].flags by {
        let x = es[j].flags; assert(s.contains(x)); assert(fa.contains(x)); let k = choose|k: int| 0 <= k < fa.len() && fa[k] == x; assert(m.contains_key(fa[k]));
    }
}
/// the bounds of the fields seen so far
#[verifier::opaque]
pub open spec fn bounded(es: Seq<Ent>, n: int, p: u64, s: u64, c: u64) -> bool {
    forall|j: int| 0 <= j < n ==> (#[trigger] es[j]).file_pos <= p && es[j].file_size <= s && es[j].compressed_size <= c
}
pub proof fn lemma_bounded(es: Seq<Ent>, n: int, p: u64, s: u64, c: u64, p2: u64, s2: u64, c2: u64)
    requires bounded(es, n, p, s, c), p <= p2, s <= s2, c <= c2, 0 <= n < es.len(), es[n].file_pos <= p2, es[n].file_size <= s2, es[n].compressed_size <= c2
    ensures bounded(es, n + 1, p2, s2, c2)
{ reveal(bounded); }
pub proof fn lemma_fits(es: Seq<Ent>, n: int, j: int, p: u64, s: u64, c: u64, l: Lay, fi: u32, fc: int)
    requires bounded(es, n, p, s, c), 0 <= j < n, width(p) <= l.p, width(s) <= l.s, width(c) <= l.c, 0 <= fi < fc, fc <= 0x100_0000, width((fc - 1) as u64) <= l.f
    ensures all_narrow(l, es[j], fi)
{ reveal(bounded); lemma_width_mono(es[j].file_pos, p); lemma_width_mono(es[j].file_size as u64, s); lemma_width_mono(es[j].compressed_size as u64, c); lemma_width_mono(fi as u64, (fc - 1) as u64); }
pub proof fn lemma_row_step(d1: Seq<u8>, d2: Seq<u8>, h: BetHeader, fa: Seq<u32>, es: Seq<Ent>, i: int, n: int, v: u128, fi: u32)
    requires rows(d1, h, fa, es, i), 0 <= i < n, (i * wid(lay_of(h))) % 8 + wid(lay_of(h)) <= 128, d1.len() == cdiv(n * wid(lay_of(h)), 8), lay_ok(lay_of(h)), written(d1, d2, i * wid(lay_of(h)), wid(lay_of(h)), v), entry_packed(v, lay_of(h), es[i], fi), all_narrow(lay_of(h), es[i], fi), fi < fa.len(), fa[fi as int] == es[i].flags
    ensures rows(d2, h, fa, es, i + 1), d2.len() == d1.len()
{
    reveal(rows);
    let w = wid(lay_of(h));
    assert(8 * d1.len() >= n * w);
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] row(d2, h, fa, es[j], j) by {
        assert(0 <= j * w) by (nonlinear_arith) requires 0 <= j, 0 <= w;
        assert(j * w + w <= n * w) by (nonlinear_arith) requires j + 1 <= n, 0 <= w;
        if j == i { assert(holds(d2, j, w, v)) by { assert forall|k: int| 0 <= k < w implies #[trigger] bit(d2, j * w + k) == vbit(v, k) by { } } }
        else {
            assert(j * w + w <= i * w) by (nonlinear_arith) requires j + 1 <= i, 0 <= w;
            assert(row(d1, h, fa, es[j], j));
            let (u, fu) = choose|v: u128, fi: u32| #[trigger] entry_packed(v, lay_of(h), es[j], fi) && holds(d1, j, w, v) && all_narrow(lay_of(h), es[j], fi) && fi < fa.len() && fa[fi as int] == es[j].flags;
            assert(holds(d2, j, w, u)) by { assert forall|k: int| 0 <= k < w implies #[trigger] bit(d2, j * w + k) == vbit(u, k) by { assert(bit(d1, j * w + k) == vbit(u, k)); } }
        }
    }
}
pub proof fn lemma_rows_h(d: Seq<u8>, h: BetHeader, g: BetHeader, fa: Seq<u32>, es: Seq<Ent>, n: int)
    requires rows(d, h, fa, es, n), lay_of(h) == lay_of(g) ensures rows(d, g, fa, es, n)
{ reveal(rows); assert forall|j: int| 0 <= j < n implies #[trigger] row(d, g, fa, es[j], j) by { assert(row(d, h, fa, es[j], j)); } }
pub proof fn lemma_packs(t: Seq<u8>, h: BetHeader, ds: u32, flags: Seq<u32>, d: Seq<u8>, hb: Seq<u8>, es: Seq<Ent>, js: Seq<u64>)
    requires h.bet_hash_size == 64, h.bet_hash_array_size == 8 * es.len(), js.len() == es.len(), hb.len() == 8 * es.len(), hashed(hb, js, js.len() as int), t == le4s(head_words(h, ds) + flags) + d + hb, head_ok(h, es.len() as int), h.flag_count == flags.len(), es.len() <= 0x100_0000, d.len() == cdiv(es.len() * wid(lay_of(h)), 8), rows(d, h, flags, es, es.len() as int),
        ds == 76 + 4 * flags.len() + d.len() + hb.len()
    ensures packs(t, es, js), t.len() == 12 + ds, w4(t, 0) == 0x1A544542, w4(t, 8) == ds
{
    let ws = head_words(h, ds) + flags;
    assert forall|b: BetTable| #[trigger] bet_plain(t, b) implies reports(b, es, js) by { lemma_reports(t, h, ds, flags, d, hb, es, b); lemma_hash_part(t, h, ds, flags, d, hb, js, b); }
    lemma_le4s_len(ws); assert(t =~= le4s(ws) + (d + hb)); lemma_w4_at(ws, d + hb, 0); lemma_w4_at(ws, d + hb, 2);
}
#[verifier::external_body] pub fn vp_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0 { vec![0u8; n] }
impl ArchiveBuilder {
    /// contract proved in unit bits
    #[verifier::external_body]
    fn write_bit_entry(&self, data: &mut Vec<u8>, index: usize, value: u128, bit_size: u32) -> (r: Result<()>)
        requires index * bit_size <= usize::MAX, len_ok(old(data)@.len() as int)
        ensures
            final(data)@.len() == old(data)@.len(),
            r is Ok <==> (index * bit_size) / 8 + ceil8((index * bit_size) % 8 + bit_size) <= old(data)@.len() && (index * bit_size) % 8 + bit_size <= 128,
            r is Ok ==> written(old(data)@, final(data)@, (index * bit_size) as int, bit_size as int, value),
            r is Err ==> final(data)@ == old(data)@,
    { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::calculate_bits_needed
//@opts ret=r
//@subst max_value.leading_zeros() ==> vp_leading_zeros(max_value)
//@subst (64 - vp_leading_zeros(max_value)).max(1) ==> vp_max32(64 - vp_leading_zeros(max_value), 1)
//@spec
    ensures 1 <= r <= 64, width(max_value) <= r, r == 1 || r == width(max_value),
//@body-start
    proof { lemma_width(max_value); assert(width(0) == 0); }
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::create_bet_table
//@opts ret=r loops=5
//@subst std::collections::HashSet::new() ==> VpSet::new()
//@subst std::collections::HashMap::new() ==> VpMap::new()
//@subst max_file_pos.max(file_pos) ==> vp_max64(max_file_pos, file_pos)
//@subst max_file_size.max(entry.file_size as u64) ==> vp_max64(max_file_size, entry.file_size as u64)
//@subst max_compressed_size.max(entry.compressed_size as u64) ==> vp_max64(max_compressed_size, entry.compressed_size as u64)
//@subst unique_flags.into_iter().collect() ==> vp_collect(unique_flags)
//@subst flag_array.sort() ==> vp_sort(&mut flag_array)
//@subst std::mem::size_of::<BetHeader>() ==> vp_size_bet()
//@spec
    requires self.pending_files@.len() <= 0x100_0000, block_table.entries@.len() >= self.pending_files@.len()
    ensures r is Ok ==> r->Ok_0.0@.len() == 12 + w4(r->Ok_0.0@, 8) && w4(r->Ok_0.0@, 0) == 0x1A544542 && packs(r->Ok_0.0@, ents(block_table.entries@, hi_block_table, self.pending_files@.len() as int), hashes_of(self.pending_files@)) && small(r->Ok_0.0@.len() as int),
//@body-start
    hide(le4s); hide(packs); hide(cdiv); hide(width); hide(w4); hide(written); hide(entry_packed);
    broadcast use lemma_put4, lemma_append;
    let ghost vp_n = self.pending_files@.len() as int; let ghost vp_js = hashes_of(self.pending_files@); let ghost vp_es = ents(block_table.entries@, hi_block_table, vp_n);
    let ghost mut vp_set = Set::<u32>::empty();
    proof { reveal(bounded); }
//@loop 0
    invariant file_count == vp_n, vp_n <= 0x100_0000, vp_n <= block_table.entries@.len(), vp_es == ents(block_table.entries@, hi_block_table, vp_n),
        bounded(vp_es, i as int, max_file_pos, max_file_size, max_compressed_size), max_file_pos < 0x1_0000_0000_0000, max_file_size <= u32::MAX, max_compressed_size <= u32::MAX,
        unique_flags@.len() <= i, forall|j: int| 0 <= j < i ==> unique_flags@.contains((#[trigger] vp_es[j]).flags),
//@loop-start 0
    let ghost (vp_a, vp_b, vp_c) = (max_file_pos, max_file_size, max_compressed_size);
    proof { lemma_ent(block_table.entries@[i as int], hi_block_table, i as int); assert(vp_es[i as int] == ent(block_table.entries@[i as int], hi_block_table, i as int)); }
//@loop-end 0
    proof { lemma_bounded(vp_es, i as int, vp_a, vp_b, vp_c, max_file_pos, max_file_size, max_compressed_size); }
//@loop-after 0
    proof {
        vp_set = unique_flags@;
        assert(pow2i(48) == 0x1_0000_0000_0000) by (compute); lemma_width_le(max_file_pos, 48); lemma_width32(max_file_size, 0); lemma_width32(max_compressed_size, 0);
        if unique_flags@.len() > 0 { assert(pow2i(24) == 0x100_0000) by (compute); lemma_width_le((unique_flags@.len() - 1) as u64, 24); }
    }
//@loop 1
    invariant vp_s1@ == flag_array@, flag_array@.len() <= 0x100_0000,
        forall|k: int| 0 <= k < index ==> flag_index_map@.contains_key(#[trigger] flag_array@[k]),
        forall|x: u32| #[trigger] flag_index_map@.contains_key(x) ==> flag_index_map@[x] < index && flag_array@[flag_index_map@[x] as int] == x,
//@loop-after 1
    proof {
        lemma_mapped(flag_index_map@, flag_array@, vp_set, vp_es, vp_n);
        assert(file_count * table_entry_size <= 0x100_0000 * 136) by (nonlinear_arith) requires file_count <= 0x100_0000, table_entry_size <= 136;
    }
//@loop-before 2
    proof {
        reveal(rows); reveal(cdiv);
        assert(head_ok(header, vp_n));
        assert(file_table@.len() == cdiv(vp_n * wid(lay_of(header)), 8));
        assert(rows(file_table@, header, flag_array@, vp_es, 0));
    }
//@loop 2
    invariant vp_s2@ == self.pending_files@, vp_n == self.pending_files@.len(), vp_n <= 0x100_0000, vp_n <= block_table.entries@.len(), vp_es == ents(block_table.entries@, hi_block_table, vp_n),
        mapped(flag_index_map@, flag_array@, vp_es, vp_n), bounded(vp_es, vp_n, max_file_pos, max_file_size, max_compressed_size), head_ok(header, vp_n),
        width(max_file_pos) <= header.bit_count_file_pos, width(max_file_size) <= header.bit_count_file_size, width(max_compressed_size) <= header.bit_count_cmp_size,
        flag_array@.len() <= 0x100_0000, flag_array@.len() > 0 ==> width((flag_array@.len() - 1) as u64) <= header.bit_count_flag_index,
        bit_index_file_pos == header.bit_index_file_pos, bit_index_file_size == header.bit_index_file_size, bit_index_cmp_size == header.bit_index_cmp_size, bit_index_flag_index == header.bit_index_flag_index, table_entry_size == header.table_entry_size,
        file_table@.len() == cdiv(vp_n * wid(lay_of(header)), 8), file_table@.len() <= 0x100_0000 * 17, rows(file_table@, header, flag_array@, vp_es, i as int), bet_hashes@ == vp_js.take(i as int), vp_js == hashes_of(self.pending_files@),
//@loop-start 2
    let ghost vp_d = file_table@; let ghost vp_fi = flag_index_map@[vp_es[i as int].flags];
    let ghost vp_v = pack(vp_es[i as int], vp_fi, 0, bit_index_file_size, bit_index_cmp_size, bit_index_flag_index);
    proof {
        reveal(mapped);
        lemma_ent(block_table.entries@[i as int], hi_block_table, i as int); assert(vp_es[i as int] == ent(block_table.entries@[i as int], hi_block_table, i as int));
        assert(i * table_entry_size <= 0x100_0000 * 136) by (nonlinear_arith) requires i <= 0x100_0000, table_entry_size <= 136;
        lemma_fits(vp_es, vp_n, i as int, max_file_pos, max_file_size, max_compressed_size, lay_of(header), vp_fi, flag_array@.len() as int);
        lemma_pack(lay_of(header), vp_es[i as int], vp_fi);
    }
//@loop-end 2
    proof { assert(bet_hashes@ =~= vp_js.take(i + 1)); lemma_row_step(vp_d, file_table@, header, flag_array@, vp_es, i as int, vp_n, vp_v, vp_fi); }
//@loop-after 2
    proof { reveal(cdiv); assert(bet_hashes@ =~= vp_js); }
//@after-let result
    proof { assert(result@ =~= le4s(Seq::<u32>::empty())) by { reveal(le4s); } }
//@loop-before 3
    let ghost vp_w = head_words(final_header, data_size);
    proof { assert(result@ == le4s(vp_w)); assert(vp_w + flag_array@.take(0) =~= vp_w); }
//@loop 3
    invariant vp_s3@ == flag_array@, vp_w.len() == 22, result@ == le4s(vp_w + flag_array@.take(vp_i3 as int)),
//@loop-start 3
    let ghost vp_u = vp_w + flag_array@.take(vp_i3 as int);
    proof { lemma_le4s_len(vp_u); }
//@loop-end 3
    proof { assert(vp_w + flag_array@.take(vp_i3 + 1) =~= vp_u.push(flag_array@[vp_i3 as int])); lemma_put4(vp_u, 4 * vp_u.len() as int, flag_array@[vp_i3 as int]); }
//@loop-after 3
    let ghost vp_r = result@;
    proof { assert(flag_array@.take(flag_array@.len() as int) =~= flag_array@); assert(vp_r == le4s(vp_w + flag_array@)); }
//@loop 4
    invariant vp_n <= 0x100_0000, vp_s4@ == bet_hashes@, bet_hashes@ == vp_js, vp_js.len() == vp_n, bet_hash_size == 64, hash_bytes@.len() == 8 * vp_n, hashed(hash_bytes@, vp_js, i as int),
//@loop-start 4
    let ghost vp_h = hash_bytes@;
//@loop-end 4
    proof { lemma_hashed_step(vp_h, hash_bytes@, vp_js, i as int); }
//@before-tail
    proof {
        assert(result@ =~= vp_r + file_table@ + hash_bytes@);
        lemma_rows_h(file_table@, header, final_header, flag_array@, vp_es, vp_n);
        lemma_packs(result@, final_header, data_size, flag_array@, file_table@, hash_bytes@, vp_es, vp_js);
    }
//@end
    /// proved in unit bytes (C02)
    #[verifier::external_body] pub fn encrypt_data(&self, data: &mut [u8], key: u32)
        requires len_ok(old(data)@.len() as int)
        ensures benc(old(data)@, final(data)@, key)
    { unimplemented!() }
    #[verifier::external_body] fn calculate_md5(&self, data: &[u8]) -> (r: [u8; 16]) ensures r@ == md5(data@) { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::write_bet_table
//@opts ret=r
//@subst data.split_at(12) ==> vp_split_at(data, 12)
//@subst matches!(self.version, FormatVersion::V3 | FormatVersion::V4) ==> vp_ext(self.version)
//@subst self.version >= FormatVersion::V3 ==> vp_ext(self.version)
//@spec
    requires small(data@.len() as int)
    ensures r is Ok ==> wrote_to(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), data@, if encrypt { key_of("(block table)"@) } else { 0 }, self.table_compression, r->Ok_0.0 as int, r->Ok_0.1@),
//@after-let table_data
    let ghost vp_x = table_data@;
//@after-let final_data
    let ghost vp_c = processed_data@;
    let ghost vp_k = if encrypt { key_of("(block table)"@) } else { 0u32 };
//@before-tail
    proof {
        assert(final_data@ =~= data@.subrange(0, 12) + vp_c);
        if !encrypt { assert(benc(vp_c, vp_c, 0)); }
        assert(packing(data@, final_data@, vp_k, self.table_compression));
        assert(put(old(writer).bytes(), old(writer).pos(), writer.bytes(), writer.pos(), final_data@));
    }
//@end
}
/// p is x, or x compressed with the method byte in front
pub open spec fn squeezed(x: Seq<u8>, p: Seq<u8>, m: u8) -> bool { p == x || (p.len() < x.len() && p.len() >= 2 && p[0] == m && stored(m, p.skip(1), x)) }
/// raw is the table t as it is stored: the twelve-byte header as it is, the rest possibly compressed and then encrypted
pub open spec fn packing(t: Seq<u8>, raw: Seq<u8>, key: u32, m: u8) -> bool { exists|p: Seq<u8>, c: Seq<u8>| raw == t.subrange(0, 12) + c && #[trigger] benc(p, c, key) && squeezed(tail(t, 12), p, m) && t.len() >= 12 }
pub open spec fn wrote_to(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, t: Seq<u8>, key: u32, m: u8, n: int, g: Seq<u8>) -> bool { exists|raw: Seq<u8>| #[trigger] packing(t, raw, key, m) && put(d0, p0, d1, p1, raw) && n == raw.len() && g == md5(raw) && raw.len() >= 12 }
/// THEOREM: whatever BetTable::read (unit ext) makes of the bytes write_bet_table writes for a table create_bet_table made reports, for each file, that file's block entry
pub proof fn thm_bet(t: Seq<u8>, raw: Seq<u8>, key: u32, m: u8, es: Seq<Ent>, js: Seq<u64>, b: BetTable)
    requires packing(t, raw, key, m), !audio(m), t.len() == 12 + w4(t, 8), packs(t, es, js), bet_in(raw, key, b)
    ensures reports(b, es, js)
{
    let (p, c) = choose|p: Seq<u8>, c: Seq<u8>| raw == t.subrange(0, 12) + c && #[trigger] benc(p, c, key) && squeezed(tail(t, 12), p, m) && t.len() >= 12;
    let (d, u) = choose|d: Seq<u8>, u: Seq<u8>| #[trigger] bet_from(raw, key, d, u, b);
    assert(tail(raw, 12) =~= c); thm_bytes_inverse(p, tail(d, 12), c, key);
    assert(d =~= d.subrange(0, 12) + tail(d, 12)); assert(raw.subrange(0, 12) =~= t.subrange(0, 12));
    assert(d.subrange(0, 12).subrange(8, 12) =~= d.subrange(8, 12)); assert(t.subrange(0, 12).subrange(8, 12) =~= t.subrange(8, 12));
    let n = w4(t, 8) as int;
    if p == tail(t, 12) { assert(d =~= t); }
    else {
        ax_dec(m, p.skip(1), tail(t, 12));
        assert(tail(d, 13) =~= p.skip(1)); assert(d[12] == p[0]);
        assert(u =~= t);
    }
}
fn main() {}
}
