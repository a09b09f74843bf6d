verus! {
// ---------- specification: bit-packed tables ----------
/// bit k of a byte array, least significant bit of each byte first
pub open spec fn bbit(b: u8, k: int) -> bool { (b >> (k as u8)) & 1u8 == 1u8 }
pub open spec fn bit(d: Seq<u8>, k: int) -> bool { bbit(d[k / 8], k % 8) }
pub open spec fn vbit(v: u128, k: int) -> bool { (v >> (k as u128)) & 1u128 == 1u128 }
pub open spec fn wbit(v: u64, k: int) -> bool { (v >> (k as u64)) & 1u64 == 1u64 }
pub open spec fn ceil8(n: int) -> int { if n % 8 == 0 { n / 8 } else { n / 8 + 1 } }

pub proof fn lemma_or(a: u128, b: u128, k: int) requires 0 <= k < 128 ensures vbit(a | b, k) == (vbit(a, k) || vbit(b, k))
{ let s = k as u128; assert(s < 128 ==> (((a | b) >> s) & 1u128 == 1u128 <==> ((a >> s) & 1u128 == 1u128 || (b >> s) & 1u128 == 1u128))) by (bit_vector); }
pub proof fn lemma_and(a: u128, b: u128, k: int) requires 0 <= k < 128 ensures vbit(a & b, k) == (vbit(a, k) && vbit(b, k))
{ let s = k as u128; assert(s < 128 ==> (((a & b) >> s) & 1u128 == 1u128 <==> ((a >> s) & 1u128 == 1u128 && (b >> s) & 1u128 == 1u128))) by (bit_vector); }
pub proof fn lemma_not(a: u128, k: int) requires 0 <= k < 128 ensures vbit(!a, k) == !vbit(a, k)
{ let s = k as u128; assert(s < 128 ==> (((!a) >> s) & 1u128 == 1u128 <==> !((a >> s) & 1u128 == 1u128))) by (bit_vector); }
pub proof fn lemma_shl(x: u128, s: int, k: int) requires 0 <= s < 128, 0 <= k < 128 ensures vbit(x << (s as u128), k) == (k >= s && vbit(x, k - s))
{
    let a = s as u128; let b = k as u128;
    if k >= s { let c = (k - s) as u128; assert(a < 128 && b < 128 && c == b - a && b >= a ==> ((x << a) >> b) & 1u128 == (x >> c) & 1u128) by (bit_vector); }
    else { assert(a < 128 && b < a ==> ((x << a) >> b) & 1u128 == 0) by (bit_vector); }
}
pub proof fn lemma_shr(x: u128, s: int, k: int) requires 0 <= s < 128, 0 <= k < 128 ensures vbit(x >> (s as u128), k) == (k + s < 128 && vbit(x, k + s))
{
    let a = s as u128; let b = k as u128;
    if k + s < 128 { let c = (k + s) as u128; assert(a < 128 && b < 128 && c == b + a && c < 128 ==> ((x >> a) >> b) & 1u128 == (x >> c) & 1u128) by (bit_vector); }
    else { assert(a < 128 && b < 128 && a + b >= 128 ==> ((x >> a) >> b) & 1u128 == 0) by (bit_vector); }
}
pub proof fn lemma_ones(n: int, k: int) requires 0 <= n < 128, 0 <= k < 128 ensures (1u128 << (n as u128)) >= 1, vbit(((1u128 << (n as u128)) - 1) as u128, k) == (k < n)
{
    let a = n as u128; let b = k as u128; let o = 1u128 << a;
    assert(a < 128 ==> (1u128 << a) >= 1) by (bit_vector);
    let m = (o - 1) as u128;
    assert(a < 128 && b < 128 && o == 1u128 << a && m == o - 1 ==> ((m >> b) & 1u128 == 1u128 <==> b < a)) by (bit_vector);
}
pub proof fn lemma_max(k: int) requires 0 <= k < 128 ensures vbit(u128::MAX, k)
{ let s = k as u128; let m = u128::MAX; assert(m == 0xFFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFFu128); assert(s < 128 && m == 0xFFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFFu128 ==> (m >> s) & 1u128 == 1u128) by (bit_vector); }
pub proof fn lemma_zero(k: int) requires 0 <= k < 128 ensures !vbit(0u128, k)
{ let s = k as u128; assert(s < 128 ==> (0u128 >> s) & 1u128 == 0u128) by (bit_vector); }
pub proof fn lemma_wzero(k: int) requires 0 <= k < 64 ensures !wbit(0u64, k)
{ let s = k as u64; assert(s < 64 ==> (0u64 >> s) & 1u64 == 0u64) by (bit_vector); }
pub proof fn lemma_byte(b: u8, k: int) requires 0 <= k < 128 ensures vbit(b as u128, k) == (k < 8 && bbit(b, k))
{
    let s = k as u128; let t = k as u8;
    if k < 8 { assert(s < 8 && t as u128 == s ==> ((b as u128) >> s) & 1u128 == ((b >> t) & 1u8) as u128) by (bit_vector); }
    else { assert(s < 128 && s >= 8 ==> ((b as u128) >> s) & 1u128 == 0) by (bit_vector); }
}
pub proof fn lemma_trunc8(v: u128, k: int) requires 0 <= k < 8 ensures bbit(v as u8, k) == vbit(v, k)
{ let s = k as u128; let t = k as u8; let w = v as u8; assert(t < 8 && t as u128 == s && w == v as u8 ==> ((v >> s) & 1u128 == 1u128 <==> (w >> t) & 1u8 == 1u8)) by (bit_vector); }
pub proof fn lemma_trunc64(v: u128, k: int) requires 0 <= k < 64 ensures wbit(v as u64, k) == vbit(v, k)
{ let s = k as u128; let t = k as u64; let w = v as u64; assert(t < 64 && t as u128 == s && w == v as u64 ==> ((v >> s) & 1u128 == 1u128 <==> (w >> t) & 1u64 == 1u64)) by (bit_vector); }
pub proof fn lemma_wand(a: u64, b: u64, k: int) requires 0 <= k < 64 ensures wbit(a & b, k) == (wbit(a, k) && wbit(b, k))
{ let s = k as u64; assert(s < 64 ==> (((a & b) >> s) & 1u64 == 1u64 <==> ((a >> s) & 1u64 == 1u64 && (b >> s) & 1u64 == 1u64))) by (bit_vector); }
pub proof fn lemma_wones(n: int, k: int) requires 0 <= n < 64, 0 <= k < 64 ensures (1u64 << (n as u64)) >= 1, wbit(((1u64 << (n as u64)) - 1) as u64, k) == (k < n)
{
    let a = n as u64; let b = k as u64; let o = 1u64 << a;
    assert(a < 64 ==> (1u64 << a) >= 1) by (bit_vector);
    let m = (o - 1) as u64;
    assert(a < 64 && b < 64 && o == 1u64 << a && m == o - 1 ==> ((m >> b) & 1u64 == 1u64 <==> b < a)) by (bit_vector);
}
pub proof fn lemma_wmax(k: int) requires 0 <= k < 64 ensures wbit(u64::MAX, k)
{ let s = k as u64; let m = u64::MAX; assert(m == 0xFFFF_FFFF_FFFF_FFFFu64); assert(s < 64 && m == 0xFFFF_FFFF_FFFF_FFFFu64 ==> (m >> s) & 1u64 == 1u64) by (bit_vector); }
/// values with the same bits are equal
pub open spec fn low(a: u64, n: int) -> u64 { if n >= 64 { a } else { a & (((1u64 << (n as u64)) - 1) as u64) } }
pub proof fn lemma_low(a: u64, b: u64, n: int)
    requires 0 <= n <= 64, forall|k: int| 0 <= k < n ==> wbit(a, k) == #[trigger] wbit(b, k)
    ensures low(a, n) == low(b, n)
    decreases n
{
    if n == 0 { assert(a & ((1u64 << 0u64) - 1) as u64 == 0) by (bit_vector); assert(b & ((1u64 << 0u64) - 1) as u64 == 0) by (bit_vector); }
    else {
        lemma_low(a, b, n - 1);
        assert(wbit(a, n - 1) == wbit(b, n - 1));
        let m = (n - 1) as u64;
        lemma_wones(n - 1, 0);
        let o = 1u64 << m; let p = (o - 1) as u64;
        assert(m < 64 && o == 1u64 << m && p == o - 1 && (a & p) == (b & p) && ((a >> m) & 1u64 == 1u64 <==> (b >> m) & 1u64 == 1u64) ==> (a & (p | o)) == (b & (p | o))) by (bit_vector);
        if n < 64 {
            lemma_wones(n, 0);
            let m2 = n as u64; let o2 = 1u64 << m2; let p2 = (o2 - 1) as u64;
            assert(m < 63 && m2 == m + 1 && o == 1u64 << m && p == o - 1 && o2 == 1u64 << m2 && p2 == o2 - 1 ==> p2 == p | o) by (bit_vector);
        } else {
            assert(m == 63 && o == 1u64 << m && p == o - 1 ==> p | o == 0xFFFF_FFFF_FFFF_FFFFu64) by (bit_vector);
            assert(a & 0xFFFF_FFFF_FFFF_FFFFu64 == a) by (bit_vector); assert(b & 0xFFFF_FFFF_FFFF_FFFFu64 == b) by (bit_vector);
        }
    }
}
pub proof fn thm_same_bits(a: u64, b: u64)
    requires forall|k: int| 0 <= k < 64 ==> wbit(a, k) == #[trigger] wbit(b, k)
    ensures a == b
{ lemma_low(a, b, 64); }
}
