verus! {
// ---------- little-endian words (environment: the meaning of to_le_bytes / from_le_bytes, written out and verified) ----------
pub open spec fn le4(b: Seq<u8>) -> u32 { (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32) }
pub open spec fn le4b(x: u32) -> Seq<u8> { seq![(x & 0xFF) as u8, ((x >> 8u32) & 0xFF) as u8, ((x >> 16u32) & 0xFF) as u8, ((x >> 24u32) & 0xFF) as u8] }
pub open spec fn le2(b: Seq<u8>) -> u16 { (b[0] as u16) | ((b[1] as u16) << 8u16) }
pub open spec fn le2b(x: u16) -> Seq<u8> { seq![(x & 0xFF) as u8, ((x >> 8u16) & 0xFF) as u8] }
pub open spec fn le8(b: Seq<u8>) -> u64 { (le4(b) as u64) | ((le4(b.subrange(4, 8)) as u64) << 32u64) }
pub open spec fn le8b(x: u64) -> Seq<u8> { le4b((x & 0xFFFF_FFFF) as u32) + le4b(((x >> 32u64) & 0xFFFF_FFFF) as u32) }
pub fn vp_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le4(b@)
{ (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32) }
pub fn vp_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le2(b@)
{ (b[0] as u16) | ((b[1] as u16) << 8u16) }
pub fn vp_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le8(b@)
{
    let lo = (b[0] as u32) | ((b[1] as u32) << 8u32) | ((b[2] as u32) << 16u32) | ((b[3] as u32) << 24u32);
    let hi = (b[4] as u32) | ((b[5] as u32) << 8u32) | ((b[6] as u32) << 16u32) | ((b[7] as u32) << 24u32);
    (lo as u64) | ((hi as u64) << 32u64)
}
pub trait VpLe32 { fn vp_to_le_bytes(self) -> (r: [u8; 4]); }
impl VpLe32 for u32 {
    fn vp_to_le_bytes(self) -> (r: [u8; 4]) ensures r@ == le4b(self) { let r = [(self & 0xFF) as u8, ((self >> 8u32) & 0xFF) as u8, ((self >> 16u32) & 0xFF) as u8, ((self >> 24u32) & 0xFF) as u8]; assert(r@ =~= le4b(self)); r }
}
pub trait VpLe16 { fn vp_to_le_bytes(self) -> (r: [u8; 2]); }
impl VpLe16 for u16 {
    fn vp_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == le2b(self) { let r = [(self & 0xFF) as u8, ((self >> 8u16) & 0xFF) as u8]; assert(r@ =~= le2b(self)); r }
}
pub trait VpLe64 { fn vp_to_le_bytes(self) -> (r: [u8; 8]); }
impl VpLe64 for u64 {
    fn vp_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == le8b(self) {
        let lo = (self & 0xFFFF_FFFF) as u32; let hi = ((self >> 32u64) & 0xFFFF_FFFF) as u32;
        let r = [(lo & 0xFF) as u8, ((lo >> 8u32) & 0xFF) as u8, ((lo >> 16u32) & 0xFF) as u8, ((lo >> 24u32) & 0xFF) as u8,
                 (hi & 0xFF) as u8, ((hi >> 8u32) & 0xFF) as u8, ((hi >> 16u32) & 0xFF) as u8, ((hi >> 24u32) & 0xFF) as u8];
        assert(r@ =~= le8b(self)); r
    }
}
pub proof fn lemma_le4_rt(x: u32) ensures le4(le4b(x)) == x
{
    assert(((x & 0xFF) as u8) as u32 | (((x >> 8) & 0xFF) as u8 as u32) << 8u32 | (((x >> 16) & 0xFF) as u8 as u32) << 16u32 | (((x >> 24) & 0xFF) as u8 as u32) << 24u32 == x) by (bit_vector);
}
pub proof fn lemma_le4b_rt(b: Seq<u8>) requires b.len() == 4 ensures le4b(le4(b)) == b
{
    let (a0, a1, a2, a3) = (b[0], b[1], b[2], b[3]); let x = le4(b);
    assert(x == (a0 as u32) | ((a1 as u32) << 8u32) | ((a2 as u32) << 16u32) | ((a3 as u32) << 24u32));
    assert((x & 0xFF) as u8 == a0 && ((x >> 8) & 0xFF) as u8 == a1 && ((x >> 16) & 0xFF) as u8 == a2 && ((x >> 24) & 0xFF) as u8 == a3) by (bit_vector)
        requires x == (a0 as u32) | ((a1 as u32) << 8u32) | ((a2 as u32) << 16u32) | ((a3 as u32) << 24u32);
    assert(le4b(x) =~= b);
}
pub proof fn lemma_le2_rt(x: u16) ensures le2(le2b(x)) == x
{ assert(((x & 0xFF) as u8) as u16 | (((x >> 8) & 0xFF) as u8 as u16) << 8u16 == x) by (bit_vector); }
pub proof fn lemma_le8_rt(x: u64) ensures le8(le8b(x)) == x
{
    let lo = (x & 0xFFFF_FFFF) as u32; let hi = ((x >> 32u64) & 0xFFFF_FFFF) as u32;
    lemma_le4_rt(lo); lemma_le4_rt(hi);
    assert(le8b(x).subrange(4, 8) =~= le4b(hi));
    assert(le4(le8b(x)) == lo);
    assert((((x & 0xFFFF_FFFF) as u32) as u64) | ((((x >> 32u64) & 0xFFFF_FFFF) as u32) as u64) << 32u64 == x) by (bit_vector);
}
/// exclusive or acts byte by byte
pub proof fn lemma_le4b_xor(x: u32, y: u32)
    ensures forall|j: int| 0 <= j < 4 ==> #[trigger] le4b(x ^ y)[j] == le4b(x)[j] ^ le4b(y)[j]
{
    assert(((x ^ y) & 0xFF) as u8 == ((x & 0xFF) as u8) ^ ((y & 0xFF) as u8)) by (bit_vector);
    assert((((x ^ y) >> 8) & 0xFF) as u8 == (((x >> 8) & 0xFF) as u8) ^ (((y >> 8) & 0xFF) as u8)) by (bit_vector);
    assert((((x ^ y) >> 16) & 0xFF) as u8 == (((x >> 16) & 0xFF) as u8) ^ (((y >> 16) & 0xFF) as u8)) by (bit_vector);
    assert((((x ^ y) >> 24) & 0xFF) as u8 == (((x >> 24) & 0xFF) as u8) ^ (((y >> 24) & 0xFF) as u8)) by (bit_vector);
}
pub assume_specification<T> [core::slice::from_mut] (x: &mut T) -> (r: &mut [T])
    ensures r@ == seq![*old(x)], final(r)@.len() == 1 ==> final(r)@ == seq![*final(x)];
}
