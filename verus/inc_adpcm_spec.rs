verus! {
// ---------- specification: ADPCM streams ----------
/// number of sample codes (bytes other than the step marker 0x81) from position p on
pub open spec fn codes(s: Seq<u8>, p: int) -> int decreases s.len() - p {
    if p < 0 || p >= s.len() { 0 } else { codes(s, p + 1) + if s[p] == 0x81 { 0int } else { 1int } }
}
/// a stream that decodes to n bytes of ch channels
pub open spec fn ad_fits(s: Seq<u8>, ch: int, n: int) -> bool {
    &&& s.len() >= 2 + 2 * ch && n >= 2 * ch && n % 2 == 0 && 2 * ch + 2 * codes(s, 2 + 2 * ch) >= n
}
pub proof fn lemma_codes_ge(s: Seq<u8>, p: int) ensures codes(s, p) >= 0 decreases s.len() - p
{ if !(p < 0 || p >= s.len()) { lemma_codes_ge(s, p + 1); } }
pub proof fn lemma_codes_append(s: Seq<u8>, t: Seq<u8>, p: int)
    requires 0 <= p <= s.len()
    ensures codes(s + t, p) == codes(s, p) + codes(s + t, s.len() as int), codes(s + t, p) >= codes(s, p)
    decreases s.len() - p
{
    lemma_codes_ge(s + t, s.len() as int);
    if p < s.len() { lemma_codes_append(s, t, p + 1); assert((s + t)[p] == s[p]); }
}
pub proof fn lemma_fits_append(s: Seq<u8>, t: Seq<u8>, ch: int, n: int)
    requires ad_fits(s, ch, n), ch >= 0 ensures ad_fits(s + t, ch, n)
{ lemma_codes_append(s, t, 2 + 2 * ch); }
}
