verus! {
// ---------- specification: the sparse stream ----------
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// meaning of a control stream from position p (what a conforming decoder emits, no size limit)
pub open spec fn emit(s: Seq<u8>, p: int) -> Seq<u8> decreases s.len() - p {
    if p < 0 || p >= s.len() || s[p] == 0xFF { Seq::empty() }
    else if s[p] >= 0x80 { zeros((s[p] - 0x80) as int) + emit(s, p + 1) }
    else if p + 1 + s[p] > s.len() { Seq::empty() }
    else { s.subrange(p + 1, p + 1 + s[p]) + emit(s, p + 1 + s[p]) }
}
/// the stream is complete: it is a sequence of whole records ending in the end marker
pub open spec fn complete(s: Seq<u8>, p: int) -> bool decreases s.len() - p {
    if p < 0 || p >= s.len() { false } else if s[p] == 0xFF { p + 1 == s.len() }
    else if s[p] >= 0x80 { complete(s, p + 1) }
    else { p + 1 + s[p] <= s.len() && complete(s, p + 1 + s[p]) }
}
}
