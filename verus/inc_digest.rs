verus! {
// ---------- environment: the md5 crate (assumed: an incremental digest of everything it was fed) ----------
pub uninterp spec fn md5(b: Seq<u8>) -> Seq<u8>;
pub struct Md5 { pub vp: Ghost<Seq<u8>> }
impl Md5 {
    #[verifier::external_body] pub fn new() -> (r: Md5) ensures r.vp@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).vp@ == old(self).vp@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_finalize(self) -> (r: [u8; 16]) ensures r@ == md5(self.vp@) { unimplemented!() }
}
// ---------- specification: what a weak signature signs ----------
//@extract mopaq/src/crypto/signature.rs struct:SignatureInfo
//@end
//@extract mopaq/src/crypto/signature.rs const:DIGEST_UNIT_SIZE
//@end
/// the bytes [begin, end) of d (as far as they exist), those in [xb, xe) replaced by zero
pub open spec fn signed_range(d: Seq<u8>, begin: int, end: int, xb: int, xe: int) -> Seq<u8> {
    let e = if end < d.len() { end } else { d.len() as int };
    Seq::new((if e > begin { e - begin } else { 0 }) as nat, |i: int| if xb <= begin + i < xe { 0u8 } else { d[begin + i] })
}
}
