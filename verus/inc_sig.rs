verus! {
pub uninterp spec fn sha1(b: Seq<u8>) -> Seq<u8>;
pub struct Sha1 { pub vp: Ghost<Seq<u8>> }
impl Sha1 {
    #[verifier::external_body] pub fn new() -> (r: Sha1) ensures r.vp@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).vp@ == old(self).vp@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_finalize(self) -> (r: [u8; 20]) ensures r@ == sha1(self.vp@) { unimplemented!() }
}
// ---------- environment: num_bigint / rsa big integers (assumed) ----------
pub open spec fn be_val(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { be_val(b.drop_last()) * 256 + b.last() as nat } }
/// the shortest big-endian byte string with this value (one zero byte for zero)
pub uninterp spec fn be_bytes(v: nat) -> Seq<u8>;
pub uninterp spec fn mod_pow(b: nat, e: nat, m: nat) -> nat;
pub uninterp spec fn hex_val(s: Seq<char>) -> nat;
pub broadcast axiom fn ax_be(v: nat) ensures be_val(#[trigger] be_bytes(v)) == v;
pub struct BigUint { pub v: Ghost<nat> }
impl BigUint {
    #[verifier::external_body] pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r.v@ == be_val(b@) { unimplemented!() }
    #[verifier::external_body] pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures r@ == be_bytes(self.v@), len_ok(r@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn modpow(&self, e: &BigUint, m: &BigUint) -> (r: BigUint) ensures r.v@ == mod_pow(self.v@, e.v@, m.v@) { unimplemented!() }
    /// the digits are hexadecimal
    #[verifier::external_body] pub fn from_str_radix(s: &str, radix: u32) -> (r: Result<BigUint>) requires radix == 16 ensures r is Ok, r->Ok_0.v@ == hex_val(s@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_from_u32(x: u32) -> (r: BigUint) ensures r.v@ == x as nat { unimplemented!() }
}
pub struct RsaPublicKey { pub n: BigUint, pub e: BigUint }
impl RsaPublicKey {
    #[verifier::external_body] pub fn new(n: BigUint, e: BigUint) -> (r: Result<RsaPublicKey>) ensures (n.v@ == weak_n() || n.v@ == strong_n()) && e.v@ == 65537 ==> r is Ok, r is Ok ==> r->Ok_0.n == n && r->Ok_0.e == e { unimplemented!() }
    pub fn n(&self) -> (r: &BigUint) ensures *r == self.n { &self.n }
    pub fn e(&self) -> (r: &BigUint) ensures *r == self.e { &self.e }
}
// ---------- specification ----------
pub open spec fn weak_n() -> nat { hex_val("92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837"@) }
pub open spec fn strong_n() -> nat { hex_val("B1067ECE24F687C87E27F88C42981DB47D47689CCE044DDA823538C8C3DCAE2C5A3CE668038B7C6F07DECBBA9CCDF5B2C28718A37A657B2B4517E22E0F81C3165F4E5CDD52172BA94A0331D441999606C50289A76EAF4C409C8CA90B4C8510231608384E7752ED835BF893120042A991736A636F27FC45411C3E53B0CB9508BE7BF6021E9DBAFAD5D23DD830C4772EFDD08CC81B454A58B87F28E4DC4C97E60ECFFB1D04E41A8B955BE594B1F7A4BAA350A3B343F4306784B8CB8E9B71785136019A98700D5AA374BD2CDDC62F5B569555C5217F5CEDF5AA6954D0959DA836C23F011540A4E2B782B360AAFC07E98A156155E3349128E6C409B0FB1D57F86477"@) }
pub open spec fn md5_info() -> Seq<u8> { seq![0x30u8, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10] }
/// 00 01 FF..FF 00 | DigestInfo(MD5) | digest, at least 8 padding bytes
pub open spec fn is_weak_block(d: Seq<u8>, h: Seq<u8>) -> bool {
    let n = d.len() as int;
    &&& n >= 45 && h.len() == 16
    &&& d[0] == 0 && d[1] == 1 && d[n - 35] == 0
    &&& forall|i: int| 2 <= i < n - 35 ==> d[i] == 0xFF
    &&& d.subrange(n - 34, n - 16) == md5_info()
    &&& d.subrange(n - 16, n) == h
}
/// 0B | 235 times BB | digest
pub open spec fn is_strong_block(d: Seq<u8>, h: Seq<u8>) -> bool {
    d.len() == 256 && d[0] == 0x0B && (forall|i: int| 1 <= i < 236 ==> d[i] == 0xBB) && d.subrange(236, 256) == h
}
pub open spec fn padded(b: Seq<u8>, n: int) -> Seq<u8> { Seq::new((if n > b.len() { n - b.len() } else { 0 }) as nat, |i: int| 0u8) + b }
pub open spec fn decoded(sig: Seq<u8>, n: nat) -> Seq<u8> { be_bytes(mod_pow(be_val(sig.reverse()), 65537, n)) }
pub open spec fn zeros(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
/// the bytes a forward reader delivers from its position, at most n
pub open spec fn ahead(d: Seq<u8>, p: int, n: int) -> Seq<u8> { signed_range(d, p, p + n, 0, 0) }
}
