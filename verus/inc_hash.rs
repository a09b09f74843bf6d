verus! {
// ---------- specification: name folding and the two name hashes ----------
pub open spec fn slash(b: u8) -> u8 { if b == 0x2F { 0x5Cu8 } else { b } }
pub open spec fn upper(b: u8) -> u8 { if 0x61 <= b <= 0x7A { (b - 0x20) as u8 } else { b } }
pub open spec fn lower(b: u8) -> u8 { if 0x41 <= b <= 0x5A { (b + 0x20) as u8 } else { b } }
pub open spec fn fold_u(b: u8) -> u8 { upper(slash(b)) }
pub open spec fn fold_l(b: u8) -> u8 { lower(slash(b)) }
/// two names that differ only in ASCII case and in the kind of slash
pub open spec fn same_name(a: Seq<u8>, b: Seq<u8>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> fold_u(#[trigger] a[i]) == fold_u(b[i])
}
pub open spec fn hs1(b: Seq<u8>, t: u32, n: int) -> u32 decreases n, 0int {
    if n <= 0 { 0x7FED7FEDu32 } else {
        tab((t * 0x100 + fold_u(b[n - 1])) as int) ^ hs1(b, t, n - 1).wrapping_add(hs2(b, t, n - 1))
    }
}
pub open spec fn hs2(b: Seq<u8>, t: u32, n: int) -> u32 decreases n, 1int {
    if n <= 0 { 0xEEEEEEEEu32 } else {
        (fold_u(b[n - 1]) as u32).wrapping_add(tab((t * 0x100 + fold_u(b[n - 1])) as int) ^ hs1(b, t, n - 1).wrapping_add(hs2(b, t, n - 1)))
            .wrapping_add(hs2(b, t, n - 1)).wrapping_add(hs2(b, t, n - 1) << 5u32).wrapping_add(3u32)
    }
}
/// the MPQ name hash of type t
pub open spec fn mpq_hash(b: Seq<u8>, t: u32) -> u32 { hs1(b, t, b.len() as int) }

pub open spec fn jmix(h: u64, c: u8) -> u64 {
    let a = h.wrapping_add(c as u64);
    let b = a.wrapping_add(a << 10u64);
    b ^ (b >> 6u64)
}
pub open spec fn jst(b: Seq<u8>, n: int) -> u64 decreases n { if n <= 0 { 0u64 } else { jmix(jst(b, n - 1), fold_l(b[n - 1])) } }
pub open spec fn jfin(h: u64) -> u64 {
    let a = h.wrapping_add(h << 3u64);
    let b = a ^ (a >> 11u64);
    b.wrapping_add(b << 15u64)
}
pub open spec fn jenkins(b: Seq<u8>) -> u64 { jfin(jst(b, b.len() as int)) }

pub proof fn lemma_fold_same(x: u8, y: u8) requires fold_u(x) == fold_u(y) ensures fold_l(x) == fold_l(y) {}
/// THEOREM: names equal up to ASCII case and slash direction have equal hashes of every kind
pub proof fn thm_hash_folds(a: Seq<u8>, b: Seq<u8>, t: u32, n: int)
    requires same_name(a, b), 0 <= n <= a.len()
    ensures hs1(a, t, n) == hs1(b, t, n), hs2(a, t, n) == hs2(b, t, n), jst(a, n) == jst(b, n)
    decreases n
{ if n > 0 { thm_hash_folds(a, b, t, n - 1); assert(fold_u(a[n - 1]) == fold_u(b[n - 1])); lemma_fold_same(a[n - 1], b[n - 1]); } }

pub open spec fn upper_ok(t: Seq<u8>) -> bool { t.len() == 256 && forall|i: int| 0 <= i < 256 ==> #[trigger] t[i] == upper(i as u8) }
pub open spec fn lower_ok(t: Seq<u8>) -> bool { t.len() == 256 && forall|i: int| 0 <= i < 256 ==> #[trigger] t[i] == lower(i as u8) }

//@extract mopaq/src/crypto/keys.rs const:ASCII_TO_UPPER
//@subst pub const ASCII_TO_UPPER: [u8; 256] = ==> pub exec const ASCII_TO_UPPER: [u8; 256] ensures upper_ok(ASCII_TO_UPPER@) {
//@subst ]; ==> ] }
//@end
//@extract mopaq/src/crypto/keys.rs const:ASCII_TO_LOWER
//@subst pub const ASCII_TO_LOWER: [u8; 256] = ==> pub exec const ASCII_TO_LOWER: [u8; 256] ensures lower_ok(ASCII_TO_LOWER@) {
//@subst ]; ==> ] }
//@end

//@extract mopaq/src/crypto/hash.rs hash_string
//@opts ret=r locals=filename,hash_type,seed1,seed2,byte,ch,table_idx loops=1
//@spec
    requires hash_type <= 4
    ensures r == mpq_hash(filename.spec_bytes(), hash_type)
//@loop 0
    invariant
        vp_s0@ == filename.spec_bytes(), hash_type <= 4,
        seed1 == hs1(filename.spec_bytes(), hash_type, vp_i0 as int),
        seed2 == hs2(filename.spec_bytes(), hash_type, vp_i0 as int),
//@end

//@extract mopaq/src/crypto/hash.rs jenkins_hash
//@opts ret=r locals=filename,hash,byte,ch loops=1
//@spec
    ensures r == jenkins(filename.spec_bytes())
//@loop 0
    invariant
        vp_s0@ == filename.spec_bytes(),
        hash == jst(filename.spec_bytes(), vp_i0 as int),
//@end
}
