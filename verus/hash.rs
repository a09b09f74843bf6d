//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_hash.rs
verus! {
/// the real hash functions agree on names equal up to case and slash direction
fn vp_hash_fold(a: &str, b: &str, t: u32)
    requires same_name(a.spec_bytes(), b.spec_bytes()), t <= 4
{
    let x = hash_string(a, t); let y = hash_string(b, t);
    let u = jenkins_hash(a); let v = jenkins_hash(b);
    proof { thm_hash_folds(a.spec_bytes(), b.spec_bytes(), t, a.spec_bytes().len() as int); }
    assert(x == y && u == v);
}
fn main() {}
}
