//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
verus! {
/// decrypt(encrypt(x)) == x and encrypt(decrypt(x)) == x for the real functions
fn vp_roundtrip(d: &mut [u32], key: u32) ensures final(d)@ == old(d)@ {
    let ghost p = d@;
    encrypt_block(d, key);
    let ghost c = d@;
    decrypt_block(d, key);
    proof { thm_cipher_inverse(p, d@, c, key); }
}
fn vp_roundtrip2(d: &mut [u32], key: u32) ensures final(d)@ == old(d)@ {
    let ghost c = d@;
    decrypt_block(d, key);
    let ghost p = d@;
    encrypt_block(d, key);
    proof { thm_cipher_functional(p, c, d@, key); }
}
fn main() {}
}
