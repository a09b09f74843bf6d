verus! {
// ---------- specification: the MPQ block cipher ----------
pub open spec fn next_key(k: u32) -> u32 { ((!k) << 0x15u32).wrapping_add(0x11111111u32) | (k >> 0x0Bu32) }
pub open spec fn next_seed(p: u32, s: u32) -> u32 { p.wrapping_add(s).wrapping_add(s << 5u32).wrapping_add(3u32) }
pub open spec fn kst(key: u32, i: int) -> u32 decreases i { if i <= 0 { key } else { next_key(kst(key, i - 1)) } }
/// seed used for word i after mixing in the table
pub open spec fn sd(p: Seq<u32>, key: u32, i: int) -> u32 { sst(p, key, i).wrapping_add(tab(0x400 + (kst(key, i) & 0xFFu32) as int)) }
/// seed before word i: a function of the plaintext prefix
pub open spec fn sst(p: Seq<u32>, key: u32, i: int) -> u32 decreases i {
    if i <= 0 { 0xEEEEEEEEu32 } else {
        next_seed(p[i - 1], sst(p, key, i - 1).wrapping_add(tab(0x400 + (kst(key, i - 1) & 0xFFu32) as int)))
    }
}
pub open spec fn word_ok(p: Seq<u32>, c: Seq<u32>, key: u32, i: int) -> bool {
    c[i] == p[i] ^ kst(key, i).wrapping_add(sd(p, key, i))
}
/// c is the encryption of p under key (key 0 = no encryption)
pub open spec fn enc_rel(p: Seq<u32>, c: Seq<u32>, key: u32) -> bool {
    p.len() == c.len() && (key == 0 ==> p == c) && (key != 0 ==> forall|i: int| 0 <= i < p.len() ==> #[trigger] word_ok(p, c, key, i))
}

pub proof fn lemma_sst_prefix(p: Seq<u32>, q: Seq<u32>, key: u32, i: int)
    requires 0 <= i, forall|j: int| 0 <= j < i ==> p[j] == q[j],
    ensures sst(p, key, i) == sst(q, key, i)
    decreases i
{ if i > 0 { lemma_sst_prefix(p, q, key, i - 1); } }

/// THEOREM (decryption is unique: it inverts encryption)
pub proof fn thm_cipher_inverse(p: Seq<u32>, q: Seq<u32>, c: Seq<u32>, key: u32)
    requires enc_rel(p, c, key), enc_rel(q, c, key)
    ensures p == q
{
    if key != 0 {
        assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { lemma_inv_upto(p, q, c, key, i); }
    }
    assert(p =~= q);
}
pub proof fn lemma_inv_upto(p: Seq<u32>, q: Seq<u32>, c: Seq<u32>, key: u32, i: int)
    requires enc_rel(p, c, key), enc_rel(q, c, key), key != 0, 0 <= i < p.len()
    ensures forall|j: int| 0 <= j <= i ==> p[j] == q[j]
    decreases i
{
    if i > 0 { lemma_inv_upto(p, q, c, key, i - 1); }
    lemma_sst_prefix(p, q, key, i);
    assert(word_ok(p, c, key, i)); assert(word_ok(q, c, key, i));
    let k = kst(key, i).wrapping_add(sd(p, key, i)); let a = p[i]; let b = q[i];
    assert(a ^ k == b ^ k ==> a == b) by (bit_vector);
}
/// THEOREM (encryption is a function of the plaintext: encrypting a decryption gives the ciphertext back)
pub proof fn thm_cipher_functional(p: Seq<u32>, c: Seq<u32>, d: Seq<u32>, key: u32)
    requires enc_rel(p, c, key), enc_rel(p, d, key)
    ensures c == d
{
    if key != 0 { assert forall|i: int| 0 <= i < p.len() implies c[i] == d[i] by { assert(word_ok(p, c, key, i)); assert(word_ok(p, d, key, i)); } }
    assert(c =~= d);
}

//@extract mopaq/src/crypto/encryption.rs encrypt_block
//@opts locals=data,key,seed,value,ch loops=1
//@spec
    ensures final(data)@.len() == old(data)@.len(), enc_rel(old(data)@, final(data)@, key)
//@body-start
    let ghost vp_p = data@; let ghost vp_k = key;
//@loop 0
    invariant
        data@.len() == vp_p.len(), vp_n0 == vp_p.len(), vp_k != 0,
        key == kst(vp_k, vp_i0 as int), seed == sst(vp_p, vp_k, vp_i0 as int),
        forall|j: int| 0 <= j < vp_i0 ==> #[trigger] word_ok(vp_p, data@, vp_k, j),
        forall|j: int| vp_i0 <= j < vp_p.len() ==> data@[j] == vp_p[j],
//@loop-start 0
    let ghost vp_c = data@;
    proof { let k = key; assert((k & 0xFF) <= 0xFF) by (bit_vector); }
//@loop-end 0
    proof {
        assert forall|j: int| 0 <= j < vp_i0 + 1 implies #[trigger] word_ok(vp_p, data@, vp_k, j) by {
            if j < vp_i0 { assert(word_ok(vp_p, vp_c, vp_k, j)); }
        }
    }
//@end

//@extract mopaq/src/crypto/decryption.rs decrypt_block
//@opts locals=data,key,seed,value,ch loops=1
//@spec
    ensures final(data)@.len() == old(data)@.len(), enc_rel(final(data)@, old(data)@, key)
//@body-start
    let ghost vp_c = data@; let ghost vp_k = key;
//@loop 0
    invariant
        data@.len() == vp_c.len(), vp_n0 == vp_c.len(), vp_k != 0,
        key == kst(vp_k, vp_i0 as int), seed == sst(data@, vp_k, vp_i0 as int),
        forall|j: int| 0 <= j < vp_i0 ==> #[trigger] word_ok(data@, vp_c, vp_k, j),
        forall|j: int| vp_i0 <= j < vp_c.len() ==> data@[j] == vp_c[j],
//@loop-start 0
    let ghost vp_d = data@;
    proof { let k = key; assert((k & 0xFF) <= 0xFF) by (bit_vector); }
//@loop-end 0
    proof {
        assert forall|j: int| 0 <= j <= vp_i0 + 1 implies sst(data@, vp_k, j) == sst(vp_d, vp_k, j) || j == vp_i0 + 1 by {
            if j <= vp_i0 { lemma_sst_prefix(data@, vp_d, vp_k, j); }
        }
        lemma_sst_prefix(data@, vp_d, vp_k, vp_i0 as int);
        assert forall|j: int| 0 <= j < vp_i0 + 1 implies #[trigger] word_ok(data@, vp_c, vp_k, j) by {
            if j < vp_i0 { assert(word_ok(vp_d, vp_c, vp_k, j)); lemma_sst_prefix(data@, vp_d, vp_k, j); }
            else {
                let a = vp_c[j]; let k = kst(vp_k, j).wrapping_add(sd(data@, vp_k, j));
                assert((a ^ k) ^ k == a) by (bit_vector);
            }
        }
    }
//@end

//@extract mopaq/src/crypto/decryption.rs decrypt_dword
//@opts ret=r locals=value,key,seed loops=0
//@spec
    ensures enc_rel(seq![r], seq![value], key)
//@body-start
    proof {
        let k = key; assert((k & 0xFF) <= 0xFF) by (bit_vector);
        let kk = key.wrapping_add(0xEEEEEEEEu32.wrapping_add(tab(0x400 + (key & 0xFFu32) as int)));
        let v = value;
        assert((v ^ kk) ^ kk == v) by (bit_vector);
        assert forall|r: u32, i: int| r == v ^ kk && 0 <= i < 1 && key != 0 implies #[trigger] word_ok(seq![r], seq![v], key, i) by {}
    }
//@end
}
