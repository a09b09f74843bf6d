verus! {
// ---------- specification: encryption of a byte buffer of any length ----------
pub open spec fn word_at(b: Seq<u8>, i: int) -> u32 { le4(b.subrange(4 * i, 4 * i + 4)) }
pub open spec fn words(b: Seq<u8>) -> Seq<u32> { Seq::new((b.len() / 4) as nat, |i: int| word_at(b, i)) }
/// what the format's cipher mixes into a single word under `key` (nothing for key 0)
pub open spec fn mask1(key: u32) -> u32 { if key == 0 { 0 } else { key.wrapping_add(0xEEEEEEEEu32.wrapping_add(tab(0x400 + (key & 0xFFu32) as int))) } }
pub open spec fn tail_ok(p: Seq<u8>, c: Seq<u8>, key: u32, j: int) -> bool {
    let n = p.len() / 4;
    c[4 * n + j] == p[4 * n + j] ^ le4b(mask1(key.wrapping_add(n as u32)))[j]
}
/// c is the encryption of the bytes p: whole words by the block cipher, the last 1-3 bytes as a word of their own
pub open spec fn benc(p: Seq<u8>, c: Seq<u8>, key: u32) -> bool {
    &&& p.len() == c.len()
    &&& key == 0 ==> p == c
    &&& key != 0 ==> enc_rel(words(p), words(c), key) && forall|j: int| 0 <= j < p.len() % 4 ==> #[trigger] tail_ok(p, c, key, j)
}
pub proof fn lemma_words_inj(p: Seq<u8>, q: Seq<u8>)
    requires p.len() == q.len(), words(p) == words(q)
    ensures forall|i: int| 0 <= i < p.len() / 4 * 4 ==> p[i] == q[i]
{
    assert forall|i: int| 0 <= i < p.len() / 4 * 4 implies p[i] == q[i] by {
        let k = i / 4;
        assert(words(p)[k] == words(q)[k]);
        let a = p.subrange(4 * k, 4 * k + 4); let b = q.subrange(4 * k, 4 * k + 4);
        lemma_le4b_rt(a); lemma_le4b_rt(b);
        assert(words(p)[k] == le4(a) && words(q)[k] == le4(b)); assert(a == b); assert(a[i - 4 * k] == b[i - 4 * k]); assert(p[i] == a[i - 4 * k] && q[i] == b[i - 4 * k]);
    }
}
/// THEOREM: a ciphertext has one plaintext, whatever its length
pub proof fn thm_bytes_inverse(p: Seq<u8>, q: Seq<u8>, c: Seq<u8>, key: u32)
    requires benc(p, c, key), benc(q, c, key)
    ensures p == q
{
    if key != 0 {
        thm_cipher_inverse(words(p), words(q), words(c), key);
        lemma_words_inj(p, q);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by {
            let n = p.len() / 4;
            if i >= 4 * n {
                let j = i - 4 * n;
                assert(tail_ok(p, c, key, j)); assert(tail_ok(q, c, key, j));
                let a = p[i]; let b = q[i]; let m = le4b(mask1(key.wrapping_add(n as u32)))[j];
                assert(a ^ m == b ^ m ==> a == b) by (bit_vector);
            }
        }
    }
    assert(p =~= q);
}
/// one-word encryption is exclusive or with the word's mask
pub proof fn lemma_enc1(p: u32, c: u32, key: u32)
    requires enc_rel(seq![p], seq![c], key)
    ensures c == p ^ mask1(key), p == c ^ mask1(key)
{
    if key == 0 { assert(seq![p][0] == seq![c][0]); assert(p ^ 0 == p) by (bit_vector); }
    else { assert(word_ok(seq![p], seq![c], key, 0)); }
    let m = mask1(key);
    assert(c == p ^ m ==> p == c ^ m) by (bit_vector);
}
/// tail bytes of a padded word
pub proof fn lemma_tail(p: Seq<u8>, c: Seq<u8>, a: Seq<u8>, b: Seq<u8>, r: int, key: u32)
    requires a.len() == 4, b.len() == 4, 0 <= r < 4, le4(b) == le4(a) ^ mask1(key)
    ensures forall|j: int| 0 <= j < 4 ==> #[trigger] b[j] == a[j] ^ le4b(mask1(key))[j]
{
    lemma_le4b_rt(a); lemma_le4b_rt(b); lemma_le4b_xor(le4(a), mask1(key));
}
}
