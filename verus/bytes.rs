//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
verus! {
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
pub struct ArchiveBuilder { pub vp: u8 }
pub struct BlockEntry { pub vp: u8 }
impl BlockEntry {
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_FIX_KEY
//@end
}
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::calculate_file_key
//@opts ret=r locals=filename,file_pos,file_size,flags,base_key loops=0
//@spec
    ensures r == (if flags & 0x0002_0000u32 != 0 { mpq_hash(filename.spec_bytes(), 3).wrapping_add(file_pos as u32) ^ file_size } else { mpq_hash(filename.spec_bytes(), 3) })
//@end

//@extract mopaq/src/builder.rs ArchiveBuilder::encrypt_data
//@opts locals=data,key,chunks,remainder,u32_buffer,chunk,i,encrypted,bytes,last_dword,last_u32,encrypted_bytes loops=2
//@spec
    requires len_ok(old(data)@.len() as int)
    ensures benc(old(data)@, final(data)@, key)
//@body-start
    let ghost vp_p = data@; let ghost vp_n = (vp_p.len() / 4) as int;
//@loop 0
    invariant
        chunks@ == vp_p.subrange(0, 4 * vp_n), vp_n == vp_p.len() / 4, vp_n0 == vp_n, u32_buffer@.len() == vp_i0, len_ok(vp_p.len() as int),
        forall|j: int| 0 <= j < vp_i0 ==> u32_buffer@[j] == #[trigger] word_at(vp_p, j),
//@loop-start 0
    proof { assert(chunks@.subrange(vp_i0 * 4, vp_i0 * 4 + 4) =~= vp_p.subrange(4 * vp_i0, 4 * vp_i0 + 4)); }
//@loop-after 0
    proof { assert(u32_buffer@ =~= words(vp_p)); }
//@loop-before 1
    let ghost vp_c = u32_buffer@; proof { assert(enc_rel(words(vp_p), vp_c, key)); }
//@loop 1
    invariant
        chunks@.len() == 4 * vp_n, vp_n == vp_p.len() / 4, vp_c.len() == vp_n, vp_s1@ == vp_c, len_ok(vp_p.len() as int),
        forall|j: int| 0 <= j < i ==> #[trigger] word_at(chunks@, j) == vp_c[j],
//@loop-start 1
    let ghost vp_o = chunks@;
//@loop-end 1
    proof {
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] word_at(chunks@, j) == vp_c[j] by {
            if j < i { assert(word_at(vp_o, j) == vp_c[j]); assert(chunks@.subrange(4 * j, 4 * j + 4) =~= vp_o.subrange(4 * j, 4 * j + 4)); }
            else { lemma_le4_rt(encrypted); assert(chunks@.subrange(4 * j, 4 * j + 4) =~= le4b(encrypted)); }
        }
    }
//@loop-after 1
    let ghost vp_r = remainder@; let ghost vp_cc = chunks@;
    proof {
        assert(vp_r == vp_p.subrange(4 * vp_n, vp_p.len() as int));
        assert(words(vp_cc) =~= vp_c);
    }
//@after-let last_u32
    let ghost vp_a = last_dword@; let ghost vp_w = last_u32;
//@after-let encrypted_bytes
    proof {
        let k = key.wrapping_add(vp_n as u32);
        lemma_enc1(vp_w, last_u32, k);
        lemma_le4_rt(last_u32);
        lemma_tail(vp_p, vp_p, vp_a, encrypted_bytes@, vp_r.len() as int, k);
        assert forall|j: int| 0 <= j < vp_r.len() implies encrypted_bytes@[j] == #[trigger] vp_r[j] ^ le4b(mask1(k))[j] by { assert(vp_a[j] == vp_r[j]); }
    }
//@body-end
    proof {
        let f = chunks@ + remainder@;
        assert(words(f) =~= words(vp_cc)) by {
            assert forall|i: int| 0 <= i < vp_n implies word_at(f, i) == word_at(vp_cc, i) by { assert(f.subrange(4 * i, 4 * i + 4) =~= vp_cc.subrange(4 * i, 4 * i + 4)); }
        }
        assert forall|j: int| 0 <= j < vp_p.len() % 4 implies #[trigger] tail_ok(vp_p, f, key, j) by { assert(vp_r[j] == vp_p[4 * vp_n + j]); }
        assert(benc(vp_p, f, key));
    }
//@end
}
//@extract mopaq/src/archive.rs decrypt_file_data
//@opts locals=data,key,chunks,u32_data,i,offset,value,bytes,remainder,last_bytes,last_dword,decrypted,decrypted_bytes loops=2
//@spec
    requires len_ok(old(data)@.len() as int)
    ensures benc(final(data)@, old(data)@, key)
//@body-start
    let ghost vp_c = data@; let ghost vp_n = (vp_c.len() / 4) as int;
    proof { assert(words(data@).len() == 0 ==> words(vp_c) =~= words(data@)); }
//@after-let u32_data
    let ghost vp_t = data@;
//@loop 0
    invariant
        data@ == vp_c, chunks == vp_n, vp_n == vp_c.len() / 4, u32_data@.len() == i, len_ok(vp_c.len() as int),
        forall|j: int| 0 <= j < i ==> u32_data@[j] == #[trigger] word_at(vp_c, j),
//@loop-end 0
    proof { let s = vp_c.subrange(4 * i, 4 * i + 4); assert(s[0] == vp_c[4 * i] && s[1] == vp_c[4 * i + 1] && s[2] == vp_c[4 * i + 2] && s[3] == vp_c[4 * i + 3]); }
//@loop-after 0
    proof { assert(u32_data@ =~= words(vp_c)); }
//@loop-before 1
    let ghost vp_p = u32_data@; proof { assert(enc_rel(vp_p, words(vp_c), key)); }
//@loop 1
    invariant
        data@.len() == vp_c.len(), vp_n == vp_c.len() / 4, vp_p.len() == vp_n, vp_s1@ == vp_p, len_ok(vp_c.len() as int),
        forall|j: int| 0 <= j < i ==> #[trigger] word_at(data@, j) == vp_p[j],
        forall|j: int| 4 * vp_n <= j < vp_c.len() ==> data@[j] == vp_c[j],
//@loop-start 1
    let ghost vp_o = data@;
//@loop-end 1
    proof {
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] word_at(data@, j) == vp_p[j] by {
            if j < i { assert(word_at(vp_o, j) == vp_p[j]); assert(data@.subrange(4 * j, 4 * j + 4) =~= vp_o.subrange(4 * j, 4 * j + 4)); }
            else { lemma_le4_rt(value); assert(data@.subrange(4 * j, 4 * j + 4) =~= le4b(value)); }
        }
    }
//@loop-after 1
    proof { assert(words(data@) =~= vp_p); }
//@after-let remainder
    let ghost vp_d = data@;
    proof { if vp_n == 0 { assert(words(vp_d) =~= words(vp_c)); assert(words(vp_c).len() == 0); } assert(enc_rel(words(vp_d), words(vp_c), key)); }
//@after-let decrypted_bytes
    proof {
        let k = key.wrapping_add(vp_n as u32);
        lemma_enc1(decrypted, last_dword, k);
        lemma_le4_rt(decrypted);
        lemma_tail(vp_c, vp_c, last_bytes@, decrypted_bytes@, remainder as int, k);
        assert forall|j: int| 0 <= j < remainder implies decrypted_bytes@[j] == #[trigger] vp_c[4 * vp_n + j] ^ le4b(mask1(k))[j] by { assert(last_bytes@[j] == vp_c[4 * vp_n + j]); }
    }
//@body-end
    proof {
        let f = data@;
        assert(words(f) =~= words(vp_d)) by {
            assert forall|i: int| 0 <= i < vp_n implies word_at(f, i) == word_at(vp_d, i) by { assert(f.subrange(4 * i, 4 * i + 4) =~= vp_d.subrange(4 * i, 4 * i + 4)); }
        }
        assert forall|j: int| 0 <= j < vp_c.len() % 4 implies #[trigger] tail_ok(f, vp_c, key, j) by {
            let a = f[4 * vp_n + j]; let b = vp_c[4 * vp_n + j]; let m = le4b(mask1(key.wrapping_add(vp_n as u32)))[j];
            assert(a == b ^ m);
            assert(a == b ^ m ==> b == a ^ m) by (bit_vector);
        }
        assert(benc(f, vp_c, key));
    }
//@end

//@extract mopaq/src/tables/common.rs decrypt_table_data
//@opts locals=data,key,u32_buffer,chunk,i,val,bytes,chunks,remainder,last_dword,decrypted loops=2
//@subst use crate::crypto::{decrypt_block, decrypt_dword}; ==>
//@spec
    requires len_ok(old(data)@.len() as int)
    ensures benc(final(data)@, old(data)@, key)
//@body-start
    let ghost vp_c = data@; let ghost vp_n = (vp_c.len() / 4) as int;
//@loop 0
    invariant
        data@ == vp_c, vp_n0 == vp_n, vp_n == vp_c.len() / 4, vp_v0@.len() == vp_i0, len_ok(vp_c.len() as int),
        forall|j: int| 0 <= j < vp_i0 ==> vp_v0@[j] == #[trigger] word_at(vp_c, j),
//@after-let u32_buffer
    proof { assert(u32_buffer@ =~= words(vp_c)); }
//@loop-before 1
    let ghost vp_p = u32_buffer@; proof { assert(enc_rel(vp_p, words(vp_c), key)); }
//@loop 1
    invariant
        data@.len() == vp_c.len(), vp_n == vp_c.len() / 4, vp_p.len() == vp_n, vp_s1@ == vp_p, len_ok(vp_c.len() as int),
        forall|j: int| 0 <= j < i ==> #[trigger] word_at(data@, j) == vp_p[j],
        forall|j: int| 4 * vp_n <= j < vp_c.len() ==> data@[j] == vp_c[j],
//@loop-start 1
    let ghost vp_o = data@;
//@loop-end 1
    proof {
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] word_at(data@, j) == vp_p[j] by {
            if j < i { assert(word_at(vp_o, j) == vp_p[j]); assert(data@.subrange(4 * j, 4 * j + 4) =~= vp_o.subrange(4 * j, 4 * j + 4)); }
            else { lemma_le4_rt(val); assert(data@.subrange(4 * j, 4 * j + 4) =~= le4b(val)); }
        }
    }
//@loop-after 1
    let ghost vp_d = data@;
    proof { assert(words(data@) =~= vp_p); }
//@after-let decrypted
    proof {
        let k = key.wrapping_add(vp_n as u32);
        let b = le4b(decrypted);
        lemma_enc1(decrypted, le4(last_dword@), k);
        lemma_le4_rt(decrypted);
        lemma_tail(vp_c, vp_c, last_dword@, b, remainder@.len() as int, k);
        assert forall|j: int| 0 <= j < remainder@.len() implies b[j] == #[trigger] vp_c[4 * vp_n + j] ^ le4b(mask1(k))[j] by { assert(last_dword@[j] == vp_c[4 * vp_n + j]); }
    }
//@body-end
    proof {
        let f = data@;
        assert(words(f) =~= words(vp_d)) by {
            assert forall|i: int| 0 <= i < vp_n implies word_at(f, i) == word_at(vp_d, i) by { assert(f.subrange(4 * i, 4 * i + 4) =~= vp_d.subrange(4 * i, 4 * i + 4)); }
        }
        assert forall|j: int| 0 <= j < vp_c.len() % 4 implies #[trigger] tail_ok(f, vp_c, key, j) by {
            let a = f[4 * vp_n + j]; let b = vp_c[4 * vp_n + j]; let m = le4b(mask1(key.wrapping_add(vp_n as u32)))[j];
            assert(a == b ^ m);
            assert(a == b ^ m ==> b == a ^ m) by (bit_vector);
        }
        assert(benc(f, vp_c, key));
    }
//@end

/// what the reader does with what the writer produced
fn vp_bytes_roundtrip(b: &ArchiveBuilder, data: &mut [u8], key: u32)
    requires len_ok(old(data)@.len() as int)
    ensures final(data)@ == old(data)@
{
    let ghost p = data@;
    b.encrypt_data(data, key);
    let ghost c = data@;
    decrypt_file_data(data, key);
    proof { thm_bytes_inverse(p, data@, c, key); }
}
fn main() {}
}
