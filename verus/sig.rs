//@include inc_prelude.rs
//@include inc_io.rs
//@include inc_digest.rs
//@include inc_sig.rs
verus! {
//@extract mopaq/src/crypto/signature.rs const:WEAK_SIGNATURE_SIZE
//@end
//@extract mopaq/src/crypto/signature.rs const:WEAK_SIGNATURE_FILE_SIZE
//@end
//@extract mopaq/src/crypto/signature.rs const:STRONG_SIGNATURE_SIZE
//@end
//@extract mopaq/src/crypto/signature.rs const:STRONG_SIGNATURE_HEADER
//@subst *b"NGIS" ==> [0x4E, 0x47, 0x49, 0x53]
//@end
//@extract mopaq/src/crypto/signature.rs const:BLIZZARD_WEAK_PUBLIC_KEY_N
//@subst &str ==> &'static str
//@end
//@extract mopaq/src/crypto/signature.rs const:BLIZZARD_WEAK_PUBLIC_KEY_E
//@end
//@extract mopaq/src/crypto/signature.rs const:BLIZZARD_STRONG_PUBLIC_KEY_N
//@subst &str ==> &'static str
//@end
//@extract mopaq/src/crypto/signature.rs const:BLIZZARD_STRONG_PUBLIC_KEY_E
//@end
//@extract mopaq/src/crypto/signature.rs weak_public_key
//@opts ret=r
//@subst RsaBigUint::from_str_radix ==> BigUint::from_str_radix
//@subst RsaBigUint::from( ==> BigUint::vp_from_u32(
//@spec
    ensures r is Ok, r->Ok_0.n.v@ == weak_n() && r->Ok_0.e.v@ == 65537,
//@end
//@extract mopaq/src/crypto/signature.rs strong_public_key
//@opts ret=r
//@subst RsaBigUint::from_str_radix ==> BigUint::from_str_radix
//@subst RsaBigUint::from( ==> BigUint::vp_from_u32(
//@spec
    ensures r is Ok, r->Ok_0.n.v@ == strong_n() && r->Ok_0.e.v@ == 65537,
//@end
//@extract mopaq/src/crypto/signature.rs reverse_bytes
//@opts ret=r
//@spec
    ensures r@ == data@.reverse(),
//@end
//@extract mopaq/src/crypto/signature.rs left_pad
//@opts ret=r
//@spec
    requires len_ok(bytes@.len() as int), len_ok(size as int),
    ensures r@ == padded(bytes@, size as int),
//@after-let padded
    proof { assert(padded@ =~= Seq::new((if size > bytes@.len() { size - bytes@.len() } else { 0 }) as nat, |i: int| 0u8)); }
//@end
//@extract mopaq/src/crypto/signature.rs parse_weak_signature
//@opts ret=r loops=1
//@spec
    ensures r is Ok <==> data@.len() >= 72 && !zeros(data@.subrange(8, 72)), r is Ok ==> r->Ok_0@ == data@.subrange(8, 72),
//@loop 0
    invariant vp_b0 == (forall|j: int| 0 <= j < vp_i0 ==> signature@[j] == 0),
//@end
//@extract mopaq/src/crypto/signature.rs parse_strong_signature
//@opts ret=r loops=1
//@spec
    ensures r is Ok <==> data@.len() >= 260 && data@.subrange(0, 4) == seq![0x4Eu8, 0x47, 0x49, 0x53] && !zeros(data@.subrange(4, 260)), r is Ok ==> r->Ok_0@ == data@.subrange(4, 260),
//@body-start
    proof { assert(STRONG_SIGNATURE_HEADER@ =~= seq![0x4Eu8, 0x47, 0x49, 0x53]); }
//@loop 0
    invariant vp_b0 == (forall|j: int| 0 <= j < vp_i0 ==> signature@[j] == 0),
//@end
//@extract mopaq/src/crypto/signature.rs verify_pkcs1_v15_md5
//@opts ret=r loops=1
//@spec
    requires len_ok(decrypted@.len() as int), expected_hash@.len() == 16,
    ensures r is Ok ==> r->Ok_0 == is_weak_block(decrypted@, expected_hash@), r is Err ==> !is_weak_block(decrypted@, expected_hash@),
//@loop 0
    invariant_except_break separator_pos is None, forall|j: int| 2 <= j < vp_n0 ==> decrypted@[j] == 0xFF,
    invariant vp_s0@ == decrypted@, vp_h0 == decrypted@.len(), 2 <= vp_n0 <= vp_h0, decrypted@.len() >= 45, expected_hash@.len() == 16,
    ensures separator_pos is None ==> (forall|j: int| 2 <= j < decrypted@.len() ==> decrypted@[j] == 0xFF),
        separator_pos is Some ==> ({ let s = separator_pos->Some_0 as int; 2 <= s < decrypted@.len() && decrypted@[s] == 0 && (forall|j: int| 2 <= j < s ==> decrypted@[j] == 0xFF) }),
    decreases vp_h0 - vp_n0,
//@after-let md5_digest_info
    proof { assert(md5_digest_info@ =~= md5_info()); }
//@end
//@extract mopaq/src/crypto/signature.rs verify_mpq_strong_signature_padding
//@opts ret=r loops=1
//@subst signature_hash != expected_hash ==> !vp_slice_eq(signature_hash, expected_hash)
//@spec
    ensures r is Ok && r->Ok_0 == is_strong_block(decrypted@, expected_hash@),
//@loop 0
    invariant vp_s0@ == decrypted@, vp_h0 == 236, decrypted@.len() == 256, 1 <= vp_n0 <= 236, forall|j: int| 1 <= j < vp_n0 ==> decrypted@[j] == 0xBB,
    decreases vp_h0 - vp_n0,
//@end
/// contract proved in unit digest
#[verifier::external_body]
pub fn calculate_mpq_hash_md5<R: Read + Seek>(reader: R, signature_info: &SignatureInfo) -> (r: Result<[u8; 16]>)
    requires len_ok(reader.bytes().len() as int), signature_info.begin_exclude <= signature_info.end_exclude,
    ensures r is Ok ==> r->Ok_0@ == md5(signed_range(reader.bytes(), signature_info.begin_mpq_data as int, signature_info.end_mpq_data as int, signature_info.begin_exclude as int, signature_info.end_exclude as int)),
        !reader.faulty() ==> r is Ok,
{ unimplemented!() }
//@extract mopaq/src/crypto/signature.rs verify_weak_signature_stormlib
//@opts ret=r
//@subst R: Read + std::io::Seek ==> R: Read + Seek
//@subst public_keys::weak_public_key ==> weak_public_key
//@spec
    requires len_ok(reader.bytes().len() as int), signature_info.begin_exclude <= signature_info.end_exclude,
    ensures ({ let h = md5(signed_range(reader.bytes(), signature_info.begin_mpq_data as int, signature_info.end_mpq_data as int, signature_info.begin_exclude as int, signature_info.end_exclude as int));
        &&& r is Ok ==> r->Ok_0 == is_weak_block(padded(decoded(signature@, weak_n()), 64), h)
        &&& !reader.faulty() && is_weak_block(padded(decoded(signature@, weak_n()), 64), h) ==> r is Ok }),
//@body-start
    broadcast use ax_be;
//@end
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@extract mopaq/src/crypto/signature.rs verify_strong_signature
//@opts ret=r loops=1
//@subst public_keys::strong_public_key ==> strong_public_key
//@subst reader.read(&mut buffer[..to_read]) ==> reader.read(vp_sub_mut(&mut buffer, 0, to_read))
//@subst hasher.finalize() ==> hasher.vp_finalize()
//@spec
    requires len_ok(reader.bytes().len() as int), 0 <= reader.pos(),
    ensures r is Ok ==> r->Ok_0 == is_strong_block(decoded(signature@, strong_n()), sha1(ahead(reader.bytes(), reader.pos(), archive_size as int))), !reader.faulty() ==> r is Ok,
//@body-start
    broadcast use ax_be;
    let ghost fy = reader.faulty(); let ghost d = reader.bytes(); let ghost p = reader.pos();
//@loop-before 0
    proof { assert(hasher.vp@ =~= ahead(d, p, 0)); }
//@loop 0
    invariant
        len_ok(d.len() as int), 0 <= p, reader.bytes() == d, reader.faulty() == fy, buffer@.len() == 65536, reader.pos() == p + bytes_read, bytes_read <= archive_size, bytes_read > 0 ==> p + bytes_read <= d.len(),
        hasher.vp@ == ahead(d, p, bytes_read as int),
    ensures bytes_read >= archive_size || p + bytes_read >= d.len(),
    decreases archive_size - bytes_read,
//@after-let n
    proof { if n > 0 { assert(buffer@.subrange(0, n as int) =~= d.subrange(p + bytes_read, p + bytes_read + n)); assert(ahead(d, p, bytes_read + n) =~= ahead(d, p, bytes_read as int) + buffer@.subrange(0, n as int)); } }
//@loop-after 0
    proof { assert(hasher.vp@ =~= ahead(d, p, archive_size as int)); }
//@end
fn main() {}
}
