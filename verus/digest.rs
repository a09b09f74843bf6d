//@include inc_prelude.rs
//@include inc_io.rs
//@include inc_digest.rs
verus! {
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@extract mopaq/src/crypto/signature.rs calculate_mpq_hash_md5
//@opts ret=r loops=2 locals=hasher,buffer,current_pos,remaining,to_read,bytes_read,chunk_end_pos,sig_begin,sig_end,chunk_sig_start,chunk_sig_end
//@subst R: Read + std::io::Seek ==> R: Read + Seek
//@subst std::io::SeekFrom ==> SeekFrom
//@subst reader.read(&mut buffer[..to_read]) ==> reader.read(vp_sub_mut(&mut buffer, 0, to_read))
//@subst hasher.finalize() ==> hasher.vp_finalize()
//@subst hash.into() ==> hash
//@spec
    requires len_ok(reader.bytes().len() as int), signature_info.begin_exclude <= signature_info.end_exclude,
    ensures r is Ok ==> r->Ok_0@ == md5(signed_range(reader.bytes(), signature_info.begin_mpq_data as int, signature_info.end_mpq_data as int, signature_info.begin_exclude as int, signature_info.end_exclude as int)),
        !reader.faulty() ==> r is Ok,
//@body-start
    let ghost fy = reader.faulty(); let ghost d = reader.bytes(); let ghost si = *signature_info;
    let ghost full = signed_range(d, si.begin_mpq_data as int, si.end_mpq_data as int, si.begin_exclude as int, si.end_exclude as int);
//@loop-before 0
    proof { assert(hasher.vp@ =~= signed_range(d, si.begin_mpq_data as int, current_pos as int, si.begin_exclude as int, si.end_exclude as int)); }
//@loop 0
    invariant
        len_ok(d.len() as int), reader.faulty() == fy, si == *signature_info, si.begin_exclude <= si.end_exclude, reader.bytes() == d, buffer@.len() == DIGEST_UNIT_SIZE,
        si.begin_mpq_data <= current_pos, current_pos <= si.end_mpq_data || current_pos == si.begin_mpq_data, current_pos > si.begin_mpq_data ==> current_pos <= d.len(),
        full == signed_range(d, si.begin_mpq_data as int, si.end_mpq_data as int, si.begin_exclude as int, si.end_exclude as int),
        hasher.vp@ == signed_range(d, si.begin_mpq_data as int, current_pos as int, si.begin_exclude as int, si.end_exclude as int),
    ensures current_pos >= si.end_mpq_data || current_pos >= d.len(),
    decreases si.end_mpq_data - current_pos,
//@after-let chunk_end_pos
    let ghost b0 = buffer@; let ghost cp = current_pos as int;
    proof { assert(b0.subrange(0, bytes_read as int) =~= d.subrange(cp, cp + bytes_read)); assert forall|j: int| 0 <= j < bytes_read implies b0[j] == d[cp + j] by { assert(b0[j] == b0.subrange(0, bytes_read as int)[j]); } }
//@loop 1
    invariant vp_a1 == chunk_sig_start, vp_n1 == chunk_sig_end, buffer@.len() == b0.len(), bytes_read <= b0.len(), chunk_sig_start <= chunk_sig_end <= bytes_read,
        forall|j: int| 0 <= j < b0.len() ==> buffer@[j] == if chunk_sig_start <= j < vp_i1 { 0u8 } else { b0[j] },
//@loop-end 0
    proof {
        let n = bytes_read as int;
        let a = signed_range(d, si.begin_mpq_data as int, cp, si.begin_exclude as int, si.end_exclude as int);
        let z = signed_range(d, si.begin_mpq_data as int, cp + n, si.begin_exclude as int, si.end_exclude as int);
        assert(z =~= a + buffer@.subrange(0, n));
    }
//@loop-after 0
    proof { assert(hasher.vp@ =~= full); }
//@end
impl SignatureInfo {
//@extract mopaq/src/crypto/signature.rs SignatureInfo::new_weak
//@opts ret=r
//@spec
    ensures r.begin_mpq_data == archive_start, r.end_mpq_data == sat_add(archive_start, archive_size), r.begin_exclude == signature_file_pos, r.end_exclude == sat_add(signature_file_pos, signature_file_size),
        r.begin_exclude <= r.end_exclude, r.signature@ == signature_data@,
//@end
}
pub open spec fn sat_add(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
fn main() {}
}
