//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_wle.rs
//@include inc_files.rs
verus! {
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
impl BlockEntry {
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_IMPLODE
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_COMPRESS
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_ENCRYPTED
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_FIX_KEY
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_SINGLE_UNIT
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_SECTOR_CRC
//@end
}
// ---------- environment ----------
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == cdiv(a as int, b as int);
pub open spec fn small(n: int) -> bool { n <= 0x00FF_FFFF_FFFF_FFFF }
pub mod adler {
    use super::*;
    #[verifier::external_body] pub fn adler32_slice(b: &[u8]) -> (r: u32) ensures r == adler(b@) { unimplemented!() }
}
/// proved in unit comp (C06)
#[verifier::external_body] pub fn compress(data: &[u8], method: u8) -> (r: Result<Vec<u8>>)
    requires small(data@.len() as int),
    ensures r is Ok ==> r->Ok_0@ == data@ || (r->Ok_0@.len() < data@.len() && r->Ok_0@.len() >= 2 && r->Ok_0@[0] == method && stored(method, r->Ok_0@.skip(1), data@)),
{ unimplemented!() }
/// decompression is a function of its arguments
pub uninterp spec fn dec_of(m: u8, c: Seq<u8>, n: int) -> Result<Seq<u8>>;
pub mod compression {
    use super::*;
    /// proved in unit comp (C06), apart from being a function of its arguments
    #[verifier::external_body] pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> (r: Result<Vec<u8>>)
        requires small(data@.len() as int), small(decompressed_size as int),
        ensures forall|x: Seq<u8>| !audio(method) && #[trigger] stored(method, data@, x) && x.len() == decompressed_size ==> r is Ok && r->Ok_0@ == x,
            r is Ok == dec_of(method, data@, decompressed_size as int) is Ok, r is Ok ==> r->Ok_0@ == dec_of(method, data@, decompressed_size as int)->Ok_0,
    { unimplemented!() }
}
/// proved in unit bytes (C02)
#[verifier::external_body] pub fn decrypt_file_data(data: &mut [u8], key: u32)
    requires len_ok(old(data)@.len() as int)
    ensures benc(final(data)@, old(data)@, key)
{ unimplemented!() }
/// environment: v.split_first()
pub fn vp_split_first<'a>(v: &'a Vec<u8>) -> (r: Option<(u8, &'a [u8])>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && (r->0).0 == v@[0] && (r->0).1@ == v@.subrange(1, v@.len() as int)
{ if v.len() == 0 { None } else { Some((v[0], &v.as_slice()[1..v.len()])) } }
/// s[a..]
pub fn vp_tail<'a>(s: &'a Vec<u8>, a: usize) -> (r: &'a [u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { &s.as_slice()[a..s.len()] }
pub proof fn lemma_skip(s: Seq<u8>) requires s.len() >= 1 ensures s.subrange(1, s.len() as int) == s.skip(1) { assert(s.subrange(1, s.len() as int) =~= s.skip(1)); }

// ---------- writing ----------
//@extract mopaq/src/builder.rs struct:FileWriteParams
//@end
pub struct ArchiveBuilder { pub generate_crcs: bool }
impl ArchiveBuilder {
    /// proved in unit bytes (C02)
    #[verifier::external_body] pub fn calculate_file_key(&self, filename: &str, file_pos: u64, file_size: u32, flags: u32) -> (r: u32)
        ensures r == fk(filename.spec_bytes(), file_pos as u32, file_size, flags) { unimplemented!() }
    /// proved in unit bytes (C02)
    #[verifier::external_body] pub fn encrypt_data(&self, data: &mut [u8], key: u32)
        requires len_ok(old(data)@.len() as int)
        ensures benc(old(data)@, final(data)@, key)
    { unimplemented!() }
    /// proved in unit cipher (C01): it is encrypt_block
    #[verifier::external_body] pub fn encrypt_data_u32(&self, data: &mut [u32], key: u32)
        requires len_ok(old(data)@.len() as int)
        ensures enc_rel(old(data)@, final(data)@, key)
    { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::write_file
//@opts ret=r
//@subst compressed != *file_data ==> !vp_slice_eq(&compressed, file_data)
//@subst compressed != *sector_bytes ==> !vp_slice_eq(&compressed, sector_bytes)
//@subst sector_offsets.clone() ==> vp_to_vec(&sector_offsets)
//@spec
    requires 512 <= params.sector_size <= 0x8000_0000, 0 <= old(writer).pos(), small(params.file_data@.len() as int)
    ensures r is Ok ==> wrote(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), params.file_data@, r->Ok_0.0 as int, r->Ok_0.1,
            fk(params.archive_name.spec_bytes(), params.file_pos as u32, params.file_data@.len() as u32, r->Ok_0.1), params.compression, params.sector_size as int),
        r is Ok ==> r->Ok_0.0 <= u32::MAX && params.file_data@.len() <= u32::MAX,
        r is Ok ==> fbit(r->Ok_0.1, F_CRC) == self.generate_crcs && fbit(r->Ok_0.1, F_ENCRYPTED) == params.encrypt && !fbit(r->Ok_0.1, F_IMPLODE) && fbit(r->Ok_0.1, F_SINGLE) == (params.file_data@.len() <= params.sector_size),
//@body-start
    broadcast use lemma_splice2;
    let ghost w0 = writer.bytes(); let ghost q0 = writer.pos();
    let ghost x = params.file_data@; let ghost ss = params.sector_size as int; let ghost m = params.compression;
    proof { assert(origin(w0, q0)); lemma_or_all(); lemma_cdiv(x.len() as int, ss); }
//@after-let compressed_data
    let ghost cd = compressed_data@;
//@after-let final_data
    let ghost key = fk(archive_name.spec_bytes(), *file_pos as u32, x.len() as u32, flags);
    let ghost b1 = if self.generate_crcs { final_data@ + le4b(adler(x)) } else { final_data@ };
    proof {
        lemma_le4_rt(adler(x)); lemma_splice2(w0, q0, final_data@, q0 + final_data@.len(), le4b(adler(x)));
        assert(b1.subrange(0, final_data@.len() as int) =~= final_data@);
        assert(final_data@ + seq![] =~= final_data@);
        if self.generate_crcs { assert(b1.subrange(final_data@.len() as int, final_data@.len() as int + 4) =~= le4b(adler(x))); }
        if fbit(flags, F_COMPRESS) { assert(shrunk(cd, x, m)); } else { assert(cd == x); }
        assert(benc(cd, final_data@, ekey(flags, key)));
        assert(unit_image(b1, x, final_data@.len() as int, flags, key, m));
        lemma_wrote(w0, q0, splice(w0, q0, b1), q0 + b1.len(), x, final_data@.len() as int, flags, key, m, ss, b1);
    }
//@after-let sector_data
    let ghost mut go: Seq<int> = seq![0int];
    proof { assert(packed(sector_data@, go, 0, x, ss, m)); }
//@loop 0
    invariant
        x == file_data@, ss == *sector_size, m == *compression, 512 <= ss <= 0x8000_0000, small(x.len() as int), x.len() > ss, sector_count == cdiv(x.len() as int, ss), vp_n0 == sector_count, sector_offsets@.len() == sector_count + 1,
        data_start == dstart(sector_count as int, flags), fbit(flags, F_CRC) == self.generate_crcs, !fbit(flags, F_SINGLE), fbit(flags, F_COMPRESS), !fbit(flags, F_IMPLODE), !fbit(flags, F_ENCRYPTED), !fbit(flags, F_FIX_KEY), (sector_count - 1) * ss < x.len(), sector_count * ss >= x.len(), sector_count <= x.len(),
        packed(sector_data@, go, i as int, x, ss, m), sector_data@.len() <= i * ss, sector_data@.len() <= x.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] sector_offsets@[j] == (data_start + go[j]) as u32,
        self.generate_crcs ==> sector_crcs@.len() == i,
        writer.bytes() == w0, writer.pos() == q0,
//@loop-start 0
    let ghost d0 = sector_data@; let ghost go0 = go; let ghost of0 = sector_offsets@;
    proof {
        assert((i + 1) * ss == i * ss + ss && i * ss >= 0) by (nonlinear_arith) requires ss > 0, i >= 0;
        assert(i * ss <= (sector_count - 1) * ss) by (nonlinear_arith) requires ss > 0, i <= sector_count - 1;
    }
//@loop-end 0
    proof {
        assert(sector_bytes@ =~= xs(x, ss, i as int));
        lemma_packed_push(d0, go0, i as int, x, ss, m, compressed_sector@);
        assert(sector_data@ =~= d0 + compressed_sector@);
        go = go0.push(sector_data@.len() as int);
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] sector_offsets@[j] == (data_start + go[j]) as u32 by { if j < i { assert(sector_offsets@[j] == of0[j]); assert(go[j] == go0[j]); } }
    }
//@loop-after 0
    let ghost d1 = sector_data@;
    let ghost o: Seq<u32> = Seq::new((sector_count + 1) as nat, |j: int| (data_start + go[j]) as u32);
//@after-let original_offsets
    proof {
        assert(original_offsets@ =~= o);
        assert forall|j: int| 0 <= j < o.len() implies #[trigger] o[j] == data_start + go[j] by { assert(0 <= go[j] <= go[j] <= d1.len()); }
    }
//@after-let encrypted_sectors
    proof { assert(sealed(d1, encrypted_sectors@, go, 0, flags, key)); }
//@loop 1
    invariant
        sector_data@ == d1, original_offsets@ == o, o.len() == sector_count + 1, vp_n1 == sector_count, packed(d1, go, sector_count as int, x, ss, m), data_start <= u32::MAX,
        forall|j: int| 0 <= j < o.len() ==> #[trigger] o[j] == data_start + go[j], len_ok(d1.len() as int),
        sealed(d1, encrypted_sectors@, go, i as int, flags, key), fbit(flags, F_ENCRYPTED), sector_count <= u32::MAX,
        writer.bytes() == w0, writer.pos() == q0,
//@loop-start 1
    let ghost e0 = encrypted_sectors@;
    proof { assert(o[i as int] == data_start + go[i as int]); assert(o[i + 1] == data_start + go[i + 1]); assert(0 <= go[i as int] && go[i as int] <= go[i + 1] && go[i + 1] <= d1.len()); }
//@loop-end 1
    proof {
        lemma_sealed_push(d1, e0, go, i as int, sector_count as int, flags, key, x, ss, m, sector@);
        assert(encrypted_sectors@ =~= e0 + sector@);
    }
//@loop-before 2
    let ghost oe = sector_offsets@; let ghost e = sector_data@;
    let ghost key1 = fk(archive_name.spec_bytes(), *file_pos as u32, x.len() as u32, flags);
    proof {
        assert forall|j: int| 0 <= j < o.len() implies #[trigger] o[j] == data_start + go[j] by { assert(0 <= go[j] <= go[j] <= d1.len()); }
        if !params.encrypt { assert(oe =~= o); lemma_sealed_plain(d1, go, sector_count as int, flags, key1, x, ss, m); }
        assert(enc_rel(o, oe, ekey(flags, key1.wrapping_sub(1))));
        assert(sealed(d1, e, go, sector_count as int, flags, key1));
        assert(splice(w0, q0, seq![]) =~= w0);
        assert(ser32(oe.take(0)) =~= seq![]);
    }
//@loop 2
    invariant origin(w0, q0), 0 <= q0, vp_s2@ == oe, put(w0, q0, writer.bytes(), writer.pos(), ser32(oe.take(vp_i2 as int))),
//@loop-start 2
    proof { assert(origin(w0, q0)); lemma_splice2(w0, q0, ser32(oe.take(vp_i2 as int)), writer.pos(), le4b(oe[vp_i2 as int])); }
//@loop-end 2
    proof { lemma_ser32_push(oe.take(vp_i2 as int), oe[vp_i2 as int]); assert(oe.take(vp_i2 + 1) =~= oe.take(vp_i2 as int).push(oe[vp_i2 as int])); }
//@loop-after 2
    let ghost t1 = ser32(oe);
    proof { assert(oe.take(oe.len() as int) =~= oe); assert(ser32(sector_crcs@.take(0)) =~= seq![]); assert(t1 + seq![] =~= t1); }
//@loop 3
    invariant origin(w0, q0), 0 <= q0, vp_s3@ == sector_crcs@, put(w0, q0, writer.bytes(), writer.pos(), t1 + ser32(sector_crcs@.take(vp_i3 as int))),
//@loop-start 3
    proof { lemma_splice2(w0, q0, t1 + ser32(sector_crcs@.take(vp_i3 as int)), writer.pos(), le4b(sector_crcs@[vp_i3 as int])); }
//@loop-end 3
    proof {
        let cs = sector_crcs@;
        lemma_ser32_push(cs.take(vp_i3 as int), cs[vp_i3 as int]); assert(cs.take(vp_i3 + 1) =~= cs.take(vp_i3 as int).push(cs[vp_i3 as int]));
        assert(t1 + ser32(cs.take(vp_i3 as int)) + le4b(cs[vp_i3 as int]) =~= t1 + ser32(cs.take(vp_i3 + 1)));
    }
//@loop-after 3
    proof { assert(sector_crcs@.take(sector_crcs@.len() as int) =~= sector_crcs@); }
//@after-let total_size
    let ghost k = if self.generate_crcs { ser32(sector_crcs@) } else { seq![] };
    proof {
        assert(t1 + seq![] =~= t1);
        lemma_multi(x, ss, m, flags, key1, go, d1, e, o, oe, k, t1 + k + e);
        lemma_wrote(w0, q0, writer.bytes(), writer.pos(), x, total_size as int, flags, key1, m, ss, t1 + k + e);
    }
//@end
}
fn main() {}
}
