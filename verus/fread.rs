//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_wle.rs
//@include inc_files.rs
//@include inc_htable.rs
//@include inc_loc.rs
//@include inc_hdr.rs
//@include inc_locate.rs
verus! {
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
impl BlockEntry {
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_IMPLODE
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_COMPRESS
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_ENCRYPTED
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_FIX_KEY
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_SINGLE_UNIT
//@end
//@extract mopaq/src/tables/block.rs assoc:BlockEntry::FLAG_SECTOR_CRC
//@end
}
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::get
//@opts ret=r
//@spec
    ensures r == (if index < self.entries@.len() { Some(&self.entries@[index as int]) } else { None })
//@end
}
pub mod tables { pub use super::BlockEntry; }
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
impl FileInfo {
//@extract mopaq/src/archive.rs FileInfo::is_compressed
//@opts ret=r
//@spec
    ensures r == (fbit(self.flags, F_IMPLODE) || fbit(self.flags, F_COMPRESS))
//@body-start
    proof { let f = self.flags; assert((f & (0x100u32 | 0x200u32) != 0) == (f & 0x100 != 0 || f & 0x200 != 0)) by (bit_vector); }
//@end
//@extract mopaq/src/archive.rs FileInfo::is_encrypted
//@opts ret=r
//@spec
    ensures r == fbit(self.flags, F_ENCRYPTED)
//@end
//@extract mopaq/src/archive.rs FileInfo::has_fix_key
//@opts ret=r
//@spec
    ensures r == fbit(self.flags, F_FIX_KEY)
//@end
//@extract mopaq/src/archive.rs FileInfo::is_single_unit
//@opts ret=r
//@spec
    ensures r == fbit(self.flags, F_SINGLE)
//@end
//@extract mopaq/src/archive.rs FileInfo::has_sector_crc
//@opts ret=r
//@spec
    ensures r == fbit(self.flags, F_CRC)
//@end
}
// ---------- environment ----------
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == cdiv(a as int, b as int);
pub mod adler {
    use super::*;
    #[verifier::external_body] pub fn adler32_slice(b: &[u8]) -> (r: u32) ensures r == adler(b@) { unimplemented!() }
}
/// decompression is a function of its arguments
pub uninterp spec fn dec_of(m: u8, c: Seq<u8>, n: int) -> Result<Seq<u8>>;
pub mod compression {
    use super::*;
    /// proved in unit comp (C06), apart from being a function of its arguments
    #[verifier::external_body] pub fn decompress(data: &[u8], method: u8, decompressed_size: usize) -> (r: Result<Vec<u8>>)
        requires small(data@.len() as int), small(decompressed_size as int),
        ensures forall|x: Seq<u8>| !audio(method) && #[trigger] stored(method, data@, x) && x.len() == decompressed_size ==> r is Ok && r->Ok_0@ == x,
            r is Ok == dec_of(method, data@, decompressed_size as int) is Ok, r is Ok ==> r->Ok_0@ == dec_of(method, data@, decompressed_size as int)->Ok_0,
    { unimplemented!() }
}
/// proved in unit bytes (C02)
#[verifier::external_body] pub fn decrypt_file_data(data: &mut [u8], key: u32)
    requires len_ok(old(data)@.len() as int)
    ensures benc(final(data)@, old(data)@, key)
{ unimplemented!() }
/// environment: v.split_first()
pub fn vp_split_first<'a>(v: &'a Vec<u8>) -> (r: Option<(u8, &'a [u8])>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && (r->0).0 == v@[0] && (r->0).1@ == v@.subrange(1, v@.len() as int)
{ if v.len() == 0 { None } else { Some((v[0], &v.as_slice()[1..v.len()])) } }
/// the bounds check of s[a..]
pub fn vp_tail<'a>(s: &'a Vec<u8>, a: usize) -> (r: &'a [u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { &s.as_slice()[a..s.len()] }
//@extract mopaq/src/tables/common.rs read_bytes
//@opts ret=r
//@subst reader.take(len).read_to_end(&mut data)? ==> vp_take_read_to_end(reader, len, &mut data)?
//@subst std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into() ==> vp_error()
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> took(old(reader).pos(), final(reader).pos(), old(reader).bytes(), len as int) || len == 0,
        r is Ok ==> r->Ok_0@.len() == len && r->Ok_0@ == old(reader).bytes().subrange(old(reader).pos(), old(reader).pos() + len) && final(reader).pos() == old(reader).pos() + len,
        !old(reader).faulty() && 0 <= old(reader).pos() && old(reader).pos() + len <= old(reader).bytes().len() ==> r is Ok,
//@before-tail
    proof { assert(Seq::<u8>::empty() + reader.bytes().subrange(reader.pos() - data@.len(), reader.pos()) =~= reader.bytes().subrange(reader.pos() - data@.len(), reader.pos())); }
//@end
//@extract mopaq/src/lib.rs calculate_sector_size
//@opts ret=r
//@spec
    ensures r == sector_bytes_of(block_size_shift)
//@body-start
    proof { let s = block_size_shift; assert(forall|k: u16| k <= 22 ==> 512 <= #[trigger] (512usize << k) <= 0x8000_0000) by (bit_vector); }
//@end
impl MpqHeader {
//@extract mopaq/src/header.rs MpqHeader::sector_size
//@opts ret=r
//@subst crate::calculate_sector_size ==> calculate_sector_size
//@spec
    ensures r == sector_bytes_of(self.block_size)
//@end
}
// ---------- lookup ----------
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
//@extract mopaq/src/tables/block.rs struct:HiBlockTable
//@end
impl HetTable {
    #[verifier::external_body] pub fn find_file(&self, n: &str) -> (r: Option<u32>) ensures r == het_find(*self, n.spec_bytes()) { unimplemented!() }
}
impl BetTable {
    #[verifier::external_body] pub fn name_hash_matches(&self, i: u32, n: &str) -> (r: bool) ensures r == bet_match(*self, i, n.spec_bytes()) { unimplemented!() }
    /// the packed values: unit bits (C08)
    #[verifier::external_body] pub fn get_file_info(&self, i: u32) -> (r: Option<BetFileInfo>) ensures r == bet_info(*self, i) { unimplemented!() }
}
/// environment: het.find_file(n).filter(..)
pub fn vp_candidate(het: &HetTable, bet: &BetTable, n: &str) -> (r: Option<u32>)
    ensures r == (if het_find(*het, n.spec_bytes()) is Some && bet_match(*bet, het_find(*het, n.spec_bytes())->0, n.spec_bytes()) { het_find(*het, n.spec_bytes()) } else { None })
{ match het.find_file(n) { Some(i) => if bet.name_hash_matches(i, n) { Some(i) } else { None }, None => None } }
impl<R: Read + Seek> Archive<R> {
    /// proved in unit tables (C10)
    #[verifier::external_body]
    pub fn find_file_classic(&self, filename: &str) -> (r: Result<Option<FileInfo>>)
        requires len_ok(self.archive_offset as int), hwf(self.hash_table)
        ensures ({ let c = classic(self.hash_table, self.block_table, self.hi_block_table, self.archive_offset, filename.spec_bytes());
            &&& r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some))
            &&& r is Ok && r->Ok_0 is Some ==> ({ let f = r->Ok_0->0;
                &&& loc_of(f) == c->Ok_0->0 && f.file_pos >= self.archive_offset && self.block_table is Some && f.block_index < (self.block_table->0).entries@.len()
                &&& f.file_size == (self.block_table->0).entries@[f.block_index as int].file_size })
        })
    { unimplemented!() }
//@extract mopaq/src/archive.rs Archive::find_file
//@opts ret=r
//@subst het.find_file(filename).filter(|&file_index| bet.name_hash_matches(file_index, filename)) ==> vp_candidate(het, bet, filename)
//@spec
    requires len_ok(self.archive_offset as int), hwf(self.hash_table)
    ensures ({ let c = locate(*self, filename.spec_bytes());
        &&& r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some))
        &&& r is Ok && r->Ok_0 is Some ==> ({ let f = r->Ok_0->0;
            &&& loc_of(f) == c->Ok_0->0 && f.file_pos >= self.archive_offset
            &&& self.het_table is None || self.bet_table is None ==> self.block_table is Some && f.block_index < (self.block_table->0).entries@.len() && f.file_size == (self.block_table->0).entries@[f.block_index as int].file_size })
    })
//@end
//@extract mopaq/src/archive.rs Archive::read_file
//@opts ret=r
//@subst data.split_first() ==> vp_split_first(&data)
//@subst let (&compression_type, compressed_data) ==> let (compression_type, compressed_data)
//@subst data.clone() ==> vp_to_vec(&data)
//@subst &data[1..] ==> vp_tail(&data, 1)
//@spec
    requires len_ok(old(self).archive_offset as int), hwf(old(self).hash_table), small(old(self).reader.bytes().len() as int),
    ensures same_archive(*old(self), *final(self)),
        ({ let l = locate(*old(self), name.spec_bytes()); (l is Err || l->Ok_0 is None ==> r is Err) && (l is Ok && l->Ok_0 is None ==> r->Err_0.vp == 1) }),
        ({ let l = locate(*old(self), name.spec_bytes())->Ok_0->0; r is Ok && fbit(l.flags, F_CRC) && fbit(l.flags, F_SINGLE) ==> l.pos + l.csize + 4 <= old(self).reader.bytes().len() && adler(r->Ok_0@) == le4(old(self).reader.bytes().subrange(l.pos + l.csize, l.pos + l.csize + 4)) }),
        !old(self).reader.faulty() ==> forall|x: Seq<u8>, m: u8, b: Seq<u8>| #[trigger] stored_at(*old(self), name.spec_bytes(), x, m, b) ==> r is Ok && r->Ok_0@ == x,
//@body-start
    let ghost a0 = *self; let ghost d = self.reader.bytes(); let ghost nm = name.spec_bytes();
    let ghost l = locate(*self, nm)->Ok_0->0; let ghost f = l.flags; let ghost ss = sector_bytes_of(self.header.block_size) as int;
    let ghost kk = fk(nm, (l.pos - self.archive_offset) as u32, l.size as u32, l.flags);
    proof {
        lemma_sector_bytes(self.header.block_size);
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>| #[trigger] stored_at(a0, nm, x, m, b) implies x.len() <= u32::MAX && (x.len() <= ss ==> unit_image(b, x, l.csize, f, kk, m)) && (x.len() > ss ==> exists|p: Seq<u8>| #[trigger] multi_image(b, x, p, f, kk, m, ss)) by {}
    }
//@after-let key
    proof {
        assert(fbit(f, F_ENCRYPTED) ==> key == kk);
        if !fbit(f, F_ENCRYPTED) {
            assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #[trigger] multi_image(b, x, p, f, kk, m, ss) implies multi_image(b, x, p, f, key, m, ss) by { lemma_plain_key(b, x, p, f, kk, key, m, ss); }
        }
    }
//@after-let data
    let ghost dt0 = data@;
    proof {
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>| #[trigger] stored_at(a0, nm, x, m, b) && fbit(f, F_CRC) implies l.pos + l.csize + 4 <= d.len() && le4(d.subrange(l.pos + l.csize, l.pos + l.csize + 4)) == adler(x) by {
            assert(unit_image(b, x, l.csize, f, kk, m));
            assert(d.subrange(l.pos + l.csize, l.pos + l.csize + 4) =~= b.subrange(l.csize, l.csize + 4));
        }
        lemma_benc0(dt0);
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, q: Seq<u8>| #![trigger stored_at(a0, nm, x, m, b), benc(q, dt0, ekey(f, kk))] stored_at(a0, nm, x, m, b) && benc(q, dt0, ekey(f, kk)) implies (if fbit(f, F_COMPRESS) { shrunk(q, x, m) } else { q == x }) && !fbit(f, F_IMPLODE) by {
            assert(unit_image(b, x, l.csize, f, kk, m));
            assert(dt0 =~= b.subrange(0, l.csize));
            let c = choose|c: Seq<u8>| #[trigger] benc(c, b.subrange(0, l.csize), ekey(f, kk)) && if fbit(f, F_COMPRESS) { shrunk(c, x, m) } else { c == x };
            thm_bytes_inverse(c, q, dt0, ekey(f, kk));
        }
    }
//@end
//@extract mopaq/src/archive.rs Archive::read_sectored_file
//@opts ret=r
//@subst std::io::Cursor::new ==> VpCursor::new
//@subst &sector_data[1..] ==> vp_tail(&sector_data, 1)
//@spec
    requires file_info.file_size <= u32::MAX, small(old(self).reader.bytes().len() as int),
    ensures same_archive(*old(self), *final(self)),
        !old(self).reader.faulty() ==> forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>|
            #[trigger] multi_image(b, x, p, file_info.flags, key, m, sector_bytes_of(old(self).header.block_size) as int) && fits(old(self).reader.bytes(), file_info.file_pos as int, b)
            && x.len() == file_info.file_size && !audio(m) ==> r is Ok && r->Ok_0@ == x,
//@body-start
    let ghost d = self.reader.bytes(); let ghost fp = file_info.file_pos as int; let ghost f = file_info.flags; let ghost ss = sector_bytes_of(self.header.block_size) as int; let ghost n = file_info.file_size as int;
    proof { lemma_sector_bytes(self.header.block_size); lemma_cdiv(n, ss); }
    let ghost cnt = cdiv(n, ss); let ghost a0 = *self;
    proof { assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies fp + 4 * (cnt + 1) <= d.len() && b.subrange(0, 4 * (cnt + 1)) == d.subrange(fp, fp + 4 * (cnt + 1)) by { assert(b.subrange(0, 4 * (cnt + 1)) =~= d.subrange(fp, fp + 4 * (cnt + 1))); } }
//@after-let offset_data
    let ghost od0 = offset_data@;
//@after-let sector_offsets
    let ghost od = offset_data@;
    proof {
        assert(benc(od, od0, ekey(f, key.wrapping_sub(1))));
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies od == p by { thm_bytes_inverse(od, p, od0, ekey(f, key.wrapping_sub(1))); }
    }
//@loop 0
    invariant
        cursor.d@ == od, od.len() == 4 * (sector_count + 1), cursor.p == 4 * vp_n0, sector_offsets@.len() == vp_n0, forall|j: int| 0 <= j < vp_n0 ==> #[trigger] sector_offsets@[j] == word_at(od, j),
        sector_count <= u32::MAX, same_archive(a0, *self),
//@loop 1
    invariant
        cursor.d@ == crc_data@, crc_data@.len() == 4 * sector_count, cursor.p == 4 * vp_n1, crcs@.len() == vp_n1, sector_count <= u32::MAX, same_archive(a0, *self),
//@loop 2
    invariant
        a0 == *old(self), a0.reader.bytes() == d, same_archive(a0, *self), sector_count == cnt, cnt == cdiv(n, ss), n == file_info.file_size, n <= u32::MAX, small(d.len() as int), sector_size == ss, 512 <= ss <= 0x8000_0000, cnt <= n, (cnt - 1) * ss < n, cnt * ss >= n,
        fp == file_info.file_pos, f == file_info.flags, ss == sector_bytes_of(a0.header.block_size), sector_offsets@.len() == cnt + 1, od.len() == 4 * (cnt + 1),
        forall|j: int| 0 <= j <= cnt ==> #[trigger] sector_offsets@[j] == word_at(od, j), sector_crcs is Some ==> (sector_crcs->0)@.len() == cnt,
        forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) ==> od == p,
        forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) ==> decompressed_data@ == x.take(lo(n, ss, i as int)),
//@loop-before 2
    proof { assert(0 * ss == 0); assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies decompressed_data@ == x.take(lo(n, ss, 0)) by { assert(decompressed_data@ =~= x.take(0)); } }
//@loop-start 2
    proof {
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies sec_in(d, fp, od, i as int) && sector_ok(d.subrange(fp + word_at(od, i as int), fp + word_at(od, i + 1)), x, ss, i as int, f, key, m) by { lemma_sector(d, fp, n, x, m, b, p, f, key, ss, i as int); }
        lemma_lo(n, ss, i as int);
    }
//@after-let sector_data
    let ghost sd0 = sector_data@; let ghost dd0 = decompressed_data@;
    proof {
        lemma_benc0(sd0);
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>, q: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss), benc(q, sd0, ekey(f, key.wrapping_add(i as u32)))] hyp(d, fp, n, x, m, b, p, f, key, ss) && benc(q, sd0, ekey(f, key.wrapping_add(i as u32))) implies pk(q, xs(x, ss, i as int), m) by {
            assert(sector_ok(sd0, x, ss, i as int, f, key, m));
            let c = choose|c: Seq<u8>| #[trigger] benc(c, sd0, ekey(f, key.wrapping_add(i as u32))) && (c == xs(x, ss, i as int) || shrunk(c, xs(x, ss, i as int), m));
            thm_bytes_inverse(c, q, sd0, ekey(f, key.wrapping_add(i as u32)));
        }
    }
//@loop-end 2
    proof {
        assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies decompressed_data@ == x.take(lo(n, ss, i + 1)) by { assert(decompressed_data@ =~= x.take(lo(n, ss, i + 1))); }
    }
//@loop-after 2
    proof { assert forall|x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>| #![trigger multi_image(b, x, p, f, key, m, ss)] hyp(d, fp, n, x, m, b, p, f, key, ss) implies decompressed_data@ == x by { assert(x.take(n) =~= x); } }
//@end
}
/// what is assumed of the stored bytes
pub open spec fn hyp(d: Seq<u8>, fp: int, n: int, x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>, f: u32, key: u32, ss: int) -> bool { multi_image(b, x, p, f, key, m, ss) && fits(d, fp, b) && x.len() == n && !audio(m) }
/// where part i begins
pub open spec fn lo(n: int, ss: int, i: int) -> int { if i * ss <= n { i * ss } else { n } }
pub open spec fn sec_in(d: Seq<u8>, fp: int, od: Seq<u8>, i: int) -> bool { word_at(od, i) <= word_at(od, i + 1) && fp + word_at(od, i + 1) <= d.len() }
pub proof fn lemma_lo(n: int, ss: int, i: int) requires 0 <= i < cdiv(n, ss), ss > 0, n >= 0
    ensures lo(n, ss, i) == i * ss, 0 <= i * ss < n, lo(n, ss, i + 1) == if n - i * ss <= ss { n } else { (i + 1) * ss }, (i + 1) * ss == i * ss + ss
{
    lemma_cdiv(n, ss);
    assert((i + 1) * ss == i * ss + ss && i * ss >= 0) by (nonlinear_arith) requires ss > 0, i >= 0;
    assert(i * ss <= (cdiv(n, ss) - 1) * ss) by (nonlinear_arith) requires ss > 0, i <= cdiv(n, ss) - 1;
}
pub proof fn lemma_sector(d: Seq<u8>, fp: int, n: int, x: Seq<u8>, m: u8, b: Seq<u8>, p: Seq<u8>, f: u32, key: u32, ss: int, i: int)
    requires hyp(d, fp, n, x, m, b, p, f, key, ss), 0 <= i < cdiv(n, ss)
    ensures sec_in(d, fp, p, i), sector_ok(d.subrange(fp + word_at(p, i), fp + word_at(p, i + 1)), x, ss, i, f, key, m)
{
    hide(benc); hide(word_at); hide(sector_ok); hide(cdiv); hide(ekey);
    assert(word_at(p, i) <= word_at(p, i + 1) && word_at(p, i + 1) <= b.len());
    assert(sector_ok(msec(b, p, i), x, ss, i, f, key, m));
    assert(msec(b, p, i) =~= d.subrange(fp + word_at(p, i), fp + word_at(p, i + 1)));
}
/// the key does not matter for what is not encrypted
pub proof fn lemma_plain_key(b: Seq<u8>, x: Seq<u8>, p: Seq<u8>, f: u32, k1: u32, k2: u32, m: u8, ss: int)
    requires multi_image(b, x, p, f, k1, m, ss), !fbit(f, F_ENCRYPTED) ensures multi_image(b, x, p, f, k2, m, ss)
{
    hide(benc); hide(word_at); hide(cdiv); hide(shrunk); hide(xs);
    assert forall|i: int| 0 <= i < cdiv(x.len() as int, ss) implies sector_ok(#[trigger] msec(b, p, i), x, ss, i, f, k2, m) by {
        assert(sector_ok(msec(b, p, i), x, ss, i, f, k1, m));
        let c = choose|c: Seq<u8>| #[trigger] benc(c, msec(b, p, i), ekey(f, k1.wrapping_add(i as u32))) && (c == xs(x, ss, i) || shrunk(c, xs(x, ss, i), m));
        assert(ekey(f, k1.wrapping_add(i as u32)) == ekey(f, k2.wrapping_add(i as u32)));
        assert(benc(c, msec(b, p, i), ekey(f, k2.wrapping_add(i as u32))));
    }
}
fn main() {}
}
