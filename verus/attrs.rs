//@include inc_prelude.rs
//@include inc_le.rs
//@include inc_io.rs
verus! {
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b > 0
    ensures r == (a + b - 1) / (b as int);
//@extract mopaq/src/special_files/attributes.rs struct:AttributeFlags
//@end
//@extract mopaq/src/special_files/attributes.rs struct:FileAttributes
//@end
//@extract mopaq/src/special_files/attributes.rs struct:Attributes
//@end
// ---------- specification: layout of the (attributes) file ----------
pub open spec fn has_c(f: u32) -> bool { f & 1 != 0 }
pub open spec fn has_t(f: u32) -> bool { f & 2 != 0 }
pub open spec fn has_m(f: u32) -> bool { f & 4 != 0 }
pub open spec fn has_p(f: u32) -> bool { f & 8 != 0 }
pub open spec fn o_t(f: u32, n: int) -> int { 8 + if has_c(f) { 4 * n } else { 0 } }
pub open spec fn o_m(f: u32, n: int) -> int { o_t(f, n) + if has_t(f) { 8 * n } else { 0 } }
pub open spec fn o_p(f: u32, n: int) -> int { o_m(f, n) + if has_m(f) { 16 * n } else { 0 } }
pub open spec fn o_end(f: u32, n: int) -> int { o_p(f, n) + if has_p(f) { (n + 7) / 8 } else { 0 } }
pub open spec fn at(d: Seq<u8>, o: int, w: int, i: int) -> Seq<u8> { d.subrange(o + w * i, o + w * i + w) }
pub open spec fn bit(d: Seq<u8>, o: int, i: int) -> bool { d[o + i / 8] & (1u8 << ((i % 8) as u8)) != 0 }
/// what record i of the file says
pub open spec fn rec(d: Seq<u8>, f: u32, n: int, i: int, a: FileAttributes) -> bool {
    &&& a.crc32 == (if has_c(f) { Some(le4(at(d, 8, 4, i))) } else { None })
    &&& a.filetime == (if has_t(f) { Some(le8(at(d, o_t(f, n), 8, i))) } else { None })
    &&& (a.md5 is Some <==> has_m(f)) && (has_m(f) ==> a.md5->Some_0@ == at(d, o_m(f, n), 16, i))
    &&& a.is_patch == (if has_p(f) { Some(bit(d, o_p(f, n), i)) } else { None })
}
pub open spec fn md5s(v: Seq<[u8; 16]>, d: Seq<u8>, o: int) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == at(d, o, 16, i) }
pub open spec fn or32(x: Option<u32>) -> u32 { match x { Some(v) => v, None => 0 } }
pub open spec fn or64(x: Option<u64>) -> u64 { match x { Some(v) => v, None => 0 } }
pub open spec fn or16(x: Option<[u8; 16]>) -> Seq<u8> { match x { Some(v) => v@, None => Seq::new(16, |i: int| 0u8) } }
pub open spec fn orb(x: Option<bool>) -> bool { match x { Some(v) => v, None => false } }
/// record i of the file is the encoding of a
pub open spec fn enc(d: Seq<u8>, f: u32, n: int, i: int, a: FileAttributes) -> bool {
    &&& has_c(f) ==> at(d, 8, 4, i) == le4b(or32(a.crc32))
    &&& has_t(f) ==> at(d, o_t(f, n), 8, i) == le8b(or64(a.filetime))
    &&& has_m(f) ==> at(d, o_m(f, n), 16, i) == or16(a.md5)
    &&& has_p(f) ==> bit(d, o_p(f, n), i) == orb(a.is_patch)
}
pub proof fn lemma_at_append(d: Seq<u8>, x: Seq<u8>, o: int, w: int, n: int)
    requires o >= 0, w > 0, n >= 0, d.len() >= o + w * n
    ensures forall|j: int| 0 <= j < n ==> #[trigger] at(d + x, o, w, j) == at(d, o, w, j), x.len() == w && d.len() == o + w * n ==> at(d + x, o, w, n) == x
{
    assert forall|j: int| 0 <= j < n implies #[trigger] at(d + x, o, w, j) == at(d, o, w, j) by {
        assert(w * j + w <= w * n && w * j >= 0) by (nonlinear_arith) requires 0 <= j < n, w > 0;
        assert(at(d + x, o, w, j) =~= at(d, o, w, j));
    }
    assert(w * n >= 0) by (nonlinear_arith) requires n >= 0, w > 0;
    if x.len() == w && d.len() == o + w * n { assert(at(d + x, o, w, n) =~= x); }
}
pub proof fn lemma_or_bit(x: u8, i: u8, j: u8) requires i < 8, j < 8
    ensures ((x | (1u8 << i)) & (1u8 << j) != 0) == (i == j || x & (1u8 << j) != 0)
{ assert(((x | (1u8 << i)) & (1u8 << j) != 0) == (i == j || x & (1u8 << j) != 0)) by (bit_vector) requires i < 8, j < 8; }
pub proof fn lemma_zero_bit(j: u8) requires j < 8 ensures 0u8 & (1u8 << j) == 0
{ assert(0u8 & (1u8 << j) == 0) by (bit_vector); }

pub open spec fn st(d: Seq<u8>, v: u32, f: u32, fa: Seq<FileAttributes>, kc: int, kt: int, km: int) -> bool {
    let n = fa.len() as int;
    &&& d.len() == 8 + (if has_c(f) { 4 * kc } else { 0 }) + (if has_t(f) { 8 * kt } else { 0 }) + (if has_m(f) { 16 * km } else { 0 })
    &&& d.subrange(0, 4) == le4b(v) && d.subrange(4, 8) == le4b(f)
    &&& has_c(f) ==> forall|j: int| 0 <= j < kc ==> #[trigger] at(d, 8, 4, j) == le4b(or32(fa[j].crc32))
    &&& has_t(f) ==> forall|j: int| 0 <= j < kt ==> #[trigger] at(d, o_t(f, n), 8, j) == le8b(or64(fa[j].filetime))
    &&& has_m(f) ==> forall|j: int| 0 <= j < km ==> #[trigger] at(d, o_m(f, n), 16, j) == or16(fa[j].md5)
}
pub proof fn lemma_st(d: Seq<u8>, x: Seq<u8>, v: u32, f: u32, fa: Seq<FileAttributes>, kc: int, kt: int, km: int)
    requires st(d, v, f, fa, kc, kt, km), 0 <= kc <= fa.len(), 0 <= kt <= fa.len(), 0 <= km <= fa.len(), kt > 0 ==> kc == fa.len(), km > 0 ==> kc == fa.len() && kt == fa.len()
    ensures has_c(f) && kt == 0 && km == 0 && kc < fa.len() && x == le4b(or32(fa[kc].crc32)) ==> st(d + x, v, f, fa, kc + 1, kt, km),
        has_t(f) && kc == fa.len() && km == 0 && kt < fa.len() && x == le8b(or64(fa[kt].filetime)) ==> st(d + x, v, f, fa, kc, kt + 1, km),
        has_m(f) && kc == fa.len() && kt == fa.len() && km < fa.len() && x == or16(fa[km].md5) ==> st(d + x, v, f, fa, kc, kt, km + 1),
        kc == fa.len() && kt == fa.len() && km == fa.len() ==> forall|j: int| 0 <= j < fa.len() ==> (has_c(f) ==> #[trigger] at(d + x, 8, 4, j) == le4b(or32(fa[j].crc32))) && (has_t(f) ==> #[trigger] at(d + x, o_t(f, fa.len() as int), 8, j) == le8b(or64(fa[j].filetime)))
            && (has_m(f) ==> #[trigger] at(d + x, o_m(f, fa.len() as int), 16, j) == or16(fa[j].md5)),
{
    let n = fa.len() as int;
    assert((d + x).subrange(0, 4) =~= d.subrange(0, 4)); assert((d + x).subrange(4, 8) =~= d.subrange(4, 8));
    if has_c(f) { lemma_at_append(d, x, 8, 4, kc); }
    if has_t(f) { if kt > 0 || kc == n { lemma_at_append(d, x, o_t(f, n), 8, kt); } }
    if has_m(f) { if km > 0 || kt == n { lemma_at_append(d, x, o_m(f, n), 16, km); } }
}
pub open spec fn bs(b: Seq<u8>, fa: Seq<FileAttributes>, k: int) -> bool { b.len() == (fa.len() + 7) / 8 && forall|j: int| 0 <= j < fa.len() ==> #[trigger] bit(b, 0, j) == (j < k && orb(fa[j].is_patch)) }
pub proof fn lemma_bs0(b: Seq<u8>, fa: Seq<FileAttributes>) requires b.len() == (fa.len() + 7) / 8, forall|i: int| 0 <= i < b.len() ==> b[i] == 0u8 ensures bs(b, fa, 0)
{ assert forall|j: int| 0 <= j < fa.len() implies #[trigger] bit(b, 0, j) == false by { lemma_zero_bit((j % 8) as u8); assert(b[j / 8] == 0); } }
pub proof fn lemma_bs(b: Seq<u8>, c: Seq<u8>, fa: Seq<FileAttributes>, k: int)
    requires bs(b, fa, k), 0 <= k < fa.len(), orb(fa[k].is_patch) ==> c == b.update(k / 8, b[k / 8] | (1u8 << ((k % 8) as u8))), !orb(fa[k].is_patch) ==> c == b
    ensures bs(c, fa, k + 1)
{
    assert forall|j: int| 0 <= j < fa.len() implies #[trigger] bit(c, 0, j) == (j < k + 1 && orb(fa[j].is_patch)) by {
        assert(bit(b, 0, j) == (j < k && orb(fa[j].is_patch)));
        assert(0 <= j / 8 < b.len());
        lemma_or_bit(b[k / 8], (k % 8) as u8, (j % 8) as u8);
    }
}
impl AttributeFlags {
//@extract mopaq/src/special_files/attributes.rs assoc:AttributeFlags::CRC32
//@end
//@extract mopaq/src/special_files/attributes.rs assoc:AttributeFlags::FILETIME
//@end
//@extract mopaq/src/special_files/attributes.rs assoc:AttributeFlags::MD5
//@end
//@extract mopaq/src/special_files/attributes.rs assoc:AttributeFlags::PATCH_BIT
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::new
//@opts ret=r
//@spec
    ensures r.0 == value
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::has_crc32
//@opts ret=r
//@spec
    ensures r == has_c(self.0)
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::has_filetime
//@opts ret=r
//@spec
    ensures r == has_t(self.0)
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::has_md5
//@opts ret=r
//@spec
    ensures r == has_m(self.0)
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::has_patch_bit
//@opts ret=r
//@spec
    ensures r == has_p(self.0)
//@end
//@extract mopaq/src/special_files/attributes.rs AttributeFlags::as_u32
//@opts ret=r
//@spec
    ensures r == self.0
//@end
}
impl FileAttributes {
//@extract mopaq/src/special_files/attributes.rs FileAttributes::new
//@opts ret=r
//@spec
    ensures r.crc32 is None && r.filetime is None && r.md5 is None && r.is_patch is None
//@end
}
//@extract mopaq/src/special_files/attributes.rs read_u32_le
//@opts ret=r
//@subst Cursor<&Bytes> ==> VpCursor
//@subst use std::io::Read; ==>
//@subst .map_err(Error::Io) ==>
//@spec
    ensures final(cursor).d@ == old(cursor).d@, r is Ok <==> old(cursor).p + 4 <= old(cursor).d@.len(), r is Ok ==> final(cursor).p == old(cursor).p + 4 && r->Ok_0 == le4(old(cursor).d@.subrange(old(cursor).p as int, old(cursor).p + 4)),
//@end
//@extract mopaq/src/special_files/attributes.rs read_u64_le
//@opts ret=r
//@subst Cursor<&Bytes> ==> VpCursor
//@subst use std::io::Read; ==>
//@subst .map_err(Error::Io) ==>
//@spec
    ensures final(cursor).d@ == old(cursor).d@, r is Ok <==> old(cursor).p + 8 <= old(cursor).d@.len(), r is Ok ==> final(cursor).p == old(cursor).p + 8 && r->Ok_0 == le8(old(cursor).d@.subrange(old(cursor).p as int, old(cursor).p + 8)),
//@end
//@extract mopaq/src/special_files/attributes.rs read_exact
//@opts ret=r
//@subst Cursor<&Bytes> ==> VpCursor
//@subst use std::io::Read; ==>
//@subst .map_err(Error::Io) ==>
//@spec
    ensures final(cursor).d@ == old(cursor).d@, final(buf)@.len() == old(buf)@.len(), r is Ok <==> old(cursor).p + old(buf)@.len() <= old(cursor).d@.len(),
        r is Ok ==> final(cursor).p == old(cursor).p + old(buf)@.len() && final(buf)@ == old(cursor).d@.subrange(old(cursor).p as int, old(cursor).p + old(buf)@.len()),
//@end
impl Attributes {
//@extract mopaq/src/special_files/attributes.rs assoc:Attributes::EXPECTED_VERSION
//@end
//@extract mopaq/src/special_files/attributes.rs Attributes::get_file_attributes
//@opts ret=r
//@subst self.file_attributes.get(block_index) ==> (if block_index < self.file_attributes.len() { Some(&self.file_attributes[block_index]) } else { None })
//@spec
    ensures r is Some <==> block_index < self.file_attributes@.len(), r is Some ==> *r->0 == self.file_attributes@[block_index as int],
//@end
//@extract mopaq/src/special_files/attributes.rs Attributes::parse
//@opts ret=r loops=4
//@subst &Bytes ==> &[u8]
//@subst Cursor::new(data) ==> VpCursor::new(data)
//@spec
    requires block_count <= u32::MAX,
    ensures ({ let d = data@; let f = le4(d.subrange(4, 8)); let n = block_count as int;
        &&& r is Ok <==> d.len() >= 8 && le4(d.subrange(0, 4)) == 100 && d.len() >= o_end(f, n)
        &&& r is Ok ==> r->Ok_0.version == 100 && r->Ok_0.flags.0 == f && r->Ok_0.file_attributes@.len() == n && forall|i: int| 0 <= i < n ==> rec(d, f, n, i, #[trigger] r->Ok_0.file_attributes@[i])
    }),
//@body-start
    let ghost d = data@; let ghost n = block_count as int; let ghost f = le4(d.subrange(4, 8));
//@loop 0
    invariant cursor.d@ == d, cursor.p == 8 + 4 * values@.len(), has_c(f), n == block_count, d.len() >= o_end(f, n), values@.len() == vp_n0, forall|i: int| 0 <= i < values@.len() ==> #[trigger] values@[i] == le4(at(d, 8, 4, i)),
//@loop 1
    invariant cursor.d@ == d, cursor.p == o_t(f, n) + 8 * values@.len(), has_t(f), n == block_count, d.len() >= o_end(f, n), values@.len() == vp_n1, forall|i: int| 0 <= i < values@.len() ==> #[trigger] values@[i] == le8(at(d, o_t(f, n), 8, i)),
//@loop 2
    invariant cursor.d@ == d, cursor.p == o_m(f, n) + 16 * values@.len(), has_m(f), n == block_count, d.len() >= o_end(f, n), values@.len() == vp_n2, md5s(values@, d, o_m(f, n)),
//@after-let patch_bits
    proof { if has_p(f) { assert forall|i: int| 0 <= i < n implies #[trigger] patch_bits->Some_0@[i / 8] == d[o_p(f, n) + i / 8] by {} } }
//@loop 3
    invariant n == block_count, n <= u32::MAX, d.len() >= o_end(f, n),
        crc32_values is Some <==> has_c(f), has_c(f) ==> crc32_values->Some_0@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] crc32_values->Some_0@[i] == le4(at(d, 8, 4, i)),
        filetime_values is Some <==> has_t(f), has_t(f) ==> filetime_values->Some_0@.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] filetime_values->Some_0@[i] == le8(at(d, o_t(f, n), 8, i)),
        md5_values is Some <==> has_m(f), has_m(f) ==> md5_values->Some_0@.len() == n && md5s(md5_values->Some_0@, d, o_m(f, n)),
        patch_bits is Some <==> has_p(f), has_p(f) ==> patch_bits->Some_0@.len() == (n + 7) / 8 && patch_bits->Some_0@ == d.subrange(o_p(f, n), o_end(f, n)),
        file_attributes@.len() == i, forall|j: int| 0 <= j < i ==> rec(d, f, n, j, #[trigger] file_attributes@[j]),
//@loop-end 3
    proof { assert(rec(d, f, n, i as int, attrs)); }
//@end
//@extract mopaq/src/special_files/attributes.rs Attributes::to_bytes
//@opts ret=r loops=4
//@subst data.extend_from_slice(&bits); ==> data.extend_from_slice(&bits); proof { assert(data@ =~= d1 + bits@); }
//@spec
    requires self.file_attributes@.len() <= u32::MAX,
    ensures r is Ok, ({ let d = r->Ok_0@; let f = self.flags.0; let n = self.file_attributes@.len() as int;
        &&& d.len() == o_end(f, n) && d.subrange(0, 4) == le4b(self.version) && d.subrange(4, 8) == le4b(f)
        &&& forall|i: int| 0 <= i < n ==> #[trigger] enc(d, f, n, i, self.file_attributes@[i])
    }),
//@after-let block_count
    let ghost fa = self.file_attributes@; let ghost n = block_count as int; let ghost f = self.flags.0; let ghost v = self.version;
//@loop-before 0
    proof { let d = data@; assert(d.subrange(0, 4) =~= le4b(v)); assert(d.subrange(4, 8) =~= le4b(f)); }
//@loop 0
    invariant fa == self.file_attributes@, vp_s0@ == fa, n == fa.len(), has_c(f), st(data@, v, f, fa, vp_i0 as int, 0, 0),
//@loop-start 0
    let ghost d0 = data@;
//@loop-end 0
    proof { assert(data@ =~= d0 + le4b(crc)); assert(crc == or32(fa[vp_i0 as int].crc32)); lemma_st(d0, le4b(crc), v, f, fa, vp_i0 as int, 0, 0); }
//@loop-before 1
    proof { let d = data@; assert(d.subrange(0, 4) =~= le4b(v)); assert(d.subrange(4, 8) =~= le4b(f)); assert(st(data@, v, f, fa, n, 0, 0)); }
//@loop 1
    invariant fa == self.file_attributes@, vp_s1@ == fa, n == fa.len(), has_t(f), st(data@, v, f, fa, n, vp_i1 as int, 0),
//@loop-start 1
    let ghost d0 = data@;
//@loop-end 1
    proof { assert(data@ =~= d0 + le8b(time)); assert(time == or64(fa[vp_i1 as int].filetime)); lemma_st(d0, le8b(time), v, f, fa, n, vp_i1 as int, 0); }
//@loop-before 2
    proof { let d = data@; assert(d.subrange(0, 4) =~= le4b(v)); assert(d.subrange(4, 8) =~= le4b(f)); assert(st(data@, v, f, fa, n, n, 0)); }
//@loop 2
    invariant fa == self.file_attributes@, vp_s2@ == fa, n == fa.len(), has_m(f), st(data@, v, f, fa, n, n, vp_i2 as int),
//@loop-start 2
    let ghost d0 = data@;
//@loop-end 2
    proof { assert(hash@ =~= or16(attrs.md5)); assert(data@ =~= d0 + hash@); lemma_st(d0, hash@, v, f, fa, n, n, vp_i2 as int); }
//@after-let byte_count
    let ghost d1 = data@;
    proof { let d = data@; assert(d.subrange(0, 4) =~= le4b(v)); assert(d.subrange(4, 8) =~= le4b(f)); assert(st(data@, v, f, fa, n, n, n)); }
//@loop-before 3
    proof { lemma_bs0(bits@, fa); }
//@loop 3
    invariant fa == self.file_attributes@, vp_s3@ == fa, n == fa.len(), bs(bits@, fa, i as int),
//@loop-start 3
    let ghost b0 = bits@;
//@loop-end 3
    proof { lemma_bs(b0, bits@, fa, i as int); }
//@loop-after 3
    proof {
        lemma_st(d1, bits@, v, f, fa, n, n, n);
        let d = d1 + bits@;
        assert(d.subrange(0, 4) =~= d1.subrange(0, 4)); assert(d.subrange(4, 8) =~= d1.subrange(4, 8));
        assert forall|j: int| 0 <= j < n implies #[trigger] bit(d, o_p(f, n), j) == orb(fa[j].is_patch) by { assert(bit(bits@, 0, j) == orb(fa[j].is_patch)); }
        assert forall|j: int| 0 <= j < n implies #[trigger] enc(d, f, n, j, fa[j]) by { assert(at(d, 8, 4, j) == at(d, 8, 4, j)); assert(at(d, o_t(f, n), 8, j) == at(d, o_t(f, n), 8, j)); assert(at(d, o_m(f, n), 16, j) == at(d, o_m(f, n), 16, j)); assert(bit(d, o_p(f, n), j) == orb(fa[j].is_patch)); }
    }
//@before-tail
    proof {
        let d = data@;
        assert(d.subrange(0, 4) =~= le4b(v)); assert(d.subrange(4, 8) =~= le4b(f));
        if !has_p(f) { assert(st(d, v, f, fa, n, n, n)); assert forall|j: int| 0 <= j < n implies #[trigger] enc(d, f, n, j, fa[j]) by { assert(at(d, 8, 4, j) == at(d, 8, 4, j)); assert(at(d, o_t(f, n), 8, j) == at(d, o_t(f, n), 8, j)); assert(at(d, o_m(f, n), 16, j) == at(d, o_m(f, n), 16, j)); } }
    }
//@end
}
/// the property: what was written is what is read
pub fn vp_attributes_roundtrip(a: &Attributes) -> (r: Result<Attributes>)
    requires a.file_attributes@.len() <= u32::MAX, a.version == 100,
    ensures r is Ok, r->Ok_0.flags.0 == a.flags.0, r->Ok_0.file_attributes@.len() == a.file_attributes@.len(),
        forall|i: int| 0 <= i < a.file_attributes@.len() ==> ({
            let x = a.file_attributes@[i]; let y = #[trigger] r->Ok_0.file_attributes@[i]; let f = a.flags.0;
            &&& y.crc32 == (if has_c(f) { Some(or32(x.crc32)) } else { None })
            &&& y.filetime == (if has_t(f) { Some(or64(x.filetime)) } else { None })
            &&& (y.md5 is Some <==> has_m(f)) && (has_m(f) ==> y.md5->Some_0@ == or16(x.md5))
            &&& y.is_patch == (if has_p(f) { Some(orb(x.is_patch)) } else { None })
        }),
{
    let b = a.to_bytes()?;
    proof { lemma_le4_rt(a.version); lemma_le4_rt(a.flags.0); }
    let r = Attributes::parse(b.as_slice(), a.file_attributes.len());
    proof {
        let f = a.flags.0; let n = a.file_attributes@.len() as int;
        assert forall|i: int| 0 <= i < n implies ({
            let x = a.file_attributes@[i]; let y = #[trigger] r->Ok_0.file_attributes@[i];
            &&& y.crc32 == (if has_c(f) { Some(or32(x.crc32)) } else { None })
            &&& y.filetime == (if has_t(f) { Some(or64(x.filetime)) } else { None })
            &&& (y.md5 is Some <==> has_m(f)) && (has_m(f) ==> y.md5->Some_0@ == or16(x.md5))
            &&& y.is_patch == (if has_p(f) { Some(orb(x.is_patch)) } else { None })
        }) by { assert(enc(b@, f, n, i, a.file_attributes@[i])); assert(rec(b@, f, n, i, r->Ok_0.file_attributes@[i])); lemma_le4_rt(or32(a.file_attributes@[i].crc32)); lemma_le8_rt(or64(a.file_attributes@[i].filetime)); }
    }
    r
}
// ---------- an archive's attributes ----------
pub struct BlockEntry { pub file_pos: u32, pub compressed_size: u32, pub file_size: u32, pub flags: u32 }
pub struct BlockTable { pub e: Vec<BlockEntry> }
impl BlockTable { pub fn entries(&self) -> (r: &[BlockEntry]) ensures r@ == self.e@ { self.e.as_slice() } }
pub struct BetHeader { pub file_count: u32 }
pub struct BetTable { pub header: BetHeader }
pub mod special_files { pub use super::Attributes; pub use super::FileAttributes; }
pub mod compression { use super::*;
    /// some of the decompressors (units comp, sparse, huff, adpcm)
    #[verifier::external_body] pub fn decompress(d: &[u8], m: u8, n: usize) -> (r: Result<Vec<u8>>) { unimplemented!() } }
/// s[a..]
#[verifier::external_body] pub fn vp_tail(v: &Vec<u8>, a: usize) -> (r: &[u8]) requires a <= v@.len() ensures r@ == v@.skip(a as int) { unimplemented!() }
pub fn vp_get<'a>(a: &'a Option<Attributes>, i: usize) -> (r: Option<&'a FileAttributes>) ensures a is None ==> r is None, a is Some ==> (r is Some == (i < (a->0).file_attributes@.len())) && (r is Some ==> *(r->0) == (a->0).file_attributes@[i as int])
{ match a { Some(x) => x.get_file_attributes(i), None => None } }
pub struct Archive { pub vp: Ghost<int>, pub block_table: Option<BlockTable>, pub bet_table: Option<BetTable>, pub attributes: Option<Attributes> }
/// what reading a member gives (units fread, warch: C11); Err(true): it is not in the archive
pub uninterp spec fn content(a: int, n: Seq<char>) -> core::result::Result<Seq<u8>, bool>;
pub open spec fn same_file(a: Archive, b: Archive) -> bool { a.vp == b.vp && a.block_table == b.block_table && a.bet_table == b.bet_table }
/// the number of entries of the table files are found in
pub open spec fn count_of(a: Archive) -> int { if a.block_table is Some { (a.block_table->0).e@.len() as int } else if a.bet_table is Some { (a.bet_table->0).header.file_count as int } else { 0 } }
/// an attribute table for n files
pub open spec fn table_ok(d: Seq<u8>, n: int) -> bool { d.len() >= 8 && le4(d.subrange(0, 4)) == 100 && d.len() >= o_end(le4(d.subrange(4, 8)), n) }
pub open spec fn reads_as(d: Seq<u8>, n: int, t: Attributes) -> bool { let f = le4(d.subrange(4, 8)); t.version == 100 && t.flags.0 == f && t.file_attributes@.len() == n && forall|i: int| 0 <= i < n ==> rec(d, f, n, i, #[trigger] t.file_attributes@[i]) }
impl Archive {
    #[verifier::external_body] pub fn read_file(&mut self, name: &str) -> (r: Result<Vec<u8>>)
        ensures *final(self) == *old(self), ({ let c = content(old(self).vp@, name@); (r is Ok == c is Ok) && (r is Ok ==> r->Ok_0@ == c->Ok_0) && (r is Err ==> ((r->Err_0).vp == 1) == (c->Err_0)) }) { unimplemented!() }
//@extract mopaq/src/archive.rs Archive::load_attributes
//@opts ret=r
//@subst &data[1..] ==> vp_tail(&data, 1)
//@subst &data.into() ==> &data
//@spec
    requires count_of(*old(self)) <= u32::MAX
    ensures same_file(*old(self), *final(self)), r is Err || old(self).attributes is Some ==> final(self).attributes == old(self).attributes, old(self).attributes is Some ==> r is Ok,
        ({ let c = content(old(self).vp@, "(attributes)"@); let n = count_of(*old(self)); old(self).attributes is None ==> {
            &&& c is Err ==> final(self).attributes is None && (r is Ok) == (c->Err_0)
            &&& c is Ok && (old(self).block_table is Some || old(self).bet_table is Some) && table_ok(c->Ok_0, n) ==> r is Ok && final(self).attributes is Some && reads_as(c->Ok_0, n, final(self).attributes->0)
            &&& c is Ok && c->Ok_0.len() >= 8 && le4(c->Ok_0.subrange(0, 4)) == 100 && !table_ok(c->Ok_0, n) ==> r is Err
        } })
//@after-let block_count
    proof { if data@.len() >= 4 { lemma_first_word(data@); } }
//@end
//@extract mopaq/src/archive.rs Archive::get_file_attributes
//@opts ret=r
//@subst self.attributes.as_ref()?.get_file_attributes(block_index) ==> vp_get(&self.attributes, block_index)
//@spec
    ensures self.attributes is None ==> r is None, self.attributes is Some ==> (r is Some == (block_index < (self.attributes->0).file_attributes@.len())) && (r is Some ==> *(r->0) == (self.attributes->0).file_attributes@[block_index as int])
//@end
}
pub proof fn lemma_first_word(d: Seq<u8>) requires d.len() >= 4 ensures d.subrange(0, 4) =~= seq![d[0], d[1], d[2], d[3]]
{ assert(d.subrange(0, 4) =~= seq![d[0], d[1], d[2], d[3]]); }
fn main() {}
}
