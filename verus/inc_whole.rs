verus! {
// ---------- specification: a whole archive on a medium ----------
/// one file handed to the builder
pub struct Src { pub name: Seq<u8>, pub x: Seq<u8>, pub m: u8, pub loc: u16 }
pub open spec fn n1(s: Src) -> u32 { mpq_hash(s.name, 1) }
pub open spec fn n2(s: Src) -> u32 { mpq_hash(s.name, 2) }
/// no two names share both name hashes
pub open spec fn distinct(s: Seq<Src>) -> bool { forall|p: int, q: int| 0 <= p < q < s.len() ==> n1(#[trigger] s[p]) != n1(#[trigger] s[q]) || n2(s[p]) != n2(s[q]) }
/// b lies at pos, as far as it has bytes
pub open spec fn inside(d: Seq<u8>, pos: int, b: Seq<u8>) -> bool { 0 <= pos && (b.len() > 0 ==> fits(d, pos, b)) }
/// every used entry belongs to one of the first m files
pub open spec fn only0(t: Seq<HashEntry>, s: Seq<Src>, m: int) -> bool {
    forall|i: int| 0 <= i < t.len() && !never_used(#[trigger] t[i]) ==> exists|q: int| 0 <= q < m && owns(#[trigger] s[q], t[i])
}
/// the name resolves to block k
pub open spec fn found0(t: Seq<HashEntry>, f: Src, k: int) -> bool {
    match slot_of(t, f.name) { Some(i) => 0 <= i < t.len() && t[i].block_index == k, None => false }
}
pub open spec fn names_ok(t: Seq<HashEntry>, s: Seq<Src>, m: int) -> bool { distinct(s) ==> only0(t, s, m) && forall|q: int| 0 <= q < m ==> found0(t, #[trigger] s[q], q) }
/// number of used entries among the first k
pub open spec fn used(t: Seq<HashEntry>, k: int) -> int decreases k { if k <= 0 { 0 } else { used(t, k - 1) + if never_used(t[k - 1]) { 0int } else { 1int } } }
pub proof fn lemma_used_update(t: Seq<HashEntry>, i: int, e: HashEntry, k: int) requires 0 <= i < t.len(), 0 <= k <= t.len() ensures used(t.update(i, e), k) <= used(t, k) + (if i < k { 1int } else { 0int }) decreases k
{ if k > 0 { lemma_used_update(t, i, e, k - 1); } }
pub proof fn lemma_used_room(t: Seq<HashEntry>, k: int) requires 0 <= k <= t.len(), used(t, k) < k ensures has_room(t) decreases k
{ if k > 0 { if never_used(t[k - 1]) { } else { lemma_used_room(t, k - 1); } } }
pub proof fn lemma_used_fresh(t: Seq<HashEntry>, k: int) requires 0 <= k <= t.len(), forall|i: int| 0 <= i < t.len() ==> never_used(#[trigger] t[i]) ensures used(t, k) == 0 decreases k
{ if k > 0 { lemma_used_fresh(t, k - 1); } }
/// a name just inserted is found by a reader that asks for the neutral locale
pub proof fn lemma_found_any(t: Seq<HashEntry>, slot: int, e: HashEntry, s: int, k: int)
    requires start_ok(s, t.len() as int), 0 <= k, slot_for(t, s, k, e.name_1, e.name_2, e.locale) == core::result::Result::<int, bool>::Ok(slot), e.block_index < 0xFFFF_FFFEu32,
        forall|i: int| 0 <= i < t.len() ==> !is_match(#[trigger] t[i], e.name_1, e.name_2, 0)
    ensures lookup(t.update(slot, e), s, k, e.name_1, e.name_2, 0) == Some(slot), 0 <= slot < t.len(), never_used(t[slot])
    decreases t.len() - k
{
    let n = t.len() as int;
    if k < n { let i = probe(s, k, n); assert(!is_match(t[i], e.name_1, e.name_2, 0)); if !never_used(t[i]) { lemma_found_any(t, slot, e, s, k + 1); } }
}
/// file q owns entry e
pub open spec fn owns(f: Src, e: HashEntry) -> bool { e.name_1 == n1(f) && e.name_2 == n2(f) }
pub proof fn lemma_no_match(t: Seq<HashEntry>, s: Seq<Src>, m: int, j: int) requires only0(t, s, m), distinct(s), 0 <= m < s.len(), 0 <= j < t.len() ensures !is_match(t[j], n1(s[m]), n2(s[m]), 0)
{
    hide(mpq_hash);
    if !never_used(t[j]) { let q = choose|q: int| 0 <= q < m && owns(#[trigger] s[q], t[j]); assert(n1(s[q]) != n1(s[m]) || n2(s[q]) != n2(s[m])); }
}
pub proof fn lemma_only_step(t: Seq<HashEntry>, t2: Seq<HashEntry>, i: int, s: Seq<Src>, m: int)
    requires only0(t, s, m), 0 <= m < s.len(), 0 <= i < t.len(), t2 == t.update(i, t2[i]), owns(s[m], t2[i]) ensures only0(t2, s, m + 1)
{
    hide(owns); hide(mpq_hash);
    assert forall|x: int| 0 <= x < t2.len() && !never_used(#[trigger] t2[x]) implies exists|q: int| 0 <= q < m + 1 && owns(#[trigger] s[q], t2[x]) by {
        if x == i { assert(owns(s[m], t2[x])); } else { assert(t2[x] == t[x]); let q = choose|q: int| 0 <= q < m && owns(#[trigger] s[q], t[x]); assert(owns(s[q], t2[x])); }
    }
}
pub proof fn lemma_found_step(t: Seq<HashEntry>, t2: Seq<HashEntry>, i: int, f: Src, q: int)
    requires pow2(t.len() as int), found0(t, f, q), 0 <= i < t.len(), never_used(t[i]), t2 == t.update(i, t2[i]) ensures found0(t2, f, q)
{
    hide(mpq_hash); hide(pow2);
    let n = t.len() as int; let sq = start_of(f.name, n); lemma_start(mpq_hash(f.name, 0), n);
    thm_insert_frame(t, i, t2[i], sq, 0, n1(f), n2(f), 0); lemma_lookup_shape(t, sq, 0, n1(f), n2(f), 0);
}
/// one insertion more
pub proof fn lemma_names_step(t: Seq<HashEntry>, t2: Seq<HashEntry>, i: int, s: Seq<Src>, m: int)
    requires pow2(t.len() as int), names_ok(t, s, m), 0 <= m < s.len(), m < 0xFFFF_FFFE, 0 <= i < t.len(), never_used(t[i]), t2 == t.update(i, t2[i]), entry_is(t2[i], n1(s[m]), n2(s[m]), s[m].loc, m as u32),
        slot_for(t, start_of(s[m].name, t.len() as int), 0, n1(s[m]), n2(s[m]), s[m].loc) == core::result::Result::<int, bool>::Ok(i)
    ensures names_ok(t2, s, m + 1)
{
    hide(mpq_hash); hide(slot_for); hide(pow2); hide(only0); hide(distinct); hide(lookup); hide(is_match);
    if distinct(s) {
        let n = t.len() as int; let e = t2[i]; let st = start_of(s[m].name, n);
        lemma_start(mpq_hash(s[m].name, 0), n);
        assert forall|j: int| 0 <= j < n implies !is_match(#[trigger] t[j], e.name_1, e.name_2, 0) by { lemma_no_match(t, s, m, j); }
        lemma_found_any(t, i, e, st, 0);
        lemma_only_step(t, t2, i, s, m);
        assert(found0(t2, s[m], m));
        assert forall|q: int| 0 <= q < m + 1 implies found0(t2, #[trigger] s[q], q) by { if q < m { lemma_found_step(t, t2, i, s[q], q); } }
    }
}
/// what the image of a file depends on besides the bytes
pub open spec fn imaged(b: Seq<u8>, f: Src, e: BlockEntry, pos: int, ss: int) -> bool {
    &&& e.file_pos == pos as u32 && e.file_size == f.x.len() && f.x.len() <= u32::MAX && fbit(e.flags, F_EXISTS)
    &&& file_image(b, f.x, e.compressed_size as int, e.flags, fk(f.name, pos as u32, f.x.len() as u32, e.flags), f.m, ss)
}
/// flags that differ only in a bit the image does not depend on
pub proof fn lemma_image_flags(b: Seq<u8>, x: Seq<u8>, n: int, f: u32, g: u32, key: u32, m: u8, ss: int)
    requires file_image(b, x, n, f, key, m, ss), same_but(g, f, F_EXISTS) ensures file_image(b, x, n, g, key, m, ss)
{
    hide(benc); hide(shrunk); hide(xs); hide(word_at); hide(cdiv);
    assert forall|k: u32| ekey(f, k) == #[trigger] ekey(g, k) by {}
    if x.len() > ss {
        let p = choose|p: Seq<u8>| #[trigger] multi_image(b, x, p, f, key, m, ss);
        let cnt = cdiv(x.len() as int, ss);
        assert(dstart(cnt, f) == dstart(cnt, g));
        assert forall|i: int| 0 <= i < cnt implies sector_ok(#[trigger] msec(b, p, i), x, ss, i, g, key, m) by {
            assert(sector_ok(msec(b, p, i), x, ss, i, f, key, m));
            let c = choose|c: Seq<u8>| #[trigger] benc(c, msec(b, p, i), ekey(f, key.wrapping_add(i as u32))) && (c == xs(x, ss, i) || shrunk(c, xs(x, ss, i), m));
            assert(benc(c, msec(b, p, i), ekey(g, key.wrapping_add(i as u32))));
        }
        assert(multi_image(b, x, p, g, key, m, ss));
    } else {
        let c = choose|c: Seq<u8>| #[trigger] benc(c, b.subrange(0, n), ekey(f, key)) && if fbit(f, F_COMPRESS) { shrunk(c, x, m) } else { c == x };
        assert(benc(c, b.subrange(0, n), ekey(g, key)));
    }
}
/// a block entry made from what write_file reports
pub proof fn lemma_imaged(b: Seq<u8>, f: Src, e: BlockEntry, pos: int, ss: int, fl: u32)
    requires e.file_pos == pos as u32, e.file_size == f.x.len(), f.x.len() <= u32::MAX, e.flags == fl | 0x8000_0000,
        file_image(b, f.x, e.compressed_size as int, fl, fk(f.name, pos as u32, f.x.len() as u32, fl), f.m, ss)
    ensures imaged(b, f, e, pos, ss)
{
    lemma_or_one(fl);
    lemma_image_flags(b, f.x, e.compressed_size as int, fl, e.flags, fk(f.name, pos as u32, f.x.len() as u32, fl), f.m, ss);
}
/// everything that was decided while writing
pub ghost struct Plan { pub q: HeaderWriteParams, pub t: Seq<HashEntry>, pub bt: Seq<BlockEntry>, pub hi: Seq<u16>, pub pos: Seq<int>, pub im: Seq<Seq<u8>> }
/// the first m files lie below `lim`
pub open spec fn files_ok(d: Seq<u8>, base: int, lim: int, s: Seq<Src>, bt: Seq<BlockEntry>, pos: Seq<int>, im: Seq<Seq<u8>>, m: int, ss: int) -> bool {
    pos.len() == m && im.len() == m && m <= bt.len() && m <= s.len()
    && forall|j: int| 0 <= j < m ==> base <= #[trigger] pos[j] && pos[j] + im[j].len() <= lim && inside(d, pos[j], im[j]) && imaged(im[j], s[j], bt[j], pos[j], ss)
}
pub open spec fn his_ok(hi: Seq<u16>, pos: Seq<int>, m: int) -> bool { pos.len() >= m && hi.len() >= m && forall|j: int| 0 <= j < m ==> #[trigger] hi[j] == ((pos[j] as u64) >> 32) as u16 }
/// writing at or behind `lim`, or below `base`, leaves the files alone
pub proof fn lemma_inside_kept(d: Seq<u8>, pos: int, c: Seq<u8>, p: int, b: Seq<u8>)
    requires inside(d, pos, c), p >= pos + c.len() || (0 <= p && p + b.len() <= pos) ensures inside(splice(d, p, b), pos, c)
{ if c.len() > 0 { lemma_fits_kept(d, pos, c, p, b); } }
pub proof fn lemma_files_kept(d: Seq<u8>, base: int, lim: int, s: Seq<Src>, bt: Seq<BlockEntry>, pos: Seq<int>, im: Seq<Seq<u8>>, m: int, ss: int, p: int, b: Seq<u8>)
    requires files_ok(d, base, lim, s, bt, pos, im, m, ss), p >= lim || (0 <= p && p + b.len() <= base) ensures files_ok(splice(d, p, b), base, lim, s, bt, pos, im, m, ss)
{
    hide(imaged); hide(inside); hide(splice);
    let e = splice(d, p, b);
    assert forall|j: int| 0 <= j < m implies base <= #[trigger] pos[j] && pos[j] + im[j].len() <= lim && inside(e, pos[j], im[j]) && imaged(im[j], s[j], bt[j], pos[j], ss) by {
        lemma_inside_kept(d, pos[j], im[j], p, b);
    }
}
/// one file more
pub proof fn lemma_files_push(d: Seq<u8>, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, pos: Seq<int>, im: Seq<Seq<u8>>, m: int, ss: int, p: int, b: Seq<u8>, e: BlockEntry)
    requires files_ok(d, base, p, s, bt, pos, im, m, ss), 0 <= base <= p, m < bt.len(), m < s.len(), m >= 0, imaged(b, s[m], e, p, ss)
    ensures files_ok(splice(d, p, b), base, p + b.len(), s, bt.update(m, e), pos.push(p), im.push(b), m + 1, ss)
{
    hide(imaged);
    lemma_files_kept(d, base, p, s, bt, pos, im, m, ss, p, b);
    let g = splice(d, p, b); let bt2 = bt.update(m, e); let pos2 = pos.push(p); let im2 = im.push(b);
    assert(inside(g, p, b)) by { if b.len() > 0 { lemma_fits_new(d, p, b); } }
    assert forall|j: int| 0 <= j < m + 1 implies base <= #[trigger] pos2[j] && pos2[j] + im2[j].len() <= p + b.len() && inside(g, pos2[j], im2[j]) && imaged(im2[j], s[j], bt2[j], pos2[j], ss) by {
        if j < m { assert(pos2[j] == pos[j] && im2[j] == im[j] && bt2[j] == bt[j]); }
    }
}
pub proof fn lemma_fits_kept(d: Seq<u8>, pos: int, c: Seq<u8>, p: int, b: Seq<u8>)
    requires fits(d, pos, c), p >= pos + c.len() || (0 <= p && p + b.len() <= pos) ensures fits(splice(d, p, b), pos, c)
{ assert(splice(d, p, b).subrange(pos, pos + c.len()) =~= d.subrange(pos, pos + c.len())); }
pub proof fn lemma_fits_new(d: Seq<u8>, p: int, c: Seq<u8>) requires 0 <= p, c.len() > 0 || p <= d.len() ensures fits(splice(d, p, c), p, c)
{ assert(splice(d, p, c).subrange(p, p + c.len()) =~= c); }
/// the 64-bit hashes of the names
pub open spec fn js_of(s: Seq<Src>) -> Seq<u64> { Seq::new(s.len(), |j: int| jenkins(s[j].name)) }
/// c is the extended block table create_bet_table makes of these block entries, high words and name hashes, as write_bet_table stores it (unit bet: packs and packing, key of "(block table)", a method that is not an audio method)
pub uninterp spec fn bet_image(c: Seq<u8>, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>) -> bool;
pub open spec fn bet_on(d: Seq<u8>, bt: Seq<BlockEntry>, hi: Seq<u16>, js: Seq<u64>, at: int, n: int) -> bool { exists|c: Seq<u8>| #[trigger] bet_image(c, bt, hi, js) && fits(d, at, c) && c.len() == n }
/// as many files as the table has room for by its own arithmetic
pub open spec fn few(n: int) -> bool { n <= 0x100_0000 }
pub open spec fn zeros(hi: Seq<u16>) -> bool { forall|j: int| 0 <= j < hi.len() ==> #[trigger] hi[j] == 0 }
/// the archive on d holds exactly the files s, as planned
pub open spec fn laid(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int, p: Plan) -> bool {
    &&& header_on(d, v, bsz, p.q)
    &&& p.q.hash_table_size == p.t.len() && pow2(p.t.len() as int) && p.q.block_table_size == p.bt.len() && p.bt.len() == s.len()
    &&& hash_on(d, p.t, p.q.hash_table_pos as int) && block_on(d, p.bt, p.q.block_table_pos as int)
    &&& p.hi.len() == s.len() && (if p.q.hi_block_table_pos is Some { vnum(v) >= 1 && p.q.hi_block_table_pos->0 > 0 && !zeros(p.hi) && hi_on(d, p.hi, p.q.hi_block_table_pos->0 as int) } else { zeros(p.hi) })
    &&& files_ok(d, hsize(v), d.len() as int, s, p.bt, p.pos, p.im, s.len() as int, ss) && his_ok(p.hi, p.pos, s.len() as int)
    &&& names_ok(p.t, s, s.len() as int)
    &&& vnum(v) == 0 ==> d.len() <= u32::MAX
    &&& p.q.archive_size == d.len()
    &&& vnum(v) < 2 ==> p.q.het_table_pos is None && p.q.bet_table_pos is None
    &&& vnum(v) >= 2 ==> p.q.het_table_pos is Some && p.q.bet_table_pos is Some && 0 < p.q.het_table_pos->0 && p.q.het_table_pos->0 < p.q.bet_table_pos->0 && p.q.bet_table_pos->0 < p.q.hash_table_pos
    &&& vnum(v) == 3 ==> p.q.v4_data is Some && digests_on(d, p) && (p.q.v4_data->0).bet_table_size_64 == p.q.hash_table_pos - p.q.bet_table_pos->0
    &&& vnum(v) >= 2 && few(s.len() as int) ==> bet_on(d, p.bt, p.hi, js_of(s), p.q.bet_table_pos->0 as int, p.q.hash_table_pos - p.q.bet_table_pos->0)
}
pub open spec fn hash_on(d: Seq<u8>, t: Seq<HashEntry>, at: int) -> bool { exists|c: Seq<u8>| #[trigger] hash_image(t, c) && fits(d, at, c) }
pub open spec fn block_on(d: Seq<u8>, t: Seq<BlockEntry>, at: int) -> bool { exists|c: Seq<u8>| #[trigger] block_image(t, c) && fits(d, at, c) }
pub open spec fn hi_on(d: Seq<u8>, t: Seq<u16>, at: int) -> bool { exists|c: Seq<u8>| #[trigger] hiser(t, c) && fits(d, at, c) }
/// the header is there; in version 4 its own digest replaces the last field
pub open spec fn header_on(d: Seq<u8>, v: FormatVersion, bsz: u16, q: HeaderWriteParams) -> bool {
    let h = hdr(v, bsz, q);
    d.len() >= h.len() && h.len() == hsize(v) && if vnum(v) == 3 { d.subrange(0, 192) == h.subrange(0, 192) && md5(h.subrange(0, 192)).len() == 16 && d.subrange(192, 208) == md5(h.subrange(0, 192)) } else { d.subrange(0, h.len() as int) == h }
}
/// n bytes at `at` have the digest
pub open spec fn digest_on(d: Seq<u8>, at: int, n: int, g: Seq<u8>) -> bool { 0 <= at && 0 <= n && at + n <= d.len() && md5(d.subrange(at, at + n)) == g }
pub open spec fn digests_on(d: Seq<u8>, p: Plan) -> bool {
    let x = p.q.v4_data->0;
    &&& digest_on(d, p.q.hash_table_pos as int, x.hash_table_size_64 as int, x.md5_hash_table@)
    &&& digest_on(d, p.q.block_table_pos as int, x.block_table_size_64 as int, x.md5_block_table@)
    &&& p.q.hi_block_table_pos is Some ==> digest_on(d, p.q.hi_block_table_pos->0 as int, x.hi_block_table_size_64 as int, x.md5_hi_block_table@)
    &&& digest_on(d, p.q.het_table_pos->0 as int, x.het_table_size_64 as int, x.md5_het_table@)
    &&& digest_on(d, p.q.bet_table_pos->0 as int, x.bet_table_size_64 as int, x.md5_bet_table@)
}
pub open spec fn written(d: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, ss: int) -> bool { exists|p: Plan| laid(d, v, bsz, s, ss, p) }

// ---------- how far the writer has come ----------
/// the first k files are on the medium below p, their entries in bt and hi
#[verifier::opaque]
pub open spec fn fst(d: Seq<u8>, p: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, k: int, ss: int) -> bool {
    &&& 0 < base <= p && d.len() <= p && bt.len() == s.len() && files_ok(d, base, p, s, bt, pos, im, k, ss)
    &&& hi is Some ==> (hi->0).entries@.len() == s.len() && his_ok((hi->0).entries@, pos, k)
}
/// the first k names are in the hash table
#[verifier::opaque]
pub open spec fn nst(t: Seq<HashEntry>, s: Seq<Src>, k: int) -> bool {
    pow2(t.len() as int) && t.len() >= 2 * s.len() && 16 <= t.len() <= u32::MAX && s.len() < 0x3FFF_FFFF && 0 <= k <= s.len() && names_ok(t, s, k) && used(t, t.len() as int) <= k
}
pub proof fn lemma_fst_new(d: Seq<u8>, p: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, ss: int)
    requires 0 < base <= p, d.len() <= p, bt.len() == s.len(), hi is Some ==> (hi->0).entries@.len() == s.len()
    ensures fst(d, p, base, s, bt, hi, seq![], seq![], 0, ss)
{ reveal(fst); }
pub proof fn lemma_fst_facts(d: Seq<u8>, p: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, k: int, ss: int)
    requires fst(d, p, base, s, bt, hi, pos, im, k, ss) ensures 0 < base <= p, d.len() <= p
{ reveal(fst); }
pub proof fn lemma_nst_new(t: Seq<HashEntry>, s: Seq<Src>)
    requires pow2(t.len() as int), t.len() >= 2 * s.len(), 16 <= t.len() <= u32::MAX, s.len() < 0x3FFF_FFFF, forall|i: int| 0 <= i < t.len() ==> never_used(#[trigger] t[i])
    ensures nst(t, s, 0)
{ reveal(nst); lemma_used_fresh(t, t.len() as int); }
pub proof fn lemma_nst_room(t: Seq<HashEntry>, s: Seq<Src>, k: int) requires nst(t, s, k) ensures has_room(t), pow2(t.len() as int), 16 <= t.len() <= u32::MAX
{ reveal(nst); lemma_used_room(t, t.len() as int); }
pub open spec fn inserted(t: Seq<HashEntry>, t2: Seq<HashEntry>, name: Seq<u8>, loc: u16, k: u32) -> bool {
    match slot_for(t, start_of(name, t.len() as int), 0, mpq_hash(name, 1), mpq_hash(name, 2), loc) {
        Ok(i) => 0 <= i < t.len() && never_used(t[i]) && t2.len() == t.len() && t2 == t.update(i, t2[i]) && entry_is(t2[i], mpq_hash(name, 1), mpq_hash(name, 2), loc, k), Err(_) => false }
}
pub proof fn lemma_nst_step(t: Seq<HashEntry>, t2: Seq<HashEntry>, s: Seq<Src>, k: int) requires nst(t, s, k), k < s.len(), inserted(t, t2, s[k].name, s[k].loc, k as u32) ensures nst(t2, s, k + 1)
{
    reveal(nst);
    let i = slot_for(t, start_of(s[k].name, t.len() as int), 0, n1(s[k]), n2(s[k]), s[k].loc)->Ok_0;
    lemma_names_step(t, t2, i, s, k);
    lemma_used_update(t, i, t2[i], t.len() as int);
}
pub proof fn lemma_splice_len(d: Seq<u8>, p: int, b: Seq<u8>) requires d.len() <= p ensures splice(d, p, b).len() <= p + b.len(), b.len() > 0 ==> splice(d, p, b).len() == p + b.len() {}
/// what happens to the entries when file k was written at p
pub open spec fn entered(bt: Seq<BlockEntry>, bt2: Seq<BlockEntry>, k: int, p: int, n: int, cs: int, fl: u32) -> bool {
    0 <= k < bt.len() && bt2 == bt.update(k, bt2[k]) && bt2[k].file_pos == p as u32 && bt2[k].file_size == n && bt2[k].compressed_size == cs && bt2[k].flags == fl | 0x8000_0000
}
pub open spec fn hi_entered(hi: Option<HiBlockTable>, hi2: Option<HiBlockTable>, k: int, p: int) -> bool {
    (hi is Some == hi2 is Some) && (hi is Some ==> (hi2->0).entries@ == (hi->0).entries@.update(k, ((p as u64) >> 32) as u16))
}
pub proof fn lemma_fst_step(d: Seq<u8>, p: int, d2: Seq<u8>, p2: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, bt2: Seq<BlockEntry>, hi: Option<HiBlockTable>, hi2: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, k: int, ss: int, cs: int, fl: u32) -> (r: (Seq<int>, Seq<Seq<u8>>))
    requires fst(d, p, base, s, bt, hi, pos, im, k, ss), 0 <= k < s.len(), s[k].x.len() <= u32::MAX,
        wrote(d, p, d2, p2, s[k].x, cs, fl, fk(s[k].name, p as u32, s[k].x.len() as u32, fl), s[k].m, ss),
        entered(bt, bt2, k, p, s[k].x.len() as int, cs, fl), hi_entered(hi, hi2, k, p)
    ensures fst(d2, p2, base, s, bt2, hi2, r.0, r.1, k + 1, ss), p2 >= p
{
    hide(file_image); hide(imaged); hide(splice); hide(files_ok);
    reveal(fst);
    let b = choose|b: Seq<u8>| #[trigger] file_image(b, s[k].x, cs, fl, fk(s[k].name, p as u32, s[k].x.len() as u32, fl), s[k].m, ss) && put(d, p, d2, p2, b);
    lemma_imaged(b, s[k], bt2[k], p, ss, fl);
    lemma_files_push(d, base, s, bt, pos, im, k, ss, p, b, bt2[k]);
    lemma_splice_len(d, p, b);
    assert(pos.len() == k) by { reveal(files_ok); }
    let pos2 = pos.push(p);
    if hi is Some {
        let hn = (hi2->0).entries@;
        assert forall|j: int| 0 <= j < k + 1 implies #[trigger] hn[j] == ((pos2[j] as u64) >> 32) as u16 by { if j < k { assert(hn[j] == (hi->0).entries@[j]); assert(pos2[j] == pos[j]); } }
    }
    (pos2, im.push(b))
}
/// something else written behind the files
pub proof fn lemma_fst_put(d: Seq<u8>, p: int, b: Seq<u8>, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, k: int, ss: int)
    requires fst(d, p, base, s, bt, hi, pos, im, k, ss) ensures fst(splice(d, p, b), p + b.len(), base, s, bt, hi, pos, im, k, ss)
{
    hide(imaged); hide(splice); hide(inside);
    reveal(fst);
    lemma_files_kept(d, base, p, s, bt, pos, im, k, ss, p, b); lemma_splice_len(d, p, b);
}
// ---------- what follows the files ----------
/// the optional table of high position bits
pub open spec fn hi_stage(hi: Option<HiBlockTable>, r: Option<u64>, p: int, c: Seq<u8>) -> bool {
    match r { Some(x) => x == p && hi is Some && !zeros((hi->0).entries@) && hiser((hi->0).entries@, c), None => c.len() == 0 && (hi is Some ==> zeros((hi->0).entries@)) }
}
pub open spec fn hi_seq(hi: Option<HiBlockTable>, n: int) -> Seq<u16> { if hi is Some { (hi->0).entries@ } else { Seq::new(n as nat, |j: int| 0u16) } }
pub proof fn lemma_lens_tab(t: Seq<HashEntry>, a: Seq<u8>) requires hash_image(t, a) ensures a.len() == 16 * t.len() {}
pub proof fn lemma_lens_blk(t: Seq<BlockEntry>, a: Seq<u8>) requires block_image(t, a) ensures a.len() == 16 * t.len() {}
pub proof fn lemma_lens_hi(t: Seq<u16>, a: Seq<u8>) requires hiser(t, a) ensures a.len() == 2 * t.len() {}
pub proof fn lemma_small_hi(x: u64) requires x <= u32::MAX ensures (x >> 32) as u16 == 0 { assert(x <= 0xFFFF_FFFF ==> x >> 32 == 0) by (bit_vector); }
pub proof fn lemma_hi_part(d: Seq<u8>, p: int, d2: Seq<u8>, p2: int, hi: Option<HiBlockTable>, r: Option<u64>) -> (c: Seq<u8>)
    requires match r { Some(x) => x == p && hi is Some && !zeros((hi->0).entries@) && exists|c: Seq<u8>| #[trigger] hiser((hi->0).entries@, c) && put(d, p, d2, p2, c), None => d2 == d && p2 == p && (hi is Some ==> zeros((hi->0).entries@)) }
    ensures hi_stage(hi, r, p, c), put(d, p, d2, p2, c)
{ hide(hiser); match r { Some(x) => { choose|c: Seq<u8>| #[trigger] hiser((hi->0).entries@, c) && put(d, p, d2, p2, c) }, None => { lemma_same(d, p, seq![]); seq![] } } }
pub proof fn lemma_hi_part5(d: Seq<u8>, p: int, d2: Seq<u8>, p2: int, hi: Option<HiBlockTable>, r: Option<u64>, g: Seq<u8>) -> (c: Seq<u8>)
    requires match r { Some(x) => x == p && hi is Some && !zeros((hi->0).entries@) && exists|c: Seq<u8>| #[trigger] hiser((hi->0).entries@, c) && put(d, p, d2, p2, c) && g == md5(c), None => d2 == d && p2 == p && (hi is Some ==> zeros((hi->0).entries@)) }
    ensures hi_stage(hi, r, p, c), put(d, p, d2, p2, c), r is Some ==> g == md5(c)
{ hide(hiser); match r { Some(x) => { choose|c: Seq<u8>| #[trigger] hiser((hi->0).entries@, c) && put(d, p, d2, p2, c) && g == md5(c) }, None => { lemma_same(d, p, seq![]); seq![] } } }
/// the parts behind the files: extended tables, classic tables
pub ghost struct Tail { pub x: Seq<u8>, pub y: Seq<u8>, pub a: Seq<u8>, pub b: Seq<u8>, pub c: Seq<u8> }
pub open spec fn px(p: int, z: Tail) -> int { p }
pub open spec fn py(p: int, z: Tail) -> int { p + z.x.len() }
pub open spec fn pa(p: int, z: Tail) -> int { p + z.x.len() + z.y.len() }
pub open spec fn pb(p: int, z: Tail) -> int { p + z.x.len() + z.y.len() + z.a.len() }
pub open spec fn pc(p: int, z: Tail) -> int { p + z.x.len() + z.y.len() + z.a.len() + z.b.len() }
pub open spec fn pend(p: int, z: Tail) -> int { p + z.x.len() + z.y.len() + z.a.len() + z.b.len() + z.c.len() }
pub open spec fn tail_on(d: Seq<u8>, p: int, z: Tail) -> bool {
    fits(d, px(p, z), z.x) && fits(d, py(p, z), z.y) && fits(d, pa(p, z), z.a) && fits(d, pb(p, z), z.b) && fits(d, pc(p, z), z.c) && d.len() == pend(p, z)
}
pub open spec fn tailed(d: Seq<u8>, p: int, z: Tail) -> Seq<u8> {
    splice(splice(splice(splice(splice(d, px(p, z), z.x), py(p, z), z.y), pa(p, z), z.a), pb(p, z), z.b), pc(p, z), z.c)
}
pub proof fn lemma_one(d: Seq<u8>, p: int, b: Seq<u8>, q: int, c: Seq<u8>) requires d.len() == p, 0 <= p, fits(d, q, c) ensures fits(splice(d, p, b), q, c), fits(splice(d, p, b), p, b), splice(d, p, b).len() == p + b.len()
{ lemma_fits_kept(d, q, c, p, b); lemma_fits_new(d, p, b); }
pub proof fn lemma_tailed(d: Seq<u8>, p: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, ss: int, z: Tail)
    requires fst(d, p, base, s, bt, hi, pos, im, s.len() as int, ss), z.a.len() > 0, (z.x.len() > 0 && z.y.len() > 0) || (z.x.len() == 0 && z.y.len() == 0)
    ensures tail_on(tailed(d, p, z), p, z), fst(tailed(d, p, z), pend(p, z), base, s, bt, hi, pos, im, s.len() as int, ss)
{
    hide(splice); hide(fits);
    let k = s.len() as int;
    assert(d.len() <= p && 0 < p) by { reveal(fst); }
    let d1 = splice(d, px(p, z), z.x); let d2 = splice(d1, py(p, z), z.y); let d3 = splice(d2, pa(p, z), z.a); let d4 = splice(d3, pb(p, z), z.b); let d5 = splice(d4, pc(p, z), z.c);
    lemma_fst_put(d, px(p, z), z.x, base, s, bt, hi, pos, im, k, ss); lemma_fst_put(d1, py(p, z), z.y, base, s, bt, hi, pos, im, k, ss); lemma_fst_put(d2, pa(p, z), z.a, base, s, bt, hi, pos, im, k, ss);
    lemma_fst_put(d3, pb(p, z), z.b, base, s, bt, hi, pos, im, k, ss); lemma_fst_put(d4, pc(p, z), z.c, base, s, bt, hi, pos, im, k, ss);
    if z.x.len() > 0 {
        lemma_fits_new(d, px(p, z), z.x); lemma_splice_len(d, p, z.x);
        lemma_one(d1, py(p, z), z.y, px(p, z), z.x);
        lemma_one(d2, pa(p, z), z.a, px(p, z), z.x); lemma_one(d2, pa(p, z), z.a, py(p, z), z.y);
    } else {
        lemma_same(d, p, z.x); lemma_same(d, p, z.y);
        lemma_fits_new(d2, pa(p, z), z.a); lemma_splice_len(d2, p, z.a);
        lemma_empty_fits(d3, p, z.x); lemma_empty_fits(d3, p, z.y);
    }
    lemma_one(d3, pb(p, z), z.b, px(p, z), z.x); lemma_one(d3, pb(p, z), z.b, py(p, z), z.y); lemma_one(d3, pb(p, z), z.b, pa(p, z), z.a);
    lemma_one(d4, pc(p, z), z.c, px(p, z), z.x); lemma_one(d4, pc(p, z), z.c, py(p, z), z.y); lemma_one(d4, pc(p, z), z.c, pa(p, z), z.a); lemma_one(d4, pc(p, z), z.c, pb(p, z), z.b);
}
pub proof fn lemma_same(d: Seq<u8>, p: int, b: Seq<u8>) requires b.len() == 0 ensures splice(d, p, b) == d {}
pub proof fn lemma_empty_fits(d: Seq<u8>, p: int, b: Seq<u8>) requires b.len() == 0, 0 <= p <= d.len() ensures fits(d, p, b) { assert(d.subrange(p, p) =~= b); }
/// writing below base leaves files and tables alone
pub proof fn lemma_below(d: Seq<u8>, p: int, base: int, s: Seq<Src>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, ss: int, z: Tail, o: int, h: Seq<u8>)
    requires fst(d, pend(p, z), base, s, bt, hi, pos, im, s.len() as int, ss), base <= p, tail_on(d, p, z), 0 <= o, o + h.len() <= base
    ensures fst(splice(d, o, h), pend(p, z), base, s, bt, hi, pos, im, s.len() as int, ss), tail_on(splice(d, o, h), p, z)
{
    hide(imaged); hide(splice); hide(inside); hide(fits);
    assert(splice(d, o, h).len() == d.len()) by { reveal(splice); }
    lemma_fits_kept(d, px(p, z), z.x, o, h); lemma_fits_kept(d, py(p, z), z.y, o, h); lemma_fits_kept(d, pa(p, z), z.a, o, h); lemma_fits_kept(d, pb(p, z), z.b, o, h); lemma_fits_kept(d, pc(p, z), z.c, o, h);
    reveal(fst);
    lemma_files_kept(d, base, pend(p, z), s, bt, pos, im, s.len() as int, ss, o, h);
}
/// the classic tables are where the header says
pub open spec fn classic_ok(p: int, z: Tail, v: FormatVersion, n: int, t: Seq<HashEntry>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, q: HeaderWriteParams) -> bool {
    &&& hash_image(t, z.a) && block_image(bt, z.b) && hi_stage(hi, q.hi_block_table_pos, pc(p, z), z.c) && (hi is Some <==> vnum(v) >= 1)
    &&& q.hash_table_pos == pa(p, z) && q.block_table_pos == pb(p, z) && q.hash_table_size == t.len() && q.block_table_size == bt.len() && q.archive_size == pend(p, z)
    &&& vnum(v) == 0 ==> pend(p, z) <= u32::MAX
    &&& vnum(v) < 2 ==> z.x.len() == 0 && z.y.len() == 0 && q.het_table_pos is None && q.bet_table_pos is None
    &&& vnum(v) >= 2 ==> z.x.len() > 0 && z.y.len() > 0 && q.het_table_pos == Some(px(p, z) as u64) && q.bet_table_pos == Some(py(p, z) as u64) && pend(p, z) <= u64::MAX
    &&& vnum(v) == 3 ==> q.v4_data is Some && v4_ok(z, bt.len() as int, hi, q)
}
pub open spec fn v4_ok(z: Tail, n: int, hi: Option<HiBlockTable>, q: HeaderWriteParams) -> bool {
    let x = q.v4_data->0;
    &&& x.hash_table_size_64 == z.a.len() && x.md5_hash_table@ == md5(z.a) && x.block_table_size_64 == z.b.len() && x.md5_block_table@ == md5(z.b)
    &&& x.het_table_size_64 == z.x.len() && x.md5_het_table@ == md5(z.x) && x.bet_table_size_64 == z.y.len() && x.md5_bet_table@ == md5(z.y)
    &&& q.hi_block_table_pos is Some ==> x.hi_block_table_size_64 == z.c.len() && x.md5_hi_block_table@ == md5(z.c)
}
/// the header's own digest is the last thing written, in version 4 only
pub open spec fn finished(e: Seq<u8>, d: Seq<u8>, v: FormatVersion) -> bool {
    if vnum(v) == 3 { e == splice(d, 192, md5(d.subrange(0, 192))) && md5(d.subrange(0, 192)).len() == 16 } else { e == d }
}
pub proof fn lemma_header_on(d: Seq<u8>, e: Seq<u8>, v: FormatVersion, bsz: u16, q: HeaderWriteParams)
    requires d.len() >= hsize(v), vnum(v) == 3 ==> q.v4_data is Some, finished(e, splice(d, 0, hdr(v, bsz, q)), v)
    ensures header_on(e, v, bsz, q)
{
    hide(hdr1); hide(hdr2); hide(hdr3); hide(hdr4a); hide(hdr4);
    let h = hdr(v, bsz, q); let g = splice(d, 0, h);
    lemma_prefixes(v, bsz, q);
    assert(g.subrange(0, h.len() as int) =~= h);
    if vnum(v) == 3 {
        assert(g.subrange(0, 192) =~= h.subrange(0, 192));
        assert(e.subrange(0, 192) =~= h.subrange(0, 192));
        assert(e.subrange(192, 208) =~= md5(h.subrange(0, 192)));
    }
}
pub proof fn lemma_done(d: Seq<u8>, p: int, e: Seq<u8>, v: FormatVersion, bsz: u16, s: Seq<Src>, t: Seq<HashEntry>, bt: Seq<BlockEntry>, hi: Option<HiBlockTable>, pos: Seq<int>, im: Seq<Seq<u8>>, ss: int, z: Tail, q: HeaderWriteParams)
    requires fst(d, p, hsize(v), s, bt, hi, pos, im, s.len() as int, ss), nst(t, s, s.len() as int), classic_ok(p, z, v, s.len() as int, t, bt, hi, q), bt.len() == s.len(), vnum(v) >= 2 && few(s.len() as int) ==> bet_image(z.y, bt, hi_seq(hi, s.len() as int), js_of(s)),
        finished(e, splice(tailed(d, p, z), 0, hdr(v, bsz, q)), v)
    ensures written(e, v, bsz, s, ss)
{
    hide(hdr); hide(header_on); hide(splice); hide(fits); hide(files_ok); hide(hash_image); hide(block_image); hide(hiser); hide(names_ok); hide(used);
    let n = s.len() as int; let base = hsize(v); let h = hdr(v, bsz, q); let d5 = tailed(d, p, z); let g = splice(d5, 0, h);
    assert(base <= p) by { reveal(fst); }
    assert(z.a.len() == 16 * t.len()) by { lemma_lens_tab(t, z.a); }
    assert(t.len() >= 16) by { reveal(nst); }
    lemma_tailed(d, p, base, s, bt, hi, pos, im, ss, z);
    assert(h.len() == base) by { lemma_prefixes(v, bsz, q); }
    lemma_below(d5, p, base, s, bt, hi, pos, im, ss, z, 0, h);
    if vnum(v) == 3 { lemma_below(g, p, base, s, bt, hi, pos, im, ss, z, 192, md5(g.subrange(0, 192))); }
    lemma_header_on(d5, e, v, bsz, q);
    let his = hi_seq(hi, n);
    assert(files_ok(e, base, e.len() as int, s, bt, pos, im, n, ss)) by { reveal(fst); }
    assert(his_ok(his, pos, n)) by {
        reveal(fst);
        if vnum(v) == 0 {
            reveal(files_ok);
            assert forall|j: int| 0 <= j < n implies #[trigger] his[j] == ((pos[j] as u64) >> 32) as u16 by { assert(pos[j] + im[j].len() <= e.len()); lemma_small_hi(pos[j] as u64); }
        }
    }
    assert(names_ok(t, s, n)) by { reveal(nst); }
    assert(pow2(t.len() as int)) by { reveal(nst); }
    assert(his.len() == n) by { reveal(fst); }
    let pl = Plan { q: q, t: t, bt: bt, hi: his, pos: pos, im: im };
    assert(hash_on(e, t, q.hash_table_pos as int)); assert(block_on(e, bt, q.block_table_pos as int));
    if q.hi_block_table_pos is Some { assert(hi_on(e, his, q.hi_block_table_pos->0 as int)); }
    if vnum(v) == 3 { assert(digests_on(e, pl)) by { reveal(fits); } }
    if vnum(v) >= 2 && few(n) { assert(bet_on(e, bt, his, js_of(s), q.bet_table_pos->0 as int, q.hash_table_pos - q.bet_table_pos->0)); }
    assert(laid(e, v, bsz, s, ss, pl));
}
}
