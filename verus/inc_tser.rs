verus! {
// ---------- specification: table layouts ----------
pub open spec fn hent(e: HashEntry) -> Seq<u8> { le4b(e.name_1) + le4b(e.name_2) + le2b(e.locale) + le2b(e.platform) + le4b(e.block_index) }
pub open spec fn bent(e: BlockEntry) -> Seq<u8> { le4b(e.file_pos) + le4b(e.compressed_size) + le4b(e.file_size) + le4b(e.flags) }
pub open spec fn cell(p: Seq<u8>, i: int) -> Seq<u8> { p.subrange(16 * i, 16 * i + 16) }
pub open spec fn hser(e: Seq<HashEntry>, p: Seq<u8>) -> bool { p.len() == 16 * e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] cell(p, i) == hent(e[i]) }
pub open spec fn bser(e: Seq<BlockEntry>, p: Seq<u8>) -> bool { p.len() == 16 * e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] cell(p, i) == bent(e[i]) }
pub open spec fn hiser(e: Seq<u16>, p: Seq<u8>) -> bool { p.len() == 2 * e.len() && forall|i: int| 0 <= i < e.len() ==> p.subrange(2 * i, 2 * i + 2) == le2b(#[trigger] e[i]) }
pub open spec fn key_of(s: &str) -> u32 { mpq_hash(s.spec_bytes(), 3) }
pub open spec fn is_hcell(c: Seq<u8>, e: HashEntry) -> bool {
    e.name_1 == le4(c.subrange(0, 4)) && e.name_2 == le4(c.subrange(4, 8)) && e.locale == le2(c.subrange(8, 10)) && e.platform == le2(c.subrange(10, 12)) && e.block_index == le4(c.subrange(12, 16))
}
pub open spec fn is_bcell(c: Seq<u8>, e: BlockEntry) -> bool {
    e.file_pos == le4(c.subrange(0, 4)) && e.compressed_size == le4(c.subrange(4, 8)) && e.file_size == le4(c.subrange(8, 12)) && e.flags == le4(c.subrange(12, 16))
}
pub proof fn lemma_hcell(e: HashEntry, f: HashEntry) requires is_hcell(hent(e), f) ensures e == f
{
    let c = hent(e);
    assert(c.subrange(0, 4) =~= le4b(e.name_1)); assert(c.subrange(4, 8) =~= le4b(e.name_2)); assert(c.subrange(8, 10) =~= le2b(e.locale)); assert(c.subrange(10, 12) =~= le2b(e.platform)); assert(c.subrange(12, 16) =~= le4b(e.block_index));
    lemma_le4_rt(e.name_1); lemma_le4_rt(e.name_2); lemma_le2_rt(e.locale); lemma_le2_rt(e.platform); lemma_le4_rt(e.block_index);
}
pub proof fn lemma_bcell(e: BlockEntry, f: BlockEntry) requires is_bcell(bent(e), f) ensures e == f
{
    let c = bent(e);
    assert(c.subrange(0, 4) =~= le4b(e.file_pos)); assert(c.subrange(4, 8) =~= le4b(e.compressed_size)); assert(c.subrange(8, 12) =~= le4b(e.file_size)); assert(c.subrange(12, 16) =~= le4b(e.flags));
    lemma_le4_rt(e.file_pos); lemma_le4_rt(e.compressed_size); lemma_le4_rt(e.file_size); lemma_le4_rt(e.flags);
}
pub proof fn lemma_cells(p0: Seq<u8>, x: Seq<u8>, n: int)
    requires p0.len() == 16 * n, x.len() == 16, n >= 0
    ensures cell(p0 + x, n) == x, forall|j: int| 0 <= j < n ==> #[trigger] cell(p0 + x, j) == cell(p0, j)
{
    assert(cell(p0 + x, n) =~= x);
    assert forall|j: int| 0 <= j < n implies #[trigger] cell(p0 + x, j) == cell(p0, j) by { assert(cell(p0 + x, j) =~= cell(p0, j)); }
}
/// what reading a table at `off` delivers
pub open spec fn hash_read(d: Seq<u8>, off: int, size: int, e: Seq<HashEntry>) -> bool {
    exists|p: Seq<u8>| {
        &&& p.len() == 16 * size && (size > 0 ==> off + 16 * size <= d.len())
        &&& #[trigger] benc(p, d.subrange(off, off + 16 * size), key_of("(hash table)"))
        &&& e.len() == size && forall|i: int| 0 <= i < size ==> is_hcell(cell(p, i), #[trigger] e[i])
    }
}
pub open spec fn block_read(d: Seq<u8>, off: int, size: int, e: Seq<BlockEntry>) -> bool {
    exists|p: Seq<u8>| {
        &&& p.len() == 16 * size && (size > 0 ==> off + 16 * size <= d.len())
        &&& #[trigger] benc(p, d.subrange(off, off + 16 * size), key_of("(block table)"))
        &&& e.len() == size && forall|i: int| 0 <= i < size ==> is_bcell(cell(p, i), #[trigger] e[i])
    }
}
pub open spec fn hi_read(d: Seq<u8>, off: int, size: int, e: Seq<u16>) -> bool {
    (size > 0 ==> off + 2 * size <= d.len()) && e.len() == size && forall|i: int| 0 <= i < size ==> #[trigger] e[i] == le2(d.subrange(off + 2 * i, off + 2 * i + 2))
}
/// how a table lies on the medium
pub open spec fn hash_image(e: Seq<HashEntry>, c: Seq<u8>) -> bool { exists|p: Seq<u8>| #[trigger] hser(e, p) && benc(p, c, key_of("(hash table)")) }
pub open spec fn block_image(e: Seq<BlockEntry>, c: Seq<u8>) -> bool { exists|p: Seq<u8>| #[trigger] bser(e, p) && benc(p, c, key_of("(block table)")) }
/// THEOREM: what was written is what is read
pub proof fn thm_hash_rt(d: Seq<u8>, off: int, c: Seq<u8>, t: Seq<HashEntry>, u: Seq<HashEntry>)
    requires hash_image(t, c), 0 <= off, off + c.len() <= d.len(), d.subrange(off, off + c.len()) == c, hash_read(d, off, t.len() as int, u)
    ensures u == t
{
    let p = choose|p: Seq<u8>| #[trigger] hser(t, p) && benc(p, c, key_of("(hash table)")); let n = t.len() as int;
    let q = choose|q: Seq<u8>| q.len() == 16 * n && #[trigger] benc(q, d.subrange(off, off + 16 * n), key_of("(hash table)")) && forall|i: int| 0 <= i < n ==> is_hcell(cell(q, i), #[trigger] u[i]);
    thm_bytes_inverse(p, q, c, key_of("(hash table)"));
    assert forall|i: int| 0 <= i < n implies u[i] == t[i] by { assert(cell(p, i) == hent(t[i])); lemma_hcell(t[i], u[i]); }
    assert(u =~= t);
}
pub proof fn thm_block_rt(d: Seq<u8>, off: int, c: Seq<u8>, t: Seq<BlockEntry>, u: Seq<BlockEntry>)
    requires block_image(t, c), 0 <= off, off + c.len() <= d.len(), d.subrange(off, off + c.len()) == c, block_read(d, off, t.len() as int, u)
    ensures u == t
{
    let p = choose|p: Seq<u8>| #[trigger] bser(t, p) && benc(p, c, key_of("(block table)")); let n = t.len() as int;
    let q = choose|q: Seq<u8>| q.len() == 16 * n && #[trigger] benc(q, d.subrange(off, off + 16 * n), key_of("(block table)")) && forall|i: int| 0 <= i < n ==> is_bcell(cell(q, i), #[trigger] u[i]);
    thm_bytes_inverse(p, q, c, key_of("(block table)"));
    assert forall|i: int| 0 <= i < n implies u[i] == t[i] by { assert(cell(p, i) == bent(t[i])); lemma_bcell(t[i], u[i]); }
    assert(u =~= t);
}
pub proof fn thm_hi_rt(d: Seq<u8>, off: int, c: Seq<u8>, t: Seq<u16>, u: Seq<u16>)
    requires hiser(t, c), 0 <= off, off + c.len() <= d.len(), d.subrange(off, off + c.len()) == c, hi_read(d, off, t.len() as int, u)
    ensures u == t
{
    assert forall|i: int| 0 <= i < t.len() implies u[i] == t[i] by {
        assert(d.subrange(off + 2 * i, off + 2 * i + 2) =~= c.subrange(2 * i, 2 * i + 2)); assert(c.subrange(2 * i, 2 * i + 2) == le2b(t[i])); lemma_le2_rt(t[i]);
    }
    assert(u =~= t);
}
}
