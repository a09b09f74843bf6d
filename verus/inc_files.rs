verus! {
// ---------- specification: how one file is stored ----------
/// Adler-32 (crate adler, assumed deterministic)
pub uninterp spec fn adler(b: Seq<u8>) -> u32;
/// c is what method byte m stores for x (specified in unit comp, C06)
pub uninterp spec fn stored(m: u8, c: Seq<u8>, x: Seq<u8>) -> bool;
pub open spec fn audio(m: u8) -> bool { m & 0xC0 != 0 }
pub open spec fn fbit(f: u32, c: u32) -> bool { f & c != 0 }
pub spec const F_IMPLODE: u32 = 0x0000_0100;
pub spec const F_COMPRESS: u32 = 0x0000_0200;
pub spec const F_ENCRYPTED: u32 = 0x0001_0000;
pub spec const F_FIX_KEY: u32 = 0x0002_0000;
pub spec const F_SINGLE: u32 = 0x0100_0000;
pub spec const F_CRC: u32 = 0x0400_0000;
pub spec const F_EXISTS: u32 = 0x8000_0000;
pub open spec fn fk(name: Seq<u8>, pos: u32, size: u32, f: u32) -> u32 { if fbit(f, F_FIX_KEY) { mpq_hash(name, 3).wrapping_add(pos) ^ size } else { mpq_hash(name, 3) } }
/// b lies at pos
pub open spec fn fits(d: Seq<u8>, pos: int, b: Seq<u8>) -> bool { 0 <= pos && pos + b.len() <= d.len() && d.subrange(pos, pos + b.len()) == b }
/// the key data is encrypted with (0: not at all)
pub open spec fn ekey(f: u32, k: u32) -> u32 { if fbit(f, F_ENCRYPTED) { k } else { 0 } }
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn xs(x: Seq<u8>, ss: int, i: int) -> Seq<u8> { x.subrange(i * ss, if (i + 1) * ss <= x.len() { (i + 1) * ss } else { x.len() as int }) }
pub open spec fn shrunk(c: Seq<u8>, x: Seq<u8>, m: u8) -> bool { c.len() < x.len() && c.len() >= 2 && c[0] == m && stored(m, c.skip(1), x) }
/// b holds x in one unit of n bytes
pub open spec fn unit_image(b: Seq<u8>, x: Seq<u8>, n: int, f: u32, key: u32, m: u8) -> bool {
    &&& fbit(f, F_SINGLE) && !fbit(f, F_IMPLODE) && 0 <= n && b.len() == n + if fbit(f, F_CRC) { 4int } else { 0int }
    &&& fbit(f, F_CRC) ==> le4(b.subrange(n, n + 4)) == adler(x)
    &&& exists|c: Seq<u8>| #[trigger] benc(c, b.subrange(0, n), ekey(f, key)) && if fbit(f, F_COMPRESS) { shrunk(c, x, m) } else { c == x }
}
/// sector i, stored in s, means part i of x
pub open spec fn sector_ok(s: Seq<u8>, x: Seq<u8>, ss: int, i: int, f: u32, key: u32, m: u8) -> bool {
    exists|c: Seq<u8>| #[trigger] benc(c, s, ekey(f, key.wrapping_add(i as u32))) && (c == xs(x, ss, i) || shrunk(c, xs(x, ss, i), m))
}
pub open spec fn dstart(cnt: int, f: u32) -> int { 4 * (cnt + 1) + if fbit(f, F_CRC) { 4 * cnt } else { 0 } }
/// the bytes of sector i
pub open spec fn msec(b: Seq<u8>, p: Seq<u8>, i: int) -> Seq<u8> { b.subrange(word_at(p, i) as int, word_at(p, i + 1) as int) }
/// p is the plain sector offset table
pub open spec fn multi_image(b: Seq<u8>, x: Seq<u8>, p: Seq<u8>, f: u32, key: u32, m: u8, ss: int) -> bool {
    let cnt = cdiv(x.len() as int, ss);
    &&& !fbit(f, F_SINGLE) && fbit(f, F_COMPRESS) && !fbit(f, F_IMPLODE) && x.len() > ss && ss > 0 && x.len() <= u32::MAX
    &&& p.len() == 4 * (cnt + 1) && b.len() >= p.len() && b.len() >= dstart(cnt, f) && benc(p, b.subrange(0, p.len() as int), ekey(f, key.wrapping_sub(1)))
    &&& word_at(p, 0) == dstart(cnt, f)
    &&& forall|i: int, j: int| 0 <= i <= j <= cnt ==> dstart(cnt, f) <= (#[trigger] word_at(p, i)) && word_at(p, i) <= (#[trigger] word_at(p, j)) && word_at(p, j) <= b.len()
    &&& forall|i: int| 0 <= i < cnt ==> sector_ok(#[trigger] msec(b, p, i), x, ss, i, f, key, m)
}
/// b is an image of x with n bytes, as flags f say
pub open spec fn file_image(b: Seq<u8>, x: Seq<u8>, n: int, f: u32, key: u32, m: u8, ss: int) -> bool {
    if x.len() <= ss { unit_image(b, x, n, f, key, m) } else { exists|p: Seq<u8>| #[trigger] multi_image(b, x, p, f, key, m, ss) }
}
/// an image of x was written where the writer stood
pub open spec fn wrote(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, x: Seq<u8>, n: int, f: u32, key: u32, m: u8, ss: int) -> bool {
    exists|b: Seq<u8>| #[trigger] file_image(b, x, n, f, key, m, ss) && put(d0, p0, d1, p1, b)
}
pub proof fn lemma_wrote(d0: Seq<u8>, p0: int, d1: Seq<u8>, p1: int, x: Seq<u8>, n: int, f: u32, key: u32, m: u8, ss: int, b: Seq<u8>)
    requires file_image(b, x, n, f, key, m, ss), put(d0, p0, d1, p1, b) ensures wrote(d0, p0, d1, p1, x, n, f, key, m, ss)
{ hide(file_image); }
// ---------- lemmas ----------
pub proof fn lemma_flag_or(f: u32)
    ensures
        forall|g: u32| g == 0 ==> !fbit(g, F_IMPLODE) && !fbit(g, F_COMPRESS) && !fbit(g, F_ENCRYPTED) && !fbit(g, F_FIX_KEY) && !fbit(g, F_SINGLE) && !fbit(g, F_CRC),
        fbit(f | 0x100_0000, F_SINGLE), fbit(f | 0x400_0000, F_CRC), fbit(f | 0x200, F_COMPRESS), fbit(f | 0x1_0000, F_ENCRYPTED), fbit(f | 0x2_0000, F_FIX_KEY),
{
    assert(0u32 & 0x100 == 0 && 0u32 & 0x200 == 0 && 0u32 & 0x1_0000 == 0 && 0u32 & 0x2_0000 == 0 && 0u32 & 0x100_0000 == 0 && 0u32 & 0x400_0000 == 0) by (bit_vector);
    assert((f | 0x100_0000) & 0x100_0000 != 0 && (f | 0x400_0000) & 0x400_0000 != 0 && (f | 0x200) & 0x200 != 0 && (f | 0x1_0000) & 0x1_0000 != 0 && (f | 0x2_0000) & 0x2_0000 != 0) by (bit_vector);
}
pub open spec fn same_but(f: u32, g: u32, c: u32) -> bool {
    (c == F_IMPLODE || fbit(f, F_IMPLODE) == fbit(g, F_IMPLODE)) && (c == F_COMPRESS || fbit(f, F_COMPRESS) == fbit(g, F_COMPRESS)) && (c == F_ENCRYPTED || fbit(f, F_ENCRYPTED) == fbit(g, F_ENCRYPTED))
    && (c == F_FIX_KEY || fbit(f, F_FIX_KEY) == fbit(g, F_FIX_KEY)) && (c == F_SINGLE || fbit(f, F_SINGLE) == fbit(g, F_SINGLE)) && (c == F_CRC || fbit(f, F_CRC) == fbit(g, F_CRC))
}
pub proof fn lemma_or_one(f: u32)
    ensures same_but(f | 0x100_0000, f, F_SINGLE), fbit(f | 0x100_0000, F_SINGLE),
        same_but(f | 0x400_0000, f, F_CRC), fbit(f | 0x400_0000, F_CRC),
        same_but(f | 0x200, f, F_COMPRESS), fbit(f | 0x200, F_COMPRESS),
        same_but(f | 0x1_0000, f, F_ENCRYPTED), fbit(f | 0x1_0000, F_ENCRYPTED),
        same_but(f | 0x2_0000, f, F_FIX_KEY), fbit(f | 0x2_0000, F_FIX_KEY),
        same_but(f | 0x8000_0000, f, F_EXISTS), fbit(f | 0x8000_0000, F_EXISTS),
{
    assert((f | 0x100_0000) & 0x100_0000 != 0 && (f | 0x100_0000) & 0x100 == f & 0x100 && (f | 0x100_0000) & 0x200 == f & 0x200 && (f | 0x100_0000) & 0x1_0000 == f & 0x1_0000 && (f | 0x100_0000) & 0x2_0000 == f & 0x2_0000 && (f | 0x100_0000) & 0x400_0000 == f & 0x400_0000) by (bit_vector);
    assert((f | 0x400_0000) & 0x400_0000 != 0 && (f | 0x400_0000) & 0x100 == f & 0x100 && (f | 0x400_0000) & 0x200 == f & 0x200 && (f | 0x400_0000) & 0x1_0000 == f & 0x1_0000 && (f | 0x400_0000) & 0x2_0000 == f & 0x2_0000 && (f | 0x400_0000) & 0x100_0000 == f & 0x100_0000) by (bit_vector);
    assert((f | 0x200) & 0x200 != 0 && (f | 0x200) & 0x100 == f & 0x100 && (f | 0x200) & 0x400_0000 == f & 0x400_0000 && (f | 0x200) & 0x1_0000 == f & 0x1_0000 && (f | 0x200) & 0x2_0000 == f & 0x2_0000 && (f | 0x200) & 0x100_0000 == f & 0x100_0000) by (bit_vector);
    assert((f | 0x1_0000) & 0x1_0000 != 0 && (f | 0x1_0000) & 0x100 == f & 0x100 && (f | 0x1_0000) & 0x200 == f & 0x200 && (f | 0x1_0000) & 0x400_0000 == f & 0x400_0000 && (f | 0x1_0000) & 0x2_0000 == f & 0x2_0000 && (f | 0x1_0000) & 0x100_0000 == f & 0x100_0000) by (bit_vector);
    assert((f | 0x2_0000) & 0x2_0000 != 0 && (f | 0x2_0000) & 0x100 == f & 0x100 && (f | 0x2_0000) & 0x200 == f & 0x200 && (f | 0x2_0000) & 0x1_0000 == f & 0x1_0000 && (f | 0x2_0000) & 0x400_0000 == f & 0x400_0000 && (f | 0x2_0000) & 0x100_0000 == f & 0x100_0000) by (bit_vector);
    assert((f | 0x8000_0000) & 0x8000_0000 != 0 && (f | 0x8000_0000) & 0x100 == f & 0x100 && (f | 0x8000_0000) & 0x200 == f & 0x200 && (f | 0x8000_0000) & 0x1_0000 == f & 0x1_0000 && (f | 0x8000_0000) & 0x400_0000 == f & 0x400_0000 && (f | 0x8000_0000) & 0x100_0000 == f & 0x100_0000 && (f | 0x8000_0000) & 0x2_0000 == f & 0x2_0000) by (bit_vector);
}
/// setting a flag changes no other (all words at once)
pub proof fn lemma_or_all()
    ensures forall|f: u32| #![trigger f | 0x100_0000] same_but(f | 0x100_0000, f, F_SINGLE) && fbit(f | 0x100_0000, F_SINGLE),
        forall|f: u32| #![trigger f | 0x400_0000] same_but(f | 0x400_0000, f, F_CRC) && fbit(f | 0x400_0000, F_CRC),
        forall|f: u32| #![trigger f | 0x200] same_but(f | 0x200, f, F_COMPRESS) && fbit(f | 0x200, F_COMPRESS),
        forall|f: u32| #![trigger f | 0x1_0000] same_but(f | 0x1_0000, f, F_ENCRYPTED) && fbit(f | 0x1_0000, F_ENCRYPTED),
        forall|f: u32| #![trigger f | 0x2_0000] same_but(f | 0x2_0000, f, F_FIX_KEY) && fbit(f | 0x2_0000, F_FIX_KEY),
        forall|f: u32| #![trigger f | 0x8000_0000] same_but(f | 0x8000_0000, f, F_EXISTS) && fbit(f | 0x8000_0000, F_EXISTS),
        !fbit(0, F_IMPLODE) && !fbit(0, F_COMPRESS) && !fbit(0, F_ENCRYPTED) && !fbit(0, F_FIX_KEY) && !fbit(0, F_SINGLE) && !fbit(0, F_CRC),
{
    assert forall|f: u32| #![trigger f | 0x100_0000] same_but(f | 0x100_0000, f, F_SINGLE) && fbit(f | 0x100_0000, F_SINGLE) by { lemma_or_one(f); }
    assert forall|f: u32| #![trigger f | 0x400_0000] same_but(f | 0x400_0000, f, F_CRC) && fbit(f | 0x400_0000, F_CRC) by { lemma_or_one(f); }
    assert forall|f: u32| #![trigger f | 0x200] same_but(f | 0x200, f, F_COMPRESS) && fbit(f | 0x200, F_COMPRESS) by { lemma_or_one(f); }
    assert forall|f: u32| #![trigger f | 0x1_0000] same_but(f | 0x1_0000, f, F_ENCRYPTED) && fbit(f | 0x1_0000, F_ENCRYPTED) by { lemma_or_one(f); }
    assert forall|f: u32| #![trigger f | 0x2_0000] same_but(f | 0x2_0000, f, F_FIX_KEY) && fbit(f | 0x2_0000, F_FIX_KEY) by { lemma_or_one(f); }
    assert forall|f: u32| #![trigger f | 0x8000_0000] same_but(f | 0x8000_0000, f, F_EXISTS) && fbit(f | 0x8000_0000, F_EXISTS) by { lemma_or_one(f); }
    lemma_flag_or(0);
}
pub proof fn lemma_cdiv(a: int, b: int) requires a >= 0, b > 0
    ensures cdiv(a, b) >= 0, (cdiv(a, b) - 1) * b < a, cdiv(a, b) * b >= a, cdiv(a, b) <= a, a > b ==> cdiv(a, b) >= 2
{
    let q = cdiv(a, b);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a + b - 1, b); vstd::arithmetic::div_mod::lemma_mod_bound(a + b - 1, b);
    assert(a + b - 1 == b * q + (a + b - 1) % b);
    assert(b * q == q * b && (q - 1) * b == q * b - b) by (nonlinear_arith);
    assert(q >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a + b - 1, b); }
    assert(q <= a) by (nonlinear_arith) requires q >= 0, a >= 0, b >= 1, b * q <= a + b - 1;
    if a > b { assert(q >= 2) by (nonlinear_arith) requires q * b >= a, a > b, b > 0, q >= 0; }
}
/// the words of a table, written out
pub open spec fn ser32(o: Seq<u32>) -> Seq<u8> { Seq::new(4 * o.len(), |j: int| le4b(o[j / 4])[j % 4]) }
pub proof fn lemma_ser32(o: Seq<u32>) ensures words(ser32(o)) == o, ser32(o).len() == 4 * o.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] word_at(ser32(o), i) == o[i]
{
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] word_at(ser32(o), i) == o[i] by { assert(ser32(o).subrange(4 * i, 4 * i + 4) =~= le4b(o[i])); lemma_le4_rt(o[i]); }
    assert(words(ser32(o)) =~= o);
}
pub proof fn lemma_ser32_push(o: Seq<u32>, v: u32) ensures ser32(o.push(v)) == ser32(o) + le4b(v)
{ assert(ser32(o.push(v)) =~= ser32(o) + le4b(v)); }
/// encrypting the words is encrypting the bytes
pub proof fn lemma_benc32(o: Seq<u32>, e: Seq<u32>, k: u32) requires enc_rel(o, e, k) ensures benc(ser32(o), ser32(e), k)
{
    lemma_ser32(o); lemma_ser32(e);
    if k == 0 { assert(o =~= e); }
}
pub open spec fn pk(c: Seq<u8>, x: Seq<u8>, m: u8) -> bool { c == x || shrunk(c, x, m) }
pub proof fn lemma_pk(c: Seq<u8>, x: Seq<u8>, m: u8) requires pk(c, x, m) ensures c == x || shrunk(c, x, m) {}
pub open spec fn sec(d: Seq<u8>, go: Seq<int>, j: int) -> Seq<u8> { d.subrange(go[j], go[j + 1]) }
/// go are the sector boundaries of d, which holds the first n sectors of x
pub open spec fn packed(d: Seq<u8>, go: Seq<int>, n: int, x: Seq<u8>, ss: int, m: u8) -> bool {
    &&& go.len() == n + 1 && go[0] == 0 && go[n] == d.len()
    &&& forall|i: int, j: int| 0 <= i <= j <= n ==> 0 <= #[trigger] go[i] <= #[trigger] go[j] <= d.len()
    &&& forall|j: int| 0 <= j < n ==> pk(#[trigger] sec(d, go, j), xs(x, ss, j), m)
}
pub proof fn lemma_packed_push(d: Seq<u8>, go: Seq<int>, n: int, x: Seq<u8>, ss: int, m: u8, c: Seq<u8>)
    requires packed(d, go, n, x, ss, m), n >= 0, pk(c, xs(x, ss, n), m)
    ensures packed(d + c, go.push((d + c).len() as int), n + 1, x, ss, m)
{
    hide(pk); hide(xs);
    let e = d + c; let g = go.push(e.len() as int);
    assert forall|j: int| 0 <= j < n + 1 implies pk(#[trigger] sec(e, g, j), xs(x, ss, j), m) by {
        if j < n { assert(0 <= go[j] <= go[j + 1] <= d.len()); assert(sec(e, g, j) =~= sec(d, go, j)); }
        else { assert(sec(e, g, n) =~= c); }
    }
    assert forall|i: int, j: int| 0 <= i <= j <= n + 1 implies 0 <= #[trigger] g[i] <= #[trigger] g[j] <= e.len() by {
        if j <= n { assert(g[i] == go[i] && g[j] == go[j]); } else if i <= n { assert(g[i] == go[i]); assert(go[i] <= go[n]); }
    }
}
/// e holds the first n sectors of d, each encrypted under its own key
pub open spec fn sealed(d: Seq<u8>, e: Seq<u8>, go: Seq<int>, n: int, f: u32, key: u32) -> bool {
    &&& e.len() == go[n]
    &&& forall|j: int| 0 <= j < n ==> benc(#[trigger] sec(d, go, j), sec(e, go, j), ekey(f, key.wrapping_add(j as u32)))
}
pub proof fn lemma_sealed_push(d: Seq<u8>, e: Seq<u8>, go: Seq<int>, n: int, cnt: int, f: u32, key: u32, x: Seq<u8>, ss: int, m: u8, c: Seq<u8>)
    requires packed(d, go, cnt, x, ss, m), 0 <= n < cnt, sealed(d, e, go, n, f, key), benc(sec(d, go, n), c, ekey(f, key.wrapping_add(n as u32))), c.len() == go[n + 1] - go[n]
    ensures sealed(d, e + c, go, n + 1, f, key)
{
    hide(benc); hide(pk);
    let h = e + c; assert(go[n] <= go[n + 1] <= d.len());
    assert forall|j: int| 0 <= j < n + 1 implies benc(#[trigger] sec(d, go, j), sec(h, go, j), ekey(f, key.wrapping_add(j as u32))) by {
        if j < n { assert(0 <= go[j] <= go[j + 1] <= go[n]); assert(sec(h, go, j) =~= sec(e, go, j)); }
        else { assert(sec(h, go, n) =~= c); }
    }
}
/// unencrypted data is sealed as it is
pub proof fn lemma_sealed_plain(d: Seq<u8>, go: Seq<int>, cnt: int, f: u32, key: u32, x: Seq<u8>, ss: int, m: u8)
    requires packed(d, go, cnt, x, ss, m), !fbit(f, F_ENCRYPTED) ensures sealed(d, d, go, cnt, f, key)
{}
/// the parts put together are an image
pub proof fn lemma_multi(x: Seq<u8>, ss: int, m: u8, f: u32, key: u32, go: Seq<int>, d: Seq<u8>, e: Seq<u8>, o: Seq<u32>, oe: Seq<u32>, k: Seq<u8>, b: Seq<u8>)
    requires
        !fbit(f, F_SINGLE), fbit(f, F_COMPRESS), !fbit(f, F_IMPLODE), x.len() > ss, ss > 0, x.len() <= u32::MAX,
        packed(d, go, cdiv(x.len() as int, ss), x, ss, m), sealed(d, e, go, cdiv(x.len() as int, ss), f, key),
        o.len() == cdiv(x.len() as int, ss) + 1, forall|j: int| 0 <= j < o.len() ==> #[trigger] o[j] == dstart(cdiv(x.len() as int, ss), f) + go[j],
        enc_rel(o, oe, ekey(f, key.wrapping_sub(1))), oe.len() == o.len(), k.len() == (if fbit(f, F_CRC) { 4 * (o.len() - 1) } else { 0 }),
        b == ser32(oe) + k + e
    ensures file_image(b, x, (4 * o.len() + e.len()) as int, f, key, m, ss)
{
    hide(benc); hide(enc_rel); hide(word_at); hide(ser32); hide(pk); hide(shrunk); hide(cdiv); hide(xs); hide(words); hide(mpq_hash); hide(ekey);
    let cnt = cdiv(x.len() as int, ss); let p = ser32(o);
    lemma_cdiv(x.len() as int, ss); lemma_ser32(o); lemma_ser32(oe); lemma_benc32(o, oe, ekey(f, key.wrapping_sub(1)));
    assert(b.subrange(0, p.len() as int) =~= ser32(oe));
    assert(word_at(p, 0) == o[0]);
    let ds = dstart(cnt, f);
    assert(ds == ser32(oe).len() + k.len());
    assert forall|i: int, j: int| 0 <= i <= j <= cnt implies ds <= (#[trigger] word_at(p, i)) && word_at(p, i) <= (#[trigger] word_at(p, j)) && word_at(p, j) <= b.len() by {
        assert(word_at(p, i) == o[i] && word_at(p, j) == o[j]); assert(0 <= go[i] <= go[j] <= go[cnt]);
    }
    assert forall|i: int| 0 <= i < cnt implies sector_ok(#[trigger] msec(b, p, i), x, ss, i, f, key, m) by {
        assert(word_at(p, i) == o[i] && word_at(p, i + 1) == o[i + 1]); assert(0 <= go[i] <= go[i + 1] <= go[cnt]);
        assert(msec(b, p, i) =~= sec(e, go, i));
        assert(pk(sec(d, go, i), xs(x, ss, i), m)); lemma_pk(sec(d, go, i), xs(x, ss, i), m);
        assert(benc(sec(d, go, i), sec(e, go, i), ekey(f, key.wrapping_add(i as u32))));
    }
    assert(multi_image(b, x, p, f, key, m, ss));
}
pub proof fn lemma_benc0(p: Seq<u8>) ensures benc(p, p, 0) {}
}
