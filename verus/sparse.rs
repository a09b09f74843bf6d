//@include inc_prelude.rs
//@include inc_sparse.rs
verus! {
/// a sequence of whole records with no end marker, from p to the end
pub open spec fn records(s: Seq<u8>, p: int) -> bool decreases s.len() - p {
    if p < 0 || p > s.len() { false } else if p == s.len() { true } else if s[p] == 0xFF { false }
    else if s[p] >= 0x80 { records(s, p + 1) }
    else { p + 1 + s[p] <= s.len() && records(s, p + 1 + s[p]) }
}
/// what a complete record sequence emits
proof fn lemma_append(s: Seq<u8>, t: Seq<u8>, p: int)
    requires records(s, p), 0 <= p <= s.len()
    ensures emit(s + t, p) == emit(s, p) + emit(s + t, s.len() as int),
            records(s + t, s.len() as int) ==> records(s + t, p),
            complete(s + t, s.len() as int) ==> complete(s + t, p)
    decreases s.len() - p
{
    let u = s + t;
    if p == s.len() { assert(emit(s, p) =~= Seq::<u8>::empty()); assert(emit(u, p) =~= emit(s, p) + emit(u, p)); }
    else {
        assert(u[p] == s[p]);
        if s[p] >= 0x80 {
            lemma_append(s, t, p + 1);
            assert(emit(u, p) =~= emit(s, p) + emit(u, s.len() as int));
        } else {
            assert(p + 1 + s[p] <= s.len()) by { if p + 1 + s[p] > s.len() { assert(!records(s, p + 1 + s[p])); } }
            lemma_append(s, t, p + 1 + s[p]);
            assert(u.subrange(p + 1, p + 1 + s[p]) =~= s.subrange(p + 1, p + 1 + s[p]));
            assert(emit(u, p) =~= emit(s, p) + emit(u, s.len() as int));
        }
    }
}
/// appending one zero-run record
proof fn lemma_push_run(s: Seq<u8>, c: u8)
    requires records(s, 0), 0x80 <= c < 0xFF
    ensures records(s.push(c), 0), emit(s.push(c), 0) == emit(s, 0) + zeros(c - 0x80)
{
    let t = seq![c]; let u = s + t; let n = s.len() as int;
    assert(u =~= s.push(c));
    assert(records(u, n + 1));
    assert(records(u, n));
    assert(emit(u, n + 1) =~= Seq::<u8>::empty());
    assert(emit(u, n) =~= zeros(c - 0x80));
    lemma_append(s, t, 0);
}
/// appending one literal record
proof fn lemma_push_lit(s: Seq<u8>, d: Seq<u8>)
    requires records(s, 0), 0 < d.len() < 0x80
    ensures records(s.push(d.len() as u8) + d, 0), emit(s.push(d.len() as u8) + d, 0) == emit(s, 0) + d
{
    let t = seq![d.len() as u8] + d; let u = s + t; let n = s.len() as int;
    assert(u =~= s.push(d.len() as u8) + d);
    assert(u[n] == d.len() as u8);
    assert(records(u, n + 1 + d.len()));
    assert(records(u, n));
    assert(emit(u, n + 1 + d.len()) =~= Seq::<u8>::empty());
    assert(u.subrange(n + 1, n + 1 + d.len()) =~= d);
    assert(emit(u, n) =~= d);
    lemma_append(s, t, 0);
}
proof fn lemma_push_end(s: Seq<u8>)
    requires records(s, 0)
    ensures complete(s.push(0xFF), 0), emit(s.push(0xFF), 0) == emit(s, 0)
{
    let t = seq![0xFFu8]; let u = s + t;
    assert(u =~= s.push(0xFF));
    assert(emit(u, s.len() as int) =~= Seq::<u8>::empty());
    assert(complete(u, s.len() as int));
    lemma_append(s, t, 0);
    assert(emit(u, 0) =~= emit(s, 0));
}
proof fn lemma_zeros_add(a: int, b: int) requires a >= 0, b >= 0 ensures zeros(a) + zeros(b) == zeros(a + b) { assert(zeros(a) + zeros(b) =~= zeros(a + b)); }

//@extract mopaq/src/compression/algorithms/sparse.rs compress
//@opts ret=r locals=data,output,pos,zero_start,zero_count,chunk,data_start,data_count loops=4 types=output:Vec<u8>;pos:usize
//@spec
    ensures r is Ok, complete(r->Ok_0@, 0), emit(r->Ok_0@, 0) == data@, r->Ok_0@.len() <= 2 * data@.len() + 1
//@loop 0
    invariant pos <= data@.len(), records(output@, 0), emit(output@, 0) == data@.subrange(0, pos as int), output@.len() <= 2 * pos
    decreases data@.len() - pos
//@loop-start 0
    let ghost vp_pos0 = pos;
//@loop-before 1
//@loop 1
    invariant zero_start == vp_pos0, zero_start <= pos <= data@.len(), forall|j: int| zero_start <= j < pos ==> data@[j] == 0
    decreases data@.len() - pos
//@loop-after 1
    let ghost vp_z = pos; let ghost vp_o = output@;
    proof { assert(emit(output@, 0) =~= data@.subrange(0, zero_start as int) + zeros(0)); }
//@loop 2
    invariant
        records(output@, 0), zero_start <= pos <= data@.len(), zero_count <= pos - zero_start,
        emit(output@, 0) == data@.subrange(0, zero_start as int) + zeros((pos - zero_start) as int - zero_count),
        output@.len() <= 2 * (pos - zero_count),
    decreases zero_count
//@loop-start 2
    let ghost vp_o2 = output@; let ghost vp_zc = zero_count;
    proof { assert(forall|c: u8| c < 0x7F ==> #[trigger] (0x80u8 | c) == 0x80 + c) by (bit_vector); }
//@loop-end 2
    proof {
        let c = output@[output@.len() - 1];
        assert(output@ =~= vp_o2.push(c));
        lemma_push_run(vp_o2, c);
        lemma_zeros_add((pos - zero_start) as int - vp_zc, c - 0x80);
        assert(emit(output@, 0) =~= data@.subrange(0, zero_start as int) + zeros((pos - zero_start) as int - zero_count));
    }
//@loop-before 3
    proof {
        assert(data@.subrange(0, zero_start as int) + zeros((pos - zero_start) as int) =~= data@.subrange(0, pos as int));
        assert(emit(output@, 0) =~= data@.subrange(0, pos as int));
    }
//@loop 3
    invariant data_start == vp_z, data_start <= pos <= data@.len(), pos - data_start <= 0x7F, records(output@, 0), emit(output@, 0) == data@.subrange(0, data_start as int), output@.len() <= 2 * data_start,
        forall|j: int| data_start <= j < pos ==> data@[j] != 0,
    ensures pos == data@.len() || data@[pos as int] == 0 || pos - data_start == 0x7F
    decreases data@.len() - pos
//@loop-after 3
    let ghost vp_o3 = output@;
//@loop-end 0
    proof {
        if pos > data_start {
            lemma_push_lit(vp_o3, data@.subrange(data_start as int, pos as int));
            assert(output@ =~= vp_o3.push((pos - data_start) as u8) + data@.subrange(data_start as int, pos as int));
            assert(data@.subrange(0, data_start as int) + data@.subrange(data_start as int, pos as int) =~= data@.subrange(0, pos as int));
        }
    }
//@loop-after 0
    proof { lemma_push_end(output@); assert(data@.subrange(0, pos as int) =~= data@); }
//@end

//@extract mopaq/src/compression/algorithms/sparse.rs decompress
//@opts ret=r locals=data,expected_size,output,pos,control,count loops=1 types=output:Vec<u8>;pos:usize
//@spec
    requires len_ok(expected_size as int + 0x7F), len_ok(data@.len() as int)
    ensures
        complete(data@, 0) && emit(data@, 0).len() == expected_size ==> r is Ok && r->Ok_0@ == emit(data@, 0),
        complete(data@, 0) && emit(data@, 0).len() <= expected_size ==> r is Ok && r->Ok_0@ == emit(data@, 0) + zeros(expected_size - emit(data@, 0).len()),
        r is Ok ==> r->Ok_0@.len() >= expected_size && r->Ok_0@.len() <= expected_size + 0x7F,
//@loop 0
    invariant_except_break
        complete(data@, 0) ==> complete(data@, pos as int),
        complete(data@, 0) ==> emit(data@, 0) == output@ + emit(data@, pos as int),
    invariant
        pos <= data@.len(), len_ok(expected_size as int + 0x7F), len_ok(data@.len() as int), output@.len() <= expected_size + 0x7F,
    ensures
        output@.len() <= expected_size + 0x7F,
        complete(data@, 0) && emit(data@, 0).len() <= expected_size ==> emit(data@, 0) == output@,
    decreases data@.len() - pos
//@loop-before 0
    proof { assert(emit(data@, 0) =~= output@ + emit(data@, 0)); }
//@loop-start 0
    let ghost vp_o = output@; let ghost vp_p = pos;
    proof {
        assert(forall|c: u8| (#[trigger] (c & 0x80) != 0) <==> c >= 0x80) by (bit_vector);
        assert(forall|c: u8| c >= 0x80 ==> #[trigger] (c & 0x7F) == c - 0x80) by (bit_vector);
    }
//@loop-end 0
    proof {
        let c = data@[vp_p as int];
        if c >= 0x80 { assert(output@ =~= vp_o + zeros(c - 0x80)); }
        else { assert(output@ =~= vp_o + data@.subrange(vp_p + 1, vp_p + 1 + c)); }
        if complete(data@, 0) { assert(vp_o + emit(data@, vp_p as int) =~= output@ + emit(data@, pos as int)); }
    }
//@loop-after 0
    let ghost vp_e = output@;
//@before-tail
    proof { if vp_e.len() <= expected_size { assert(output@ =~= vp_e + zeros(expected_size - vp_e.len())); } }
//@end

/// THEOREM: decompress(compress(x), |x|) == x for the real functions, every x
fn vp_sparse_roundtrip(x: &[u8]) -> (r: Result<Vec<u8>>)
    requires len_ok((2 * x@.len() + 0x7F) as int)
    ensures r is Ok, r->Ok_0@ == x@
{
    let c = compress(x)?;
    decompress(c.as_slice(), x.len())
}
fn main() {}
}
