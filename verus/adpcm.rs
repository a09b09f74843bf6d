//@include inc_prelude.rs
//@include inc_adpcm_spec.rs
verus! {
//@extract mopaq/src/compression/algorithms/adpcm.rs const:MAX_ADPCM_CHANNEL_COUNT
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs const:INITIAL_ADPCM_STEP_INDEX
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs const:NEXT_STEP_TABLE
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs const:STEP_SIZE_TABLE
//@end
pub fn vp_clamp(x: i32, a: i32, b: i32) -> (r: i32) requires a <= b ensures r == if x < a { a } else if x > b { b } else { x } { if x < a { a } else if x > b { b } else { x } }
pub fn vp_minb(a: u8, b: u8) -> (r: u8) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ---------- specification: the decoder as a state machine over the stream ----------
pub open spec fn step_of(k: int) -> i32 { STEP_SIZE_TABLE@[k] }
pub open spec fn nxt_raw(k: int, e: u8) -> int { k + NEXT_STEP_TABLE@[(e & 0x1F) as int] as int }
pub open spec fn nxt(k: int, e: u8) -> int { if nxt_raw(k, e) < 0 { 0 } else if nxt_raw(k, e) > 88 { 88 } else { nxt_raw(k, e) } }
pub open spec fn clamp16(x: int) -> int { if x < -32768 { -32768 } else if x > 32767 { 32767 } else { x } }
pub open spec fn upd(p: int, e: u8, d: int) -> int { clamp16(if e & 0x40 != 0 { p - d } else { p + d }) }
/// what the six magnitude bits add
pub open spec fn dsum(e: u8, s: i32) -> int {
    (if e & 1 != 0 { s as int } else { 0 }) + (if e & 2 != 0 { (s >> 1u8) as int } else { 0 }) + (if e & 4 != 0 { (s >> 2u8) as int } else { 0 })
    + (if e & 8 != 0 { (s >> 3u8) as int } else { 0 }) + (if e & 0x10 != 0 { (s >> 4u8) as int } else { 0 }) + (if e & 0x20 != 0 { (s >> 5u8) as int } else { 0 })
}
pub struct Ad { pub c: int, pub p: Seq<i16>, pub k: Seq<usize>, pub out: Seq<i16> }
pub open spec fn capshift(b: u8) -> u8 { if b <= 31 { b } else { 31 } }
pub open spec fn dstep(s: Ad, e: u8, shift: u8, ch: int) -> Ad {
    let c = (s.c + 1) % ch;
    let k = s.k[c];
    if e == 0x80 { Ad { c, p: s.p, k: s.k.update(c, if k > 0 { (k - 1) as usize } else { k }), out: s.out.push(s.p[c]) } }
    else if e == 0x81 { Ad { c: s.c, p: s.p, k: s.k.update(c, if k + 8 > 0x58 { 0x58usize } else { (k + 8) as usize }), out: s.out } }
    else {
        let v = upd(s.p[c] as int, e, (step_of(k as int) >> capshift(shift)) + dsum(e, step_of(k as int))) as i16;
        Ad { c, p: s.p.update(c, v), k: s.k.update(c, nxt(k as int, e) as usize), out: s.out.push(v) }
    }
}
pub open spec fn rs(s: Seq<u8>, i: int) -> i16 { s[2 * i] as i16 | ((s[2 * i + 1] as i16) << 8) }
pub open spec fn sb(v: i16) -> Seq<u8> { seq![(v & 0xFF) as u8, (v >> 8) as u8] }
pub open spec fn ser(o: Seq<i16>) -> Seq<u8> decreases o.len() { if o.len() == 0 { seq![] } else { ser(o.drop_last()) + sb(o.last()) } }
pub open spec fn d0(s: Seq<u8>, ch: int) -> Ad { Ad { c: ch - 1, p: Seq::new(ch as nat, |i: int| rs(s, 1 + i)), k: Seq::new(ch as nat, |i: int| INITIAL_ADPCM_STEP_INDEX), out: Seq::new(ch as nat, |i: int| rs(s, 1 + i)) } }
/// the state after the bytes before position b
pub open spec fn drun(s: Seq<u8>, ch: int, b: int) -> Ad decreases b - 2 - 2 * ch { if b <= 2 + 2 * ch { d0(s, ch) } else { dstep(drun(s, ch, b - 1), s[b - 1], s[1], ch) } }
pub open spec fn good(s: Ad, ch: int) -> bool { s.p.len() == ch && s.k.len() == ch && 0 <= s.c < ch && (forall|i: int| 0 <= i < ch ==> s.k[i] <= 88) && s.out.len() >= ch }

// ---------- lemmas ----------
pub open spec fn all_steps(i: int) -> bool decreases i { if i <= 0 { true } else { 7 <= STEP_SIZE_TABLE@[i - 1] <= 32767 && all_steps(i - 1) } }
pub proof fn lemma_steps(i: int, k: int) requires 0 <= k < i <= 89, all_steps(i) ensures 7 <= step_of(k) <= 32767 decreases i
{ if k < i - 1 { lemma_steps(i - 1, k); } }
pub proof fn lemma_step(k: int) requires 0 <= k <= 88 ensures 7 <= step_of(k) <= 32767
{ reveal_with_fuel(all_steps, 91); lemma_steps(89, k); }
pub proof fn lemma_next(e: u8) ensures -1 <= NEXT_STEP_TABLE@[(e & 0x1F) as int] <= 8, (e & 0x1F) < 32
{ assert((e & 0x1F) < 32) by (bit_vector); }
pub proof fn lemma_sb(a: u8, b: u8)
    ensures ((a as i16 | ((b as i16) << 8)) & 0xFF) as u8 == a, ((a as i16 | ((b as i16) << 8)) >> 8) as u8 == b
{
    assert(((a as i16 | ((b as i16) << 8)) & 0xFF) as u8 == a) by (bit_vector);
    assert(((a as i16 | ((b as i16) << 8)) >> 8) as u8 == b) by (bit_vector);
}
pub proof fn lemma_bs(v: i16) ensures ((v & 0xFF) as u8) as i16 | ((((v >> 8) as u8) as i16) << 8) == v
{ assert(((v & 0xFF) as u8) as i16 | ((((v >> 8) as u8) as i16) << 8) == v) by (bit_vector); }
pub proof fn lemma_ser_push(o: Seq<i16>, v: i16) ensures ser(o.push(v)) == ser(o) + sb(v)
{ assert(o.push(v).drop_last() =~= o); }
pub proof fn lemma_ser_len(o: Seq<i16>) ensures ser(o).len() == 2 * o.len() decreases o.len()
{ if o.len() > 0 { lemma_ser_len(o.drop_last()); } }
pub proof fn lemma_ser_at(o: Seq<i16>, i: int) requires 0 <= i < o.len() ensures ser(o).len() == 2 * o.len(), ser(o)[2 * i] == (o[i] & 0xFF) as u8, ser(o)[2 * i + 1] == (o[i] >> 8) as u8 decreases o.len()
{ lemma_ser_len(o); lemma_ser_len(o.drop_last()); if i < o.len() - 1 { lemma_ser_at(o.drop_last(), i); } }
pub proof fn lemma_dstep_good(s: Ad, e: u8, sh: u8, ch: int) requires good(s, ch), 1 <= ch <= 2
    ensures good(dstep(s, e, sh, ch), ch), dstep(s, e, sh, ch).out.len() == s.out.len() + if e == 0x81 { 0int } else { 1int },
        forall|i: int| 0 <= i < s.out.len() ==> dstep(s, e, sh, ch).out[i] == s.out[i],
{ let c = (s.c + 1) % ch; lemma_next(e); assert(0 <= c < ch); }
pub proof fn lemma_drun(s: Seq<u8>, ch: int, b: int) requires 1 <= ch <= 2, 2 + 2 * ch <= b
    ensures good(drun(s, ch, b), ch), forall|i: int| 0 <= i < ch ==> drun(s, ch, b).out[i] == rs(s, 1 + i)
    decreases b
{ if b > 2 + 2 * ch { lemma_drun(s, ch, b - 1); lemma_dstep_good(drun(s, ch, b - 1), s[b - 1], s[1], ch); } }
pub proof fn lemma_drun_prefix(s: Seq<u8>, t: Seq<u8>, ch: int, b: int) requires 1 <= ch <= 2, 2 + 2 * ch <= b <= s.len(), b <= t.len(), forall|i: int| 0 <= i < b ==> s[i] == t[i]
    ensures drun(s, ch, b) == drun(t, ch, b) decreases b
{
    if b > 2 + 2 * ch { lemma_drun_prefix(s, t, ch, b - 1); }
    else { assert(d0(s, ch).p =~= d0(t, ch).p); assert(d0(s, ch).k =~= d0(t, ch).k); assert(d0(s, ch).out =~= d0(t, ch).out); }
}
/// the decoder follows one more byte
pub proof fn lemma_push(s: Seq<u8>, e: u8, ch: int) requires 1 <= ch <= 2, 2 + 2 * ch <= s.len()
    ensures drun(s.push(e), ch, s.len() as int + 1) == dstep(drun(s, ch, s.len() as int), e, s[1], ch)
{ lemma_drun_prefix(s, s.push(e), ch, s.len() as int); assert(s.push(e)[s.len() as int] == e); assert(s.push(e)[1] == s[1]); }
pub proof fn lemma_push_all(ch: int) requires 1 <= ch <= 2
    ensures forall|s: Seq<u8>, e: u8, n: int| n == s.len() + 1 && 2 + 2 * ch <= s.len() ==> #[trigger] drun(s.push(e), ch, n) == dstep(drun(s, ch, s.len() as int), e, s[1], ch)
{ assert forall|s: Seq<u8>, e: u8, n: int| n == s.len() + 1 && 2 + 2 * ch <= s.len() implies #[trigger] drun(s.push(e), ch, n) == dstep(drun(s, ch, s.len() as int), e, s[1], ch) by { lemma_push(s, e, ch); } }
pub proof fn lemma_count(s: Seq<u8>, ch: int, b: int) requires 1 <= ch <= 2, 2 + 2 * ch <= b <= s.len()
    ensures drun(s, ch, b).out.len() + codes(s, b) == ch + codes(s, 2 + 2 * ch) decreases b
{ if b > 2 + 2 * ch { lemma_count(s, ch, b - 1); lemma_drun(s, ch, b - 1); lemma_dstep_good(drun(s, ch, b - 1), s[b - 1], s[1], ch); } }
pub proof fn lemma_count_mono(s: Seq<u8>, ch: int, a: int, b: int) requires 1 <= ch <= 2, 2 + 2 * ch <= a <= b <= s.len()
    ensures drun(s, ch, a).out.len() <= drun(s, ch, b).out.len() decreases b - a
{ if a < b { lemma_count_mono(s, ch, a, b - 1); lemma_drun(s, ch, b - 1); lemma_dstep_good(drun(s, ch, b - 1), s[b - 1], s[1], ch); } }
pub proof fn lemma_shr(s: i32, n: u8) requires 0 <= s, n < 32 ensures 0 <= s >> n <= s
{ assert(0 <= s && n < 32 ==> 0 <= s >> n && s >> n <= s) by (bit_vector); }
pub proof fn lemma_dsum(e: u8, s: i32) requires 0 <= s <= 32767 ensures 0 <= dsum(e, s) <= 6 * s
{ lemma_shr(s, 1); lemma_shr(s, 2); lemma_shr(s, 3); lemma_shr(s, 4); lemma_shr(s, 5); }
/// setting the next magnitude bit adds its share
pub proof fn lemma_bit(e: u8, b: u8, s: i32, w: i32)
    requires b == 1 && w == s || b == 2 && w == s >> 1u8 || b == 4 && w == s >> 2u8 || b == 8 && w == s >> 3u8 || b == 0x10 && w == s >> 4u8 || b == 0x20 && w == s >> 5u8, e & 0x3F < b, e < 0x80
    ensures dsum(e | b, s) == dsum(e, s) + w, (e | b) & 0x3F < 2 * b, (e | b) < 0x80, e & 0x3F < 2 * b
{
    if b == 1 { assert(e & 0x3F < 1 && e < 0x80 ==> e & 1 == 0 && (e | 1) & 1 != 0 && (e | 1) & 2 == e & 2 && (e | 1) & 4 == e & 4 && (e | 1) & 8 == e & 8 && (e | 1) & 0x10 == e & 0x10 && (e | 1) & 0x20 == e & 0x20 && (e | 1) & 0x3F < 2 && (e | 1) < 0x80) by (bit_vector); }
    else if b == 2 { assert(e & 0x3F < 2 && e < 0x80 ==> e & 2 == 0 && (e | 2) & 2 != 0 && (e | 2) & 1 == e & 1 && (e | 2) & 4 == e & 4 && (e | 2) & 8 == e & 8 && (e | 2) & 0x10 == e & 0x10 && (e | 2) & 0x20 == e & 0x20 && (e | 2) & 0x3F < 4 && (e | 2) < 0x80) by (bit_vector); }
    else if b == 4 { assert(e & 0x3F < 4 && e < 0x80 ==> e & 4 == 0 && (e | 4) & 4 != 0 && (e | 4) & 1 == e & 1 && (e | 4) & 2 == e & 2 && (e | 4) & 8 == e & 8 && (e | 4) & 0x10 == e & 0x10 && (e | 4) & 0x20 == e & 0x20 && (e | 4) & 0x3F < 8 && (e | 4) < 0x80) by (bit_vector); }
    else if b == 8 { assert(e & 0x3F < 8 && e < 0x80 ==> e & 8 == 0 && (e | 8) & 8 != 0 && (e | 8) & 1 == e & 1 && (e | 8) & 2 == e & 2 && (e | 8) & 4 == e & 4 && (e | 8) & 0x10 == e & 0x10 && (e | 8) & 0x20 == e & 0x20 && (e | 8) & 0x3F < 0x10 && (e | 8) < 0x80) by (bit_vector); }
    else if b == 0x10 { assert(e & 0x3F < 0x10 && e < 0x80 ==> e & 0x10 == 0 && (e | 0x10) & 0x10 != 0 && (e | 0x10) & 1 == e & 1 && (e | 0x10) & 2 == e & 2 && (e | 0x10) & 4 == e & 4 && (e | 0x10) & 8 == e & 8 && (e | 0x10) & 0x20 == e & 0x20 && (e | 0x10) & 0x3F < 0x20 && (e | 0x10) < 0x80) by (bit_vector); }
    else { assert(e & 0x3F < 0x20 && e < 0x80 ==> e & 0x20 == 0 && (e | 0x20) & 0x20 != 0 && (e | 0x20) & 1 == e & 1 && (e | 0x20) & 2 == e & 2 && (e | 0x20) & 4 == e & 4 && (e | 0x20) & 8 == e & 8 && (e | 0x20) & 0x10 == e & 0x10 && (e | 0x20) & 0x3F < 0x40 && (e | 0x20) < 0x80) by (bit_vector); }
}
/// w is the share of magnitude bit b
pub open spec fn wbit(b: u8, s: i32, w: i32) -> bool { b == 1 && w == s || b == 2 && w == s >> 1u8 || b == 4 && w == s >> 2u8 || b == 8 && w == s >> 3u8 || b == 0x10 && w == s >> 4u8 || b == 0x20 && w == s >> 5u8 || b == 0x40 && w == s >> 6u8 }
pub proof fn lemma_shl(b: u8, s: i32) requires b == 1 || b == 2 || b == 4 || b == 8 || b == 0x10 || b == 0x20, 0 <= s ensures b << 1 == 2 * b, (s >> 1u8) >> 1u8 == s >> 2u8, (s >> 2u8) >> 1u8 == s >> 3u8, (s >> 3u8) >> 1u8 == s >> 4u8, (s >> 4u8) >> 1u8 == s >> 5u8, (s >> 5u8) >> 1u8 == s >> 6u8
{
    assert(b == 1 || b == 2 || b == 4 || b == 8 || b == 0x10 || b == 0x20 ==> b << 1 == 2 * b) by (bit_vector);
    assert((s >> 1u8) >> 1u8 == s >> 2u8 && (s >> 2u8) >> 1u8 == s >> 3u8 && (s >> 3u8) >> 1u8 == s >> 4u8 && (s >> 4u8) >> 1u8 == s >> 5u8 && (s >> 5u8) >> 1u8 == s >> 6u8) by (bit_vector);
}
pub proof fn lemma_dsum0(e: u8, s: i32) requires e == 0 || e == 0x40 ensures dsum(e, s) == 0, e & 0x3F == 0
{
    assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0 && 0u8 & 8 == 0 && 0u8 & 0x10 == 0 && 0u8 & 0x20 == 0 && 0u8 & 0x3F == 0) by (bit_vector);
    assert(0x40u8 & 1 == 0 && 0x40u8 & 2 == 0 && 0x40u8 & 4 == 0 && 0x40u8 & 8 == 0 && 0x40u8 & 0x10 == 0 && 0x40u8 & 0x20 == 0 && 0x40u8 & 0x3F == 0) by (bit_vector);
}
/// markers still affordable at step index k
pub open spec fn phi(k: int) -> int { (88 - k + 7) / 8 }
pub open spec fn phis(k: Seq<usize>) -> int { if k.len() == 1 { phi(k[0] as int) } else { phi(k[0] as int) + phi(k[1] as int) } }

// ---------- the code ----------
//@extract mopaq/src/compression/algorithms/adpcm.rs read_sample
//@opts ret=r
//@spec
    requires sample_index <= 0x3FFF_FFFF_FFFF_FFFF
    ensures (2 * sample_index + 1 < input@.len()) == (r is Ok), r is Ok ==> r->Ok_0 == rs(input@, sample_index as int)
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs write_sample
//@spec
    ensures final(output)@ == old(output)@ + sb(sample)
//@body-end
    proof { assert(output@ =~= old(output)@ + sb(sample)); }
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs get_next_step_index
//@opts ret=r
//@spec
    requires step_index <= 88
    ensures r == nxt(step_index as int, encoded_sample), r <= 88, r + 1 >= step_index
//@body-start
    proof { lemma_next(encoded_sample); }
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs update_predicted_sample
//@opts ret=r
//@subst new_sample.clamp( ==> vp_clamp(new_sample,
//@spec
    requires -32768 <= predicted_sample <= 32767, 0 <= difference <= 0x100_0000
    ensures r == upd(predicted_sample as int, encoded_sample, difference as int), -32768 <= r <= 32767
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs decode_sample
//@opts ret=r
//@spec
    requires -32768 <= predicted_sample <= 32767, 0 <= step_size <= 32767, 0 <= base_difference <= 32767
    ensures r == upd(predicted_sample as int, encoded_sample, base_difference + dsum(encoded_sample, step_size)), -32768 <= r <= 32767
//@body-start
    proof { lemma_shr(step_size, 1); lemma_shr(step_size, 2); lemma_shr(step_size, 3); lemma_shr(step_size, 4); lemma_shr(step_size, 5); }
//@end
/// decoding stopped at position p
pub open spec fn stopped(s: Seq<u8>, ch: int, n: int, p: int) -> bool {
    2 + 2 * ch <= p <= s.len() && (p == s.len() || 2 * drun(s, ch, p).out.len() >= n) && forall|q: int| 2 + 2 * ch <= q < p ==> 2 * (#[trigger] drun(s, ch, q)).out.len() < n
}
//@extract mopaq/src/compression/algorithms/adpcm.rs decompress_internal
//@opts ret=r
//@spec
    requires len_ok(input@.len() as int), len_ok(output_size + 2),
    ensures (channel_count < 1 || channel_count > 2) ==> r is Err,
        1 <= channel_count <= 2 && input@.len() >= 2 + 2 * channel_count ==> r is Ok,
        1 <= channel_count <= 2 && r is Ok && (input@.len() > 0 || output_size > 0) ==> input@.len() >= 2 + 2 * channel_count && exists|p: int| stopped(input@, channel_count as int, output_size as int, p) && r->Ok_0@ == ser((#[trigger] drun(input@, channel_count as int, p)).out),
//@loop 0
    invariant 1 <= channel_count <= 2, len_ok(input@.len() as int), input@.len() >= 4, len_ok(output_size + 2), vp_n0 == channel_count, predicted_samples@.len() == channel_count, input_pos == 2 + 2 * vp_i0, input_pos <= input@.len(), 
        forall|i: int| 0 <= i < vp_i0 ==> predicted_samples@[i] == rs(input@, 1 + i), output@ == ser(Seq::new(vp_i0 as nat, |i: int| rs(input@, 1 + i))), output@.len() == 2 * vp_i0
//@loop-end 0
    proof { let f = |i: int| rs(input@, 1 + i); assert(Seq::new((vp_i0 + 1) as nat, f) =~= Seq::new(vp_i0 as nat, f).push(rs(input@, 1 + vp_i0))); lemma_ser_push(Seq::new(vp_i0 as nat, f), rs(input@, 1 + vp_i0)); }
//@loop 1
    invariant 1 <= channel_count <= 2, len_ok(input@.len() as int), len_ok(output_size + 2), 2 + 2 * channel_count <= input_pos <= input@.len(), bit_shift == input@[1],
        drun(input@, channel_count as int, input_pos as int) == (Ad { c: channel_index as int, p: predicted_samples@, k: step_indexes@, out }), output@ == ser(out), output@.len() < output_size + 2 || output@.len() <= 4,
        forall|q: int| 2 + 2 * channel_count <= q < input_pos ==> 2 * (#[trigger] drun(input@, channel_count as int, q)).out.len() < output_size,
    decreases input@.len() - input_pos
//@loop-before 1
    let ghost mut out = predicted_samples@;
    proof { assert(predicted_samples@ =~= d0(input@, channel_count as int).p); assert(step_indexes@ =~= d0(input@, channel_count as int).k); assert(d0(input@, channel_count as int).out =~= d0(input@, channel_count as int).p); assert(Seq::new(channel_count as nat, |i: int| rs(input@, 1 + i)) =~= d0(input@, channel_count as int).p); }
//@loop-start 1
    let ghost s0 = drun(input@, channel_count as int, input_pos as int);
    proof {
        lemma_drun(input@, channel_count as int, input_pos as int); lemma_ser_len(out);
        let c = (channel_index + 1) % (channel_count as int);
        assert(0 <= c < channel_count);
        lemma_step(step_indexes@[c] as int); lemma_shr(step_of(step_indexes@[c] as int), capshift(bit_shift));
        out = dstep(s0, input@[input_pos as int], bit_shift, channel_count as int).out;
        if input@[input_pos as int] != 0x81 { lemma_ser_push(s0.out, out.last()); }
    }
//@loop-end 1
    proof {
        lemma_ser_len(out);
        let c = (s0.c + 1) % (channel_count as int);
        if channel_count == 1 { } else { assert(channel_count == 2); }
        assert(channel_index == drun(input@, channel_count as int, input_pos as int).c);
        assert(predicted_samples@ =~= drun(input@, channel_count as int, input_pos as int).p);
        assert(step_indexes@ =~= drun(input@, channel_count as int, input_pos as int).k);
    }
//@before-tail
    proof { lemma_ser_len(out); assert(stopped(input@, channel_count as int, output_size as int, input_pos as int)); }
//@end
/// what the encoder guarantees about its stream
pub open spec fn ad_enc(s: Seq<u8>, ch: int, x: Seq<u8>) -> bool {
    &&& s.len() >= 2 + 2 * ch
    &&& drun(s, ch, s.len() as int).out.len() * 2 == x.len()
    &&& forall|i: int| 0 <= i < ch ==> rs(s, 1 + i) == #[trigger] rs(x, i)
    &&& s.len() > 2 + 2 * ch ==> s.last() != 0x81
}
//@extract mopaq/src/compression/algorithms/adpcm.rs compress_internal
//@opts ret=r
//@subst std::cmp::min( ==> vp_minb(
//@subst compression_level as i32 ==> compression_level
//@subst bit_shift as i32 ==> bit_shift
//@spec
    requires compression_level <= 9, len_ok((8 * input@.len() + 64) as int)
    ensures 1 <= channel_count <= 2 && input@.len() > 0 && input@.len() % 2 == 0 && (input@.len() / 2) % (channel_count as nat) == 0 ==> r is Ok,
        r is Ok ==> 1 <= channel_count <= 2 && r->Ok_0@.len() <= 4 * input@.len(),
        r is Ok && input@.len() > 0 ==> ad_enc(r->Ok_0@, channel_count as int, input@),
        r is Ok && input@.len() == 0 ==> r->Ok_0@.len() == 0,
//@loop 0
    invariant 1 <= channel_count <= 2, input@.len() >= 2 * channel_count, len_ok((8 * input@.len() + 64) as int), vp_n0 == channel_count, predicted_samples@.len() == channel_count, output@.len() == 2 + 2 * ch, output@[0] == 0, output@[1] == bit_shift,
        forall|i: int| 0 <= i < ch ==> output@[2 + 2 * i] == #[trigger] input@[2 * i] && output@[3 + 2 * i] == input@[2 * i + 1],
        forall|i: int| 0 <= i < ch ==> #[trigger] predicted_samples@[i] == rs(input@, i),
//@loop-start 0
    let ghost vp_o = output@;
    proof { lemma_sb(input@[2 * ch], input@[2 * ch + 1]); }
//@loop-end 0
    proof {
        assert(output@.len() == vp_o.len() + 2 && output@[2 + 2 * ch] == input@[2 * ch] && output@[3 + 2 * ch] == input@[2 * ch + 1]);
        assert forall|i: int| 0 <= i < ch + 1 implies output@[2 + 2 * i] == #[trigger] input@[2 * i] && output@[3 + 2 * i] == input@[2 * i + 1] by {
            if i < ch { assert(vp_o[2 + 2 * i] == input@[2 * i] && vp_o[3 + 2 * i] == input@[2 * i + 1]); assert(output@[2 + 2 * i] == vp_o[2 + 2 * i] && output@[3 + 2 * i] == vp_o[3 + 2 * i]); } else { assert(i == ch); }
        }
    }
//@loop 1
    invariant 1 <= channel_count <= 2, len_ok((8 * input@.len() + 64) as int), input@.len() == 2 * samples_count, channel_count <= sample_index <= samples_count, compression_level <= 9, bit_shift == if compression_level == 0 { 0u8 } else { (compression_level - 1) as u8 },
        output@.len() >= 2 + 2 * channel_count, output@[1] == bit_shift, predicted_samples@.len() == channel_count, step_indexes@.len() == channel_count, channel_index < channel_count,
        forall|i: int| 0 <= i < channel_count ==> rs(output@, 1 + i) == #[trigger] rs(input@, i),
        forall|i: int| 0 <= i < channel_count ==> step_indexes@[i] <= 88,
        drun(output@, channel_count as int, output@.len() as int) == (Ad { c: channel_index as int, p: predicted_samples@, k: step_indexes@, out: trace }), trace.len() == sample_index,
        output@.len() > 2 + 2 * channel_count ==> output@.last() != 0x81,
        output@.len() + phis(step_indexes@) <= 2 + 8 * channel_count + 2 * (sample_index - channel_count), sample_index == channel_count ==> output@.len() == 2 + 2 * channel_count,
    decreases samples_count - sample_index
//@loop-before 1
    // what the encoder predicts for every sample
    let ghost mut trace = predicted_samples@;
    proof {
        assert forall|i: int| 0 <= i < channel_count implies rs(output@, 1 + i) == #[trigger] rs(input@, i) by { assert(output@[2 + 2 * i] == input@[2 * i]); }
        assert forall|i: int| 0 <= i < channel_count implies predicted_samples@[i] == #[trigger] d0(output@, channel_count as int).p[i] by { assert(rs(output@, 1 + i) == rs(input@, i)); } assert(predicted_samples@ =~= d0(output@, channel_count as int).p); assert(step_indexes@ =~= d0(output@, channel_count as int).k); assert(d0(output@, channel_count as int).out =~= d0(output@, channel_count as int).p);
    }
//@loop-start 1
    let ghost c0 = channel_index as int;
    let ghost c1 = (channel_index + 1) % (channel_count as int);
    let ghost k0 = step_indexes@;
    proof { assert(0u8 | 0x40 == 0x40) by (bit_vector); lemma_push_all(channel_count as int); assert(0 <= c1 < channel_count); lemma_step(step_indexes@[c1] as int); lemma_shr(step_of(step_indexes@[c1] as int), compression_level); }
//@loop-end 1
    proof {
        trace = trace.push(predicted_samples@[channel_index as int]);
        assert(step_indexes@ =~= drun(output@, channel_count as int, output@.len() as int).k);
        assert(predicted_samples@ =~= drun(output@, channel_count as int, output@.len() as int).p);
        assert(trace =~= drun(output@, channel_count as int, output@.len() as int).out);
    }
//@after-let samples_per_channel
    proof { if channel_count == 1 { } else { assert(channel_count == 2); } }
//@after-let base_difference
    proof { lemma_shr(step_size, bit_shift); lemma_dsum0(encoded_sample, step_size); }
//@loop 2
    invariant 1 <= channel_count <= 2, channel_index == c1, c1 == (c0 + 1) % (channel_count as int), 0 <= c0 < channel_count, 0 <= c1 < channel_count, output@.len() >= 2 + 2 * channel_count, output@[1] == bit_shift, len_ok((8 * input@.len() + 64) as int), input@.len() == 2 * samples_count, channel_count <= sample_index < samples_count,
        predicted_samples@.len() == channel_count, step_indexes@.len() == channel_count,
        forall|i: int| 0 <= i < channel_count ==> rs(output@, 1 + i) == #[trigger] rs(input@, i),
        forall|i: int| 0 <= i < channel_count ==> step_indexes@[i] <= 88,
        step_size == step_of(step_indexes@[c1] as int), 7 <= step_size <= 32767,
        drun(output@, channel_count as int, output@.len() as int) == (Ad { c: c0, p: predicted_samples@, k: step_indexes@, out: trace }),
        output@.len() + phis(step_indexes@) <= 2 + 8 * channel_count + 2 * (sample_index - channel_count),
    decreases 88 - step_indexes@[c1]
//@loop-end 2
    proof { assert(step_indexes@ =~= kk.update(c1, if kk[c1] + 8 > 0x58 { 0x58usize } else { (kk[c1] + 8) as usize })); }
//@loop-start 2
    let ghost kk = step_indexes@;
    proof { lemma_push_all(channel_count as int); lemma_step(if step_indexes@[c1] + 8 > 88 { 88 } else { step_indexes@[c1] + 8 }); }
//@loop 3
    invariant wbit(bit_val, step_size, step_size_work), max_bit_mask <= 0x20, 0 <= step_size <= 32767, 0 <= step_size_work <= 32767, total_step_size == dsum(encoded_sample, step_size), encoded_sample & 0x3F < bit_val, encoded_sample < 0x80, 0 <= total_step_size, total_step_size <= difference, 0 <= difference <= 65535
    decreases 0x80 - bit_val
//@loop-before 3
    proof { lemma_dsum0(encoded_sample, step_size); }
//@loop-start 3
    proof { lemma_bit(encoded_sample, bit_val, step_size, step_size_work); lemma_shr(step_size_work, 1); lemma_shl(bit_val, step_size); }
//@end
/// the encoder's stream is one that decodes to the right length
pub proof fn lemma_enc_fits(s: Seq<u8>, ch: int, x: Seq<u8>) requires ad_enc(s, ch, x), 1 <= ch <= 2 ensures ad_fits(s, ch, x.len() as int)
{ lemma_count(s, ch, s.len() as int); lemma_drun(s, ch, s.len() as int); }
pub proof fn lemma_fit_len(s: Seq<u8>, ch: int, n: int, p: int) requires ad_fits(s, ch, n), 1 <= ch <= 2, stopped(s, ch, n, p) ensures 2 * drun(s, ch, p).out.len() == n
{
    lemma_count(s, ch, s.len() as int); lemma_drun(s, ch, p);
    if p > 2 + 2 * ch { let t = drun(s, ch, p - 1); assert(2 * t.out.len() < n); lemma_drun(s, ch, p - 1); lemma_dstep_good(t, s[p - 1], s[1], ch); }
}
//@extract mopaq/src/compression/algorithms/adpcm.rs compress_mono
//@opts ret=r
//@spec
    requires compression_level <= 9, len_ok((8 * input@.len() + 64) as int)
    ensures r is Ok && input@.len() > 0 ==> ad_enc(r->Ok_0@, 1, input@) && ad_fits(r->Ok_0@, 1, input@.len() as int), input@.len() == 0 && r is Ok ==> r->Ok_0@.len() == 0, r is Ok ==> r->Ok_0@.len() <= 4 * input@.len()
//@body-start
    proof { assert forall|s: Seq<u8>| #[trigger] ad_enc(s, 1, input@) implies ad_fits(s, 1, input@.len() as int) by { lemma_enc_fits(s, 1, input@); } }
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs compress_stereo
//@opts ret=r
//@spec
    requires compression_level <= 9, len_ok((8 * input@.len() + 64) as int)
    ensures r is Ok && input@.len() > 0 ==> ad_enc(r->Ok_0@, 2, input@) && ad_fits(r->Ok_0@, 2, input@.len() as int), input@.len() == 0 && r is Ok ==> r->Ok_0@.len() == 0, r is Ok ==> r->Ok_0@.len() <= 4 * input@.len()
//@body-start
    proof { assert forall|s: Seq<u8>| #[trigger] ad_enc(s, 2, input@) implies ad_fits(s, 2, input@.len() as int) by { lemma_enc_fits(s, 2, input@); } }
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs decompress_mono
//@opts ret=r
//@spec
    requires len_ok(input@.len() as int), len_ok(output_size + 2),
    ensures ad_fits(input@, 1, output_size as int) ==> r is Ok && r->Ok_0@.len() == output_size,
        ad_fits(input@, 1, output_size as int) ==> exists|p: int| stopped(input@, 1, output_size as int, p) && r->Ok_0@ == ser((#[trigger] drun(input@, 1, p)).out),
//@body-start
    proof { assert forall|p: int| ad_fits(input@, 1, output_size as int) && stopped(input@, 1, output_size as int, p) implies ser((#[trigger] drun(input@, 1, p)).out).len() == output_size by { lemma_fit_len(input@, 1, output_size as int, p); lemma_ser_len(drun(input@, 1, p).out); } }
//@end
//@extract mopaq/src/compression/algorithms/adpcm.rs decompress_stereo
//@opts ret=r
//@spec
    requires len_ok(input@.len() as int), len_ok(output_size + 2),
    ensures ad_fits(input@, 2, output_size as int) ==> r is Ok && r->Ok_0@.len() == output_size,
        ad_fits(input@, 2, output_size as int) ==> exists|p: int| stopped(input@, 2, output_size as int, p) && r->Ok_0@ == ser((#[trigger] drun(input@, 2, p)).out),
//@body-start
    proof { assert forall|p: int| ad_fits(input@, 2, output_size as int) && stopped(input@, 2, output_size as int, p) implies ser((#[trigger] drun(input@, 2, p)).out).len() == output_size by { lemma_fit_len(input@, 2, output_size as int, p); lemma_ser_len(drun(input@, 2, p).out); } }
//@end
/// THEOREM: original length, exact first samples, and every sample the one the encoder predicted (its trace: loop invariant of compress_internal, which equals drun(..).out)
fn vp_adpcm_roundtrip(input: &[u8], level: u8, stereo: bool) -> (r: Result<Vec<u8>>)
    requires level <= 9, 0 < input@.len(), len_ok((8 * input@.len() + 64) as int), input@.len() % 4 == 0 || !stereo && input@.len() % 2 == 0
    ensures r is Ok, r->Ok_0@.len() == input@.len(), forall|i: int| 0 <= i < (if stereo { 4int } else { 2int }) ==> r->Ok_0@[i] == input@[i],
        exists|s: Seq<u8>, ch: int| ch == (if stereo { 2int } else { 1int }) && ad_enc(s, ch, input@) && r->Ok_0@ == ser((#[trigger] drun(s, ch, s.len() as int)).out),
{
    let ch: usize = if stereo { 2 } else { 1 };
    let c = compress_internal(input, level, ch)?;
    proof { lemma_enc_fits(c@, ch as int, input@); }
    let r = decompress_internal(&c, input.len(), ch)?;
    proof {
        let p = choose|p: int| stopped(c@, ch as int, input@.len() as int, p) && r@ == ser((#[trigger] drun(c@, ch as int, p)).out);
        lemma_fit_len(c@, ch as int, input@.len() as int, p); lemma_ser_len(drun(c@, ch as int, p).out);
        if p < c@.len() { // the last byte is a sample, so stopping earlier would have been too early
            let n = c@.len() as int;
            lemma_count_mono(c@, ch as int, p, n - 1); lemma_drun(c@, ch as int, n - 1); lemma_dstep_good(drun(c@, ch as int, n - 1), c@[n - 1], c@[1], ch as int);
            assert(false);
        }
        lemma_drun(c@, ch as int, p);
        let o = drun(c@, ch as int, p).out;
        assert forall|i: int| 0 <= i < ch implies #[trigger] r@[2 * i] == input@[2 * i] && r@[2 * i + 1] == input@[2 * i + 1] by {
            lemma_ser_at(o, i); assert(o[i] == rs(c@, 1 + i)); assert(rs(c@, 1 + i) == rs(input@, i)); lemma_sb(input@[2 * i], input@[2 * i + 1]);
        }
        assert(r@[2 * 0int] == input@[2 * 0int]); if stereo { assert(r@[2 * 1int] == input@[2 * 1int]); }
    }
    Ok(r)
}
fn main() {}
}
