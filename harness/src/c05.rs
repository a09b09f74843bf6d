use crate::ctx::*;
use crate::spec::sparse_decode;
use mopaq::compression::{compress, decompress, flags};

/// byte strings made of alternating zero / non-zero runs
pub fn runs(r: &mut Rng, lens: &[usize], start_zero: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut z = start_zero;
    for &l in lens { for _ in 0..l { v.push(if z { 0 } else { (r.below(255) + 1) as u8 }); } z = !z; }
    v
}
pub fn check(x: &[u8]) -> Chk {
    #[cfg(vp_hooks = "compression")]
    {
        let s = mopaq::compression::vp_hooks::sparse_compress(x).map_err(|e| format!("compress failed: {:?}", e))?;
        let m = sparse_decode(&s).ok_or_else(|| format!("compressed stream is not a complete record stream: {}", clip(&hex(&s), 200)))?;
        eq_bytes("meaning of the compressed stream", &m, x)?;
        let d = mopaq::compression::vp_hooks::sparse_decompress(&s, x.len()).map_err(|e| format!("decompress failed: {:?}", e))?;
        eq_bytes("decompress(compress(x))", &d, x)?;
    }
    let c = compress(x, flags::SPARSE).map_err(|e| format!("compress failed: {:?}", e))?;
    if c.len() >= x.len() { return eq_bytes("uncompressed fallback", &c, x); }
    if c[0] != flags::SPARSE { return Err(format!("method byte {:#x}", c[0])); }
    let m = sparse_decode(&c[1..]).ok_or_else(|| format!("compressed stream is not a complete record stream: {}", clip(&hex(&c), 200)))?;
    eq_bytes("meaning of the compressed stream", &m, x)?;
    let d = decompress(&c[1..], c[0], x.len()).map_err(|e| format!("decompress failed: {:?}", e))?;
    eq_bytes("decompress(compress(x))", &d, x)
}
fn stream_check(s: &[u8], size: usize) -> Chk {
    if s.is_empty() { return Ok(()); }
    let d = decompress(s, flags::SPARSE, size);
    // a stream may also end after its last whole record, without the end marker
    let meaning = sparse_decode(s).or_else(|| { let mut t = s.to_vec(); t.push(0xFF); sparse_decode(&t) });
    match (&d, meaning) {
        (Err(e), Some(m)) if m.len() == size => return Err(format!("valid stream rejected: {:?}", e)),
        (Ok(d), Some(m)) if m.len() == size => eq_bytes("decoded stream", d, &m)?,
        _ => {}
    }
    if let Ok(d) = d { ensure(d.len() >= size, || format!("only {} of {} bytes", d.len(), size))?; }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.bound("sparse: every run length 0..=300 alone and against neighbours 1,2,126..130; every pair of run lengths in 120..=135; random run structures; all strings over {0,1} up to length 12; random record streams for the decoder");
    let mut r = c.rng("sparse");
    let go = |c: &mut Ctx, g: &str, x: Vec<u8>| { c.case(g, &|| format!("len={} bytes={}", x.len(), hex(&x)), || check(&x)); };
    for n in 0..=300usize { for z in [true, false] { let x = runs(&mut r, &[n], z); go(c, "one-run", x);
        for m in [1usize, 2, 126, 127, 128, 129, 130] { let x = runs(&mut r, &[n, m], z); go(c, "two-runs", x); let x = runs(&mut r, &[m, n, m], z); go(c, "three-runs", x); } } }
    for a in 120..=135usize { for b in 120..=135usize { for z in [true, false] { let x = runs(&mut r, &[a, b, 3], z); go(c, "limit-pairs", x); } } }
    for k in 1..=9usize { for d in 0..3usize { for base in [126usize, 127, 128] { let n = base * k + d; let x = runs(&mut r, &[n, 5], true); go(c, "multiples", x); let x = runs(&mut r, &[n, 5], false); go(c, "multiples", x); } } }
    for len in 0..=12usize { for m in 0..(1u32 << len) { let x: Vec<u8> = (0..len).map(|i| ((m >> i) & 1) as u8 * 0x41).collect(); go(c, "binary", x); } }
    let n = c.n(20000, 300000);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = r.range(1, 8) as usize; let lens: Vec<usize> = (0..k).map(|_| match r.below(4) { 0 => r.below(4), 1 => r.range(120, 135), 2 => r.below(600), _ => r.below(40) } as usize).collect();
        let z = r.bool(); let x = runs(&mut r, &lens, z); go(c, "random-runs", x); }
    for n in [4096usize, 65536, 1 << 20] { let x = vec![0u8; n]; go(c, "big", x); let x = r.bytes(n); go(c, "big", x); }
    let n = c.n(20000, 200000);
    for _ in 0..n { if c.out_of_time() { break; }
        let mut s = vec![]; let mut out = 0usize;
        for _ in 0..r.below(6) { if r.bool() { let k = r.below(0x7F) as u8; s.push(0x80 + k); out += k as usize; } else { let k = r.below(0x80) as usize; s.push(k as u8); let b = r.bytes(k); s.extend(b); out += k; } }
        if r.below(8) != 0 { s.push(0xFF); }
        if r.below(16) == 0 && !s.is_empty() { let k = r.below(s.len() as u64) as usize; s.truncate(k); }
        let size = match r.below(4) { 0 => r.below(700) as usize, _ => out };
        c.case("stream", &|| format!("size={} stream={}", size, hex(&s)), || stream_check(&s, size)); }
}
