use crate::ctx::*;
use crate::mpq;
use mopaq::compression::{compress, decompress};

fn lossy(m: u8) -> bool { m & 0xC0 != 0 }
/// the round-trip contract of one input and one method byte; Ok(false) when the method refuses the input
pub fn check(p: &[u8], m: u8) -> Result<bool, String> {
    let z = match compress(p, m) { Ok(z) => z, Err(_) => return Ok(false) };
    if z.len() == p.len() { eq_bytes("result of the input's length must be the input", &z, p)?; return Ok(true); }
    ensure(z.len() < p.len(), || format!("result has {} bytes, input {}", z.len(), p.len()))?;
    eq("method byte", &z[0], &m)?;
    let d = decompress(&z[1..], m, p.len()).map_err(|e| format!("decompress: {:?}", e))?;
    if lossy(m) { eq("decompressed length", &d.len(), &p.len())?; } else { eq_bytes("decompressed", &d, p)?; }
    Ok(true)
}
pub const SUPPORTED: [u8; 16] = [0, 0x02, 0x08, 0x10, 0x12, 0x20, 0x40, 0x80, 0x42, 0x82, 0x50, 0x90, 0x60, 0xA0, 0x48, 0x88];
fn alphabet(r: &mut Rng, n: usize, k: u8) -> Vec<u8> { (0..n).map(|_| b'a' + (r.below(k as u64) as u8)).collect() }
pub fn run(c: &mut Ctx) {
    c.bound("all 256 method bytes; input lengths 0..=80 and up to 70000, a dozen of 1 to 17 MiB; constant, periodic, text, random, zero-run and audio-like contents, and random prefixes followed by runs of every length 0..=60 so that compressed sizes straddle the input size");
    let mut r = c.rng("c06");
    let mut go = |c: &mut Ctx, g: &str, m: u8, p: Vec<u8>, must: bool| {
        c.case(g, &|| format!("method={:#04x} len={} bytes={}", m, p.len(), hex(&p[..p.len().min(4000)])), || {
            let ok = check(&p, m)?;
            // a supported method refuses nothing (audio: whole sample frames only)
            let frame = if m & 0x80 != 0 { 4 } else if m & 0x40 != 0 { 2 } else { 1 };
            if must && p.len() % frame == 0 && !ok { return Err("refused".into()); }
            Ok(())
        });
    };
    for m in 0..=255u8 { for k in 0..8 { let n = match k { 0 => 0, 1 => 1, 2 => 40, _ => 4 * r.range(1, 300) as usize }; let p = mpq::data(&mut r, n); go(c, "every-method-byte", m, p, false); } }
    for m in SUPPORTED {
        for n in 0..=80usize { for _ in 0..3 { let p = mpq::data(&mut r, n); go(c, "short", m, p, true); } }
        // straddle the input size: random head, compressible tail
        for head in [0usize, 8, 16, 40] { for tail in 0..=60usize { let mut p = r.bytes(head); p.extend(vec![0u8; tail]); go(c, "straddle", m, p, true); let mut p = r.bytes(head); p.extend(std::iter::repeat(b'x').take(tail)); go(c, "straddle", m, p, true); } }
        for n in (2..=260usize).step_by(3) { let k = r.range(1, 60) as u8; let p = alphabet(&mut r, n, k); go(c, "straddle", m, p, true); }
    }
    for m in [0x08u8, 0x48, 0x88] { for n in [4092usize, 4095, 4096, 4097, 4100, 8188, 8192, 8196, 8708, 8712, 16384, 17000, 33000] { for _ in 0..4 { let p = mpq::data(&mut r, n); go(c, "window", m, p, true); } } }
    // larger than any buffer or limit on the way: the builder's largest sectors are far above this
    for (m, l) in [(0x02u8, 1 << 20), (0x02, (1 << 20) + 4), (0x10, (1 << 20) + 4), (0x12, (1 << 20) + 4), (0x20, (1 << 20) + 4), (0x40, (1 << 20) + 4), (0x80, (1 << 20) + 4), (0x42, (1 << 20) + 4), (0x82, (1 << 20) + 4), (0x60, (1 << 20) + 4), (0x02, 17 << 20), (0x20, 17 << 20), (0x10, 9 << 20)] {
        let b = r.bytes(4096); let p: Vec<u8> = (0..l).map(|i: usize| if (i >> 12) % 3 == 0 { b[i & 4095] } else { 0 }).collect(); go(c, "large", m, p, true);
    }
    let n = c.n(4000, 20000);
    for i in 0..n { if c.out_of_time() { break; }
        let m = SUPPORTED[i as usize % SUPPORTED.len()];
        let l = match r.below(10) { 0 => r.below(70000), 1 => r.pick(&[511u64, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537]), 2..=4 => r.below(6000), _ => r.below(600) } as usize;
        let p = mpq::data(&mut r, l);
        go(c, "random", m, p, true);
    }
    // independent decoders for the two library formats
    let n = c.n(300, 4000);
    for _ in 0..n { if c.out_of_time() { break; }
        let l = r.below(5000) as usize; let p = mpq::data(&mut r, l);
        c.case("none", &|| format!("method=0 len={}", p.len()), || { eq_bytes("compress with no method", &compress(&p, 0).map_err(|e| format!("{:?}", e))?, &p) });
    }
}
