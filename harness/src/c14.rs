use crate::ctx::*;
use md5::{Digest, Md5};
use mopaq::crypto::{calculate_mpq_hash_md5, SignatureInfo};
use std::io::{Cursor, Read, Seek, SeekFrom};

/// hands out at most `max` bytes per read, as pipes and some file systems do
struct Short<'a> { c: Cursor<&'a [u8]>, max: Vec<usize>, i: usize }
impl Read for Short<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let m = self.max[self.i % self.max.len()].min(b.len()); self.i += 1; self.c.read(&mut b[..m]) }
}
impl Seek for Short<'_> { fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> { self.c.seek(s) } }

fn spec(d: &[u8], b: u64, e: u64, xb: u64, xe: u64) -> [u8; 16] {
    let e = e.min(d.len() as u64);
    let mut v: Vec<u8> = if b < e { d[b as usize..e as usize].to_vec() } else { vec![] };
    for (i, x) in v.iter_mut().enumerate() { let p = b + i as u64; if p >= xb && p < xe { *x = 0; } }
    Md5::digest(&v).into()
}
pub fn run(c: &mut Ctx) {
    c.bound("streams of up to 5*65536 bytes; begin, end and exclusion limits on and around every 65536 boundary, relative to the archive start and to the stream start, and at random; whole and short reads");
    let mut r = c.rng("c14");
    let big = r.bytes(5 * 65536 + 77).into_iter().map(|x| x | 1).collect::<Vec<u8>>();
    let n = c.n(4000, 40000);
    for it in 0..n { if c.out_of_time() { break; }
        let small = it % 4 == 3;
        let len = if small { r.below(300) } else { match r.below(3) { 0 => r.below(big.len() as u64), _ => (r.below(5) * 65536 + r.below(5)).min(big.len() as u64) } };
        let d = &big[..len as usize];
        let mut lim = |r: &mut Rng, base: u64| -> u64 { match r.below(6) { 0 => r.below(len + 200), 1 => base + r.below(200), 2 => len.saturating_sub(r.below(40)), 3 => u64::MAX - r.below(3), _ => (base + r.below(6) * if small { 16 } else { 65536 } + r.below(9)).saturating_sub(4) } };
        let b = match r.below(3) { 0 => 0, 1 => r.below(4) * 512, _ => r.below(len + 50) };
        let e = match r.below(3) { 0 => len, _ => lim(&mut r, b) };
        let (x1, x2) = match r.below(4) { 0 => { let p = lim(&mut r, b); (p, p.saturating_add(72)) } 1 => { let p = lim(&mut r, 0); (p, p) } _ => (lim(&mut r, b), lim(&mut r, b)) };
        let (xb, xe) = (x1.min(x2), x1.max(x2));
        let max: Vec<usize> = match r.below(3) { 0 => vec![usize::MAX], 1 => vec![1 + r.below(if small { 9 } else { 70000 }) as usize], _ => (0..r.range(1, 5)).map(|_| 1 + r.below(if small { 40 } else { 65536 }) as usize).collect() };
        if max.iter().copied().max().unwrap() < 64 && len > 3000 { continue; }
        c.case("digest", &|| format!("stream={} archive={}..{} excluded={}..{} reads-of-at-most={:?}", len, b, e, xb, xe, max), || {
            let s = SignatureInfo { begin_mpq_data: b, begin_exclude: xb, end_exclude: xe, end_mpq_data: e, end_of_file: e, signature: vec![], signature_size: 0, signature_types: 1 };
            let got = calculate_mpq_hash_md5(Short { c: Cursor::new(d), max: max.clone(), i: 0 }, &s).map_err(|e| format!("{:?}", e))?;
            eq("digest", &hex(&got), &hex(&spec(d, b, e, xb, xe)))
        });
    }
    let n = c.n(2000, 20000);
    for _ in 0..n {
        let (a, s, p, z) = (r.edge64(), r.edge64(), r.edge64(), r.edge64());
        c.case("range", &|| format!("new_weak({:#x},{:#x},{:#x},{:#x})", a, s, p, z), || {
            let i = SignatureInfo::new_weak(a, s, p, z, vec![1; 64]);
            eq("(begin, end, excluded)", &(i.begin_mpq_data, i.end_mpq_data, i.begin_exclude, i.end_exclude), &(a, a.saturating_add(s), p, p.saturating_add(z)))
        });
    }
}
