use crate::ctx::*;
use mopaq::compression::{compress, decompress};

const STEP: [i32; 89] = [7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130, 143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494, 544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552, 1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635, 13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767];
const NEXT: [i32; 32] = [-1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4, -1, 6, -1, 8];
/// what a conforming decoder makes of a stream (format description): whole samples, limited by the input
pub fn decode(s: &[u8], channels: usize, size: usize) -> Option<Vec<i16>> {
    if s.len() < 2 + 2 * channels { return None; }
    let shift = (s[1] as u32).min(31);
    let mut pred: Vec<i32> = (0..channels).map(|k| i16::from_le_bytes([s[2 + 2 * k], s[3 + 2 * k]]) as i32).collect();
    let mut out: Vec<i16> = pred.iter().map(|&x| x as i16).collect();
    let mut idx = vec![0x2Ci32; channels];
    let mut ch = 0;
    for &b in &s[2 + 2 * channels..] {
        if out.len() * 2 >= size { break; }
        match b {
            0x80 => { idx[ch] = (idx[ch] - 1).max(0); out.push(pred[ch] as i16); }
            0x81 => { idx[ch] = (idx[ch] + 8).min(88); continue; }
            _ => {
                let st = STEP[idx[ch] as usize];
                let mut d = st >> shift;
                for k in 0..6 { if b >> k & 1 == 1 { d += st >> k; } }
                pred[ch] = (if b & 0x40 != 0 { pred[ch] - d } else { pred[ch] + d }).clamp(-32768, 32767);
                out.push(pred[ch] as i16);
                idx[ch] = (idx[ch] + NEXT[(b & 31) as usize]).clamp(0, 88);
            }
        }
        ch = (ch + 1) % channels;
    }
    Some(out)
}
fn bytes(s: &[i16]) -> Vec<u8> { s.iter().flat_map(|x| x.to_le_bytes()).collect() }
fn samples(r: &mut Rng, n: usize) -> Vec<i16> {
    match r.below(7) {
        0 => vec![0; n],
        1 => (0..n).map(|_| r.pick(&[i16::MIN, i16::MAX, 0, -1, 1])).collect(),
        2 => (0..n).map(|_| r.u32() as i16).collect(),
        3 => { let a = r.u32() as i16; let s = r.range(1, 2000) as i16; (0..n).map(|i| a.wrapping_add(s.wrapping_mul(i as i16))).collect() }
        4 => (0..n).map(|i| if i / (1 + n / 7) % 2 == 0 { 30000 } else { -30000 }).collect(),
        5 => (0..n).map(|i| ((i as f64 * 0.13).sin() * 12000.0) as i16).collect(),
        _ => { let mut x = 0i32; let w = 1i64 << r.below(16); (0..n).map(|_| { x = (x + (r.below(2 * w as u64 + 1) as i64 - w) as i32).clamp(-32768, 32767); x as i16 }).collect() }
    }
}
/// every contract of encoder and decoder on one sample sequence, through the given functions
fn check(s: &[i16], ch: usize, enc: &dyn Fn(&[u8]) -> Result<Vec<u8>, String>, dec: &dyn Fn(&[u8], usize) -> Result<Vec<u8>, String>) -> Chk {
    let p = bytes(s);
    let z = enc(&p)?;
    let d = dec(&z, p.len())?;
    eq("decoded length", &d.len(), &p.len())?;
    eq_bytes("first sample of each channel", &d[..ch.min(s.len()) * 2], &p[..ch.min(s.len()) * 2])?;
    if s.is_empty() { return Ok(()); }
    let want = decode(&z, ch, p.len()).ok_or("stream too short")?;
    eq("the stream's own value for every sample", &bytes(&want), &d)?;
    Ok(())
}
/// the encoder's prediction (format description of the encoder), independent of its stream
fn encoder_prediction(s: &[i16], ch: usize, level: u8) -> Vec<i16> {
    let shift = level.saturating_sub(1) as u32;
    let mut out: Vec<i16> = s[..ch].to_vec();
    let mut pred: Vec<i32> = out.iter().map(|&x| x as i32).collect();
    let mut idx = vec![0x2Ci32; ch];
    for (i, &v) in s.iter().enumerate().skip(ch) {
        let c = i % ch;
        let neg = (v as i32) < pred[c];
        let diff = (v as i32 - pred[c]).abs();
        if diff < STEP[idx[c] as usize] >> level { idx[c] = (idx[c] - 1).max(0); out.push(pred[c] as i16); continue; }
        while diff > STEP[idx[c] as usize] * 2 && idx[c] < 88 { idx[c] = (idx[c] + 8).min(88); }
        let st = STEP[idx[c] as usize];
        let bits = shift.min(6);
        let (mut tot, mut code) = (0, 0u8);
        for k in 0..bits { if tot + (st >> k) <= diff { tot += st >> k; code |= 1 << k; } }
        let d = (st >> shift) + tot;
        pred[c] = (if neg { pred[c] - d } else { pred[c] + d }).clamp(-32768, 32767);
        out.push(pred[c] as i16);
        idx[c] = (idx[c] + NEXT[(code & 31) as usize]).clamp(0, 88);
    }
    out
}
pub fn run(c: &mut Ctx) {
    c.journal = true;
    c.bound("sample sequences of up to 3000 samples (silence, extremes, noise, ramps, square, sine, random walks), one and two channels, levels 0..=7; decoder on arbitrary bytes of up to 400 bytes, every shift byte, and output sizes smaller and larger than the stream");
    let mut r = c.rng("c07");
    let pubenc = |ch: usize| move |p: &[u8]| -> Result<Vec<u8>, String> {
        // the public entry point adds a method byte, or returns the input when that is not longer
        let m = if ch == 1 { 0x40 } else { 0x80 };
        let z = compress(p, m).map_err(|e| format!("compress: {:?}", e))?;
        if z.len() == p.len() { Err("raw".into()) } else { Ok(z[1..].to_vec()) }
    };
    let n = c.n(3000, 30000);
    for _ in 0..n { if c.out_of_time() { break; }
        let ch = r.range(1, 2) as usize;
        let k = ch * match r.below(5) { 0 => r.below(1500), _ => r.below(60) } as usize;
        let s = samples(&mut r, k);
        c.case("public", &|| format!("channels={} samples={:?}", ch, s), || {
            let e = pubenc(ch);
            let m = if ch == 1 { 0x40 } else { 0x80 };
            if let Ok(_) = e(&bytes(&s)) {
                check(&s, ch, &e, &|z, n| decompress(z, m, n).map_err(|e| format!("decompress: {:?}", e)))?;
                let d = decompress(&e(&bytes(&s))?, m, s.len() * 2).map_err(|e| format!("{:?}", e))?;
                eq("decoder output is the encoder's prediction", &d, &bytes(&encoder_prediction(&s, ch, 5)))?;
            }
            Ok(())
        });
    }
    #[cfg(vp_hooks = "compression")]
    {
        use mopaq::compression::vp_hooks as h;
        let n = c.n(12000, 120000);
        for i in 0..n { if c.out_of_time() { break; }
            let ch = r.range(1, 2) as usize; let lv = (i % 8) as u8;
            let k = ch * match r.below(6) { 0 => r.below(1500), 1 => r.below(4), _ => r.below(60) } as usize;
            let s = samples(&mut r, k);
            c.case("codec", &|| format!("level={} channels={} samples={:?}", lv, ch, s), || {
                check(&s, ch, &|p| h::adpcm_compress(p, lv, ch == 2).map_err(|e| format!("{:?}", e)), &|z, n| h::adpcm_decompress(z, n, ch == 2).map_err(|e| format!("{:?}", e)))?;
                if s.is_empty() { return Ok(()); }
                let z = h::adpcm_compress(&bytes(&s), lv, ch == 2).map_err(|e| format!("{:?}", e))?;
                let d = h::adpcm_decompress(&z, s.len() * 2, ch == 2).map_err(|e| format!("{:?}", e))?;
                eq("decoder output is the encoder's prediction", &d, &bytes(&encoder_prediction(&s, ch, lv)))
            });
        }
    }
    // arbitrary bytes
    let n = c.n(20000, 200000);
    for i in 0..n { if c.out_of_time() { break; }
        let ch = r.range(1, 2) as usize;
        let l = match r.below(4) { 0 => r.below(8), _ => r.below(400) } as usize;
        let mut s = r.bytes(l);
        if l > 1 { s[1] = (i % 256) as u8; }
        if r.bool() { for x in s.iter_mut().skip(6) { if r.below(3) == 0 { *x = r.pick(&[0x80, 0x81, 0x7F, 0x3F, 0x1F, 0x5F]); } } }
        let size = match r.below(4) { 0 => r.below(20), 1 => 1 << r.below(16), _ => 2 * l as u64 } as usize;
        c.case("hostile", &|| format!("channels={} size={} stream={}", ch, size, hex(&s)), || {
            let d = decompress(&s, if ch == 1 { 0x40 } else { 0x80 }, size);
            match (d, decode(&s, ch, size)) {
                (Ok(d), Some(w)) => eq_bytes("decoded", &d, &bytes(&w)),
                (Ok(d), None) => ensure(d.is_empty() || s.len() >= 4, || format!("{} bytes from a stream that is too short", d.len())),
                (Err(_), None) => Ok(()),
                (Err(e), Some(_)) => Err(format!("refused a stream with a complete header: {:?}", e)),
            }
        });
    }
}
