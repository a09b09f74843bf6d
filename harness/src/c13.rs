use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use md5::{Digest, Md5};
use mopaq::crypto::{calculate_mpq_hash_md5, parse_strong_signature, parse_weak_signature, verify_strong_signature, verify_weak_signature_stormlib, SignatureInfo};
use mopaq::Archive;
use num_bigint::BigUint;
use std::io::Cursor;
use std::path::Path;

const N: &str = "92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837";
/// the weak key is 512 bits and long since factored; its private exponent makes signatures that must be accepted
const D: &str = "36d8b3b550cc261da11358633c32b2526109f54fda3778289ae28e8db41b43f6d659c33f59f85254798faadaa1fdb408d945c5af4ae75e781eb5e6472ebfdbf1";
/// the published 2048-bit key
const STRONG_N: &str = "B1067ECE24F687C87E27F88C42981DB47D47689CCE044DDA823538C8C3DCAE2C5A3CE668038B7C6F07DECBBA9CCDF5B2C28718A37A657B2B4517E22E0F81C3165F4E5CDD52172BA94A0331D441999606C50289A76EAF4C409C8CA90B4C8510231608384E7752ED835BF893120042A991736A636F27FC45411C3E53B0CB9508BE7BF6021E9DBAFAD5D23DD830C4772EFDD08CC81B454A58B87F28E4DC4C97E60ECFFB1D04E41A8B955BE594B1F7A4BAA350A3B343F4306784B8CB8E9B71785136019A98700D5AA374BD2CDDC62F5B569555C5217F5CEDF5AA6954D0959DA836C23F011540A4E2B782B360AAFC07E98A156155E3349128E6C409B0FB1D57F86477";
const INFO: [u8; 18] = [0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
fn block(len: usize, hash: &[u8]) -> Vec<u8> {
    let mut b = vec![0u8, 1]; let pad = len.saturating_sub(3 + 18 + hash.len());
    b.extend(vec![0xFF; pad]); b.push(0); b.extend_from_slice(&INFO); b.extend_from_slice(hash); b
}
fn big(s: &str) -> BigUint { BigUint::parse_bytes(s.as_bytes(), 16).unwrap() }
/// little-endian signature whose RSA image is `block`
fn sign(block: &[u8]) -> Vec<u8> { let mut v = BigUint::from_bytes_be(block).modpow(&big(D), &big(N)).to_bytes_le(); v.resize(64, 0); v }

pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("decoded blocks: the right block with every byte changed in turn, separators and digest prefixes moved, every length 0..=300, random blocks; signatures made with the factored weak key for random archives, with every block byte damaged; signature files of every length 0..=300; whole signed archives at several offsets");
    let mut r = c.rng("c13");
    #[cfg(vp_hooks = "signature")]
    {
        use mopaq::crypto::vp_hooks::{strong_block, weak_block};
        let acc = |x: mopaq::Result<bool>| x.unwrap_or(false);
        // weak: accepted exactly when equal to the block of its own length (64 for this key)
        let weak = |c: &mut Ctx, b: Vec<u8>, h: Vec<u8>| {
            c.case("weak-block", &|| format!("block={} digest={}", hex(&b), hex(&h)), || {
                let want = b.len() >= 45 && h.len() == 16 && b == block(b.len(), &h);
                let got = acc(weak_block(&b, &h));
                if b.len() == 64 { eq("accepted", &got, &want) } else { ensure(want || !got, || "accepted".into()) }
            });
        };
        for _ in 0..c.n(20, 200) {
            let h = r.bytes(16); let good = block(64, &h);
            weak(c, good.clone(), h.clone());
            for i in 0..64 { let mut b = good.clone(); b[i] ^= r.u8() | 1; weak(c, b, h.clone()); let mut b = good.clone(); b[i] = 0; weak(c, b, h.clone()); let mut b = good.clone(); b[i] = 0xFF; weak(c, b, h.clone()); }
            for i in 0..16 { let mut x = h.clone(); x[i] ^= 1 << r.below(8); weak(c, good.clone(), x); }
            for cut in 0..=64 { weak(c, good[..cut].to_vec(), h.clone()); weak(c, good[cut..].to_vec(), h.clone()); }
            // shorter padding with data after the digest (the classical forgery)
            for pad in 0..30usize { let mut b = vec![0u8, 1]; b.extend(vec![0xFF; pad]); b.push(0); b.extend_from_slice(&INFO); b.extend_from_slice(&h); let l = b.len(); if l < 64 { b.extend(r.bytes(64 - l)); } weak(c, b, h.clone()); }
            // two separators
            for i in 2..29usize { let mut b = good.clone(); b[i] = 0; weak(c, b, h.clone()); }
            let mut b = good.clone(); b.push(r.u8()); weak(c, b, h.clone());
            let mut b = vec![0]; b.extend(&good); weak(c, b, h.clone());
            let l = r.below(80) as usize; weak(c, r.bytes(l), h.clone());
            weak(c, vec![0xFF; 64], h.clone()); weak(c, { let mut b = vec![0xFFu8; 64]; b[0] = 0; b[1] = 1; b }, h.clone());
        }
        let strong = |c: &mut Ctx, b: Vec<u8>, h: Vec<u8>| {
            c.case("strong-block", &|| format!("block={} digest={}", hex(&b), hex(&h)), || {
                let mut g = vec![0x0Bu8]; g.extend(vec![0xBB; 235]); g.extend_from_slice(&h);
                eq("accepted", &acc(strong_block(&b, &h)), &(h.len() == 20 && b == g))
            });
        };
        for _ in 0..c.n(8, 80) {
            let h = r.bytes(20);
            let mut g = vec![0x0Bu8]; g.extend(vec![0xBB; 235]); g.extend_from_slice(&h);
            strong(c, g.clone(), h.clone());
            for i in 0..256 { let mut b = g.clone(); b[i] ^= r.u8() | 1; strong(c, b, h.clone()); let mut b = g.clone(); b[i] ^= 1 << r.below(8); strong(c, b, h.clone()); }
            for i in 0..20 { let mut x = h.clone(); x[i] ^= 1 << r.below(8); strong(c, g.clone(), x); }
            for cut in [0usize, 1, 19, 20, 21, 235, 236, 237, 254, 255] { strong(c, g[..cut].to_vec(), h.clone()); strong(c, g[256 - cut..].to_vec(), h.clone()); }
            let mut b = g.clone(); b.push(0); strong(c, b, h.clone());
            let mut b = vec![0]; b.extend(&g); strong(c, b, h.clone());
        }
    }
    // signature files
    for len in 0..=300usize { for z in 0..3 {
        let mut d = if z == 0 { vec![0; len] } else { r.bytes(len) };
        if z == 2 { for (i, b) in b"NGIS".iter().enumerate() { if i < len { d[i] = *b; } } }
        if z == 1 && len > 80 { for x in d.iter_mut().skip(8).take(64) { *x = 0; } d[8 + r.below(64) as usize] = 1; }
        c.case("parse-weak", &|| format!("file={}", hex(&d)), || match parse_weak_signature(&d) {
            Ok(s) => { ensure(d.len() >= 72, || "a file shorter than 72 bytes was accepted".into())?; eq_bytes("signature", &s, &d[8..72]) }
            Err(_) => ensure(d.len() < 72 || d[8..72].iter().all(|x| *x == 0), || "a complete, non-zero signature was rejected".into()),
        });
        c.case("parse-strong", &|| format!("data={}", hex(&d)), || match parse_strong_signature(&d) {
            Ok(s) => { ensure(d.len() >= 260 && &d[..4] == b"NGIS", || "short or unmarked data was accepted".into())?; eq_bytes("signature", &s, &d[4..260]) }
            Err(_) => ensure(d.len() < 260 || &d[..4] != b"NGIS" || d[4..260].iter().all(|x| *x == 0), || "a complete, non-zero signature was rejected".into()),
        });
    } }
    for at in 0..256usize { let mut d = b"NGIS".to_vec(); d.resize(260 + at % 3, 0); d[4 + at] = 1 << (at % 8);
        c.case("parse-strong", &|| format!("a single bit set, in byte {} of the signature", at), || eq_bytes("signature", &parse_strong_signature(&d).map_err(|e| format!("rejected: {:?}", e))?, &d[4..260]));
        if at < 64 { let mut d = vec![0u8; 72]; d[8 + at] = 1 << (at % 8);
            c.case("parse-weak", &|| format!("a single bit set, in byte {} of the signature", at), || eq_bytes("signature", &parse_weak_signature(&d).map_err(|e| format!("rejected: {:?}", e))?, &d[8..72])); } }
    // the two published keys
    c.case("keys", &|| "public keys".into(), || { use mopaq::crypto::public_keys::{strong_public_key, weak_public_key}; use rsa::traits::PublicKeyParts;
        let t = |k: &rsa::RsaPublicKey| (BigUint::from_bytes_be(&k.n().to_bytes_be()).to_str_radix(16).to_uppercase(), BigUint::from_bytes_be(&k.e().to_bytes_be()).to_str_radix(16));
        eq("weak key", &t(&weak_public_key().map_err(|e| format!("{:?}", e))?), &(N.to_string(), "10001".to_string()))?;
        eq("strong key", &t(&strong_public_key().map_err(|e| format!("{:?}", e))?), &(STRONG_N.to_string(), "10001".to_string())) });
    // real RSA
    let n = c.n(60, 600);
    for it in 0..n { if c.out_of_time() { break; }
        let l = r.range(1, 3000) as usize; let d = r.bytes(l);
        let b = r.below(l as u64 / 2 + 1); let x = b + r.below(l as u64 - b); let kind = it % 6; let pos = r.below(64) as usize; let bit = 1u8 << r.below(8);
        c.case("weak-rsa", &|| format!("archive={}.. of {} excluded={}..+72 kind={} byte={} bit={:#x}", b, l, x, kind, pos, bit), || {
            let i = SignatureInfo::new_weak(b, l as u64 - b, x, 72, vec![]);
            let mut z = d[b as usize..].to_vec(); for (k, v) in z.iter_mut().enumerate() { let p = b + k as u64; if p >= x && p < x + 72 { *v = 0; } }
            let h: [u8; 16] = Md5::digest(&z).into();
            eq("digest", &calculate_mpq_hash_md5(Cursor::new(&d), &i).map_err(|e| format!("{:?}", e))?, &h)?;
            let mut blk = block(64, &h); let mut data2 = d.clone(); let mut want = true;
            match kind { 1 => { blk[pos] ^= bit; want = false; if BigUint::from_bytes_be(&blk) >= big(N) { return Ok(()); } }
                2 => { let p = (b + (pos as u64 * 7919) % (l as u64 - b)) as usize; data2[p] ^= bit; want = (p as u64) >= x && (p as u64) < x + 72; }
                _ => {} }
            let mut sig = sign(&blk);
            if kind == 3 { sig[pos] ^= bit; want = false; }
            if kind == 4 { sig.reverse(); want = false; }
            if kind == 5 { sig.truncate(63); want = sign(&blk)[63] == 0; }
            eq("accepted", &verify_weak_signature_stormlib(Cursor::new(&data2), &sig, &i).unwrap_or(false), &want)
        });
    }
    for _ in 0..c.n(6, 40) { let s = r.bytes(256); let l = r.below(500) as usize; let d = r.bytes(l);
        c.case("strong-rsa", &|| format!("random signature {} over {} bytes", hex(&s), l), || ensure(!verify_strong_signature(Cursor::new(&d), &s, l as u64).unwrap_or(false), || "a random strong signature was accepted".into())); }
    // a strong signature of small numbers: 0, 1 and n-1 are fixed points of RSA
    for s in [vec![0u8; 256], { let mut v = vec![0u8; 256]; v[0] = 1; v }] { c.case("strong-rsa", &|| format!("signature {}", hex(&s)), || ensure(!verify_strong_signature(Cursor::new(b"abc"), &s, 3).unwrap_or(false), || "accepted".into())); }
    // signed archives
    let file = Path::new("c13.mpq");
    let n = c.n(60, 500);
    for it in 0..n { if c.out_of_time() { break; }
        let lead = r.below(3) as usize * 512; let extra = match r.below(3) { 0 => r.below(140_000) as usize, _ => r.below(3000) as usize }; let body = r.bytes(extra); let kind = it % 4; let trail = r.below(3) * r.below(400); let pos = r.next();
        c.case("archive", &|| format!("archive-offset={} filler={} kind={} after-archive={}", lead, extra, kind, trail), || {
            let mk = |sig: &[u8]| { let mut bd = body.clone(); bd.extend(vec![0u8; 8]); bd.extend_from_slice(sig);
                Raw { version: 0, shift: 3, body: &bd, hash: htab(&sp, 16, &[("(signature)".into(), 0, 0), ("x".into(), 0, 1)]),
                    blocks: vec![Block { pos: 0x20 + extra as u32, csize: 72, size: 72, flags: EXISTS | SINGLE }, Block { pos: 0x20, csize: extra as u32, size: extra as u32, flags: EXISTS | SINGLE }], hi: None }.build(&sp) };
            let zero = { let mut a = mk(&[0; 64]); for b in &mut a[0x20 + extra..0x20 + extra + 72] { *b = 0; } a };
            let h: [u8; 16] = Md5::digest(&zero).into();
            let mut sig = sign(&block(64, &h));
            if kind == 1 { sig[pos as usize % 64] ^= 1; }
            let mut a = mk(&sig);
            if kind == 2 { if extra == 0 { return Ok(()); } let p = 0x20 + (pos as usize % extra); a[p] ^= 1; }
            let mut d = vec![0u8; lead]; d.extend(a); d.extend(vec![0x55u8; trail as usize]);
            if kind == 3 { let k = d.len(); if trail > 0 { d[k - 1] ^= 1; } }
            std::fs::write(file, d).map_err(|e| e.to_string())?;
            let mut ar = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let st = ar.verify_signature().map_err(|e| format!("verify_signature: {:?}", e))?;
            eq("status", &st, &if kind == 1 || kind == 2 { mopaq::SignatureStatus::WeakInvalid } else { mopaq::SignatureStatus::WeakValid })
        });
    }
    let _ = std::fs::remove_file(file);
}
