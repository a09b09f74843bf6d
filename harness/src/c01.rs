use crate::ctx::*;
use crate::spec::Spec;
use mopaq::crypto::{decrypt_block, decrypt_dword, encrypt_block};

pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("cipher: every length 0..=600 with random words and keys; all 256 low key bytes x lengths 0..8; edge keys");
    c.case("table", &|| "ENCRYPTION_TABLE (all 1280 entries)".into(), || {
        for i in 0..0x500 { eq(&format!("table[{:#x}]", i), &mopaq::crypto::ENCRYPTION_TABLE[i], &sp.t[i])?; }
        Ok(())
    });
    let mut r = c.rng("cipher");
    let one = |c: &mut Ctx, w: Vec<u32>, key: u32| {
        let w2 = w.clone();
        let sp = &sp;
        c.case("encrypt", &move || format!("encrypt/decrypt_block key={:#010x} words={:08x?}", key, w2), || {
            let mut e = w.clone();
            encrypt_block(&mut e, key);
            eq("encrypt_block vs specification", &e, &sp.encrypt(&w, key))?;
            decrypt_block(&mut e, key);
            eq("decrypt_block(encrypt_block(x))", &e, &w)?;
            let mut d = w.clone();
            decrypt_block(&mut d, key);
            eq("decrypt_block vs specification", &d, &sp.decrypt(&w, key))?;
            encrypt_block(&mut d, key);
            eq("encrypt_block(decrypt_block(x))", &d, &w)?;
            if let Some(&x) = w.first() { eq("decrypt_dword", &decrypt_dword(x, key), &sp.decrypt(&[x], key)[0])?; }
            Ok(())
        });
    };
    for low in 0..256u32 { for len in 0..8usize { let k = (r.u32() & 0xFFFF_FF00) | low; let w = (0..len).map(|_| r.u32()).collect(); one(c, w, k); } }
    for len in 0..=600usize { let k = r.edge32(); let w = (0..len).map(|_| r.edge32()).collect(); one(c, w, k); }
    for k in [0u32, 1, 0xFF, 0x100, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0xC3AF3770, 0xEC83B3A3] {
        for len in [0usize, 1, 2, 3, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025] { let w = (0..len).map(|_| r.u32()).collect(); one(c, w, k); }
    }
    let n = c.n(20000, 400000);
    for _ in 0..n { if c.out_of_time() { break; } let len = match r.below(4) { 0 => r.below(4), 1 => r.below(40), _ => r.below(12) } as usize; let k = r.edge32(); let w = (0..len).map(|_| r.edge32()).collect(); one(c, w, k); }
    for len in [4096usize, 16384, 65536, 1 << 18] { let k = r.u32(); let w = (0..len).map(|_| r.u32()).collect(); one(c, w, k); }
}
