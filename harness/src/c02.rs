use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::path::Path;

fn enc(b: &ArchiveBuilder, p: &[u8], key: u32) -> Vec<u8> { let mut v = p.to_vec(); b.encrypt_data(&mut v, key); v }
/// one file stored single-unit, uncompressed, encrypted: what does the reader make of it
fn read_back(sp: &Spec, file: &Path, stored: &[u8], name: &str, flags: u32, gap: usize, lead: usize) -> Result<Vec<u8>, String> {
    let mut body = vec![0xAA; gap];
    body.extend_from_slice(stored);
    let raw = Raw { version: 0, shift: 3, body: &body, hash: htab(sp, 16, &[(name.to_string(), 0, 0)]),
        blocks: vec![Block { pos: 0x20 + gap as u32, csize: stored.len() as u32, size: stored.len() as u32, flags: EXISTS | flags }], hi: None };
    let mut d = vec![0u8; lead * 512];
    d.extend(raw.build(sp));
    std::fs::write(file, d).map_err(|e| e.to_string())?;
    let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
    a.read_file(name).map_err(|e| format!("read_file: {:?}", e))
}
fn key_for(sp: &Spec, name: &str, flags: u32, pos: u32, size: u32) -> u32 {
    let k = sp.hash(name.as_bytes(), 3);
    if flags & FIX_KEY != 0 { k.wrapping_add(pos) ^ size } else { k }
}
pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    let b = ArchiveBuilder::new();
    c.bound("byte cipher: every length 0..=520 and lengths around 4 KiB .. 4 MiB, random lengths to 1.2 million, edge and random keys; stored files of every length 1..=40 and random, at several positions and archive offsets, with and without the position-adjusted key");
    let mut r = c.rng("c02");
    let mut one = |c: &mut Ctx, p: Vec<u8>, key: u32| {
        c.case("bytes", &|| format!("encrypt_data key={:#010x} len={} bytes={}", key, p.len(), clip(&hex(&p[..p.len().min(3000)]), 6000)), || {
            let e = enc(&b, &p, key);
            eq("length", &e.len(), &p.len())?;
            let w = p.len() / 4 * 4;
            eq_bytes("whole words vs block cipher", &e[..w], &sp.encrypt_bytes_words(&p[..w], key))?;
            #[cfg(vp_hooks = "archive")]
            { let mut d = e.clone(); mopaq::archive::vp_hooks::decrypt_file_data(&mut d, key); eq_bytes("decrypt_file_data(encrypt_data(x))", &d, &p)?; }
            Ok(())
        });
    };
    for len in 0..=520usize { let k = r.edge32(); let p = r.bytes(len); one(c, p, k); let k = r.u32(); let p = vec![0; len]; one(c, p, k); }
    for k in [0u32, 1, 2, 0xFF, 0xFFFF_FFFF, 0xFFFF_FFFE, 0x8000_0000] { for len in 0..=36usize { let p = r.bytes(len); one(c, p, k); } }
    let n = c.n(6000, 60000);
    for _ in 0..n { if c.out_of_time() { break; } let l = match r.below(8) { 0 => r.below(70000), _ => r.below(80) } as usize; let k = r.edge32(); let p = r.bytes(l); one(c, p, k); }
    // long buffers with every tail length: the tail key depends on the number of words
    for base in [0x1000usize, 0x4000, 0xFFFF * 4, 0x1_0000, 0x4_0000, 0x8_0000, 0x10_0000, 0x40_0000] { for d in [-5i64, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5] { let k = r.u32() | 1; let l = (base as i64 + d) as usize; let p = r.bytes(l); one(c, p, k); } }
    let n = c.n(40, 400);
    for _ in 0..n { if c.out_of_time() { break; } let k = r.edge32(); let l = r.range(70_000, 1_200_000) as usize; let p = r.bytes(l); one(c, p, k); }
    // key wrap-around in the tail: key + words overflows
    for len in 1..=200usize { let k = (len as u32 / 4).wrapping_neg().wrapping_add(r.below(3) as u32).wrapping_sub(1); let p = r.bytes(len); one(c, p, k); }

    let file = Path::new("c02.mpq");
    // the reader on data encrypted by the writer's function with the format's key
    let n = c.n(900, 6000);
    for i in 0..n { if c.out_of_time() { break; }
        let len = if i < 40 { i as usize + 1 } else { r.range(1, 600) as usize };
        let p = r.bytes(len); let nm = name(&mut r);
        let flags = SINGLE | ENCRYPTED | if r.bool() { FIX_KEY } else { 0 };
        let gap = r.below(3000) as usize; let lead = r.below(4) as usize;
        let key = key_for(&sp, &nm, flags, 0x20 + gap as u32, len as u32);
        c.case("reader", &|| format!("name={:?} flags={:#x} gap={} archive-offset={} plain={}", nm, flags, gap, lead * 512, hex(&p)), || {
            let got = read_back(&sp, file, &enc(&b, &p, key), &nm, flags, gap, lead)?;
            eq_bytes("file read from the archive", &got, &p)
        });
    }
    // the writer: stored bytes, decrypted with the format's key by this specification
    let n = c.n(300, 2500);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = r.range(1, 5) as usize;
        let files: Vec<(String, Vec<u8>, bool, bool)> = (0..k).map(|i| { let l = r.range(1, 400) as usize; (format!("{}{}", i, name(&mut r)), r.bytes(l), r.below(4) != 0, r.bool()) }).collect();
        let ver = r.pick(&[FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4]);
        c.case("writer", &|| format!("version={:?} files={:?}", ver, files.iter().map(|f| (f.0.clone(), f.1.len(), f.2, f.3)).collect::<Vec<_>>()), || {
            let mut b = ArchiveBuilder::new().version(ver).listfile_option(ListfileOption::None);
            for (n, d, e, fx) in &files { b = b.add_file_data_with_encryption(d.clone(), n, 0, *fx && *e, 0); if !*e { continue; } }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let (p, raw) = parse_file(&sp, file);
            for (n, d, e, fx) in &files {
                let h = lookup(&sp, &p.hash, n.as_bytes(), 0).ok_or("name missing from the table")?;
                let bl = &p.blocks[p.hash[h].block as usize];
                let fl = bl.flags;
                ensure(fl & ENCRYPTED != 0, || format!("encrypted flag missing: {:#x}", fl))?;
                eq("position-adjusted flag", &(fl & FIX_KEY != 0), &(*fx && *e))?;
                let key = key_for(&sp, n, fl, bl.pos, d.len() as u32);
                let st = &raw[bl.pos as usize..(bl.pos + bl.csize) as usize];
                eq("stored length", &st.len(), &d.len())?;
                let w = d.len() / 4 * 4;
                eq_bytes("stored words decrypted with the format key", &sp.decrypt_bytes_words(&st[..w], key), &d[..w])?;
            }
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            for (n, d, _, _) in &files { eq_bytes("read_file", &a.read_file(n).map_err(|e| format!("read_file {:?}: {:?}", n, e))?, d)?; }
            Ok(())
        });
    }
    // multi-sector encrypted files
    let n = c.n(120, 1200);
    for _ in 0..n { if c.out_of_time() { break; }
        let len = r.range(513, 4000) as usize; let d = r.bytes(len); let fx = r.bool(); let comp = r.pick(&[0u8, 2, 0x20]); let nm = name(&mut r);
        let pre = r.below(700) as usize;
        c.case("sectors", &|| format!("name={:?} len={} fix={} compression={:#x} preceding={}", nm, len, fx, comp, pre), || {
            let b = ArchiveBuilder::new().block_size(0).listfile_option(ListfileOption::None).add_file_data_with_options(vec![7; pre], "first", 0, false, 0).add_file_data_with_encryption(d.clone(), &nm, comp, fx, 0);
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let (p, raw) = parse_file(&sp, file);
            let h = lookup(&sp, &p.hash, nm.as_bytes(), 0).ok_or("name missing from the table")?;
            let bl = &p.blocks[p.hash[h].block as usize];
            let key = key_for(&sp, &nm, bl.flags, bl.pos, len as u32);
            let sc = len.div_ceil(512);
            let base = bl.pos as usize;
            let offs = sp.decrypt_bytes_words(&raw[base..base + (sc + 1) * 4], key.wrapping_sub(1));
            for i in 0..sc {
                let (s, e) = (rd32(&offs, i * 4) as usize, rd32(&offs, i * 4 + 4) as usize);
                let want = &d[i * 512..((i + 1) * 512).min(len)];
                ensure(s <= e && base + e <= raw.len(), || format!("sector {} offsets {}..{}", i, s, e))?;
                if e - s == want.len() { let w = want.len() / 4 * 4; eq_bytes("sector words decrypted with key + index", &sp.decrypt_bytes_words(&raw[base + s..base + s + w], key.wrapping_add(i as u32)), &want[..w])?; }
            }
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            eq_bytes("read_file", &a.read_file(&nm).map_err(|e| format!("{:?}", e))?, &d)
        });
    }
    let _ = std::fs::remove_file(file);
}
