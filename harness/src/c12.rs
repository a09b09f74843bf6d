use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use md5::{Digest, Md5};
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::path::Path;

fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for &x in d { a = (a + x as u32) % 65521; b = (b + a) % 65521; } (b << 16) | a }
fn md5_of(d: &[u8]) -> Vec<u8> { Md5::digest(d).to_vec() }

pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("checksummed single-unit files of 0..=3000 bytes with every lossless method, plain and encrypted, versions 1-4: every stored byte damaged in turn (quick: up to 60 per file), multi-byte damage, damaged checksum, swapped words; version-4 archives: every byte of every table, of the header and of the stored digests damaged in turn");
    verify(c);
    let mut r = c.rng("c12");
    let file = Path::new("c12.mpq"); let bad = Path::new("c12b.mpq");
    let n = c.n(160, 1500);
    for it in 0..n { if c.out_of_time() { break; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let method = r.pick(&[0u8, 0x02, 0x10, 0x12, 0x20, 0x08]);
        let len = match r.below(4) { 0 => r.below(10), 1 => r.below(3000), _ => r.below(400) } as usize;
        let d = data(&mut r, len); let enc = r.bool(); let fix = r.bool(); let nm = name(&mut r);
        let what = format!("{:?} name={:?} method={:#x} encrypted={} adjusted={} data={}", v, nm, method, enc, fix, hex(&d));
        let mut built = None;
        c.case("intact", &|| what.clone(), || {
            let mut b = ArchiveBuilder::new().version(v).generate_crcs(true).listfile_option(ListfileOption::None);
            b = if enc { b.add_file_data_with_encryption(d.clone(), &nm, method, fix, 0) } else { b.add_file_data_with_options(d.clone(), &nm, method, false, 0) };
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let (p, raw) = parse_file(&sp, file);
            let bl = p.blocks[0].clone();
            eq("single unit with checksum", &(bl.flags & (SINGLE | CRC)), &(SINGLE | CRC))?;
            let at = bl.pos as usize + bl.csize as usize;
            eq("stored checksum", &rd32(&raw, at), &adler(&d))?;
            built = Some((bl, raw));
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            eq_bytes("undamaged file", &a.read_file(&nm).map_err(|e| format!("undamaged file rejected: {:?}", e))?, &d)
        });
        let Some((bl, raw)) = built else { continue };
        let (s, e) = (bl.pos as usize, bl.pos as usize + bl.csize as usize + 4);
        let mut damages: Vec<Vec<(usize, u8)>> = vec![];
        let step = if c.thorough { 1 } else { ((e - s) / 40).max(1) };
        let mut o = s; while o < e { damages.push(vec![(o, { let y = r.u8() | 1; r.pick(&[1u8, 0x80, 0xFF, 0x20, y]) })]); o += step; }
        for o in e - 4..e { damages.push(vec![(o, 1 << r.below(8))]); }
        for w in [0u32, !0, 1, 0x8000_0000, 0x7FFF_FFFF, adler(&d).swap_bytes(), !adler(&d), adler(&d).wrapping_add(1), crc32_of(&d)] { damages.push((0..4).map(|i| (e - 4 + i, raw[e - 4 + i] ^ w.to_le_bytes()[i])).collect()); }
        for _ in 0..12 { if e - s > 4 { damages.push((0..r.range(2, 6)).map(|_| (s + r.below((e - s) as u64) as usize, r.u8())).collect()); } }
        for dm in damages {
            c.case("damaged", &|| format!("{} damage(offset in stored data, xor)={:x?}", what, dm.iter().map(|(o, x)| (o - s, *x)).collect::<Vec<_>>()), || {
                let mut x = raw.clone(); for (o, m) in &dm { x[*o] ^= m; }
                if x == raw { return Ok(()); }
                std::fs::write(bad, &x).map_err(|e| e.to_string())?;
                let mut a = Archive::open(bad).map_err(|e| format!("open: {:?}", e))?;
                if let Ok(g) = a.read_file(&nm) {
                    eq("checksum of the bytes returned vs the checksum stored with them", &adler(&g), &rd32(&x, e - 4))?;
                }
                Ok(())
            });
        }
    }
    // a stored file whose checksum is wrong by construction, and one whose data has been replaced with equal length
    for len in 1..=80usize {
        let d = r.bytes(len); let x = r.u32() | 1; let k = r.below(len as u64) as usize;
        c.case("crafted", &|| format!("data={} checksum xor {:#x}, then byte {} changed", hex(&d), x, k), || {
            for which in 0..3 {
                let mut body = d.clone(); if which == 2 { body[k] ^= 0x41; }
                let crc = adler(&d) ^ if which == 1 { x } else { 0 };
                body.extend_from_slice(&crc.to_le_bytes());
                let a = Raw { version: 0, shift: 3, body: &body, hash: htab(&sp, 16, &[("a".into(), 0, 0)]), blocks: vec![Block { pos: 0x20, csize: len as u32, size: len as u32, flags: EXISTS | SINGLE | CRC }], hi: None }.build(&sp);
                std::fs::write(bad, a).map_err(|e| e.to_string())?;
                let g = Archive::open(bad).and_then(|mut a| a.read_file("a"));
                if which == 0 { eq_bytes("good file", &g.map_err(|e| format!("good file rejected: {:?}", e))?, &d)?; } else { ensure(g.is_err(), || format!("case {}: damaged file returned as good", which))?; }
            }
            Ok(())
        });
    }
    // version 4 digests
    let n = c.n(16, 120);
    for it in 0..n { if c.out_of_time() { break; }
        let k = r.range(1, 12) as usize; let ct = it % 3 == 0; let lead = r.below(2) as usize * 512;
        let files: Vec<(String, Vec<u8>)> = (0..k).map(|i| { let l = r.below(300) as usize; (format!("{}{}", name(&mut r), i), r.bytes(l)) }).collect();
        let what = format!("files={:?} compress_tables={} archive-offset={}", files.iter().map(|f| (f.0.clone(), f.1.len())).collect::<Vec<_>>(), ct, lead);
        let mut raw = vec![];
        c.case("v4-intact", &|| what.clone(), || {
            let mut b = ArchiveBuilder::new().version(FormatVersion::V4).listfile_option(ListfileOption::None).compress_tables(ct);
            for (n, d) in &files { b = b.add_file_data_with_options(d.clone(), n, 0, false, 0); }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            raw = vec![0u8; lead]; raw.extend(std::fs::read(file).map_err(|e| e.to_string())?);
            Ok(())
        });
        if raw.is_empty() { continue; }
        let check = |x: &[u8], must: bool| -> Chk {
            std::fs::write(bad, x).map_err(|e| e.to_string())?;
            let mut a = match Archive::open(bad) { Ok(a) => a, Err(e) => return if must { Err(format!("open: {:?}", e)) } else { Ok(()) } };
            let i = match a.get_info() { Ok(i) => i, Err(e) => return if must { Err(format!("get_info: {:?}", e)) } else { Ok(()) } };
            let m = i.md5_status.ok_or("no digest status for a version-4 archive")?;
            let h = &x[lead..];
            let sect = |pos: u64, size: u64| -> Option<Vec<u8>> { h.get(pos as usize..(pos as usize).checked_add(size as usize)?).map(md5_of) };
            let pos16 = |lo: usize, hi: usize| rd32(h, lo) as u64 | ((rd16(h, hi) as u64) << 32);
            let ok = |present: bool, pos: u64, size: u64, at: usize| -> Option<bool> { if !present || size == 0 { Some(true) } else { sect(pos, size).map(|d| d == h[at..at + 16]) } };
            let mut want: Vec<(&str, bool, Option<bool>)> = vec![];
            let base = 0x44 + 8 * 5 + 4; // after the five sizes and the chunk size
            want.push(("hash table", m.hash_table_valid, ok(rd32(h, 0x18) > 0, pos16(0x10, 0x28), rd64(h, 0x44), base + 16)));
            want.push(("block table", m.block_table_valid, ok(rd32(h, 0x1C) > 0, pos16(0x14, 0x2A), rd64(h, 0x4C), base)));
            want.push(("hi-block table", m.hi_block_table_valid, ok(rd64(h, 0x20) != 0, rd64(h, 0x20), rd64(h, 0x54), base + 32)));
            want.push(("het table", m.het_table_valid, ok(rd64(h, 0x3C) != 0, rd64(h, 0x3C), rd64(h, 0x5C), base + 64)));
            want.push(("bet table", m.bet_table_valid, ok(rd64(h, 0x34) != 0, rd64(h, 0x34), rd64(h, 0x64), base + 48)));
            want.push(("header", m.header_valid, Some(md5_of(&h[..192]) == h[192..208])));
            for (n, got, w) in want { if let Some(w) = w { eq(&format!("{} digest reported good", n), &got, &w)?; } }
            if must { ensure(m.hash_table_valid && m.block_table_valid && m.hi_block_table_valid && m.het_table_valid && m.bet_table_valid && m.header_valid, || format!("undamaged archive reported damaged: {:?}", m))?; }
            Ok(())
        };
        c.case("v4-intact-status", &|| what.clone(), || check(&raw, true));
        let body = lead + 0xD0;
        let mut spots: Vec<usize> = (lead + 8..lead + 12).chain(lead + 0x2C..lead + 0x34).chain(lead + 0x44 + 40..lead + 0xD0).collect();
        let all: Vec<usize> = (body..raw.len()).collect();
        if c.thorough { spots.extend(all); } else { for _ in 0..150 { spots.push(r.pick(&all)); } }
        for o in spots {
            let m = 1u8 << r.below(8);
            c.case("v4-damaged", &|| format!("{} byte {:#x} xor {:#x}", what, o, m), || { let mut x = raw.clone(); x[o] ^= m; check(&x, false) });
        }
        // fields that move or resize a table
        for o in lead + 0x10..lead + 0x84 { let m = 1u8 << r.below(8); if (lead + 0x1A..lead + 0x1C).contains(&o) || (lead + 0x1E..lead + 0x20).contains(&o) { continue; }
            c.case("v4-field", &|| format!("{} byte {:#x} xor {:#x}", what, o, m), || { let mut x = raw.clone(); x[o] ^= m; check(&x, false) }); }
    }
    for f in [file, bad] { let _ = std::fs::remove_file(f); }
}

fn crc32_of(d: &[u8]) -> u32 { let mut c = !0u32; for &x in d { c ^= x as u32; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } } !c }

/// verification through the C API against recorded attribute checksums
#[cfg(feature = "ffi")]
fn verify(c: &mut Ctx) {
    use crate::c18::ffi::*;
    use std::ffi::CString;
    c.bound("verification through the C API: archives of 1..=6 files in versions 1-4 with recorded CRC-32 and MD5 (each kind alone, both, or none; values right, one bit wrong, wrong in one kind only or exchanged between files), every combination of flags, sector checksums damaged, whole-archive verification");
    let mut r = c.rng("c12-verify");
    let file = std::env::current_dir().unwrap().join("c12v.mpq");
    let path = CString::new(file.to_str().unwrap()).unwrap();
    let n = c.n(300, 3000);
    for it in 0..n { if c.out_of_time() { break; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let k = r.range(1, 6) as usize; let list = r.below(3) != 0; let crcs = r.bool();
        let kinds = [3u32 & 1, 4, 5, 0, 5, 5, 15, 7][r.below(8) as usize];
        let files: Vec<(String, Vec<u8>)> = (0..k).map(|i| { let l = match r.below(4) { 0 => 0, 1 => r.below(6000), _ => r.below(300) } as usize; (if r.bool() { format!("f{}.txt", i) } else { format!("dir\\n{}", i) }, data(&mut r, l)) }).collect();
        let total = k + 1 + list as usize;
        let mut crc: Vec<u32> = (0..total).map(|i| if i < k { crc32_of(&files[i].1) } else { 0 }).collect();
        let mut md: Vec<Vec<u8>> = (0..total).map(|i| if i < k { md5_of(&files[i].1) } else { vec![0; 16] }).collect();
        let mut did = vec![];
        if it % 3 != 0 { for _ in 0..r.range(1, 2) { let i = r.below(k as u64) as usize; match r.below(6) {
            4 => { let w = r.pick(&[0u32, !0, 1]); crc[i] = w; did.push(format!("crc of {} set to {:#x}", i, w)); }
            5 => { let w = r.pick(&[0u8, 0xFF]); md[i] = vec![w; 16]; did.push(format!("md5 of {} all {:#x}", i, w)); }
            0 => { crc[i] ^= 1 << r.below(32); did.push(format!("crc of {} wrong", i)); }
            1 => { let b = r.below(128) as usize; md[i][b / 8] ^= 1 << (b % 8); did.push(format!("md5 of {} wrong in bit {}", i, b)); }
            2 => { let j = r.below(k as u64) as usize; crc.swap(i, j); did.push(format!("crc of {} and {} exchanged", i, j)); }
            _ => { let j = r.below(k as u64) as usize; md.swap(i, j); did.push(format!("md5 of {} and {} exchanged", i, j)); }
        } } }
        let mut at = vec![]; le32(&mut at, 100); le32(&mut at, kinds);
        if kinds & 1 != 0 { for x in &crc { le32(&mut at, *x); } }
        if kinds & 2 != 0 { for i in 0..total { le64(&mut at, i as u64); } }
        if kinds & 4 != 0 { for x in &md { at.extend_from_slice(x); } }
        if kinds & 8 != 0 { at.extend(vec![0u8; total.div_ceil(8)]); }
        let what = format!("{:?} sector checksums={} listfile={} attribute kinds={} files={:?} {}", v, crcs, list, kinds, files.iter().map(|(n, d)| (n.clone(), clip(&hex(d), 60))).collect::<Vec<_>>(), did.join(", "));
        let methods: Vec<u8> = (0..k).map(|_| r.pick(&[0u8, 0x02, 0x10, 0x20])).collect();
        let flag_sets: Vec<u32> = (0..10).map(|_| r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 0xFF, 0x06])).collect();
        c.case("verify-file", &|| what.clone(), || {
            let mut b = ArchiveBuilder::new().version(v).generate_crcs(crcs).listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
            for (i, (n, d)) in files.iter().enumerate() { b = b.add_file_data_with_options(d.clone(), n, methods[i], false, 0); }
            b = b.add_file_data_with_options(at.clone(), "(attributes)", 0, false, 0);
            b.build(&file).map_err(|e| format!("build: {:?}", e))?;
            let mut ha: HANDLE = std::ptr::null_mut();
            let res = unsafe {
                if !SFileOpenArchive(path.as_ptr(), 0, 0, &mut ha) { return Err("open failed".into()); }
                let mut res: Chk = Ok(());
                let mut all = true;
                'o: for (i, (n, d)) in files.iter().enumerate() {
                    let good_crc = kinds & 1 == 0 || crc[i] == crc32_of(d); let good_md = kinds & 4 == 0 || md[i] == md5_of(d);
                    all &= good_crc && good_md;
                    let cn = CString::new(n.as_str()).unwrap();
                    for &f in &flag_sets {
                        let want = (good_crc || !(f == 0 || f & 2 != 0)) && (good_md || !(f == 0 || f & 4 != 0));
                        let got = SFileVerifyFile(ha, cn.as_ptr(), f); let e = SFileGetLastError();
                        res = eq(&format!("SFileVerifyFile({:?}, flags {:#x})", n, f), &(got, e), &if want { (true, 0) } else { (false, 1392) });
                        if res.is_err() { break 'o; }
                    }
                }
                if res.is_ok() && list { let got = SFileVerifyArchive(ha, 0x20); res = eq("SFileVerifyArchive(all files)", &got, &all); }
                if res.is_ok() { let got = SFileVerifyFile(ha, c"not there".as_ptr(), 0); res = eq("SFileVerifyFile of an absent name", &(got, SFileGetLastError()), &(false, 2)); }
                SFileCloseArchive(ha);
                res
            };
            res
        });
    }
    // sector checksums: damage of single-unit files must be found by verification as by reading
    let n = c.n(120, 1200);
    for it in 0..n { if c.out_of_time() { break; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let l = r.range(1, 600) as usize; let d = data(&mut r, l); let k = r.below(l as u64) as usize; let m = 1u8 << r.below(8);
        c.case("verify-sector", &|| format!("{:?} data={} byte {} xor {:#x}", v, hex(&d), k, m), || {
            ArchiveBuilder::new().version(v).generate_crcs(true).listfile_option(ListfileOption::Generate).add_file_data_with_options(d.clone(), "one", 0, false, 0).build(&file).map_err(|e| format!("build: {:?}", e))?;
            let raw = std::fs::read(&file).unwrap();
            for bad in [false, true] {
                if bad { let (p, _) = parse_file(&Spec::new(), &file); let mut x = raw.clone(); x[p.blocks[0].pos as usize + k] ^= m; std::fs::write(&file, x).unwrap(); }
                let mut ha: HANDLE = std::ptr::null_mut();
                let (a, e, b, t) = unsafe {
                    if !SFileOpenArchive(path.as_ptr(), 0, 0, &mut ha) { return Err("open failed".into()); }
                    let a = SFileVerifyFile(ha, c"one".as_ptr(), 1); let e = SFileGetLastError(); let b = SFileVerifyArchive(ha, 0x20); let t = SFileVerifyFile(ha, c"one".as_ptr(), 6);
                    SFileCloseArchive(ha); (a, e, b, t) };
                eq(if bad { "damaged: SFileVerifyFile(1), its error, SFileVerifyArchive(0x20), SFileVerifyFile(6)" } else { "intact: SFileVerifyFile(1), its error, SFileVerifyArchive(0x20), SFileVerifyFile(6)" }, &(a, e, b, t), &if bad { (false, 1392, false, true) } else { (true, 0, true, true) })?;
            }
            Ok(())
        });
    }
}
#[cfg(not(feature = "ffi"))]
fn verify(c: &mut Ctx) { c.notes.push("storm-ffi source did not compile into the harness; the verification groups did not run".into()); }
