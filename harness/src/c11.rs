use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::collections::BTreeSet;
use std::path::Path;

const LOSSLESS: [u8; 6] = [0, 0x02, 0x10, 0x12, 0x20, 0x08];
#[derive(Debug, Clone)]
struct F { name: String, len: usize, method: u8, enc: bool, fix: bool, locale: u16, path: bool }

pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("archives of 0..=40 files, sector sizes 512..=64 KiB, sizes 0 and around every sector boundary up to 9 sectors, compressible, partly compressible and incompressible contents, methods none, zlib, bzip2, lzma, sparse, pkware; encryption, adjusted key, checksums, table compression, versions 1-4, files from memory and from disk");
    let mut r = c.rng("c11");
    let file = Path::new("c11.mpq"); let src = Path::new("c11.src");
    let n = c.n(1800, 15000);
    for it in 0..n { if c.out_of_time() { break; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let bs = match r.below(8) { 0 => r.below(8), 1 => 3, _ => r.below(3) } as u16;
        let ss = 512usize << bs;
        let k = match r.below(10) { 0 => 0, 1 => r.range(10, 40), _ => r.range(1, 6) } as usize;
        let crc = r.bool(); let ct = r.bool(); let tm = r.pick(&[0x02u8, 0x10, 0x12, 0x20, 0x08, 0x02]); let list = r.bool(); let dm = r.pick(&LOSSLESS);
        let mut seen = BTreeSet::new();
        let mut fs: Vec<(F, Vec<u8>)> = vec![];
        for i in 0..k {
            let mut nm = name(&mut r); if r.below(3) == 0 { nm = format!("dir\\{}{}", nm, i); }
            if nm.contains(';') || !seen.insert(canon(&nm)) { continue; }
            let len = match r.below(8) { 0 => 0, 1 => r.below(20) as usize, 2 | 3 => (ss * r.below(4) as usize + r.below(7) as usize).saturating_sub(3), 4 => if k < 8 { (ss * r.below(10) as usize + r.below(7) as usize).saturating_sub(3) } else { r.below(300) as usize }, 5 => r.below(3 * ss as u64) as usize, _ => r.below(ss as u64 + 2) as usize }.min(600_000);
            // sectors of different compressibility in one file
            let d = if r.below(3) == 0 { let mut d = vec![]; while d.len() < len { let m = ss.min(len - d.len()); let x = data(&mut r, m); d.extend(x); } d } else { data(&mut r, len) };
            let enc = r.bool();
            fs.push((F { name: nm, len, method: r.pick(&LOSSLESS), enc, fix: enc && r.bool(), locale: if r.below(6) == 0 { r.pick(&[0x409u16, 0x407, 1]) } else { 0 }, path: r.below(8) == 0 }, d));
        }
        c.case("round-trip", &|| format!("{:?} sector={} crcs={} compress_tables={} table_method={:#x} listfile={} default_method={:#x} files={:?} contents={}", v, ss, crc, ct, tm, list, dm, fs.iter().map(|f| &f.0).collect::<Vec<_>>(), fs.iter().map(|f| clip(&hex(&f.1), 240)).collect::<Vec<_>>().join(",")), || {
            let mut b = ArchiveBuilder::new().version(v).block_size(bs).generate_crcs(crc).compress_tables(ct).table_compression(tm).default_compression(dm)
                .listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
            let mut src_no = 0;
            for (f, d) in &fs {
                let sp = src.with_extension(format!("s{}", src_no)); src_no += 1;
                if f.path { std::fs::write(&sp, d).map_err(|e| e.to_string())?; }
                b = match (f.path, f.enc && f.fix) {
                    (true, true) => b.add_file_with_encryption(&sp, &f.name, f.method, true, f.locale),
                    (true, false) => b.add_file_with_options(&sp, &f.name, f.method, f.enc, f.locale),
                    (false, true) => b.add_file_data_with_encryption(d.clone(), &f.name, f.method, true, f.locale),
                    (false, false) => b.add_file_data_with_options(d.clone(), &f.name, f.method, f.enc, f.locale),
                };
            }
            b.build(file).map_err(|e| format!("build refused: {:?}", e))?;
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let mut rr = Rng::new(it);
            for (f, d) in &fs {
                for nm in [f.name.clone(), variant(&mut rr, &f.name), canon(&f.name)] {
                    let i = a.find_file(&nm).map_err(|e| format!("find_file({:?}): {:?}", nm, e))?.ok_or_else(|| format!("{:?} not found", nm))?;
                    eq(&format!("size of {:?}", nm), &i.file_size, &(d.len() as u64))?;
                    let g = a.read_file(&nm).map_err(|e| format!("read_file({:?}): {:?}", nm, e))?;
                    eq_bytes(&format!("content of {:?}", nm), &g, d)?;
                }
            }
            for i in 0..4 {
                let x = if i == 0 { "nothing.here".into() } else if i == 1 && !fs.is_empty() { format!("{}x", fs[0].0.name) } else { name(&mut rr) };
                if fs.iter().any(|f| canon(&f.0.name) == canon(&x)) { continue; }
                ensure(a.find_file(&x).map_err(|e| format!("find_file({:?}): {:?}", x, e))?.is_none(), || format!("{:?} was never added but is found", x))?;
                ensure(a.read_file(&x).is_err(), || format!("{:?} was never added but reads", x))?;
            }
            // an independent reader finds the same uncompressed, unencrypted data
            let (p, raw) = parse_file(&sp, file);
            for (f, d) in &fs {
                let h = lookup(&sp, &p.hash, f.name.as_bytes(), 0).ok_or_else(|| format!("{:?} not in the hash table of the format", f.name))?;
                let bl = &p.blocks[p.hash[h].block as usize];
                eq(&format!("recorded size of {:?}", f.name), &(bl.size as usize), &d.len())?;
                eq(&format!("locale of {:?}", f.name), &p.hash[h].locale, &f.locale)?;
                if bl.flags & (COMPRESS | ENCRYPTED) == 0 { eq_bytes(&format!("stored bytes of {:?}", f.name), &raw[bl.pos as usize..bl.pos as usize + bl.csize as usize], d)?; }
            }
            Ok(())
        });
    }
    // files of very many sectors, and large ones: indices, keys and offsets past every small power of two
    let big: Vec<(u16, usize)> = vec![(0, 255 * 512 + 7), (0, 256 * 512), (0, 257 * 512 + 1), (0, 513 * 512 + 3), (0, 1023 * 512 + 9), (0, 1025 * 512 + 2), (0, 4097 * 512 + 5), (0, 40_000 * 512 + 11), (0, 66_000 * 512 + 3), (1, 70_000 * 1024 + 1), (3, 1025 * 4096 + 2), (7, 70 * 65536 + 3), (7, 260 * 65536 + 1)];
    let reps = c.n(1, 4);
    for rep in 0..reps { for (i, (bs, len)) in big.iter().enumerate() { if c.out_of_time() { break; }
        for (method, enc, fix, crc) in [(0u8, true, false, false), (0x20, true, true, true), (0x02, true, false, true), (0, false, false, true)] {
            if *len > 3_000_000 && (method == 0x02 || (rep == 0 && !enc)) { continue; }
            let blk = data(&mut r, 200_003); let kind = r.bool();
            let d: Vec<u8> = if kind || method == 0 { let mut x = r.u32(); (0..*len).map(|j| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); if method != 0 && (j / 700) % 3 == 0 { 0 } else { (x >> 24) as u8 } }).collect() } else { (0..*len).map(|j| blk[j % blk.len()] ^ (j >> 18) as u8).collect() };
            let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(i + rep as usize) % 4];
            let big_ct = r.bool(); let lead = r.below(2000) as usize;
            c.case("many-sectors", &|| format!("{:?} sector={} len={} method={:#x} enc={} fix={} crcs={} preceding={}", v, 512 << bs, len, method, enc, fix, crc, lead), || {
                let mut b = ArchiveBuilder::new().version(v).block_size(*bs).generate_crcs(crc).compress_tables(big_ct).add_file_data_with_options(vec![9; lead], "lead", 0, false, 0);
                b = if fix { b.add_file_data_with_encryption(d.clone(), "big\\File.bin", method, true, 0) } else { b.add_file_data_with_options(d.clone(), "big\\File.bin", method, enc, 0) };
                b = b.add_file_data_with_options(vec![3; 77], "last", 0, false, 0);
                b.build(file).map_err(|e| format!("build refused: {:?}", e))?;
                let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
                eq_bytes("content", &a.read_file("BIG/file.BIN").map_err(|e| format!("read_file: {:?}", e))?, &d)?;
                eq_bytes("content of lead", &a.read_file("lead").map_err(|e| format!("read_file: {:?}", e))?, &vec![9; lead])?;
                eq_bytes("content of last", &a.read_file("last").map_err(|e| format!("read_file: {:?}", e))?, &[3; 77])
            });
        } } }
    // files whose position-adjusted key comes out as 0, 1 or all ones (the edges of the sector and offset-table keys)
    { let sp = crate::spec::Spec::new();
    for (vi, v) in [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4].into_iter().enumerate() { for target in [0u32, 1, 2, 0xFFFF_FFFF, 0xFFFF_FFFE] { for method in [0u8, 0x02] { if c.out_of_time() { break; }
        let pos = [0x20u32, 0x2C, 0x44, 0xD0][vi]; let salt = r.u32();
        // (hash + position) ^ size == target, for a size of 2..=512 KiB
        let mut hit = None;
        for i in 0..200_000u32 { let n = format!("k{:x}_{}", salt, i); let size = sp.hash(n.as_bytes(), 3).wrapping_add(pos) ^ target; if (600..0x8_0000).contains(&size) { hit = Some((n, size as usize)); break; } }
        let Some((n, size)) = hit else { continue };
        let crc = r.bool(); let d: Vec<u8> = (0..size).map(|j| if (j / 512) % 2 == 0 { (j % 7) as u8 } else { (j as u32).wrapping_mul(0x9E37_79B1).rotate_left(7) as u8 }).collect();
        c.case("edge-key", &|| format!("{:?} first file {:?} of {} bytes at {:#x}: adjusted key {:#x}, method={:#x} crcs={}", v, n, size, pos, target, method, crc), || {
            let b = ArchiveBuilder::new().version(v).block_size(0).generate_crcs(crc).add_file_data_with_encryption(d.clone(), &n, method, true, 0).add_file_data_with_options(vec![3; 77], "last", 0, true, 0);
            b.build(file).map_err(|e| format!("build refused: {:?}", e))?;
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            eq_bytes("content", &a.read_file(&n.to_uppercase()).map_err(|e| format!("read_file: {:?}", e))?, &d)?;
            eq_bytes("content of last", &a.read_file("last").map_err(|e| format!("read_file: {:?}", e))?, &[3; 77])
        });
    } } } }
    // archives of very many files
    for (rep, k) in [257usize, 600, 1030, 2100, 4100, 9000, 66200].into_iter().enumerate() { if c.out_of_time() { break; } if !c.thorough && k == 9000 { continue; }
        for v in [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4] { if c.out_of_time() || (k > 2000 && !c.thorough && v != FormatVersion::V2 && v != FormatVersion::V4) { continue; }
            let ct = r.bool(); let list = rep % 2 == 0; let sal = r.u32();
            c.case("many-files", &|| format!("{:?} files={} compress_tables={} listfile={} salt={:#x}", v, k, ct, list, sal), || {
                let nm = |i: usize| format!("Data{}\\{:x}_{}.dat", i % 13, sal, i);
                let dt = |i: usize| { let mut x = Rng::new(i as u64 ^ sal as u64); let l = (i * 7) % 61 + if i % 97 == 0 { 600 } else { 0 }; x.bytes(l) };
                let mut b = ArchiveBuilder::new().version(v).block_size(0).compress_tables(ct).generate_crcs(sal & 1 == 0).listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
                for i in 0..k { b = b.add_file_data_with_options(dt(i), &nm(i), if i % 5 == 0 { 0x02 } else { 0 }, i % 3 == 0, 0); }
                b.build(file).map_err(|e| format!("build refused: {:?}", e))?;
                let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
                for i in (0..k).filter(|i| k < 20000 || i % 61 == 0 || i + 800 > k) { let n = if i % 2 == 0 { nm(i) } else { canon(&nm(i)) }; eq_bytes(&format!("content of {:?}", n), &a.read_file(&n).map_err(|e| format!("read_file({:?}): {:?}", n, e))?, &dt(i))?; }
                for i in k..k + 300 { ensure(a.find_file(&nm(i)).map_err(|e| format!("{:?}", e))?.is_none(), || format!("{:?} was never added but is found", nm(i)))?; }
                Ok(())
            });
        } }
    for e in std::fs::read_dir(".").unwrap().flatten() { if e.file_name().to_string_lossy().starts_with("c11.") { let _ = std::fs::remove_file(e.path()); } }
}
