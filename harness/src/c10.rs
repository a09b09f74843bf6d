use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::tables::HiBlockTable;
use mopaq::Archive;
use std::path::Path;

/// what the builder writes, held in memory by position; a gap can be put before any write the builder asks the position of
#[cfg(vp_hooks = "builder")]
struct GapWriter { parts: std::collections::BTreeMap<u64, Vec<u8>>, pos: u64, gaps: Vec<u64>, asked: usize }
#[cfg(vp_hooks = "builder")]
impl GapWriter {
    fn at(&self, o: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        for (p, b) in &self.parts {
            for (i, x) in b.iter().enumerate() { let q = p + i as u64; if q >= o && q < o + n as u64 { v[(q - o) as usize] = *x; } }
        }
        v
    }
}
#[cfg(vp_hooks = "builder")]
impl std::io::Write for GapWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !b.is_empty() { self.parts.entry(self.pos).or_default(); let e = self.parts.get_mut(&self.pos).unwrap(); if e.len() < b.len() { e.resize(b.len(), 0); } e[..b.len()].copy_from_slice(b); }
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[cfg(vp_hooks = "builder")]
impl std::io::Seek for GapWriter {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        match s {
            Start(p) => self.pos = p,
            Current(0) => { if let Some(g) = self.gaps.get(self.asked) { self.pos += g; } self.asked += 1; }
            Current(d) => self.pos = self.pos.wrapping_add(d as u64),
            End(d) => { let e = self.parts.iter().map(|(p, b)| p + b.len() as u64).max().unwrap_or(0); self.pos = e.wrapping_add(d as u64); }
        }
        Ok(self.pos)
    }
}
#[cfg(vp_hooks = "builder")]
impl std::io::Read for GapWriter {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let d = self.at(self.pos, b.len()); b.copy_from_slice(&d); self.pos += b.len() as u64; Ok(b.len()) }
}

pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("crafted version-2 archives with 1..=12 files, high words of all 16 bits, several archive offsets; builder runs (versions 1-4, version 1 around the 4 GiB limit) whose output positions are moved beyond 4 GiB, up to 2^48, before any file or table; reading back through sparse files up to 2^42 bytes; HiBlockTable of up to 300 entries");
    let mut r = c.rng("c10");
    let file = Path::new("c10.mpq");
    // the table itself
    let n = c.n(3000, 30000);
    for _ in 0..n { if c.out_of_time() { break; }
        let len = match r.below(4) { 0 => r.below(3), 1 => r.below(300), _ => r.below(20) } as usize;
        let ops: Vec<(usize, u16)> = (0..r.below(8)).map(|_| (r.below(len as u64 + 2) as usize, match r.below(3) { 0 => 0, 1 => 1u16 << r.below(16), _ => r.u32() as u16 })).collect();
        c.case("table", &|| format!("size={} set={:?}", len, ops), || {
            let mut t = HiBlockTable::new(len);
            let mut m = vec![0u16; len];
            eq("needed when new", &t.is_needed(), &false)?;
            for (i, v) in &ops { t.set(*i, *v); if *i < len { m[*i] = *v; } }
            eq("entries", &t.entries().to_vec(), &m)?;
            for i in 0..len + 2 { eq(&format!("get_file_pos_high({})", i), &t.get_file_pos_high(i), &(m.get(i).copied().unwrap_or(0) as u64))?; }
            eq("needed", &t.is_needed(), &m.iter().any(|x| *x != 0))?;
            let by: Vec<u8> = m.iter().flat_map(|x| x.to_le_bytes()).collect();
            let back = HiBlockTable::read(&mut std::io::Cursor::new(&by), 0, len as u32).map_err(|e| format!("{:?}", e))?;
            eq("read back", &back.entries().to_vec(), &m)
        });
    }
    // positions reported for a crafted archive
    let n = c.n(1500, 12000);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = r.range(1, 12) as usize;
        let lead = r.below(4);
        let names: Vec<String> = (0..k).map(|i| format!("{}{}", name(&mut r), i)).collect();
        let order: Vec<u32> = { let mut o: Vec<u32> = (0..k as u32).collect(); for i in (1..k).rev() { o.swap(i, r.below(i as u64 + 1) as usize); } o };
        let blocks: Vec<Block> = (0..k).map(|_| Block { pos: r.edge32(), csize: r.below(100) as u32, size: r.below(100) as u32, flags: EXISTS | SINGLE }).collect();
        let hi: Option<Vec<u16>> = if r.below(5) == 0 { None } else { Some((0..k).map(|_| match r.below(4) { 0 => 0, 1 => 0xFFFF, 2 => 1u16 << r.below(16), _ => r.u32() as u16 }).collect()) };
        c.case("crafted", &|| format!("archive-offset={} blocks={:x?} hi={:x?} order={:?}", lead * 512, blocks, hi, order), || {
            let hn: Vec<(String, u16, u32)> = names.iter().zip(&order).map(|(n, b)| (n.clone(), 0, *b)).collect();
            let raw = Raw { version: 1, shift: 3, body: &[], hash: htab(&sp, 32, &hn), blocks: blocks.clone(), hi: hi.clone() };
            let mut d = vec![0u8; lead as usize * 512]; d.extend(raw.build(&sp));
            std::fs::write(file, d).map_err(|e| e.to_string())?;
            let a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            for (n, b) in names.iter().zip(&order) {
                let f = a.find_file(n).map_err(|e| format!("find_file: {:?}", e))?.ok_or_else(|| format!("{} not found", n))?;
                let h = hi.as_ref().map_or(0, |h| h[*b as usize]) as u64;
                eq(&format!("position of block {}", b), &f.file_pos, &(lead * 512 + (h << 32) + blocks[*b as usize].pos as u64))?;
            }
            Ok(())
        });
    }
    // more blocks than 16 bits can count
    for (big, extra) in [(70_000usize, 0usize), (66_001, 1)] { if c.out_of_time() { break; }
        let blocks: Vec<Block> = (0..big).map(|i| Block { pos: (i as u32).wrapping_mul(0x9E37_79B1), csize: 1, size: 1, flags: EXISTS | SINGLE }).collect();
        let hi: Vec<u16> = (0..big).map(|i| ((i as u32).wrapping_mul(0x85EB_CA6B) >> 16) as u16).collect();
        let idx: Vec<u32> = (0..12).map(|i| if i == 0 { big as u32 - 1 } else if i < 3 { 65_534 + i } else { r.below(big as u64) as u32 }).collect();
        c.case("crafted-large", &|| format!("{} blocks, high words from (i * 0x85EBCA6B) >> 16, low words i * 0x9E3779B1, looked up {:?}", big, idx), || {
            let hn: Vec<(String, u16, u32)> = idx.iter().enumerate().map(|(i, b)| (format!("n{}", i), 0, *b)).collect();
            let raw = Raw { version: 1, shift: 3, body: &[], hash: htab(&sp, 32, &hn), blocks: blocks.clone(), hi: Some(hi.clone()) };
            let mut d = vec![0u8; extra * 512]; d.extend(raw.build(&sp));
            std::fs::write(file, d).map_err(|e| e.to_string())?;
            let a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            for (n, _, b) in &hn {
                let f = a.find_file(n).map_err(|e| format!("find_file: {:?}", e))?.ok_or_else(|| format!("{} not found", n))?;
                eq(&format!("position of block {}", b), &f.file_pos, &(extra as u64 * 512 + ((hi[*b as usize] as u64) << 32) + blocks[*b as usize].pos as u64))?;
            }
            Ok(())
        });
    }
    // a file really read from beyond 4 GiB
    let n = c.n(40, 200);
    for _ in 0..n { if c.out_of_time() { break; }
        let lead = r.below(3) * 512; let hi = match r.below(3) { 0 => 1u64, 1 => 1 << r.below(9), _ => r.range(1, 1000) }; let lo = r.edge32() as u64 & 0xFFFF_FFF0;
        let fx = r.bool(); let l = r.range(1, 100) as usize; let body = r.bytes(l);
        c.case("read-far", &|| format!("archive-offset={} high={:#x} low={:#x} adjusted-key={} data={}", lead, hi, lo, fx, hex(&body)), || {
            let flags = EXISTS | SINGLE | ENCRYPTED | if fx { FIX_KEY } else { 0 };
            let k0 = sp.hash(b"far.bin", 3); let key = if fx { k0.wrapping_add(lo as u32) ^ l as u32 } else { k0 };
            let mut e = body.clone(); mopaq::ArchiveBuilder::new().encrypt_data(&mut e, key);
            let raw = Raw { version: 1, shift: 3, body: &[], hash: htab(&sp, 16, &[("far.bin".into(), 0, 0)]), blocks: vec![Block { pos: lo as u32, csize: l as u32, size: l as u32, flags }], hi: Some(vec![hi as u16]) };
            let head = raw.build(&sp);
            let pos = lead + (hi << 32) + lo;
            sparse_file(file, pos + l as u64, &[(lead, &head), (pos, &e)]);
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let got = a.read_file("far.bin").map_err(|e| format!("read_file: {:?}", e))?;
            eq_bytes("content", &got, &body)
        });
    }
    // the builder when its output is beyond 4 GiB
    #[cfg(vp_hooks = "builder")]
    {
        use mopaq::{ArchiveBuilder, FormatVersion, ListfileOption};
        let n = c.n(600, 5000);
        for it in 0..n { if c.out_of_time() { break; }
            let v = r.pick(&[FormatVersion::V2, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4]);
            let k = r.range(1, 6) as usize;
            let big = it % 3 == 0;
            let files: Vec<(String, Vec<u8>, bool, bool)> = (0..k).map(|i| { let l = r.below(200) as usize; (format!("f{}.{}", i, r.below(100)), r.bytes(l), r.below(3) == 0, r.bool()) }).collect();
            let mut gaps: Vec<u64> = (0..k + 6).map(|_| match r.below(4) { 0 | 1 => 0, 2 => r.below(0x1_0000_0000), _ => if big { r.below(1 << 44) } else { r.below(1 << 36) } } & !15).collect();
            if v == FormatVersion::V3 { gaps[k + 1] = 0; gaps[k + 2] = 0; } // readers take the distance between extended tables for their size
            // version 1 has no high words: the tables and the end around 4 GiB
            let v1 = it % 10 == 9;
            let v = if v1 { FormatVersion::V1 } else { v };
            if v1 { for g in &mut gaps { *g = 0; } let at = r.below(k as u64 + 3) as usize; gaps[at] = (0x1_0000_0000 - r.below(1500)) & !15; }
            c.case("builder", &|| format!("{:?} gaps={:x?} files={:?}", v, gaps, files.iter().map(|f| (f.0.clone(), f.1.len(), f.2, f.3)).collect::<Vec<_>>()), || {
                let mut b = ArchiveBuilder::new().version(v).listfile_option(ListfileOption::None).default_compression(0);
                for (n, d, e, fx) in &files { b = if *e { b.add_file_data_with_encryption(d.clone(), n, 0, *fx, 0) } else { b.add_file_data_with_options(d.clone(), n, 0, false, 0) }; }
                let mut w = GapWriter { parts: Default::default(), pos: 0, gaps: gaps.clone(), asked: 0 };
                let built = b.vp_write_to(&mut w);
                if v1 && built.is_err() { let end = w.parts.iter().map(|(p, b)| p + b.len() as u64).max().unwrap_or(0).max(w.pos); return ensure(end > u32::MAX as u64, || format!("a version 1 archive of {:#x} bytes was refused", end)); }
                built.map_err(|e| format!("build: {:?}", e))?;
                let w = w;
                let p = parse(&sp, &|o, n| w.at(o, n));
                // where each file's bytes really are
                let mut any = false;
                for (i, (n, d, e, fx)) in files.iter().enumerate() {
                    let h = lookup(&sp, &p.hash, n.as_bytes(), 0).ok_or_else(|| format!("{} not in the hash table", n))?;
                    let bl = &p.blocks[p.hash[h].block as usize];
                    let pos = ((p.hi.as_ref().map_or(0, |x| x[p.hash[h].block as usize]) as u64) << 32) | bl.pos as u64;
                    if pos >> 32 != 0 { any = true; }
                    let mut enc = d.clone();
                    if *e { let k0 = sp.hash(n.as_bytes(), 3); let key = if *fx { k0.wrapping_add(pos as u32) ^ d.len() as u32 } else { k0 }; ArchiveBuilder::new().encrypt_data(&mut enc, key); }
                    eq_bytes(&format!("bytes at the recorded position {:#x} of file {}", pos, i), &w.at(pos, d.len()), &enc)?;
                    if d.is_empty() { continue; }
                    ensure(w.parts.contains_key(&pos), || format!("file {} recorded at {:#x}, where nothing was written (written: {:x?})", i, pos, w.parts.keys().collect::<Vec<_>>()))?;
                }
                let _ = any;
                if let Some(h) = &p.hi { ensure(h.iter().any(|x| *x != 0), || "a table of high words was written although all are zero".into())?; }
                // and the real reader agrees, when the file system can hold it
                let end = w.parts.iter().map(|(p, b)| p + b.len() as u64).max().unwrap_or(0);
                if end < 1 << 42 {
                    let parts: Vec<(u64, &[u8])> = w.parts.iter().map(|(p, b)| (*p, b.as_slice())).collect();
                    sparse_file(file, end, &parts);
                    let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
                    for (n, d, _, _) in &files {
                        let f = a.find_file(n).map_err(|e| format!("find_file: {:?}", e))?.ok_or_else(|| format!("{} not found", n))?;
                        ensure(d.is_empty() || w.parts.contains_key(&f.file_pos), || format!("{} reported at {:#x}, where nothing was written", n, f.file_pos))?;
                        let g = a.read_file(n).map_err(|e| format!("read_file {}: {:?}", n, e))?;
                        eq_bytes(&format!("content of {}", n), &g, d)?;
                    }
                }
                Ok(())
            });
        }
    }
    let _ = std::fs::remove_file(file);
}
