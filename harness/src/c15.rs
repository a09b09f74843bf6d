use crate::ctx::*;
use bytes::Bytes;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use mopaq::special_files::{AttributeFlags, Attributes, FileAttributes};

fn le(fl: u32, a: &[FileAttributes]) -> Vec<u8> {
    let mut v = vec![100u8, 0, 0, 0]; v.extend_from_slice(&fl.to_le_bytes());
    if fl & 1 != 0 { for x in a { v.extend_from_slice(&x.crc32.unwrap_or(0).to_le_bytes()); } }
    if fl & 2 != 0 { for x in a { v.extend_from_slice(&x.filetime.unwrap_or(0).to_le_bytes()); } }
    if fl & 4 != 0 { for x in a { v.extend_from_slice(&x.md5.unwrap_or([0; 16])); } }
    if fl & 8 != 0 { let mut b = vec![0u8; a.len().div_ceil(8)]; for (i, x) in a.iter().enumerate() { if x.is_patch == Some(true) { b[i / 8] |= 1 << (i % 8); } } v.extend(b); }
    v
}
fn opt<T>(on: bool, v: Option<T>, d: T) -> Option<T> { if on { Some(v.unwrap_or(d)) } else { None } }
pub fn run(c: &mut Ctx) {
    c.bound("every file count 0..=70 with all sixteen kind combinations, random counts to 3000 and random unknown flag bits; every truncation of tables of up to 20 files");
    let mut r = c.rng("c15");
    let n = c.n(3000, 30000);
    for it in 0..n { if c.out_of_time() { break; }
        let k = if it < 71 * 16 { it / 16 } else { match r.below(10) { 0 => r.below(3000), _ => r.below(80) } } as usize;
        let fl = (it % 16) as u32 | if r.below(8) == 0 { r.u32() & !15 } else { 0 };
        let sparse = r.below(4) == 0;
        let dense = r.below(4);
        let a: Vec<FileAttributes> = (0..k).map(|_| { let none = sparse && r.bool(); FileAttributes { crc32: if none { None } else { Some(r.edge32()) }, filetime: if none { None } else { Some(r.edge64()) }, md5: if none { None } else { let mut m = [0; 16]; m.copy_from_slice(&r.bytes(16)); Some(m) }, is_patch: if none { None } else { Some(match dense { 0 => true, 1 => false, _ => r.bool() }) } } }).collect();
        c.case("round-trip", &|| format!("flags={:#x} files={} {:?}", fl, k, a), || {
            let t = Attributes { version: 100, flags: AttributeFlags::new(fl), file_attributes: a.clone() };
            let by = t.to_bytes().map_err(|e| format!("to_bytes: {:?}", e))?;
            eq_bytes("serialised form", &by, &le(fl, &a))?;
            let p = Attributes::parse(&Bytes::from(by), k).map_err(|e| format!("parse: {:?}", e))?;
            eq("version", &p.version, &100)?;
            eq("flags", &p.flags.as_u32(), &fl)?;
            eq("files", &p.file_attributes.len(), &k)?;
            for (i, x) in a.iter().enumerate() {
                let want = FileAttributes { crc32: opt(fl & 1 != 0, x.crc32, 0), filetime: opt(fl & 2 != 0, x.filetime, 0), md5: opt(fl & 4 != 0, x.md5, [0; 16]), is_patch: opt(fl & 8 != 0, x.is_patch, false) };
                eq(&format!("file {}", i), p.get_file_attributes(i).ok_or("missing")?, &want)?;
            }
            ensure(p.get_file_attributes(k).is_none(), || "an entry past the last file".into())
        });
        if k <= 20 || it % 64 == 0 {
            let full = le(fl, &a);
            let cuts: Vec<usize> = if k <= 20 { (0..full.len()).collect() } else { (0..20).map(|_| r.below(full.len() as u64) as usize).collect() };
            for cut in cuts {
                c.case("too-short", &|| format!("flags={:#x} files={} length={} of {}", fl, k, cut, full.len()), || {
                    ensure(Attributes::parse(&Bytes::from(full[..cut].to_vec()), k).is_err(), || "accepted data shorter than its kinds need".into())
                });
            }
            let extra = r.range(1, 30) as usize; let mut long = full.clone(); long.extend(r.bytes(extra));
            c.case("longer", &|| format!("flags={:#x} files={} extra={}", fl, k, extra), || {
                let p = Attributes::parse(&Bytes::from(long.clone()), k).map_err(|e| format!("parse: {:?}", e))?;
                let q = Attributes::parse(&Bytes::from(full.clone()), k).map_err(|e| format!("parse: {:?}", e))?;
                eq("values", &p.file_attributes, &q.file_attributes)
            });
        }
    }
    for _ in 0..500 {
        let l = r.below(60) as usize; let mut d = r.bytes(l); if l >= 8 && r.bool() { d[..4].copy_from_slice(&[100, 0, 0, 0]); d[5..8].fill(0); }
        let k = match r.below(4) { 0 => 0xFFFF_FFFF, 1 => r.below(100000) as usize, _ => r.below(12) as usize };
        c.case("arbitrary", &|| format!("files={} data={}", k, hex(&d)), || {
            let v = d.len() >= 8 && d[..4] == [100, 0, 0, 0];
            let f = if d.len() >= 8 { u32::from_le_bytes([d[4], d[5], d[6], d[7]]) } else { 0 };
            let need = 8 + [4, 8, 16].iter().enumerate().map(|(i, s)| if f >> i & 1 == 1 { s * k } else { 0 }).sum::<usize>() + if f & 8 != 0 { k.div_ceil(8) } else { 0 };
            if v && need == 8 && k > 1 << 20 { return Ok(()); } // legal but asks for one record per file
            eq("accepted", &Attributes::parse(&Bytes::from(d.clone()), k).is_ok(), &(v && d.len() >= need))
        });
    }
    // an archive that holds such a table reports it per block once opened
    let sp = &Spec::new();
    let file = std::path::Path::new("c15.mpq");
    for it in 0..c.n(300, 3000) { if c.out_of_time() { break; }
        let fl = (it % 16) as u32 | if r.below(8) == 0 { r.u32() & !15 } else { 0 };
        let raw = r.bool(); let k = 1 + r.below(if it % 8 == 0 { 120 } else { 20 }) as usize; let list = r.bool();
        let nb = if raw { k } else { k + list as usize };
        let a: Vec<FileAttributes> = (0..nb).map(|_| FileAttributes { crc32: Some(r.edge32()), filetime: Some(r.edge64()), md5: { let mut m = [0; 16]; m.copy_from_slice(&r.bytes(16)); Some(m) }, is_patch: Some(r.bool()) }).collect();
        let mut tab = le(fl, &a); let cut = if r.below(4) == 0 && tab.len() > 8 { 1 + r.below(tab.len() as u64 - 8) as usize } else { 0 }; tab.truncate(tab.len() - cut);
        if r.below(4) == 0 && cut == 0 { let e = r.below(40) as usize; tab.extend(r.bytes(e)); }
        let v = if raw { r.below(2) } else { r.below(4) } as usize; let method = r.pick(&[0u8, 2, 0x10]); let enc = r.bool();
        let at = r.below(k as u64) as usize;
        let dead: Vec<bool> = (0..k).map(|i| i != at && r.below(3) == 0).collect();
        c.case("archive", &|| format!("{} version {} flags={:#x} blocks={} table {} bytes at block {}, {} cut off; method {:#x} encrypted {} listfile {} unused blocks {:?}", if raw { "raw" } else { "built" }, v + 1, fl, nb, tab.len(), at, cut, method, enc, list, dead), || {
            if raw {
                let hl = header_len(v as u16) as u32;
                let blocks: Vec<Block> = (0..k).map(|i| if i == at { Block { pos: hl, csize: tab.len() as u32, size: tab.len() as u32, flags: 0x8100_0000 } } else if dead[i] { Block { pos: 0, csize: 0, size: 0, flags: 0 } } else { Block { pos: hl, csize: 4, size: 4, flags: 0x8100_0000 } }).collect();
                let names: Vec<(String, u16, u32)> = (0..k).filter(|i| !dead[*i]).map(|i| (if i == at { "(attributes)".to_string() } else { format!("f{}", i) }, 0, i as u32)).collect();
                let x = Raw { version: v as u16, shift: 3, body: &tab, hash: htab(sp, (2 * k).next_power_of_two(), &names), blocks, hi: None };
                std::fs::write(file, x.build(sp)).map_err(|e| e.to_string())?;
            } else {
                let mut b = ArchiveBuilder::new().version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][v]).listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
                for i in 0..k { b = if i == at { b.add_file_data_with_options(tab.clone(), "(attributes)", method, enc, 0) } else { b.add_file_data(vec![i as u8; 3 * i], &format!("f{}", i)) }; }
                b.build(file).map_err(|e| format!("build: {:?}", e))?;
            }
            let o = Archive::open(file);
            let a_ = match o { Ok(x) => x, Err(e) => return ensure(cut > 0, || format!("open: {:?}", e)) };
            ensure(cut == 0, || "opened with an attribute table too short for its kinds".into())?;
            for (i, x) in a.iter().enumerate() {
                let want = FileAttributes { crc32: opt(fl & 1 != 0, x.crc32, 0), filetime: opt(fl & 2 != 0, x.filetime, 0), md5: opt(fl & 4 != 0, x.md5, [0; 16]), is_patch: opt(fl & 8 != 0, x.is_patch, false) };
                eq(&format!("block {}", i), a_.get_file_attributes(i).ok_or_else(|| format!("no attributes for block {}", i))?, &want)?;
            }
            ensure(a_.get_file_attributes(nb).is_none(), || "an entry past the last block".into())
        });
    }
}
