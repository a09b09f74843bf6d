use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use std::path::Path;

const CAP: u64 = 16 << 20; // larger declared sizes only cost memory; they are looked up but not read
fn edge_vals(r: &mut Rng, near: u64) -> u32 {
    match r.below(9) { 0 => 0, 1 => u32::MAX, 2 => 0x7FFF_FFFF, 3 => 0x8000_0000, 4 => 1 << r.below(32), 5 => near as u32, 6 => (near as u32).wrapping_add(r.below(9) as u32).wrapping_sub(4), 7 => r.below(300) as u32, _ => r.u32() }
}
/// everything a reader can ask of an archive; any answer will do as long as there is one
fn exercise(file: &Path, names: &[String]) -> Chk {
    let Ok(mut a) = Archive::open(file) else { return Ok(()) };
    for n in names.iter().map(|s| s.as_str()).chain(["(listfile)", "(attributes)", "(signature)", "nope", ""]) {
        if let Ok(Some(i)) = a.find_file(n) { if i.file_size <= CAP { let _ = a.read_file(n); } }
    }
    let small = matches!(a.find_file("(listfile)"), Ok(None)) || matches!(a.find_file("(listfile)"), Ok(Some(ref i)) if i.file_size <= CAP) || a.find_file("(listfile)").is_err();
    if small { let _ = a.list(); let _ = a.list_with_hashes(); }
    let _ = a.list_all(); let _ = a.list_all_with_hashes();
    let sig = matches!(a.find_file("(signature)"), Ok(Some(ref i)) if i.file_size > CAP);
    if !sig { let _ = a.verify_signature(); let _ = a.get_info(); }
    if !matches!(a.find_file("(attributes)"), Ok(Some(ref i)) if i.file_size > CAP) { let _ = a.load_attributes(); }
    for i in 0..20 { let _ = a.get_file_attributes(i); }
    if let Some(t) = a.bet_table() { for i in [0u32, 1, 2, 7, 100, u32::MAX] { let _ = t.get_file_info(i); } }
    if let Some(t) = a.het_table() { for n in ["a", "b", "file"] { let _ = t.find_file(n); } }
    if let Some(t) = a.hash_table() { for n in ["a", "b", "file"] { let _ = t.find_file(n, 0x409); } }
    Ok(())
}
pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.journal = true;
    c.bound("archives of all four versions with every option, damaged in header fields, decrypted table entries, extended-table headers, sector offset tables, compressed data, special files, and at random bytes, and truncated anywhere; decoders on random and damaged streams for all 256 method bytes; declared file sizes above 16 MiB are looked up but not read");
    let mut r = c.rng("c16");
    let file = Path::new("c16.mpq");
    // decoders
    let n = c.n(20000, 200000);
    for it in 0..n { if c.out_of_time() { break; }
        let m = if it % 3 == 0 { r.u8() } else { r.pick(&[0x02u8, 0x08, 0x10, 0x12, 0x20, 0x40, 0x80, 0x41, 0x81, 0x42, 0x48, 0x50, 0x60, 0x01, 0x04, 0xC0, 0x82, 0x88, 0x90, 0xA0]) };
        let size = match r.below(6) { 0 => 0, 1 => r.below(10), 2 => r.below(70000), 3 => 1 << r.below(20), _ => r.below(600) } as usize;
        let d = match r.below(4) {
            0 => { let l = r.below(60) as usize; r.bytes(l) }
            1 => { let l = r.below(8) as usize; r.bytes(l) }
            _ => { let l = r.below(500) as usize; let p = data(&mut r, l); let mut z = mopaq::compress(&p, m).unwrap_or(p); if !z.is_empty() && r.below(4) != 0 { z.remove(0); } for _ in 0..r.below(4) { if z.is_empty() { break; } let k = r.below(z.len() as u64) as usize; z[k] = match r.below(3) { 0 => r.u8(), 1 => z[k] ^ (1 << r.below(8)), _ => 0xFF }; } if r.below(4) == 0 { let k = r.below(z.len() as u64 + 1) as usize; z.truncate(k); } z }
        };
        c.case("decoder", &|| format!("method={:#04x} size={} data={}", m, size, hex(&d)), || { let _ = mopaq::decompress(&d, m, size); Ok(()) });
    }
    // decoders on nothing and on single bytes, every method
    for m in 0..=255u8 { if c.out_of_time() { break; }
        for size in [0usize, 1, 2, 5, 4096] { c.case("decoder-empty", &|| format!("method={:#04x} size={} no data", m, size), || { let _ = mopaq::decompress(&[], m, size); Ok(()) }); }
        c.case("decoder-byte", &|| format!("method={:#04x} every single byte and every byte followed by ff", m), || { for b in 0..=255u8 { for size in [0usize, 1, 9] { let _ = mopaq::decompress(&[b], m, size); let _ = mopaq::decompress(&[b, 0xFF], m, size); } } Ok(()) });
    }
    // the table readers on their own
    let n = c.n(16000, 160000);
    for it in 0..n { if c.out_of_time() { break; }
        let het = it % 2 == 0; let words = if het { 8 } else { 19 };
        let mut w: Vec<u32> = (0..words).map(|_| match r.below(6) { 0 => edge_vals(&mut r, 60), 1 => 0, 2 => 64, _ => r.below(40) as u32 }).collect();
        if !het { // offsets and widths of the entry's fields mostly agree
            if r.below(4) != 0 { let mut o = 0u32; for k in 0..5 { let b = match r.below(8) { 0 => 64, 1 => 63, 2 => 65, _ => r.below(20) as u32 }; w[4 + k] = o; w[9 + k] = b; o += b; } w[3] = if r.below(3) == 0 { o.wrapping_add(r.below(7) as u32).wrapping_sub(3) } else { o }; }
            w[18] = r.below(5) as u32; w[1] = match r.below(6) { 0 => edge_vals(&mut r, 4), _ => r.below(9) as u32 }; w[17] = match r.below(4) { 0 => edge_vals(&mut r, 40), _ => 8 * r.below(9) as u32 };
        } else { w[1] = r.below(9) as u32; w[2] = match r.below(5) { 0 => edge_vals(&mut r, 16), _ => r.below(20) as u32 }; w[6] = match r.below(3) { 0 => r.below(70) as u32, _ => r.below(9) as u32 }; w[5] = r.below(4) as u32; w[4] = match r.below(4) { 0 => edge_vals(&mut r, 64), _ => w[2].wrapping_mul(w[6]) }; w[3] = r.pick(&[8u32, 64, 0, 1, 7, 63, 65, 48, 128, u32::MAX]); }
        let body: u64 = if het { w[2] as u64 + (w[4] as u64).div_ceil(8) } else { 4 * w[18] as u64 + (w[1] as u64 * w[3] as u64).div_ceil(8) + w[17] as u64 };
        let need = 12 + 4 * words as u64 + body.min(4000);
        let len = match r.below(5) { 0 => r.below(100), 1 => need.saturating_sub(1 + r.below(9)), 2 => need + r.below(4), _ => need } as usize;
        let ds = match r.below(5) { 0 => edge_vals(&mut r, len as u64), 1 => len as u32, _ => (len as u32).wrapping_sub(12) };
        let mut d = vec![]; for x in [if het { 0x1A544548u32 } else { 0x1A544542 }, 1, ds].into_iter().chain(w.iter().copied()) { d.extend(x.to_le_bytes()); }
        while d.len() < len { d.push(if r.bool() { r.u8() } else { r.pick(&[0u8, 1, 0xFF, 2]) }); } d.truncate(len);
        if r.below(12) == 0 && len > 12 { d[12] = r.pick(&[2u8, 0x10, 0x12, 0x20, 8]); }
        let size = match r.below(6) { 0 => edge_vals(&mut r, len as u64) as u64, 1 => r.below(20), _ => len as u64 };
        if size > CAP { continue; }
        if ds as u64 > CAP { continue; }
        c.case(if het { "het-table" } else { "bet-table" }, &|| format!("size={} bytes={}", size, hex(&d)), || {
            let mut cur = std::io::Cursor::new(&d);
            if het {
                if let Ok(t) = mopaq::HetTable::read(&mut cur, 0, size, 0) { for n in ["a", "b", "file", "", "x\\y", "war3map.j"] { let _ = t.find_file(n); } }
            } else if let Ok(t) = mopaq::BetTable::read(&mut cur, 0, size, 0) {
                for i in [0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 100, w[1], w[1].wrapping_sub(1), u32::MAX] { let _ = t.get_file_info(i); }
            }
            Ok(())
        });
    }
    let n = c.n(3000, 30000);
    for _ in 0..n { if c.out_of_time() { break; }
        let l = r.below(300) as usize; let d = r.bytes(l); let size = match r.below(4) { 0 => edge_vals(&mut r, l as u64 / 16), 1 => 1 << r.below(10), _ => r.below(20) as u32 }; let off = match r.below(4) { 0 => r.next(), _ => r.below(l as u64 + 3) };
        c.case("classic-table", &|| format!("entries={} offset={} bytes={}", size, off, hex(&d)), || {
            let mut cur = std::io::Cursor::new(&d);
            if let Ok(t) = mopaq::HashTable::read(&mut cur, off, size) { for n in ["a", "b", "file"] { for lc in [0u16, 0x409] { let _ = t.find_file(n, lc); } } }
            if let Ok(t) = mopaq::BlockTable::read(&mut cur, off, size) { for i in [0usize, 1, size as usize, usize::MAX] { let _ = t.get(i); } }
            if let Ok(t) = mopaq::tables::HiBlockTable::read(&mut cur, off, size) { for i in [0usize, 1, size as usize, usize::MAX] { let _ = t.get(i); } }
            Ok(())
        });
        let mut a = d.clone(); if l >= 8 && r.below(4) != 0 { a[..4].copy_from_slice(&100u32.to_le_bytes()); a[4..8].copy_from_slice(&[r.below(32) as u8, 0, 0, 0]); }
        let bc = match r.below(5) { 0 => 0, 1 => r.below(1 << 20), _ => r.below(14) } as usize;
        c.case("special", &|| format!("blocks={} bytes={}", bc, hex(&a)), || {
            let _ = mopaq::special_files::Attributes::parse(&bytes::Bytes::copy_from_slice(&a), bc);
            let _ = mopaq::special_files::parse_listfile(&a);
            let _ = mopaq::crypto::parse_weak_signature(&a); let _ = mopaq::crypto::parse_strong_signature(&a);
            Ok(())
        });
    }
    // archives
    let n = c.n(9000, 120000);
    let mut base: Vec<(FormatVersion, Vec<String>, Vec<u8>, String)> = vec![];
    for it in 0..24u64 {
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let k = r.range(1, 7) as usize; let crc = r.bool(); let ct = it % 8 >= 4; let bs = r.below(2) as u16;
        let mut b = ArchiveBuilder::new().version(v).block_size(bs).generate_crcs(crc).compress_tables(ct).listfile_option(if it % 3 == 0 { ListfileOption::None } else { ListfileOption::Generate });
        let mut names = vec![];
        for i in 0..k { let l = r.below(2500) as usize; let n = format!("file{}", i); b = b.add_file_data_with_encryption(data(&mut r, l), &n, r.pick(&[0u8, 2, 0x10, 0x20, 0x12]), r.bool(), 0); names.push(n); }
        for i in 0..2 { let l = r.below(2500) as usize / 2 * 2; let n = format!("plain{}", i); b = b.add_file_data_with_options(data(&mut r, l), &n, r.pick(&[0u8, 2, 0x10, 0x20, 0x40, 0x80]), false, 0); names.push(n); }
        if it % 2 == 0 { let mut at = vec![100, 0, 0, 0, r.below(16) as u8, 0, 0, 0]; let l = r.below(400) as usize; at.extend(r.bytes(l)); b = b.add_file_data_with_options(at, "(attributes)", 0, false, 0); b = b.add_file_data_with_options(r.bytes(72), "(signature)", 0, false, 0); }
        let what = format!("{:?} files={} crcs={} compress_tables={} block_size={} #{}", v, k, crc, ct, bs, it);
        if b.build(file).is_err() { continue; }
        base.push((v, names, std::fs::read(file).unwrap(), what));
    }
    for it in 0..n { if c.out_of_time() { break; }
        let (v, names, raw, what) = { let b = &base[(it % base.len() as u64) as usize]; (b.0, b.1.clone(), b.2.clone(), b.3.clone()) };
        let mut x = raw.clone(); let mut did = vec![];
        let hl = header_len(v as u16);
        for _ in 0..r.range(1, 3) { match r.below(9) {
            0 => { let o = r.below(hl as u64) as usize; let y = r.u8(); x[o] = y; did.push(format!("byte {:#x}={:#x}", o, y)); }
            1 => { let o = 4 * (2 + r.below(hl as u64 / 4 - 2) as usize); let y = edge_vals(&mut r, raw.len() as u64); x[o..o + 4].copy_from_slice(&y.to_le_bytes()); did.push(format!("header word {:#x}={:#x}", o, y)); }
            2 | 3 => { // a field of a decrypted classic table
                let hash = r.below(3) == 0; let (po, no, key) = if hash { (0x10, 0x18, "(hash table)") } else { (0x14, 0x1C, "(block table)") };
                let (p, n) = (rd32(&raw, po) as usize, rd32(&raw, no) as usize);
                if n > 0 && p + n * 16 <= x.len() { let k = sp.hash(key.as_bytes(), 3); let mut t = sp.decrypt_bytes_words(&x[p..p + n * 16], k);
                    let o = 4 * r.below(n as u64 * 4) as usize; let y = if o % 16 == 12 && !hash { rd32(&t, o) ^ (1 << r.below(32)) } else { edge_vals(&mut r, raw.len() as u64) };
                    t[o..o + 4].copy_from_slice(&y.to_le_bytes()); let e = sp.encrypt_bytes_words(&t, k); x[p..p + n * 16].copy_from_slice(&e); did.push(format!("{} word {}={:#x}", key, o / 4, y)); }
            }
            4 if hl >= 0x44 => { // a field of an extended table
                let bet = r.bool(); let p = rd64(&raw, if bet { 0x34 } else { 0x3C }) as usize; let end = if bet { rd32(&raw, 0x10) as usize } else { rd64(&raw, 0x34) as usize };
                if p + 12 < end && end <= x.len() { let k = sp.hash(if bet { b"(block table)" } else { b"(hash table)" }, 3); let w = (end - p - 12) / 4 * 4; let mut t = sp.decrypt_bytes_words(&x[p + 12..p + 12 + w], k);
                    let o = 4 * r.below((w as u64 / 4).min(24)) as usize; let y = match r.below(3) { 0 => r.below(130) as u32, 1 => rd32(&t, o).wrapping_add(1 << r.below(8)), _ => edge_vals(&mut r, raw.len() as u64) };
                    if o + 4 <= t.len() { t[o..o + 4].copy_from_slice(&y.to_le_bytes()); let e = sp.encrypt_bytes_words(&t, k); x[p + 12..p + 12 + w].copy_from_slice(&e); did.push(format!("{} table word {}={:#x}", if bet { "bet" } else { "het" }, o / 4, y)); } }
                else if p + 12 < x.len() { let o = p + r.below(12) as usize; x[o] ^= 1 << r.below(8); did.push(format!("ext header byte {:#x}", o)); }
            }
            5 | 6 => { let o = r.below(x.len() as u64) as usize; let y = r.u8(); x[o] = y; did.push(format!("byte {:#x}={:#x}", o, y)); }
            7 => { // sector offsets of a plain multi-sector file live at its start
                let p = 4 * (hl / 4 + r.below(((raw.len() - hl) / 4).min(600) as u64 - 1) as usize); let y = edge_vals(&mut r, 512); if p + 4 <= x.len() { x[p..p + 4].copy_from_slice(&y.to_le_bytes()); did.push(format!("word {:#x}={:#x}", p, y)); } }
            _ => { let k = r.below(x.len() as u64 + 1) as usize; x.truncate(k); did.push(format!("cut at {:#x}", k)); }
        } if x.len() < hl { break; } }
        c.case("archive", &|| format!("{} damage: {}", what, did.join(", ")), || { std::fs::write(file, &x).map_err(|e| e.to_string())?; exercise(file, &names) });
    }
    // a plain single file whose block entry, offset table and data are all hostile
    let n = c.n(6000, 60000);
    for _ in 0..n { if c.out_of_time() { break; }
        let flags = EXISTS | r.pick(&[0u32, COMPRESS, SINGLE, SINGLE | COMPRESS, IMPLODE, COMPRESS | CRC, SINGLE | CRC, SINGLE | CRC | COMPRESS, COMPRESS | ENCRYPTED, COMPRESS | ENCRYPTED | FIX_KEY | CRC, SINGLE | ENCRYPTED | FIX_KEY]);
        let l = r.below(1500) as usize; let mut body = match r.below(3) { 0 => vec![0; l], _ => r.bytes(l) };
        for k in 0..(l / 4).min(8) { if r.bool() { let y = match r.below(3) { 0 => r.below(l as u64 + 40) as u32, _ => edge_vals(&mut r, l as u64) }; body[4 * k..4 * k + 4].copy_from_slice(&y.to_le_bytes()); } }
        if l > 0 && r.bool() { body[0] = r.pick(&[0x02u8, 0x08, 0x10, 0x12, 0x20, 0x40, 0x80]); }
        let size = match r.below(4) { 0 => r.below(5000), 1 => l as u64, 2 => r.below(CAP), _ => 0 } as u32; let csize = match r.below(4) { 0 => l as u32, 1 => edge_vals(&mut r, l as u64), _ => r.below(l as u64 + 3) as u32 }; let pos = match r.below(6) { 0 => edge_vals(&mut r, l as u64), _ => 0x2C };
        let shift = match r.below(6) { 0 => r.below(40) as u16, 1 => r.u32() as u16, _ => r.below(4) as u16 }; let hi = if r.below(4) == 0 { Some(vec![r.u32() as u16]) } else { None };
        if shift > 12 && size > 100000 { continue; }
        c.case("file", &|| format!("flags={:#x} pos={:#x} csize={:#x} size={:#x} shift={} hi={:x?} body={}", flags, pos, csize, size, shift, hi, hex(&body)), || {
            let a = Raw { version: 1, shift, body: &body, hash: htab(&sp, 4, &[("f".into(), 0, 0)]), blocks: vec![Block { pos, csize, size, flags }], hi: hi.clone() }.build(&sp);
            std::fs::write(file, a).map_err(|e| e.to_string())?; exercise(file, &["f".into()]) });
    }
    // arbitrary files
    let n = c.n(2000, 20000);
    for _ in 0..n { if c.out_of_time() { break; }
        let l = r.below(2000) as usize; let mut d = if r.bool() { vec![0u8; l] } else { r.bytes(l) };
        for k in 0..=l / 512 { if k * 512 + 32 <= l && r.below(3) != 0 { d[k * 512..k * 512 + 4].copy_from_slice(if r.below(3) == 0 { b"MPQ\x1B" } else { b"MPQ\x1A" }); for w in 1..8 { if r.bool() { let y = edge_vals(&mut r, l as u64); d[k * 512 + 4 * w..k * 512 + 4 * w + 4].copy_from_slice(&y.to_le_bytes()); } } if r.bool() { d[k * 512 + 12..k * 512 + 16].copy_from_slice(&(r.below(4) as u32 | (r.below(4) as u32) << 16).to_le_bytes()); d[k * 512 + 4..k * 512 + 8].copy_from_slice(&[0x20u32, 0x2C, 0x44, 0xD0][r.below(4) as usize].to_le_bytes()); } } }
        c.case("arbitrary", &|| format!("file={}", hex(&d)), || { std::fs::write(file, &d).map_err(|e| e.to_string())?; exercise(file, &["a".into()]) });
    }
    let _ = std::fs::remove_file(file);
}
