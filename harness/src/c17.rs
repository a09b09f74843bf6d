use crate::ctx::*;
use crate::mpq::*;
use mopaq::special_files::parse_listfile;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use crate::spec::Spec;
use std::collections::BTreeSet;
use std::path::Path;

/// one name per line, decoded with replacement characters, trimmed, cut at the first semicolon, comments and blanks skipped
fn spec(d: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(d).into_owned();
    let mut out = vec![];
    for l in t.split('\n') {
        let l = l.trim_matches(|c: char| c.is_whitespace());
        if l.starts_with('#') { continue; }
        let cut: String = l.chars().take_while(|c| *c != ';').collect();
        let n = cut.trim_matches(|c: char| c.is_whitespace());
        if !n.is_empty() { out.push(n.to_string()); }
    }
    out
}
pub fn run(c: &mut Ctx) {
    c.bound("lists of up to 30 lines over names, blanks, comments, metadata, all line endings, Unicode blanks, invalid UTF-8; archives of up to 30 files in every version, listing with and without a listfile");
    let mut r = c.rng("c17");
    let pieces: Vec<&[u8]> = vec![b"a.txt", b"dir\\b.blp", b"\n", b"\r\n", b"\r", b";", b"#", b" ", b"\t", b"\xff", b"\xc3\xa9", b"\xc3", b"x", b"\0", b"\xe2\x80\x83", b"\xc2\x85", b"\n\n", b"name;meta;more", b"#comment", b"; comment", b"a#b", b"a b", b"\x0b", b"\x0c", b"\xe3\x80\x80", b"\xef\xbb\xbf", b"\xe2\x80\x8b", b"\xe2\x80\xa8", b"\xc2\xa0", b"\x1a", b"\x1c", b"\"", b"'", b"/", b"//", b"..", b"%20", b"(listfile)", b"A.TXT", b"=", b",", b"|", b"*", b"a.txt\r\na.txt\n", b"\xef\xbf\xbd", b"\xf0\x9f\x98\x80"];
    let mut one = |c: &mut Ctx, d: Vec<u8>| { c.case("parse", &|| format!("list={}", hex(&d)), || eq("names", &parse_listfile(&d).map_err(|e| format!("{:?}", e))?, &spec(&d))); };
    let n = c.n(20000, 200000);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = r.below(30); let mut d = vec![]; for _ in 0..k { let p = r.pick(&pieces); d.extend_from_slice(p); }
        one(c, d);
    }
    let alpha = [b'a', b'\n', b'\r', b';', b'#', b' '];
    let m = if c.thorough { 7 } else { 6 };
    for len in 0..=m { let mut i = vec![0usize; len]; loop { one(c, i.iter().map(|x| alpha[*x]).collect()); let mut k = 0; while k < len { i[k] += 1; if i[k] < alpha.len() { break; } i[k] = 0; k += 1; } if k == len { break; } } }
    for _ in 0..c.n(1000, 10000) { let l = r.below(40) as usize; let d = r.bytes(l); one(c, d); }

    let sp = &Spec::new();
    let file = Path::new("c17.mpq"); let lf = Path::new("c17.lst");
    let n = c.n(400, 4000);
    for it in 0..n { if c.out_of_time() { break; }
        let v = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][(it % 4) as usize];
        let k = match r.below(6) { 0 => 0, 1 => r.range(10, 30), _ => r.range(1, 8) } as usize;
        let mut seen = BTreeSet::new(); let mut names: Vec<String> = vec![];
        for _ in 0..k { let n = name(&mut r); if n.starts_with('#') || n.contains(';') || n.starts_with('(') { continue; } if seen.insert(canon(&n)) { names.push(n); } }
        if r.below(3) == 0 { let n = r.pick(&["(patch_metadata)", "(user data)", "(signature)", "(", "(x)\\y", "(listfile)2", "(attributes).bak", "listfile"]).to_string(); if seen.insert(canon(&n)) { let at = r.below(names.len() as u64 + 1) as usize; names.insert(at, n); } }
        let tail: Vec<u8> = match r.below(4) { 0 => vec![], 1 => vec![0; r.range(1, 4) as usize], 2 => b"\r\n  \r\n".to_vec(), _ => b"; end\n\n".to_vec() };
        let ext = it % 5 == 4; let dm = r.pick(&[0u8, 2, 0x10, 0x20]); let ct = r.bool(); let crc = r.bool();
        c.case("archive", &|| format!("{:?} external={} default_method={:#x} compress_tables={} names={:?}", v, ext, dm, ct, names), || {
            let mut b = ArchiveBuilder::new().version(v).default_compression(dm).compress_tables(ct).generate_crcs(crc);
            if ext { let mut t = String::new(); for n in &names { t += n; t += "\n"; } let mut t = t.into_bytes(); t.extend(&tail); std::fs::write(lf, &t).map_err(|e| e.to_string())?; b = b.listfile_option(ListfileOption::External(lf.to_path_buf())); } else { b = b.listfile_option(ListfileOption::Generate); }
            for (i, n) in names.iter().enumerate() { b = b.add_file_data_with_options(vec![i as u8; i * 3], n, 0, i % 3 == 1, 0); }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let mut want = names.clone(); if !ext { want.push("(listfile)".into()); }
            if ext { let mut t = String::new(); for n in &names { t += n; t += "\n"; } let mut t = t.into_bytes(); t.extend(&tail); eq_bytes("(listfile)", &a.read_file("(listfile)").map_err(|e| format!("(listfile): {:?}", e))?, &t)?; if tail.first() == Some(&0) { return Ok(()); } }
            let l = parse_listfile(&a.read_file("(listfile)").map_err(|e| format!("(listfile): {:?}", e))?).map_err(|e| format!("{:?}", e))?;
            eq("names in the list", &l, &want)?;
            let es = a.list().map_err(|e| format!("list: {:?}", e))?;
            eq("names listed", &es.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), &want)?;
            for (i, n) in names.iter().enumerate() { eq(&format!("size listed for {:?}", n), &es[i].size, &(i as u64 * 3))?; }
            let hs = a.list_with_hashes().map_err(|e| format!("list_with_hashes: {:?}", e))?;
            eq("names listed with hashes", &hs.iter().map(|e| e.name.clone()).collect::<Vec<_>>(), &want)?;
            for (e, f) in hs.iter().zip(&es) { eq(&format!("hashes of {:?}", e.name), &e.hashes, &Some((sp.hash(e.name.as_bytes(), 1), sp.hash(e.name.as_bytes(), 2))))?; eq(&format!("entry of {:?}", e.name), &(e.size, e.compressed_size, e.flags), &(f.size, f.compressed_size, f.flags))?; }
            // the tables hold the files in the order they were added, with the list last
            let mut blocks: Vec<(String, u64, u64, u32)> = names.iter().chain(std::iter::once(&"(listfile)".to_string())).enumerate().map(|(i, n)| { let f = a.find_file(n).map_err(|e| format!("{:?}: {:?}", n, e))?.ok_or(format!("{:?} is not found", n))?; let _ = i; Ok((format!("file_{:08}.dat", f.block_index), f.file_size, f.compressed_size, f.flags)) }).collect::<Result<_, String>>()?;
            blocks.sort();
            let t = |es: &[mopaq::FileEntry]| es.iter().map(|e| (e.name.clone(), e.size, e.compressed_size, e.flags)).collect::<Vec<_>>();
            eq("files enumerated", &t(&a.list_all().map_err(|e| format!("list_all: {:?}", e))?), &blocks)?;
            eq("files enumerated with hashes", &t(&a.list_all_with_hashes().map_err(|e| format!("list_all_with_hashes: {:?}", e))?), &blocks)
        });
    }
    // enumeration of any tables: shared blocks, deleted and dangling entries, blocks that do not exist
    for _ in 0..c.n(400, 4000) { if c.out_of_time() { break; }
        let nb = r.below(20) as usize; let size = 1usize << r.below(7); let version = r.below(2) as u16;
        let blocks: Vec<Block> = (0..nb).map(|_| Block { pos: 0x20 + r.below(100) as u32, csize: r.below(1000) as u32, size: r.below(100000) as u32, flags: if r.below(4) == 0 { 0x200 } else { 0x8000_0000 | (r.next() as u32 & 0x0503_0300) } }).collect();
        let hash: Vec<HEnt> = (0..size).map(|_| match r.below(4) { 0 => NEVER.clone(), 1 => DELETED.clone(), _ => HEnt { a: r.next() as u32, b: r.next() as u32, locale: r.pick(&[0u16, 0x409]), platform: 0, block: r.below(nb as u64 + 2) as u32 } }).collect();
        c.case("enumerate", &|| format!("version {}, blocks={:?} hash entries={:?}", version, blocks, hash), || {
            let raw = Raw { version, shift: 3, body: &[0u8; 2048], hash: hash.clone(), blocks: blocks.clone(), hi: None };
            std::fs::write(file, raw.build(sp)).map_err(|e| e.to_string())?;
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let mut want: Vec<(String, u64, u64, u32, Option<(u32, u32)>)> = vec![];
            for (i, b) in blocks.iter().enumerate() { if b.flags & 0x8000_0000 != 0 { if let Some(h) = hash.iter().find(|h| h.block as usize == i) { want.push((format!("file_{:08}.dat", i), b.size as u64, b.csize as u64, b.flags, Some((h.a, h.b)))); } } }
            let t = |es: Vec<mopaq::FileEntry>| es.iter().map(|e| (e.name.clone(), e.size, e.compressed_size, e.flags, e.hashes)).collect::<Vec<_>>();
            eq("files enumerated with hashes", &t(a.list_all_with_hashes().map_err(|e| format!("list_all_with_hashes: {:?}", e))?), &want)?;
            for w in &mut want { w.4 = None; }
            eq("files enumerated", &t(a.list_all().map_err(|e| format!("list_all: {:?}", e))?), &want)?;
            let slots: Vec<_> = hash.iter().enumerate().filter_map(|(i, h)| blocks.get(h.block as usize).filter(|b| b.flags & 0x8000_0000 != 0).map(|b| (format!("file_{:08}.dat", i), b.size as u64, b.csize as u64, b.flags, None))).collect();
            eq("entries listed without a list of names", &t(a.list().map_err(|e| format!("list: {:?}", e))?), &slots)
        });
    }
    // more names than 16 bits can count
    for v in [FormatVersion::V1, FormatVersion::V3] { if c.out_of_time() { break; }
        let k = 66_000usize;
        c.case("archive-large", &|| format!("{:?}, {} empty files named n0, n1, ...", v, k), || {
            let mut b = ArchiveBuilder::new().version(v).listfile_option(ListfileOption::Generate);
            for i in 0..k { b = b.add_file_data_with_options(vec![], &format!("n{}", i), 0, false, 0); }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let mut a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let es = a.list().map_err(|e| format!("list: {:?}", e))?;
            eq("number of names listed", &es.len(), &(k + 1))?;
            for (i, e) in es.iter().enumerate().take(k) { eq(&format!("name {}", i), &e.name, &format!("n{}", i))?; }
            eq("last name", &es[k].name.as_str(), &"(listfile)")
        });
    }
    for f in [file, lf] { let _ = std::fs::remove_file(f); }
}
