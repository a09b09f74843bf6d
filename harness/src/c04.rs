use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::{Archive, ArchiveBuilder, FormatVersion, HashEntry, HashTable, ListfileOption};

fn put(t: &mut HashTable, i: usize, e: &HEnt) { *t.get_mut(i).expect("slot") = HashEntry { name_1: e.a, name_2: e.b, locale: e.locale, platform: e.platform, block_index: e.block }; }
fn dump(t: &HashTable) -> Vec<HEnt> { t.entries().iter().map(|e| HEnt { a: e.name_1, b: e.name_2, locale: e.locale, platform: e.platform, block: e.block_index }).collect() }
fn check_find(sp: &Spec, real: &HashTable, spec: &[HEnt], n: &str, loc: u16) -> Chk {
    let got = real.find_file(n, loc).map(|(i, e)| (i, e.block_index));
    let want = lookup(sp, spec, n.as_bytes(), loc).map(|i| (i, spec[i].block));
    eq(&format!("find_file({:?}, {:#x})", n, loc), &got, &want)
}
pub fn run(c: &mut Ctx) {
    c.journal = true;
    let sp = Spec::new();
    c.bound("hash tables of 1..=64 slots with random valid, deleted and never-used entries, full tables included; up to 40 names per table (case and slash variants, wrong locales); builder insertions of up to 60 names; archives of up to 120 names");
    let mut r = c.rng("c04");
    // arbitrary tables
    let n = c.n(12000, 120000);
    for _ in 0..n { if c.out_of_time() { break; }
        let size = 1usize << r.below(7);
        let names: Vec<String> = (0..r.range(1, 12)).map(|_| name(&mut r)).collect();
        let locs = [0u16, 0x409, 0x407, 0x809, 0x9, 0x8409, 0x400, 0xFFFF];
        let fill = r.below(101);
        let spec: Vec<HEnt> = (0..size).map(|_| if r.below(100) < fill { match r.below(7) {
            6 => HEnt { a: r.pick(&[0u32, !0, 1]), b: r.pick(&[0u32, !0, 1]), locale: r.pick(&[0u16, !0]), platform: r.pick(&[0u16, !0]), block: r.pick(&[0xFFFF_FFFEu32, 0xFFFF_FFFE, 0, 0xFFFF_FFFD]) },
            0 => DELETED.clone(),
            1 => HEnt { a: r.u32(), b: r.u32(), locale: 0, platform: 0, block: r.below(100) as u32 },
            2 => { let k = r.pick(&names); HEnt { a: sp.hash(k.as_bytes(), 1), b: sp.hash(k.as_bytes(), 2), locale: r.pick(&locs), platform: 0, block: 0xFFFF_FFFE } }
            3 if r.bool() => { let k = r.pick(&names); let (x, y) = match r.below(3) { 0 => (1u32 << r.below(32), 0), 1 => (0, 1u32 << r.below(32)), _ => { let m = 1u32 << r.below(32); (m, m) } }; HEnt { a: sp.hash(k.as_bytes(), 1) ^ x, b: sp.hash(k.as_bytes(), 2) ^ y, locale: 0, platform: 0, block: r.below(100) as u32 } }
            3 => { let k = r.pick(&names); HEnt { a: sp.hash(k.as_bytes(), 1), b: r.u32(), locale: 0, platform: 0, block: r.below(100) as u32 } }
            _ => { let k = r.pick(&names); HEnt { a: sp.hash(k.as_bytes(), 1), b: sp.hash(k.as_bytes(), 2), locale: r.pick(&locs), platform: r.below(3) as u16, block: r.pick(&[0u32, 1, 7, 0xFFFF_FFFD, 0x8000_0000]) } } } } else { NEVER.clone() }).collect();
        let mut q: Vec<(String, u16)> = names.iter().map(|n| (n.clone(), r.pick(&locs))).collect();
        for _ in 0..4 { q.push((name(&mut r), r.pick(&locs))); }
        c.case("table", &|| format!("table={:x?} queries={:?}", spec.iter().map(|e| (e.a, e.b, e.locale, e.block)).collect::<Vec<_>>(), q), || {
            let mut t = HashTable::new_mut(size).map_err(|e| format!("new_mut({}): {:?}", size, e))?;
            for (i, e) in spec.iter().enumerate() { put(&mut t, i, e); }
            for (n, l) in &q { check_find(&sp, &t, &spec, n, *l)?; }
            Ok(())
        });
    }
    // insertions
    #[cfg(vp_hooks = "builder")]
    {
        let n = c.n(4000, 40000);
        for _ in 0..n { if c.out_of_time() { break; }
            let size = 1usize << r.range(1, 6);
            let k = r.range(1, size as u64) as usize;
            let mut ops: Vec<(String, u32, u16)> = vec![];
            for i in 0..k { let n = if i > 0 && r.below(5) == 0 { let o = r.pick(&ops).0; variant(&mut r, &o) } else { name(&mut r) }; ops.push((n, i as u32, if r.below(4) == 0 { r.pick(&[0x409u16, 0x407]) } else { 0 })); }
            c.case("insert", &|| format!("size={} ops={:?}", size, ops), || {
                let b = ArchiveBuilder::new();
                let mut t = HashTable::new_mut(size).map_err(|e| format!("{:?}", e))?;
                let mut model: Vec<(String, u16, u32)> = vec![];
                for (n, blk, loc) in &ops {
                    let dup = model.iter().any(|m| canon(&m.0) == canon(n) && m.1 == *loc);
                    if !dup && model.len() >= size { break; }
                    if dup && model.len() >= size { continue; }
                    let before = dump(&t);
                    let res = b.vp_add_to_hash_table(&mut t, n, *blk, *loc);
                    if dup {
                        ensure(res.is_err(), || format!("duplicate {:?} accepted", n))?;
                        eq("table after refused insertion", &dump(&t), &before)?;
                    } else {
                        res.map_err(|e| format!("insert {:?}: {:?}", n, e))?;
                        model.push((n.clone(), *loc, *blk));
                        let after = dump(&t);
                        let ch: Vec<usize> = (0..size).filter(|&i| before[i] != after[i]).collect();
                        ensure(ch.len() == 1 && before[ch[0]].block == !0, || format!("insertion of {:?} changed slots {:?}", n, ch))?;
                    }
                    for (m, l, bl) in &model {
                        let got = t.find_file(m, *l).map(|(_, e)| e.block_index);
                        // several locales of one name: any entry that matches the request is right, an exact one must exist
                        if *l != 0 && model.iter().filter(|x| canon(&x.0) == canon(m)).count() > 1 { ensure(got.is_some(), || format!("{:?} not found", m))?; continue; }
                        if model.iter().filter(|x| canon(&x.0) == canon(m)).count() > 1 { ensure(got.is_some(), || format!("{:?} not found", m))?; continue; }
                        eq(&format!("block of {:?} after inserting {:?}", m, n), &got, &Some(*bl))?;
                    }
                }
                if model.len() < size { for x in 0..6u32 { let q = format!("absent{}q{}", x, size); if !model.iter().any(|m| canon(&m.0) == canon(&q)) { eq(&format!("absent {:?}", q), &t.find_file(&q, 0).map(|(_, e)| e.block_index), &None)?; } } }
                Ok(())
            });
        }
    }
    // whole archives
    let file = std::path::Path::new("c04.mpq");
    let n = c.n(150, 1500);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = match r.below(4) { 0 => r.range(1, 120), 1 => r.pick(&[7u64, 8, 15, 16, 31, 32, 63, 64]), _ => r.range(1, 20) } as usize;
        let mut names: Vec<String> = vec![];
        while names.len() < k { let n = name(&mut r); if !names.iter().any(|m| canon(m) == canon(&n)) { names.push(n); } }
        let ver = r.pick(&[FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4]);
        let lf = r.bool();
        c.case("archive", &|| format!("version={:?} listfile={} names={:?}", ver, lf, names), || {
            let mut b = ArchiveBuilder::new().version(ver).listfile_option(if lf { ListfileOption::Generate } else { ListfileOption::None });
            for (i, n) in names.iter().enumerate() { b = b.add_file_data_with_options(vec![i as u8; i + 1], n, 0, false, 0); }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let (p, _) = parse_file(&sp, file);
            ensure(p.hash.len().is_power_of_two(), || format!("table size {}", p.hash.len()))?;
            let a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            for (i, n) in names.iter().enumerate() {
                let h = lookup(&sp, &p.hash, n.as_bytes(), 0).ok_or_else(|| format!("{:?} not in the stored table", n))?;
                eq(&format!("stored block of {:?}", n), &p.hash[h].block, &(i as u32))?;
                let f = a.find_file(n).map_err(|e| format!("{:?}", e))?.ok_or_else(|| format!("{:?} not found", n))?;
                eq(&format!("block of {:?}", n), &(f.block_index, f.file_size), &(i, i as u64 + 1))?;
            }
            for x in 0..10u32 { let q = format!("zq{}-{}", x, k); if !names.iter().any(|m| canon(m) == canon(&q)) { ensure(a.find_file(&q).map_err(|e| format!("{:?}", e))?.is_none(), || format!("absent {:?} reported as present", q))?; } }
            Ok(())
        });
    }
    for _ in 0..c.n(30, 200) { let a = name(&mut r); let b2 = variant(&mut r, &a);
        c.case("duplicate", &|| format!("{:?} then {:?}", a, b2), || {
            let b = ArchiveBuilder::new().listfile_option(ListfileOption::None).add_file_data(vec![1], &a).add_file_data(vec![2], &b2);
            ensure(b.build(file).is_err(), || "building with a duplicate name succeeded".into())
        }); }
    let _ = std::fs::remove_file(file);
}
