use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::tables::{BetHeader, BetTable};
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};

/// a bit array, least significant bit of byte 0 first
#[derive(Clone)]
struct Bits(Vec<bool>);
impl Bits {
    fn of(b: &[u8]) -> Bits { Bits((0..b.len() * 8).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()) }
    fn put(&mut self, at: usize, w: usize, v: u128) { for k in 0..w { self.0[at + k] = k < 128 && v >> k & 1 == 1; } }
    fn get(&self, at: usize, w: usize) -> u128 { (0..w.min(128)).map(|k| (self.0[at + k] as u128) << k).sum() }
    fn bytes(&self) -> Vec<u8> { let mut v = vec![0; self.0.len() / 8]; for (i, b) in self.0.iter().enumerate() { if *b { v[i / 8] |= 1 << (i % 8); } } v }
}
fn value(r: &mut Rng, w: u32) -> u128 {
    let m = if w >= 128 { !0u128 } else { (1u128 << w) - 1 };
    let x = (r.next() as u128) << 64 | r.next() as u128;
    match r.below(6) { 0 => 0, 1 => m, 2 => 1u128 << r.below(w.max(1) as u64), 3 => !0, _ => if r.bool() { x } else { x & m } }
}
fn table(w: [u32; 5], idx: [u32; 4], entry: u32, flags: Vec<u32>, data: Vec<u8>, count: u32) -> BetTable {
    BetTable {
        header: BetHeader { table_size: 0, file_count: count, unknown_08: 0x10, table_entry_size: entry, bit_index_file_pos: idx[0], bit_index_file_size: idx[1], bit_index_cmp_size: idx[2],
            bit_index_flag_index: idx[3], bit_index_unknown: 0, bit_count_file_pos: w[0], bit_count_file_size: w[1], bit_count_cmp_size: w[2], bit_count_flag_index: w[3], bit_count_unknown: w[4],
            total_bet_hash_size: 0, bet_hash_size_extra: 0, bet_hash_size: 64, bet_hash_array_size: 0, flag_count: flags.len() as u32 },
        file_flags: flags, file_table: data, bet_hashes: vec![],
    }
}
pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("entries of every width 1..=120 at every index 0..=16 over all-zero, all-one and random surroundings; tables with random field widths (up to 48 + 33 + 32 + 7 bits, 120 together) of up to 40 files; version 3 and 4 archives of up to 60 files, tables compressed or not");
    let mut r = c.rng("c08");
    #[cfg(vp_hooks = "builder")]
    {
        let b = ArchiveBuilder::new();
        let reps = c.n(1, 6);
        for w in 1..=120u32 { for index in 0..=16usize { for fill in 0..3 { for _ in 0..reps {
            let need = ((index + 1) * w as usize).div_ceil(8);
            let len = need + r.below(3) as usize;
            let before = match fill { 0 => vec![0; len], 1 => vec![0xFF; len], _ => r.bytes(len) };
            let v = value(&mut r, w);
            c.case("write", &|| format!("width={} index={} value={:#x} table={}", w, index, v, hex(&before)), || {
                let mut d = before.clone();
                b.vp_write_bit_entry(&mut d, index, v, w).map_err(|e| format!("{:?}", e))?;
                let mut m = Bits::of(&before);
                m.put(index * w as usize, w as usize, v);
                eq_bytes("table after the write", &d, &m.bytes())
            });
        } } } }
        for _ in 0..200 { // out of range
            let w = r.range(1, 120) as u32; let index = r.below(20) as usize;
            let need = ((index + 1) * w as usize).div_ceil(8);
            let len = r.below(need as u64) as usize; let before = r.bytes(len);
            c.case("write-refused", &|| format!("width={} index={} table={}", w, index, hex(&before)), || {
                let mut d = before.clone();
                let e = b.vp_write_bit_entry(&mut d, index, 1, w);
                ensure(e.is_err(), || "accepted an entry past the end".into())?;
                eq_bytes("table", &d, &before)
            });
        }
    }
    // reading packed tables
    let n = c.n(6000, 60000);
    for _ in 0..n { if c.out_of_time() { break; }
        let w = [r.range(1, 48) as u32, r.range(1, 33) as u32, r.range(1, 32) as u32, if r.below(40) == 0 { r.range(7, 17) } else { r.range(0, 6) } as u32, r.below(2) as u32];
        let entry: u32 = w.iter().sum();
        if entry > 120 { continue; }
        let count = r.range(1, 40) as u32;
        let flags: Vec<u32> = (0..r.range(1, 1 << w[3])).map(|_| r.u32() | 0x8000_0000).collect();
        let mut ord = [0usize, 1, 2, 3]; // field order in the entry
        for i in (1..4).rev() { ord.swap(i, r.below(i as u64 + 1) as usize); }
        let mut idx = [0u32; 4]; let mut at = 0; for &f in &ord { idx[f] = at; at += w[f]; }
        let mut rows: Vec<[u64; 4]> = Vec::new();
        for _ in 0..count { let mut x = [0u64; 4]; for f in 0..3 { x[f] = (value(&mut r, w[f]) as u64) & ((1u64 << w[f]) - 1); } x[3] = r.below(flags.len() as u64); rows.push(x); }
        let mut m = Bits(vec![false; ((count * entry) as usize).div_ceil(8) * 8]);
        for (i, x) in rows.iter().enumerate() { for f in 0..4 { m.put(i * entry as usize + idx[f] as usize, w[f] as usize, x[f] as u128); } }
        let data = m.bytes();
        c.case("read", &|| format!("widths={:?} starts={:?} entry={} flags={} table={} rows={:x?}", w, idx, entry, clip(&format!("{:x?}", flags), 4000), hex(&data), rows), || {
            let t = table(w, idx, entry, flags.clone(), data.clone(), count);
            for (i, x) in rows.iter().enumerate() {
                let g = t.get_file_info(i as u32).ok_or_else(|| format!("entry {} not returned", i))?;
                eq(&format!("entry {} (position, size, compressed, flags)", i), &(g.file_pos, g.file_size, g.compressed_size, g.flags), &(x[0], x[1], x[2], flags[x[3] as usize]))?;
            }
            ensure(t.get_file_info(count).is_none(), || "an entry past the last file".into())
        });
    }
    // the whole way: builder, table in the archive, reader
    let file = std::path::Path::new("c08.mpq");
    let n = c.n(150, 1500);
    for _ in 0..n { if c.out_of_time() { break; }
        let k = match r.below(4) { 0 => r.range(20, 60), _ => r.range(1, 16) } as usize;
        let v4 = r.bool(); let ct = r.bool(); let crc = r.bool();
        let files: Vec<(String, Vec<u8>, u8, bool, bool)> = (0..k).map(|i| { let l = match r.below(6) { 0 => 0, 1 => r.below(9000), 2 => 1u64 << r.below(13), _ => r.below(300) } as usize; (format!("{}_{}", name(&mut r), i), data(&mut r, l), r.pick(&[0u8, 0, 2, 0x10]), r.below(3) == 0, r.bool()) }).collect();
        c.case("archive", &|| format!("v4={} compress_tables={} crcs={} files={:?}", v4, ct, crc, files.iter().map(|f| (f.0.clone(), f.1.len(), f.2, f.3, f.4)).collect::<Vec<_>>()), || {
            let mut b = ArchiveBuilder::new().version(if v4 { FormatVersion::V4 } else { FormatVersion::V3 }).listfile_option(ListfileOption::None).compress_tables(ct).generate_crcs(crc);
            for (n, d, m, e, fx) in &files { b = if *e { b.add_file_data_with_encryption(d.clone(), n, *m, *fx, 0) } else { b.add_file_data_with_options(d.clone(), n, *m, false, 0) }; }
            b.build(file).map_err(|e| format!("build: {:?}", e))?;
            let (p, _) = parse_file(&sp, file);
            let a = Archive::open(file).map_err(|e| format!("open: {:?}", e))?;
            let t = a.bet_table().ok_or("extended block table not loaded")?;
            eq("files in the extended table", &{ t.header.file_count }, &(k as u32))?;
            for (i, bl) in p.blocks.iter().enumerate() {
                let g = t.get_file_info(i as u32).ok_or_else(|| format!("entry {} not returned", i))?;
                eq(&format!("entry {} vs block table", i), &(g.file_pos, g.file_size, g.compressed_size, g.flags), &(bl.pos as u64, bl.size as u64, bl.csize as u64, bl.flags))?;
                eq(&format!("size of file {}", i), &g.file_size, &(files[i].1.len() as u64))?;
            }
            for (i, f) in files.iter().enumerate() { eq(&format!("stored name hash {}", i), t.bet_hashes.get(i).unwrap_or(&0), &sp.jenkins(f.0.as_bytes()))?; }
            Ok(())
        });
    }
    let _ = std::fs::remove_file(file);
}
