use crate::ctx::*;
use crate::mpq::*;
use crate::spec::Spec;
use mopaq::header::{find_header, FormatVersion, MpqHeader};
use mopaq::ArchiveBuilder;
use std::io::Cursor;

#[derive(Clone, Debug, PartialEq)]
struct H { version: u16, header_size: u32, size32: u32, shift: u16, hpos: u32, bpos: u32, hn: u32, bn: u32, hi: u64, hphi: u16, bphi: u16, size64: u64, bet: u64, het: u64, v4: [u64; 5], chunk: u32, md5: [[u8; 16]; 6] }
fn enc(h: &H) -> Vec<u8> {
    let mut v = vec![];
    le32(&mut v, 0x1A51504D); le32(&mut v, h.header_size); le32(&mut v, h.size32); le16(&mut v, h.version); le16(&mut v, h.shift);
    for x in [h.hpos, h.bpos, h.hn, h.bn] { le32(&mut v, x); }
    if h.version >= 1 { le64(&mut v, h.hi); le16(&mut v, h.hphi); le16(&mut v, h.bphi); }
    if h.version >= 2 { le64(&mut v, h.size64); le64(&mut v, h.bet); le64(&mut v, h.het); }
    if h.version >= 3 { for x in h.v4 { le64(&mut v, x); } le32(&mut v, h.chunk); for m in &h.md5 { v.extend_from_slice(m); } }
    v
}
fn gen(r: &mut Rng) -> H {
    let version = r.below(4) as u16;
    let min = header_len(version) as u32;
    let mut md5 = [[0u8; 16]; 6];
    for m in md5.iter_mut() { for b in m.iter_mut() { *b = r.u8(); } }
    H { version, header_size: if r.below(4) == 0 { min + r.below(1000) as u32 } else { min }, size32: r.edge32(), shift: r.u32() as u16, hpos: r.edge32(), bpos: r.edge32(), hn: r.edge32(), bn: r.edge32(),
        hi: r.edge64(), hphi: r.edge32() as u16, bphi: r.edge32() as u16, size64: r.edge64(), bet: r.edge64(), het: r.edge64(), v4: [r.edge64(), r.edge64(), r.edge64(), r.edge64(), r.edge64()], chunk: r.edge32(), md5 }
}
fn check(g: &MpqHeader, h: &H) -> Chk {
    eq("header size", &g.header_size, &h.header_size)?; eq("archive size", &g.archive_size, &h.size32)?;
    eq("version", &(g.format_version as u16), &h.version)?; eq("sector shift", &g.block_size, &h.shift)?;
    eq("hash table position", &g.hash_table_pos, &h.hpos)?; eq("block table position", &g.block_table_pos, &h.bpos)?;
    eq("hash table size", &g.hash_table_size, &h.hn)?; eq("block table size", &g.block_table_size, &h.bn)?;
    let v = h.version;
    let o = |c: bool, x: u64| if c { Some(x) } else { None };
    eq("hi-block position", &g.hi_block_table_pos, &o(v >= 1, h.hi))?;
    eq("hash high word", &g.hash_table_pos_hi.map(u64::from), &o(v >= 1, h.hphi as u64))?;
    eq("block high word", &g.block_table_pos_hi.map(u64::from), &o(v >= 1, h.bphi as u64))?;
    eq("64-bit size", &g.archive_size_64, &o(v >= 2, h.size64))?;
    eq("bet position", &g.bet_table_pos, &o(v >= 2, h.bet))?;
    eq("het position", &g.het_table_pos, &o(v >= 2, h.het))?;
    eq("get_hash_table_pos", &g.get_hash_table_pos(), &(h.hpos as u64 + if v >= 1 { (h.hphi as u64) << 32 } else { 0 }))?;
    eq("get_block_table_pos", &g.get_block_table_pos(), &(h.bpos as u64 + if v >= 1 { (h.bphi as u64) << 32 } else { 0 }))?;
    eq("get_archive_size", &g.get_archive_size(), &if v >= 2 { h.size64 } else { h.size32 as u64 })?;
    match (&g.v4_data, v >= 3) {
        (None, false) => Ok(()),
        (Some(d), true) => {
            eq("version 4 sizes", &[d.hash_table_size_64, d.block_table_size_64, d.hi_block_table_size_64, d.het_table_size_64, d.bet_table_size_64], &h.v4)?;
            eq("raw chunk size", &d.raw_chunk_size, &h.chunk)?;
            eq("digests", &[d.md5_block_table, d.md5_hash_table, d.md5_hi_block_table, d.md5_bet_table, d.md5_het_table, d.md5_mpq_header], &h.md5)
        }
        (g, _) => Err(format!("version 4 data present: {}", g.is_some())),
    }
}
/// 512-byte units of lead-in that contain no signature at an aligned place
fn lead(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = match r.below(3) { 0 => vec![0; n * 512], _ => r.bytes(n * 512) };
    for i in 0..n { v[i * 512..i * 512 + 4].copy_from_slice(&r.pick(&[*b"MZ\0\0", *b"MPQ\x1c", *b"mpq\x1a", *b"\x1aQPM", [0; 4]])); if r.below(3) == 0 { let at = i * 512 + r.range(4, 500) as usize; v[at..at + 4].copy_from_slice(b"MPQ\x1a"); } }
    v
}
/// a stream of `len` bytes, zero outside `parts`, that hands out at most `chunk` bytes per read
struct Sparse { len: u64, parts: Vec<(u64, Vec<u8>)>, pos: u64, chunk: usize }
impl std::io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.len.saturating_sub(self.pos)).min(b.len().min(self.chunk) as u64) as usize;
        b[..n].fill(0);
        let (s, e) = (self.pos, self.pos + n as u64);
        for (at, d) in &self.parts { let (x, y) = (s.max(*at), e.min(at + d.len() as u64)); if x < y { b[(x - s) as usize..(y - s) as usize].copy_from_slice(&d[(x - at) as usize..(y - at) as usize]); } }
        self.pos += n as u64; Ok(n)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, f: std::io::SeekFrom) -> std::io::Result<u64> {
        let p = match f { std::io::SeekFrom::Start(x) => x as i128, std::io::SeekFrom::End(x) => self.len as i128 + x as i128, std::io::SeekFrom::Current(x) => self.pos as i128 + x as i128 };
        if p < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.pos = p as u64; Ok(self.pos)
    }
}
pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("random and boundary values for every field of all four versions; lead-ins of 0..=40 units of 512 bytes containing decoy and misaligned signatures; user-data headers with aligned and unaligned targets; headers up to 4 GiB into a sparse stream; truncations at every byte; archives built with every version and sector size");
    let mut r = c.rng("c09");
    let n = c.n(20000, 200000);
    for _ in 0..n { if c.out_of_time() { break; }
        let h = gen(&mut r);
        c.case("read", &|| format!("{:x?}", h), || { check(&MpqHeader::read(&mut Cursor::new(enc(&h))).map_err(|e| format!("{:?}", e))?, &h) });
    }
    for v in 0..4u16 { for k in 0..header_len(v) { let mut h = gen(&mut r); h.version = v; h.header_size = header_len(v) as u32; let b = enc(&h)[..k].to_vec();
        c.case("truncated", &|| format!("version {} header cut to {} bytes", v, k), || ensure(MpqHeader::read(&mut Cursor::new(&b)).is_err(), || "accepted".into()));
        c.case("truncated-find", &|| format!("find_header: version {} header cut to {} bytes", v, k), || ensure(find_header(&mut Cursor::new(&b)).is_err(), || "accepted".into())); } }
    for v in 0..4u16 { for s in [0u32, 1, 0x1F, header_len(v) as u32 - 1] { let mut h = gen(&mut r); h.version = v; h.header_size = s; let b = enc(&h);
        c.case("size-too-small", &|| format!("version {} header size {}", v, s), || ensure(MpqHeader::read(&mut Cursor::new(&b)).is_err(), || "accepted".into())); } }
    for v in [4u16, 5, 0xFF, 0x100, 0x101, 0xFFFF] { let h = gen(&mut r); let mut b = enc(&h); b[12..14].copy_from_slice(&v.to_le_bytes());
        c.case("version-unknown", &|| format!("version field {}", v), || ensure(MpqHeader::read(&mut Cursor::new(&b)).is_err(), || "accepted".into())); }
    for k in 0..4 { let h = gen(&mut r); let mut b = enc(&h); b[k] ^= 1 << r.below(8);
        c.case("signature-wrong", &|| format!("first bytes {}", hex(&b[..4])), || ensure(MpqHeader::read(&mut Cursor::new(&b)).is_err(), || "accepted".into())); }
    // locating
    let n = c.n(6000, 60000);
    for _ in 0..n { if c.out_of_time() { break; }
        let h = gen(&mut r); let units = match r.below(4) { 0 => 0, 1 => r.below(40), _ => r.below(6) } as usize;
        let mut d = lead(&mut r, units);
        let at = d.len() as u64;
        d.extend(enc(&h));
        if r.bool() { let k = r.below(900) as usize; d.extend(r.bytes(k)); }
        if r.bool() { while d.len() % 512 != 0 { d.push(0); } let o = gen(&mut r); d.extend(enc(&o)); } // a later header must not win
        c.case("find", &|| format!("lead={} units, total={} header={:x?}", units, d.len(), h), || {
            let (o, u, g) = find_header(&mut Cursor::new(&d)).map_err(|e| format!("{:?}", e))?;
            eq("offset", &o, &at)?; ensure(u.is_none(), || "user data reported".into())?; check(&g, &h)
        });
        c.case("find-from-anywhere", &|| format!("stream positioned at its end; lead={} units", units), || {
            let mut cur = Cursor::new(&d); cur.set_position(d.len() as u64);
            let (o, _, g) = find_header(&mut cur).map_err(|e| format!("{:?}", e))?;
            eq("offset", &o, &at)?; check(&g, &h)
        });
    }
    let n = c.n(4000, 40000);
    for _ in 0..n { if c.out_of_time() { break; }
        let h = gen(&mut r); let units = r.below(4) as usize;
        let mut d = lead(&mut r, units);
        let u0 = d.len();
        let off = match r.below(3) { 0 => 0x400, 1 => r.range(16, 3000), _ => 512 * r.range(1, 5) } as usize;
        let (us, uh) = (r.edge32(), r.edge32());
        d.extend_from_slice(b"MPQ\x1b"); le32(&mut d, us); le32(&mut d, off as u32); le32(&mut d, uh);
        let pad = r.bytes(off - 16); d.extend(pad);
        for k in (u0 + 512..u0 + off).step_by(512) { let e = (k + 4).min(d.len()); d[k..e].fill(0); }
        d.truncate(u0 + off); d.extend(enc(&h)); let tail = r.below(600) as usize; d.extend(r.bytes(tail));
        c.case("user-data", &|| format!("lead={} units, header offset {} sizes {} {} header={:x?}", units, off, us, uh, h), || {
            let (o, u, g) = find_header(&mut Cursor::new(&d)).map_err(|e| format!("{:?}", e))?;
            eq("offset", &o, &((u0 + off) as u64))?;
            let u = u.ok_or("user data not reported")?;
            eq("user data fields", &(u.user_data_size, u.header_offset, u.user_data_header_size), &(us, off as u32, uh))?;
            check(&g, &h)
        });
    }
    // a user-data header that points nowhere useful: the search goes on
    for k in 0..200 { let h = gen(&mut r); let mut d = vec![]; let off = if k % 2 == 0 { 0x7FFF_0000u32 } else { 64 };
        d.extend_from_slice(b"MPQ\x1b"); le32(&mut d, 16); le32(&mut d, off); le32(&mut d, 16); d.resize(512, 0); d.extend(enc(&h));
        c.case("user-data-astray", &|| format!("user data offset {:#x}, header at 512", off), || { let (o, u, g) = find_header(&mut Cursor::new(&d)).map_err(|e| format!("{:?}", e))?; eq("offset", &o, &512)?; ensure(u.is_none(), || "user data reported".into())?; check(&g, &h) }); }
    // far into the stream, and in small pieces
    for &at in &[512u64, 0x10_0000, 0x0800_0000 - 512, 0x0800_0000, 0x0800_0200, 0x1000_0000, 0x4000_0000, 0x8000_0000, 0x1_0000_0000, 0x1_0000_0200] { if c.out_of_time() { break; }
        if at > 0x2000_0000 && !c.thorough && at != 0x1_0000_0200 { continue; }
        let h = gen(&mut r); let chunk = if at < 0x20_0000 { 1 } else { 4096 };
        c.case("find-far", &|| format!("zero bytes up to {:#x}, header there, {} bytes per read at most; header={:x?}", at, chunk, h), || {
            let (o, u, g) = find_header(&mut Sparse { len: at + 4096, parts: vec![(at, enc(&h))], pos: 0, chunk }).map_err(|e| format!("{:?}", e))?;
            eq("offset", &o, &at)?; ensure(u.is_none(), || "user data reported".into())?; check(&g, &h)
        });
    }
    for &(u0, off) in &[(0u64, 12u32), (512, 12), (0, 0x7FFF_FFFF), (0, 0x8000_0000), (0, 0x8000_0200), (0, 0xFFFF_FFFF), (512, 0xFFFF_FFFF), (512, 0xFFFF_FE00), (0x600, 0xFFFF_FC00), (0x1000, 0xFFFF_F001), (0x10_0000, 0xFFFF_0000)] {
        let h = gen(&mut r); let (us, uh) = (r.edge32(), if off == 12 { 0x1A51504D } else { r.edge32() });
        let mut d = vec![]; d.extend_from_slice(b"MPQ\x1b"); le32(&mut d, us); le32(&mut d, off); le32(&mut d, uh);
        c.case("user-data-far", &|| format!("user data at {:#x}, header offset {:#x}, header={:x?}", u0, off, h), || {
            let at = u0 + off as u64;
            let (o, u, g) = find_header(&mut Sparse { len: at + 600, parts: vec![(u0, d.clone()), (at, enc(&h))], pos: 0, chunk: 7 }).map_err(|e| format!("{:?}", e))?;
            eq("offset", &o, &at)?;
            let u = u.ok_or("user data not reported")?;
            eq("user data fields", &(u.user_data_size, u.header_offset, u.user_data_header_size), &(us, off, uh))?;
            check(&g, &h)
        });
    }
    let n = c.n(1500, 15000);
    for _ in 0..n { if c.out_of_time() { break; }
        let units = r.below(12) as usize; let mut d = lead(&mut r, units); let k = r.below(512) as usize; let mut t = r.bytes(k); if t.len() >= 4 { t[..4].fill(0); } d.extend(t);
        c.case("none", &|| format!("no header in {} bytes", d.len()), || ensure(find_header(&mut Cursor::new(&d)).is_err(), || "accepted".into()));
    }
    // headers written by the builder
    let file = std::path::Path::new("c09.mpq");
    for v in [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4] { for shift in 0..=12u16 {
        let k = r.range(1, 30) as usize;
        c.case("builder", &|| format!("version={:?} sector shift={} files={}", v, shift, k), || {
            let mut b = ArchiveBuilder::new().version(v).block_size(shift);
            for i in 0..k { b = b.add_file_data_with_options(vec![i as u8; i * 37], &format!("f{}.bin", i), 0, false, 0); }
            b.build(file).map_err(|e| format!("{:?}", e))?;
            let (p, raw) = parse_file(&sp, file);
            eq("version", &p.version, &(v as u16))?; eq("sector shift", &p.shift, &shift)?;
            eq("header size field", &rd32(&raw, 4), &(header_len(p.version) as u32))?;
            eq("archive size field", &rd32(&raw, 8), &(raw.len() as u32))?;
            if p.version >= 2 { eq("64-bit archive size", &rd64(&raw, 0x2C), &(raw.len() as u64))?; eq("bet signature", &rd32(&raw, rd64(&raw, 0x34) as usize), &0x1A54_4542)?; eq("het signature", &rd32(&raw, rd64(&raw, 0x3C) as usize), &0x1A54_4548)?; }
            eq("files", &p.blocks.len(), &(k + 1))?;
            let (_, _, g) = find_header(&mut Cursor::new(&raw)).map_err(|e| format!("{:?}", e))?;
            eq("hash table position", &g.get_hash_table_pos(), &(rd32(&raw, 16) as u64))?;
            eq("sector size", &g.sector_size(), &(512usize << shift))
        });
    } }
    let _ = std::fs::remove_file(file);
}
