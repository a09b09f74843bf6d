//! An independent writer for small MPQ archives, from the format description (no code shared with the repository).
use crate::spec::Spec;
pub const IMPLODE: u32 = 0x100;
pub const COMPRESS: u32 = 0x200;
pub const ENCRYPTED: u32 = 0x1_0000;
pub const FIX_KEY: u32 = 0x2_0000;
pub const SINGLE: u32 = 0x0100_0000;
pub const CRC: u32 = 0x0400_0000;
pub const EXISTS: u32 = 0x8000_0000;

pub fn le32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()); }
pub fn le64(v: &mut Vec<u8>, x: u64) { v.extend_from_slice(&x.to_le_bytes()); }
pub fn le16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_le_bytes()); }
pub fn rd32(b: &[u8], o: usize) -> u32 { u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]) }
pub fn rd64(b: &[u8], o: usize) -> u64 { rd32(b, o) as u64 | ((rd32(b, o + 4) as u64) << 32) }
pub fn rd16(b: &[u8], o: usize) -> u16 { u16::from_le_bytes([b[o], b[o + 1]]) }

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Block { pub pos: u32, pub csize: u32, pub size: u32, pub flags: u32 }
#[derive(Clone, Debug, PartialEq)]
pub struct HEnt { pub a: u32, pub b: u32, pub locale: u16, pub platform: u16, pub block: u32 }
pub const NEVER: HEnt = HEnt { a: !0, b: !0, locale: !0, platform: !0, block: !0 };
pub const DELETED: HEnt = HEnt { a: !0, b: !0, locale: !0, platform: !0, block: 0xFFFF_FFFE };

pub fn htab(sp: &Spec, size: usize, names: &[(String, u16, u32)]) -> Vec<HEnt> {
    let mut t = vec![NEVER.clone(); size];
    for (n, loc, blk) in names {
        let mut i = sp.hash(n.as_bytes(), 0) as usize % size;
        while t[i].block < 0xFFFF_FFFE { i = (i + 1) % size; }
        t[i] = HEnt { a: sp.hash(n.as_bytes(), 1), b: sp.hash(n.as_bytes(), 2), locale: *loc, platform: 0, block: *blk };
    }
    t
}
pub fn htab_bytes(t: &[HEnt]) -> Vec<u8> {
    let mut v = vec![];
    for e in t { le32(&mut v, e.a); le32(&mut v, e.b); le16(&mut v, e.locale); le16(&mut v, e.platform); le32(&mut v, e.block); }
    v
}
pub fn btab_bytes(t: &[Block]) -> Vec<u8> {
    let mut v = vec![];
    for e in t { for x in [e.pos, e.csize, e.size, e.flags] { le32(&mut v, x); } }
    v
}
/// version-1/2 archive: header, raw body, hash table, block table, optional high words
pub struct Raw<'a> {
    pub version: u16, pub shift: u16, pub body: &'a [u8], pub hash: Vec<HEnt>, pub blocks: Vec<Block>, pub hi: Option<Vec<u16>>,
}
pub fn header_len(version: u16) -> usize { [0x20, 0x2C, 0x44, 0xD0][version as usize] }
impl Raw<'_> {
    /// bytes of the archive itself (offset 0); block positions are relative to the archive start
    pub fn build(&self, sp: &Spec) -> Vec<u8> {
        assert!(self.version < 2);
        let hl = header_len(self.version);
        let hpos = hl + self.body.len();
        let hb = sp.encrypt_bytes_words(&htab_bytes(&self.hash), sp.hash(b"(hash table)", 3));
        let bb = sp.encrypt_bytes_words(&btab_bytes(&self.blocks), sp.hash(b"(block table)", 3));
        let bpos = hpos + hb.len();
        let hipos = bpos + bb.len();
        let total = hipos + self.hi.as_ref().map_or(0, |h| h.len() * 2);
        let mut v = vec![];
        le32(&mut v, 0x1A51504D); le32(&mut v, hl as u32); le32(&mut v, total as u32); le16(&mut v, self.version); le16(&mut v, self.shift);
        le32(&mut v, hpos as u32); le32(&mut v, bpos as u32); le32(&mut v, self.hash.len() as u32); le32(&mut v, self.blocks.len() as u32);
        if self.version >= 1 { le64(&mut v, if self.hi.is_some() { hipos as u64 } else { 0 }); le16(&mut v, 0); le16(&mut v, 0); }
        v.extend_from_slice(self.body); v.extend(hb); v.extend(bb);
        if let Some(h) = &self.hi { for x in h { le16(&mut v, *x); } }
        v
    }
}
/// what a conforming reader finds in the classic tables of an archive that starts at 0
pub struct Parsed { pub version: u16, pub shift: u16, pub hash: Vec<HEnt>, pub blocks: Vec<Block>, pub hi: Option<Vec<u16>> }
pub fn parse(sp: &Spec, at: &dyn Fn(u64, usize) -> Vec<u8>) -> Parsed {
    let h = at(0, 0x20);
    assert_eq!(rd32(&h, 0), 0x1A51504D, "signature");
    let version = rd16(&h, 12);
    let full = at(0, header_len(version));
    let (mut hp, mut bp) = (rd32(&h, 0x10) as u64, rd32(&h, 0x14) as u64);
    let (hn, bn) = (rd32(&h, 0x18) as usize, rd32(&h, 0x1C) as usize);
    let mut hi = None;
    if version >= 1 {
        hp |= (rd16(&full, 0x28) as u64) << 32; bp |= (rd16(&full, 0x2A) as u64) << 32;
        let p = rd64(&full, 0x20);
        if p != 0 { let d = at(p, bn * 2); hi = Some((0..bn).map(|i| rd16(&d, i * 2)).collect()); }
    }
    let hd = sp.decrypt_bytes_words(&at(hp, hn * 16), sp.hash(b"(hash table)", 3));
    let bd = sp.decrypt_bytes_words(&at(bp, bn * 16), sp.hash(b"(block table)", 3));
    Parsed { version, shift: rd16(&h, 14),
        hash: (0..hn).map(|i| HEnt { a: rd32(&hd, i * 16), b: rd32(&hd, i * 16 + 4), locale: rd16(&hd, i * 16 + 8), platform: rd16(&hd, i * 16 + 10), block: rd32(&hd, i * 16 + 12) }).collect(),
        blocks: (0..bn).map(|i| Block { pos: rd32(&bd, i * 16), csize: rd32(&bd, i * 16 + 4), size: rd32(&bd, i * 16 + 8), flags: rd32(&bd, i * 16 + 12) }).collect(), hi }
}
pub fn parse_file(sp: &Spec, path: &std::path::Path) -> (Parsed, Vec<u8>) {
    let d = std::fs::read(path).expect("archive file");
    (parse(sp, &|o, n| d[o as usize..o as usize + n].to_vec()), d.clone())
}
/// linear probing as the format defines it
pub fn lookup(sp: &Spec, t: &[HEnt], name: &[u8], locale: u16) -> Option<usize> {
    let (a, b) = (sp.hash(name, 1), sp.hash(name, 2));
    let n = t.len();
    let s = sp.hash(name, 0) as usize % n;
    for k in 0..n {
        let i = (s + k) % n;
        let e = &t[i];
        if e.block == 0xFFFF_FFFF { return None; }
        if e.block != 0xFFFF_FFFE && e.a == a && e.b == b && (locale == 0 || e.locale == 0 || e.locale == locale) { return Some(i); }
    }
    None
}
/// a random name made of path-like characters
pub fn name(r: &mut crate::ctx::Rng) -> String {
    let n = match r.below(4) { 0 => r.range(1, 3), 1 => r.range(1, 60), _ => r.range(3, 16) } as usize;
    let cs: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.\\/() éß日".chars().collect();
    let s: String = (0..n).map(|_| r.pick(&cs)).collect();
    let t = s.trim().to_string();
    if t.is_empty() || t.starts_with('(') { format!("x{}", t) } else { t }
}
pub fn canon(n: &str) -> String { n.replace('/', "\\").to_ascii_uppercase() }
pub fn variant(r: &mut crate::ctx::Rng, n: &str) -> String {
    n.chars().map(|c| match c { '/' | '\\' => if r.bool() { '/' } else { '\\' }, c if c.is_ascii_alphabetic() => if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }, c => c }).collect()
}
/// byte strings of several shapes
pub fn data(r: &mut crate::ctx::Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![r.u8(); n],
        2 | 3 => r.bytes(n),
        4 => { let p = r.range(1, 40) as usize; let b = r.bytes(p); (0..n).map(|i| b[i % p]).collect() }
        5 => { let t = b"The quick brown fox jumps over the lazy dog. 0123456789\r\n"; (0..n).map(|i| t[(i * 7 / 5) % t.len()]).collect() }
        6 => { let mut v = vec![]; let mut z = r.bool(); while v.len() < n { let l = r.below(300) as usize + 1; for _ in 0..l { v.push(if z { 0 } else { r.u8() | 1 }); } z = !z; } v.truncate(n); v }
        _ => { let mut v = vec![]; let mut x = 0i32; while v.len() < n { x = (x + r.below(2001) as i32 - 1000).clamp(-32768, 32767); v.extend_from_slice(&(x as i16).to_le_bytes()); } v.truncate(n); v }
    }
}
/// a file of `len` bytes with pieces written at given places (sparse on disk)
pub fn sparse_file(path: &std::path::Path, len: u64, parts: &[(u64, &[u8])]) {
    use std::io::{Seek, SeekFrom, Write};
    let mut f = std::fs::File::create(path).unwrap();
    f.set_len(len).unwrap();
    for (o, b) in parts { f.seek(SeekFrom::Start(*o)).unwrap(); f.write_all(b).unwrap(); }
}
