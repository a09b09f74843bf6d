//! Executable specification, written from the format description; shares no code with the repository.
pub fn table() -> Vec<u32> {
    let mut t = vec![0u32; 0x500];
    let mut s: u64 = 0x0010_0001;
    let mut step = || { s = (s * 125 + 3) % 0x2A_AAAB; (s & 0xFFFF) as u32 };
    for i in 0..0x100usize { for j in 0..5usize { let hi = step(); let lo = step(); t[j * 0x100 + i] = (hi << 16) | lo; } }
    t
}
pub struct Spec { pub t: Vec<u32> }
impl Spec {
    pub fn new() -> Self { Spec { t: table() } }
    pub fn encrypt(&self, p: &[u32], key: u32) -> Vec<u32> {
        if key == 0 { return p.to_vec(); }
        let (mut k, mut s) = (key, 0xEEEE_EEEEu32);
        let mut out = Vec::with_capacity(p.len());
        for &w in p {
            s = s.wrapping_add(self.t[0x400 + (k as u8) as usize]);
            out.push(w ^ k.wrapping_add(s));
            k = ((k ^ 0xFFFF_FFFF) << 21).wrapping_add(0x1111_1111) | (k >> 11);
            s = w.wrapping_add(s).wrapping_add(s.wrapping_mul(32)).wrapping_add(3);
        }
        out
    }
    pub fn decrypt(&self, c: &[u32], key: u32) -> Vec<u32> {
        if key == 0 { return c.to_vec(); }
        let (mut k, mut s) = (key, 0xEEEE_EEEEu32);
        let mut out = Vec::with_capacity(c.len());
        for &w in c {
            s = s.wrapping_add(self.t[0x400 + (k as u8) as usize]);
            let p = w ^ k.wrapping_add(s);
            out.push(p);
            k = ((k ^ 0xFFFF_FFFF) << 21).wrapping_add(0x1111_1111) | (k >> 11);
            s = p.wrapping_add(s).wrapping_add(s.wrapping_mul(32)).wrapping_add(3);
        }
        out
    }
    pub fn hash(&self, name: &[u8], ty: u32) -> u32 {
        let (mut a, mut b) = (0x7FED_7FEDu32, 0xEEEE_EEEEu32);
        for &c in name {
            let c = if c == b'/' { b'\\' } else { c }.to_ascii_uppercase();
            a = self.t[(ty * 256) as usize + c as usize] ^ a.wrapping_add(b);
            b = (c as u32).wrapping_add(a).wrapping_add(b).wrapping_add(b.wrapping_mul(32)).wrapping_add(3);
        }
        a
    }
    pub fn jenkins(&self, name: &[u8]) -> u64 {
        let mut h = 0u64;
        for &c in name {
            let c = if c == b'/' { b'\\' } else { c }.to_ascii_lowercase();
            h = h.wrapping_add(c as u64);
            h = h.wrapping_add(h.wrapping_mul(1024));
            h ^= h >> 6;
        }
        h = h.wrapping_add(h.wrapping_mul(8));
        h ^= h >> 11;
        h.wrapping_add(h.wrapping_mul(1 << 15))
    }
    /// byte-level encryption: whole little-endian words, then the 1-3 byte tail padded with zeros and keyed with key + words
    pub fn encrypt_bytes_words(&self, p: &[u8], key: u32) -> Vec<u8> {
        let w: Vec<u32> = p.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        self.encrypt(&w, key).iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn decrypt_bytes_words(&self, p: &[u8], key: u32) -> Vec<u8> {
        let w: Vec<u32> = p.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        self.decrypt(&w, key).iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
/// meaning of a sparse stream: Some(output) iff it is a sequence of whole records ended by 0xFF
pub fn sparse_decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut p = 0;
    loop {
        let c = *s.get(p)?;
        p += 1;
        if c == 0xFF { return if p == s.len() { Some(o) } else { None }; }
        if c >= 0x80 { o.resize(o.len() + (c - 0x80) as usize, 0); } else {
            let n = c as usize;
            if p + n > s.len() { return None; }
            o.extend_from_slice(&s[p..p + n]);
            p += n;
        }
    }
}
