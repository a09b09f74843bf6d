use crate::ctx::*;
use crate::spec::Spec;
use mopaq::crypto::{hash_string, jenkins_hash};

fn rand_name(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| match r.below(8) {
        0 => '/', 1 => '\\', 2 => char::from_u32(r.range(0x80, 0x7FF) as u32).unwrap(),
        3 => char::from(r.range(0, 0x7F) as u8), 4 => char::from(r.range(b'A' as u64, b'Z' as u64) as u8),
        5 => char::from_u32(r.range(0x4E00, 0x9FFF) as u32).unwrap(), _ => char::from(r.range(b'a' as u64, b'z' as u64) as u8),
    }).collect()
}
fn variant(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| match c {
        '/' | '\\' => if r.bool() { '/' } else { '\\' },
        c if c.is_ascii_alphabetic() => if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() },
        c => c,
    }).collect()
}
pub fn run(c: &mut Ctx) {
    let sp = Spec::new();
    c.bound("hashes: every single byte-sized character and every pair of ASCII characters for all 5 types; random names up to 300 characters with case/slash variants");
    let check = |name: &str, var: &str| -> Chk {
        for t in 0..5 {
            eq(&format!("hash type {}", t), &hash_string(name, t), &sp.hash(name.as_bytes(), t))?;
            eq(&format!("hash type {} of case/slash variant {:?}", t, var), &hash_string(var, t), &hash_string(name, t))?;
        }
        eq("64-bit hash", &jenkins_hash(name), &sp.jenkins(name.as_bytes()))?;
        eq(&format!("64-bit hash of case/slash variant {:?}", var), &jenkins_hash(var), &jenkins_hash(name))
    };
    let mut r = c.rng("hash");
    for a in 0u32..0x250 { let s: String = char::from_u32(a).unwrap().to_string(); let v = variant(&mut r, &s); c.case("single", &|| format!("{:?}", s), || check(&s, &v)); }
    for a in 0u8..128 { for b in 0u8..128 { let s: String = [a as char, b as char].iter().collect(); let v = variant(&mut r, &s); c.case("pair", &|| format!("{:?}", s), || check(&s, &v)); } }
    for n in 0..=300usize { let s = rand_name(&mut r, n); let v = variant(&mut r, &s); c.case("length", &|| format!("{:?}", s), || check(&s, &v)); }
    let n = c.n(30000, 600000);
    for _ in 0..n { if c.out_of_time() { break; } let l = r.below(40) as usize; let s = rand_name(&mut r, l); let v = variant(&mut r, &s); c.case("random", &|| format!("{:?}", s), || check(&s, &v)); }
    for n in [1000usize, 5000, 65536] { let s = rand_name(&mut r, n); let v = variant(&mut r, &s); c.case("long", &|| format!("{:?}", clip(&s, 200)), || check(&s, &v)); }
}
