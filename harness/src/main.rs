use vp_harness::ctx::*;
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 7 && a[1] == "--c20-child" { vp_harness::c20::child(&a[2..]); }
    if a.len() < 6 { eprintln!("usage: vp-harness PROP SEED TIER SECS OUT.json"); std::process::exit(2); }
    std::panic::set_hook(Box::new(|_| {}));
    let seed: u64 = a[2].parse().unwrap_or(1);
    let mut c = Ctx::new(&a[1], seed, a[3] == "thorough", a[4].parse().unwrap_or(60));
    c.cur = std::path::PathBuf::from(format!("{}.cur", a[5]));
    watchdog(c.cur.clone(), 60);
    let t = std::time::Instant::now();
    if !vp_harness::run(&mut c) { eprintln!("unknown property"); std::process::exit(2); }
    let mut j = String::from("{\n");
    j += &format!(" \"property\": {}, \"seed\": {}, \"evaluations\": {}, \"distinct\": {}, \"wall_s\": {:.2},\n", esc(&c.prop), seed, c.evals, c.distinct.len(), t.elapsed().as_secs_f64());
    j += &format!(" \"groups\": {{{}}},\n", c.groups.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"bounds\": [{}],\n", c.bounds.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"samples\": [{}],\n", c.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"notes\": [{}],\n", c.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    j += &format!(" \"known\": [{}],\n", c.known.iter().map(|(a, b)| format!("{{\"id\": {}, \"what\": {}}}", esc(a), esc(b))).collect::<Vec<_>>().join(", "));
    j += &format!(" \"failures\": [{}]\n}}\n", c.failures.iter().map(|(g, k, m)| format!("{{\"group\": {}, \"case\": {}, \"message\": {}}}", esc(g), esc(&clip(k, 20000)), esc(m))).collect::<Vec<_>>().join(",\n "));
    std::fs::write(&a[5], j).unwrap();
    println!("{} evaluations, {} failures, {} known", c.evals, c.failures.len(), c.known.len());
    for (g, k, m) in &c.failures { println!("FAIL [{}] {} :: {}", g, clip(k, 300), clip(m, 400)); }
    std::process::exit(if c.failures.is_empty() { 0 } else { 1 });
}
