//! Runtime side of the contract checks: deterministic case generation, failure capture, replay.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
    /// value biased to boundaries
    pub fn edge32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.pick(&[0u32, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF]),
            1 => 1u32 << self.below(32),
            2 => (1u32 << self.below(32)).wrapping_sub(1),
            3 => self.below(0x1000) as u32,
            _ => self.u32(),
        }
    }
    pub fn edge64(&mut self) -> u64 {
        match self.below(5) {
            0 => self.edge32() as u64,
            1 => 1u64 << self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(1),
            _ => self.next(),
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub only: Option<String>,
    pub evals: u64,
    pub groups: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String, String)>, // group, case, message
    pub known: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub bounds: Vec<String>,
    /// write the case to disk before running it, so that an abort or a hang can be attributed to its input
    pub journal: bool,
    pub cur: std::path::PathBuf,
    pub distinct: std::collections::HashSet<u64>,
}

pub type Chk = Result<(), String>;

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, secs: u64) -> Self {
        Ctx {
            prop: prop.into(), seed, thorough, deadline: Instant::now() + Duration::from_secs(secs), only: None, evals: 0,
            groups: BTreeMap::new(), samples: vec![], failures: vec![], known: vec![], notes: vec![], bounds: vec![],
            journal: false, cur: std::path::PathBuf::from("h.cur"), distinct: Default::default(),
        }
    }
    pub fn rng(&self, tag: &str) -> Rng {
        let mut h = self.seed;
        for b in tag.bytes() { h = h.wrapping_mul(0x100000001B3) ^ b as u64; }
        Rng::new(h)
    }
    pub fn out_of_time(&self) -> bool { Instant::now() > self.deadline }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn bound(&mut self, s: &str) { self.bounds.push(s.into()); }
    /// Evaluate one contract instance.  `case` must describe the input completely enough to be read by a human.
    pub fn case<F: FnOnce() -> Chk>(&mut self, group: &str, case: &dyn Fn() -> String, f: F) -> bool {
        if self.failures.iter().filter(|x| x.0 == group).count() >= 3 || self.failures.len() >= 12 { return false; }
        self.evals += 1;
        let c = self.groups.entry(group.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 && self.samples.len() < 24 { let s = case(); self.samples.push(format!("{}: {}", group, clip(&s, 300))); }
        if self.journal { let _ = std::fs::write(&self.cur, format!("[{}] {}", group, clip(&case(), 60000))); }
        if *c <= 5000 { let mut h = 0xcbf29ce484222325u64; for b in group.bytes().chain(case().bytes()) { h = (h ^ b as u64).wrapping_mul(0x100000001B3); } self.distinct.insert(h); }
        watch_start(group);
        let r = catch_unwind(AssertUnwindSafe(f));
        watch_end();
        match r {
            Ok(Ok(())) => true,
            Ok(Err(m)) => { self.failures.push((group.into(), case(), m)); false }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
                self.failures.push((group.into(), case(), format!("panicked: {}", m)));
                false
            }
        }
    }
    /// A defect of the repository recorded in known_findings.json: the specific case must still fail the same way.
    pub fn known_case<F: FnOnce() -> Chk>(&mut self, id: &str, what: &str, f: F) {
        self.evals += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(Ok(())) => self.notes.push(format!("known finding {} no longer reproduces", id)),
            _ => self.known.push((id.into(), what.into())),
        }
    }
}

static WATCH: std::sync::Mutex<Option<(Instant, String)>> = std::sync::Mutex::new(None);
pub fn watch_start(g: &str) { *WATCH.lock().unwrap() = Some((Instant::now(), g.to_string())); }
pub fn watch_end() { *WATCH.lock().unwrap() = None; }
/// a case that runs longer than `secs` is reported as a hang of the real code
pub fn watchdog(cur: std::path::PathBuf, secs: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, g)) = &*WATCH.lock().unwrap() {
            if t.elapsed() > Duration::from_secs(secs) {
                let text = std::fs::read_to_string(&cur).unwrap_or_else(|_| format!("[{}] (case not journalled)", g));
                let _ = std::fs::write(&cur, format!("did not finish within {} s: {}", secs, text));
                std::process::exit(3);
            }
        }
    });
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Chk {
    if got == want { Ok(()) } else { Err(clip(&format!("{}: got {:?}, expected {:?}", what, got, want), 1500)) }
}
pub fn eq_bytes(what: &str, got: &[u8], want: &[u8]) -> Chk {
    if got == want { return Ok(()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{}: lengths got {} expected {}; first difference at {}: got {} expected {}", what, got.len(), want.len(), i,
        hex(&got[i.min(got.len())..(i + 8).min(got.len())]), hex(&want[i.min(want.len())..(i + 8).min(want.len())])))
}
pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Chk { if c { Ok(()) } else { Err(m()) } }
