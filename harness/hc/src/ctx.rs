//! Driver of the bounded input search: counts the cases, catches panics, keeps a watchdog, reports the first failing case.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
}

pub static START: AtomicU64 = AtomicU64::new(0);
pub static NUM: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    pub lits: Vec<Vec<u8>>,
    /// numbers that occur in the source; `hot` ones do not occur in the reference source
    pub ints: Vec<u128>,
    pub hot_ints: Vec<u128>,
    pub hot_lits: Vec<Vec<u8>>,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub nontrivial: u64,
    samples: Vec<String>,
    pub fail: Option<String>,
    deadline: Instant,
    t0: Instant,
    trace: Option<std::fs::File>,
    out: String,
    pub notes: Vec<String>,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    let lim = 400;
    for &c in b.iter().take(lim) {
        match c { b'"' => s += "\\\"", b'\\' => s += "\\\\", 32..=126 => s.push(c as char), _ => s += &format!("\\x{:02x}", c) }
    }
    s.push('"');
    if b.len() > lim { s += &format!("... ({} bytes in all)", b.len()); }
    s
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}
fn cpu_ms() -> u64 {
    // user + system time of this process (clock ticks of 10 ms)
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    if f.len() < 13 { return 0; }
    (f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)) * 10
}
fn now_ms() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }

impl Ctx {
    pub fn new() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        // hc PROP SEED TIER SECONDS LITS OUT
        let seed: u64 = a[2].parse().unwrap();
        let thorough = a[3] == "thorough";
        let secs: u64 = a[4].parse().unwrap();
        let mut c = Ctx {
            prop: a[1].clone(), thorough, rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ fnv(a[1].as_bytes())),
            lits: vec![], ints: vec![], hot_ints: vec![], hot_lits: vec![], evals: 0, distinct: HashSet::new(), nontrivial: 0, samples: vec![], fail: None,
            deadline: Instant::now() + Duration::from_secs(secs), t0: Instant::now(), trace: None, out: a[6].clone(), notes: vec![],
        };
        for l in std::fs::read_to_string(&a[5]).unwrap_or_default().lines() {
            let p: Vec<&str> = l.split(' ').collect();
            if p.len() < 2 { continue; }
            let hot = p.get(2) == Some(&"new");
            if p[0] == "i" { if let Ok(n) = p[1].parse() { c.ints.push(n); if hot { c.hot_ints.push(n); } } }
            if p[0] == "s" {
                let h = p[1].trim_start_matches('-');
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                if hot { c.hot_lits.push(b.clone()); }
                c.lits.push(b);
            }
        }
        if let Ok(p) = std::env::var("HC_TRACE") { c.trace = Some(std::fs::File::create(p).unwrap()); }
        std::panic::set_hook(Box::new(|_| {}));
        START.store(now_ms(), Ordering::SeqCst);
        std::thread::spawn(|| { let (mut seen, mut cpu0) = (u64::MAX, 0); loop {
            std::thread::sleep(Duration::from_millis(250));
            let s = START.load(Ordering::SeqCst);
            if s != seen { seen = s; cpu0 = cpu_ms(); continue; }
            // a machine under load is no hang: 30 s of processor time, or 150 s without progress
            if s != 0 && (cpu_ms().saturating_sub(cpu0) > 30_000 || now_ms().saturating_sub(s) > 150_000) { eprintln!("HANG case {}", NUM.load(Ordering::SeqCst)); std::process::exit(42); }
        } });
        c
    }
    /// time budget used up, or a failure found
    pub fn done(&self) -> bool { self.fail.is_some() || Instant::now() > self.deadline }
    /// the fraction of the time budget that is used up
    pub fn used(&self) -> f64 { let tot = self.deadline.duration_since(self.t0).as_secs_f64(); self.t0.elapsed().as_secs_f64() / tot.max(0.001) }
    pub fn failed(&self) -> bool { self.fail.is_some() }
    /// one case; `hash` identifies the input; `trivial` cases are not counted as distinct
    pub fn case(&mut self, hash: u64, trivial: bool, desc: &dyn Fn() -> String, f: &mut dyn FnMut() -> Result<(), String>) {
        if self.fail.is_some() { return; }
        self.evals += 1;
        NUM.store(self.evals, Ordering::Relaxed);
        if !trivial && self.distinct.len() < 4_000_000 && self.distinct.insert(hash) {
            self.nontrivial += 1;
            let n = self.nontrivial;
            if n == 1 || n == 10 || n == 100 || n == 1000 || n == 10_000 || n == 100_000 || n == 1_000_000 { let d = desc(); self.samples.push(d); }
        }
        if let Some(ref mut t) = self.trace {
            use std::io::{Seek, SeekFrom, Write};
            let d = desc();
            let _ = t.set_len(0); let _ = t.seek(SeekFrom::Start(0)); let _ = t.write_all(d.as_bytes());
        }
        if self.evals % 64 == 1 || self.trace.is_some() { START.store(now_ms(), Ordering::Relaxed); }
        match catch_unwind(AssertUnwindSafe(|| f())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.fail = Some(format!("{}: {}", desc(), e)),
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
                self.fail = Some(format!("{}: panicked: {}", desc(), m));
            }
        }
    }
    pub fn finish(mut self, rule: &str, bound: &str) -> ! {
        START.store(0, Ordering::SeqCst);
        if self.samples.len() > 8 { self.samples.truncate(8); }
        let mut j = String::from("{");
        j += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"bound\": {}, \"seconds\": {:.2}, ", self.evals, self.nontrivial, esc(rule), esc(bound), self.t0.elapsed().as_secs_f64());
        j += &format!("\"samples\": [{}], ", self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        j += &format!("\"notes\": [{}], ", self.notes.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        match self.fail { Some(ref f) => j += &format!("\"failure\": {}}}", esc(f)), None => j += "\"failure\": null}" }
        std::fs::write(&self.out, j).unwrap();
        std::process::exit(if self.fail.is_some() { 1 } else { 0 });
    }
}
