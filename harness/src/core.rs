//! Driver of the concrete contract monitors: every case is a deterministic
//! function of (seed, suite, index), runs the real crate, and compares with an
//! oracle written from the property text.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s ^ 0x9E3779B97F4A7C15) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u16(&mut self) -> u16 { self.u64() as u16 }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    /// bytes drawn from an alphabet
    pub fn from(&mut self, alphabet: &[u8], n: usize) -> Vec<u8> { (0..n).map(|_| *self.pick(alphabet)).collect() }
    /// a number with a random bit width, biased to boundary values
    pub fn wide(&mut self, bits: u32) -> u64 {
        let w = self.below(bits as usize + 1) as u32;
        let m = if w == 0 { 0 } else { u64::MAX >> (64 - w) };
        match self.below(4) {
            0 => m,
            1 => { let t = if w >= 64 { 0 } else { 1u64 << w }; if bits >= 64 { t } else { t & ((1u64 << bits) - 1) } }
            _ => self.u64() & m,
        }
    }
    pub fn small_len(&mut self) -> usize {
        match self.below(10) { 0 => 0, 1 => 1, 2..=6 => self.below(8), 7 | 8 => self.below(40), _ => self.below(300) }
    }
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub desc: String,
    fp: u64,
    pub nontrivial: bool,
}
impl Case {
    /// Registers what this case feeds to the code (distinctness and samples).
    pub fn key<T: Hash + Debug>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.fp.hash(&mut h);
        t.hash(&mut h);
        self.fp = h.finish();
        if self.verbose { self.desc.push_str(&format!("{:?} ", t)); }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.verbose { let s = f(); self.desc.push_str(&s); self.desc.push(' '); } }
    pub fn trivial(&mut self) { self.nontrivial = false; }
}
pub type R = Result<(), String>;

#[derive(Clone, Copy)]
pub enum Count { All(u64), Rand(u64, u64) }
#[derive(Clone, Copy)]
pub struct Suite { pub name: &'static str, pub what: &'static str, pub count: Count, pub f: fn(&mut Case) -> R }
pub struct Prop { pub id: &'static str, pub suites: Vec<Suite> }

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ckeq {
    ($a:expr, $b:expr, $($m:tt)*) => {{ let (x, y) = (&$a, &$b); if x != y {
        return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), x, y)); } }};
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 { format!("{}..({} bytes)", b[..400].iter().map(|x| format!("{:02x}", x)).collect::<String>(), b.len()) }
    else { b.iter().map(|x| format!("{:02x}", x)).collect() }
}
pub fn show(b: &[u8]) -> String { format!("\"{}\"", b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect::<String>()) }

#[derive(Clone)]
pub struct Fail { pub suite: String, pub idx: u64, pub msg: String, pub input: String }

fn case_seed(seed: u64, suite: &str, idx: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed;
    for b in suite.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    Rng::new(h ^ idx.wrapping_mul(0xD1342543DE82EF95)).u64()
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn run_one(s: &Suite, seed: u64, idx: u64, thorough: bool, verbose: bool) -> (Case, R) {
    let mut c = Case { rng: Rng::new(case_seed(seed, s.name, idx)), idx, thorough, verbose, desc: String::new(), fp: 0, nontrivial: true };
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut c)));
    let r = match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {} at {}", panic_text(&e), LAST_PANIC.with(|p| p.borrow().clone()))),
    };
    (c, r)
}

pub struct Outcome { pub evals: u64, pub distinct: u64, pub samples: Vec<String>, pub fails: Vec<Fail>, pub suites: Vec<(String, u64, u64, bool)> }

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 / 1048576
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
}

pub fn run(p: &Prop, seed: u64, thorough: bool, scale: f64, only: Option<&str>, report: &dyn Fn(&Outcome, &str)) -> Outcome {
    install_hook();
    let mut out = Outcome { evals: 0, distinct: 0, samples: vec![], fails: vec![], suites: vec![] };
    let nthreads = 8usize;
    for s in &p.suites {
        if let Some(o) = only { if o != s.name { continue; } }
        let (n, all) = match s.count {
            Count::All(n) => (n, true),
            Count::Rand(q, t) => ((if thorough { t } else { q } as f64 * scale) as u64, false),
        };
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let fails = Arc::new(Mutex::new(Vec::<Fail>::new()));
        // per thread: current index + 1 and start time in ms since t0
        let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
        let t0 = Instant::now();
        let mut hs = vec![];
        for t in 0..nthreads {
            let (next, stop, fails, cur, s) = (next.clone(), stop.clone(), fails.clone(), cur.clone(), *s);
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let mut fps: HashSet<u64> = HashSet::new();
                let mut evals = 0u64;
                loop {
                    let b = next.fetch_add(16, Ordering::Relaxed);
                    if b >= n || stop.load(Ordering::Relaxed) { break; }
                    for idx in b..(b + 16).min(n) {
                        cur[t].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        cur[t].0.store(idx + 1, Ordering::Relaxed);
                        let (c, r) = run_one(&s, seed, idx, thorough, false);
                        evals += 1;
                        if c.nontrivial { fps.insert(c.fp); }
                        if let Err(m) = r {
                            let mut f = fails.lock().unwrap();
                            // keep one failing case per distinct message head
                            let head = head_of(&m);
                            if f.iter().filter(|x| head_of(&x.msg) == head).count() == 0 && f.len() < 40 {
                                f.push(Fail { suite: s.name.into(), idx, msg: m, input: String::new() });
                            }
                        }
                    }
                }
                cur[t].0.store(0, Ordering::Relaxed);
                (evals, fps)
            }).unwrap());
        }
        // watchdog: a case that does not end, or eats memory, is a failure
        loop {
            if hs.iter().all(|h| h.is_finished()) { break; }
            std::thread::sleep(Duration::from_millis(2));
            let now = t0.elapsed().as_millis() as u64;
            let big = rss_mb() > 3000;
            for t in 0..nthreads {
                let i = cur[t].0.load(Ordering::Relaxed);
                let age = now.saturating_sub(cur[t].1.load(Ordering::Relaxed));
                if i > 0 && (age > 20_000 || (big && age > 300)) {
                    out.fails.extend(fails.lock().unwrap().iter().cloned());
                    out.fails.push(Fail { suite: s.name.into(), idx: i - 1, msg: format!("no answer: the case was still running after {} ms (rss {} MB)", age, rss_mb()), input: "(not printed: re-running it does not end)".into() });
                    fill_inputs(p, &mut out, seed, thorough);
                    report(&out, "hang");
                    std::process::exit(1);
                }
            }
        }
        let mut all_fp: HashSet<u64> = HashSet::new();
        let mut ev = 0;
        for h in hs { let (e, f) = h.join().unwrap(); ev += e; all_fp.extend(f); }
        out.evals += ev;
        out.distinct += all_fp.len() as u64;
        out.suites.push((s.name.to_string(), ev, all_fp.len() as u64, all));
        // a couple of samples
        for k in 0..2u64 {
            if n > 0 {
                let (c, _) = run_one(s, seed, (n / 2 + k * 7) % n, thorough, true);
                let mut d = c.desc.clone();
                if d.len() > 300 { let mut e = 300; while !d.is_char_boundary(e) { e -= 1; } d.truncate(e); d.push_str(".."); }
                if out.samples.len() < 12 { out.samples.push(format!("{}[{}]: {}", s.name, c.idx, d)); }
            }
        }
        let mut fs = fails.lock().unwrap().clone();
        fs.sort_by_key(|f| f.idx);
        out.fails.extend(fs);
    }
    fill_inputs(p, &mut out, seed, thorough);
    out
}

pub fn head_of(m: &str) -> String { m.split(|c| c == ':' || c == '(').next().unwrap_or("").to_string() }

fn fill_inputs(p: &Prop, out: &mut Outcome, seed: u64, thorough: bool) {
    for f in out.fails.iter_mut() {
        if f.input.is_empty() {
            if let Some(s) = p.suites.iter().find(|s| s.name == f.suite) {
                let (c, _) = run_one(s, seed, f.idx, thorough, true);
                f.input = c.desc;
            }
        }
    }
}
