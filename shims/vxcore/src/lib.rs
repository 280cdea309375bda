//! What the executable contracts share: a seeded generator, counting, and reporting a failing input.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn float(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j) } }
}

thread_local! {
    static CASES: RefCell<u64> = RefCell::new(0);
    static NONTRIVIAL: RefCell<u64> = RefCell::new(0);
    static SAMPLES: RefCell<Vec<String>> = RefCell::new(vec![]);
    static KNOWN: RefCell<Vec<(String, String)>> = RefCell::new(vec![]);
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static WATCH: std::sync::Once = std::sync::Once::new();
const PATIENCE: u64 = 150;
/// The contract went on by a step; one that takes minutes (all steps together take seconds) does not return.
fn step() {
    use std::sync::atomic::Ordering::Relaxed;
    STEPS.fetch_add(1, Relaxed);
    WATCH.call_once(|| {
        std::thread::spawn(|| {
            let (mut last, mut idle) = (0, 0);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = STEPS.load(Relaxed);
                idle = if now == last { idle + 1 } else { 0 };
                last = now;
                if idle >= PATIENCE { violated("the code under contract returns", &format!("what follows step {now} of the run with VERIF_SEED={}", seed()), &format!("no return within {PATIENCE} s")) }
            }
        });
    });
}

/// One case of the executable contract.  `input` is written out only when needed.
pub fn case(nontrivial: bool, input: impl Fn() -> String) {
    step();
    CASES.with(|c| *c.borrow_mut() += 1);
    if nontrivial {
        let n = NONTRIVIAL.with(|c| { *c.borrow_mut() += 1; *c.borrow() });
        if n.is_power_of_two() && n <= 64 {
            SAMPLES.with(|s| s.borrow_mut().push(input()));
        }
    }
}

/// Reports a failing input and ends the process.
pub fn violated(clause: &str, input: &str, observed: &str) -> ! {
    println!("VXVIOLATION {{\"clause\": \"{}\", \"input\": \"{}\", \"observed\": \"{}\"}}", esc(clause), esc(input), esc(observed));
    std::process::exit(3);
}

/// Reports an input on which the contract fails in a way that /verif/known_findings.json lists under
/// this key; the driver checks the list.
pub fn known(key: &str, input: &str) {
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        if !k.iter().any(|(a, _)| a == key) { k.push((key.into(), input.into())) }
    });
}

pub fn check(clause: &str, ok: bool, input: impl Fn() -> String, observed: impl Fn() -> String) {
    step();
    if !ok { violated(clause, &input(), &observed()) }
}

/// Runs the code under contract; a panic is a violation (of "does not panic on valid inputs").
pub fn guarded<T>(clause: &str, input: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
    match try_guarded(f) {
        Ok(t) => t,
        Err(m) => violated(clause, &input(), &format!("panic: {m}")),
    }
}

pub fn try_guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|e| e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or("?".into()))
}

pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }

pub fn done() {
    let s = SAMPLES.with(|s| s.borrow().iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", "));
    let k = KNOWN.with(|s| s.borrow().iter().map(|(a, b)| format!("[\"{}\", \"{}\"]", esc(a), esc(b))).collect::<Vec<_>>().join(", "));
    println!(
        "VXOK {{\"cases\": {}, \"nontrivial\": {}, \"samples\": [{}], \"known\": [{}]}}",
        CASES.with(|c| *c.borrow()), NONTRIVIAL.with(|c| *c.borrow()), s, k
    );
}

pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
pub fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool { (a - b).abs() <= tol * scale.abs().max(1e-300) || a == b }
