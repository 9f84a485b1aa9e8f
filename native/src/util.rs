use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s ^ 0x9E3779B97F4A7C15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % (b - a + 1) as u64) as i64 }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn fr(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
}
pub struct Ctx {
    pub prop: String, pub seed: u64, pub only: Option<(String, u64)>, pub scale: f64, pub cur: String,
    pub cases: u64, pub checks: u64, pub start: std::time::Instant, pub limit: f64, pub gens: Vec<(String, u64, u64)>,
    pub seen: std::collections::HashSet<u64>, pub samples: Vec<String>,
}
pub struct Case { pub rng: Rng, pub input: String, pub checks: u64 }
impl Case { pub fn note<D: std::fmt::Debug>(&mut self, k: &str, v: &D) { use std::fmt::Write; let _ = write!(self.input, "{}={:?}; ", k, v); } }
pub type R = Result<(), String>;
fn h(s: &str) -> u64 { let mut x = 1469598103934665603u64; for b in s.bytes() { x = (x ^ b as u64).wrapping_mul(1099511628211) } x }
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}
thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
impl Ctx {
    /// Run `n` (scaled) cases of generator `g`; stops the process at the first violation.
    pub fn run<F: FnMut(&mut Case) -> R>(&mut self, g: &str, n: u64, mut f: F) {
        let n = ((n as f64 * self.scale).ceil() as u64).max(1);
        let mut done = 0; let mut checks = 0;
        for i in 0..n {
            if let Some((og, oi)) = &self.only { if og != g || *oi != i { continue } }
            if self.start.elapsed().as_secs_f64() > self.limit { break }
            let mut c = Case { rng: Rng::new(h(g) ^ self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ i.wrapping_mul(0x9E3779B97F4A7C15)), input: String::new(), checks: 0 };
            if !self.cur.is_empty() {
                if let Ok(mut fh) = std::fs::File::create(&self.cur) { let _ = write!(fh, "{} {}", g, i); }
            }
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
            done += 1; checks += c.checks;
            let msg = match r {
                Ok(Ok(())) => {
                    if c.checks > 0 {
                        let k = if c.input.is_empty() { h(g) ^ i } else { h(g) ^ h(&c.input) };
                        let new = self.seen.insert(k);
                        if new && i < 2 { let mut t = format!("{}#{}: {}", g, i, c.input); if t.len() > 400 { let mut e = 400; while !t.is_char_boundary(e) { e -= 1 } t.truncate(e); t.push_str(" ...") } self.samples.push(t) }
                    }
                    continue
                }
                Ok(Err(m)) => m,
                Err(p) => { let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
                    format!("the code panicked: {} ({})", m, LAST.with(|l| l.borrow().clone())) }
            };
            println!("{{\"violation\": \"{}\", \"generator\": \"{}\", \"index\": {}, \"seed\": {}, \"input\": \"{}\"}}", esc(&msg), g, i, self.seed, esc(&c.input));
            std::process::exit(3);
        }
        self.cases += done; self.checks += checks;
        self.gens.push((g.into(), done, checks));
    }
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default(); LAST.with(|x| *x.borrow_mut() = l); }));
}
#[macro_export]
macro_rules! ck { ($c:expr, $cond:expr, $($a:tt)*) => { $c.checks += 1; if !($cond) { return Err(format!($($a)*)) } } }
