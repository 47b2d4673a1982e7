//! Case runner: every case has a deterministic textual id, is run under catch_unwind with a watchdog,
//! and can be replayed alone with `--only <id>`.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct State {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<(String, String)>,
    pub nviol: u64,
    pub groups: std::collections::BTreeMap<String, u64>,
    pub cur: Option<(String, Instant)>,
    pub out: String,
    pub prop: String,
    pub done: bool,
    pub perf: std::collections::HashMap<String, u32>,
}
pub static STATE: Mutex<Option<State>> = Mutex::new(None);

pub struct Ctx {
    pub only: Option<String>,
    pub thorough: bool,
    pub seed: u64,
    pub trace: bool,
    pub deadline: Instant,
    pub last_panic: std::sync::Arc<Mutex<String>>,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}

pub fn write_report(s: &State, complete: bool) {
    let mut o = String::new();
    o.push_str(&format!("{{\"prop\":\"{}\",\"complete\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"nviol\":{},", s.prop, complete, s.evals, s.nontrivial.len(), s.nviol));
    o.push_str("\"groups\":{");
    o.push_str(&s.groups.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"samples\":[");
    o.push_str(&s.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
    o.push_str("],\"violations\":[");
    o.push_str(&s.viol.iter().map(|(a, b)| format!("{{\"id\":\"{}\",\"msg\":\"{}\"}}", esc(a), esc(b))).collect::<Vec<_>>().join(","));
    o.push_str("]}\n");
    std::fs::write(&s.out, o).expect("write report");
}

pub fn start_watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(s) = g.as_mut() {
            if s.done { return; }
            if let Some((id, t)) = s.cur.clone() {
                if t.elapsed() > limit {
                    s.viol.push((id, format!("does not terminate within {:?}", limit)));
                    s.nviol += 1;
                    write_report(s, false);
                    std::process::exit(0);
                }
            }
        }
    });
}

/// Number of the multi core settings of the running case, derived from the id of the case: results must not depend on it.
static MC: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn mc() -> basic_dsp_vector::MultiCoreSettings {
    match MC.load(std::sync::atomic::Ordering::Relaxed) % 8 {
        0 | 5 => basic_dsp_vector::MultiCoreSettings::default(),
        6 => basic_dsp_vector::MultiCoreSettings::with_thresholds(3, usize::MAX, usize::MAX, 0, 0),
        7 => basic_dsp_vector::MultiCoreSettings::with_thresholds(7, 0, 0, 0, 0),
        k => basic_dsp_vector::MultiCoreSettings::with_thresholds(k + 1, 0, 0, 0, 0),
    }
}
pub trait Mc { fn mc(self) -> Self; }
impl<S: basic_dsp_vector::ToSlice<T>, T: RealNumber, N: basic_dsp_vector::NumberSpace, D: basic_dsp_vector::Domain> Mc for basic_dsp_vector::DspVec<S, T, N, D> {
    fn mc(mut self) -> Self { use basic_dsp_vector::Vector; self.set_multicore_settings(mc()); self }
}

pub type R = Result<(), String>;

impl Ctx {
    /// Runs one case. `nontrivial`: the case exercises data (not only an empty input).
    pub fn case<F: FnOnce() -> R>(&self, id: String, nontrivial: bool, f: F) {
        if let Some(o) = &self.only { if *o != id { return; } }
        {
            let mut g = STATE.lock().unwrap();
            let s = g.as_mut().unwrap();
            s.evals += 1;
            MC.store((hash(&id) >> 7) as usize, std::sync::atomic::Ordering::Relaxed);
            if nontrivial { s.nontrivial.insert(hash(&id)); }
            let grp = id.split_whitespace().next().unwrap_or("").to_string();
            let n = s.groups.entry(grp).or_insert(0);
            *n += 1;
            if *n == 3 && s.samples.len() < 12 { s.samples.push(id.clone()); }
            s.cur = Some((id.clone(), Instant::now()));
        }
        if self.trace { eprintln!("CASE {}", id); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(e) => {
                let p = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                let loc = self.last_panic.lock().unwrap_or_else(|e| e.into_inner()).clone();
                Some(format!("panicked: {} at {}", p.lines().next().unwrap_or(""), loc))
            }
        };
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        let s = g.as_mut().unwrap();
        s.cur = None;
        if let Some(m) = msg {
            s.nviol += 1;
            let grp = id.split_whitespace().next().unwrap_or("").to_string();
            let n = s.perf.entry(grp).or_insert(0);
            *n += 1;
            if *n <= 25 { s.viol.push((id, m)); }
        }
    }
}

/// Deterministic pseudo random numbers.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    /// small integer in [-8, 8]
    pub fn int(&mut self) -> f64 { self.below(17) as f64 - 8.0 }
    /// small non-zero integer
    pub fn nzint(&mut self) -> f64 { let v = self.below(8) as f64 + 1.0; if self.next() & 1 == 0 { v } else { -v } }
}

use basic_dsp_vector::numbers::RealNumber;
pub trait Tt: RealNumber { const NAME: &'static str; const EPS: f64; fn of(v: f64) -> Self; fn f(self) -> f64; }
impl Tt for f32 { const NAME: &'static str = "f32"; const EPS: f64 = 1.2e-7; fn of(v: f64) -> f32 { v as f32 } fn f(self) -> f64 { self as f64 } }
impl Tt for f64 { const NAME: &'static str = "f64"; const EPS: f64 = 2.3e-16; fn of(v: f64) -> f64 { v } fn f(self) -> f64 { self } }

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    if a == b { return true; }
    if a.is_infinite() || b.is_infinite() { return false; }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn cmp(what: &str, got: &[f64], want: &[f64], tol: f64) -> R {
    if got.len() != want.len() { return Err(format!("{}: length {} but expected {} (got {} want {})", what, got.len(), want.len(), short(got), short(want))); }
    for i in 0..got.len() {
        if !near(got[i], want[i], tol) {
            return Err(format!("{}: index {}: got {} want {} (got {} want {})", what, i, got[i], want[i], short(got), short(want)));
        }
    }
    Ok(())
}
pub fn short(v: &[f64]) -> String {
    if v.len() <= 24 { format!("{:?}", v) } else { format!("{:?}... ({} values)", &v[..24], v.len()) }
}
pub fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?} want {:?}", what, got, want)) }
}
pub fn ensure(c: bool, m: &str) -> R { if c { Ok(()) } else { Err(m.to_string()) } }
pub fn f64s<T: Tt>(v: &[T]) -> Vec<f64> { v.iter().map(|x| x.f()).collect() }
pub fn ts<T: Tt>(v: &[f64]) -> Vec<T> { v.iter().map(|x| T::of(*x)).collect() }

/// A buffer whose element 0 of `slice()` lies `off` elements behind a 64 byte boundary, with guards on both sides.
pub struct Al<T: Tt> { mem: Vec<T>, start: usize, len: usize }
pub const GUARD: f64 = -77.0;
impl<T: Tt> Al<T> {
    pub fn new(len: usize, off: usize) -> Al<T> {
        let sz = std::mem::size_of::<T>();
        let mem = vec![T::of(GUARD); len + off + 64 + 32];
        let a = mem.as_ptr() as usize;
        let pad = ((64 - a % 64) % 64) / sz;
        Al { mem, start: pad + off + 64 / sz, len }
    }
    /// content, followed by slack values 1000+i
    pub fn with(content: &[f64], slack: usize, off: usize) -> Al<T> {
        let mut r = Al::new(content.len() + slack, off);
        for (i, v) in content.iter().enumerate() { r.s()[i] = T::of(*v); }
        for i in 0..slack { r.s()[content.len() + i] = T::of(1000.0 + i as f64); }
        r
    }
    pub fn s(&mut self) -> &mut [T] { let (a, b) = (self.start, self.start + self.len); &mut self.mem[a..b] }
    pub fn r(&self) -> &[T] { &self.mem[self.start..self.start + self.len] }
    pub fn guards_ok(&self) -> R {
        for (i, v) in self.mem.iter().enumerate() {
            if (i < self.start || i >= self.start + self.len) && v.f() != GUARD { return Err(format!("wrote outside of the storage at {}", i as isize - self.start as isize)); }
        }
        Ok(())
    }
    pub fn slack_ok(&self, from: usize) -> R {
        let n = self.len;
        for i in from..n { if self.r()[i].f() != 1000.0 + (i - from) as f64 { return Err(format!("storage behind the valid length changed at {}: {}", i, self.r()[i].f())); } }
        self.guards_ok()
    }
}
