//! Concrete mode: `f32` inputs are sampled or taken from a counter-model; contracts are evaluated with a tolerance.
use crate::{hook, Abort, Harness};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(feature = "conc64"))]
pub type R = f32;
#[cfg(feature = "conc64")]
pub type R = f64;
pub mod f32m {
    use super::R;
    pub const MAX: R = std::f32::MAX as R;
    pub const MIN: R = std::f32::MIN as R;
    pub const EPSILON: R = std::f32::EPSILON as R;
    pub const INFINITY: R = R::INFINITY;
    pub mod consts {
        use super::R;
        pub const PI: R = std::f32::consts::PI as R;
        pub const FRAC_PI_2: R = std::f32::consts::FRAC_PI_2 as R;
        pub const FRAC_PI_4: R = std::f32::consts::FRAC_PI_4 as R;
        pub const TAU: R = std::f32::consts::TAU as R;
    }
}

struct Cx {
    rng: u64,
    given: HashMap<String, f32>,
    picks: HashMap<String, usize>,
    used: BTreeMap<String, f32>,
    used_picks: BTreeMap<String, usize>,
    failed: Vec<(String, String)>,
    hits: BTreeMap<String, usize>,
    mode: u32,
}
thread_local! {
    static C: RefCell<Cx> = RefCell::new(Cx { rng: 1, given: HashMap::new(), picks: HashMap::new(), used: BTreeMap::new(), used_picks: BTreeMap::new(), failed: vec![], hits: BTreeMap::new(), mode: 0 });
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
fn c<T>(f: impl FnOnce(&mut Cx) -> T) -> T {
    C.with(|x| f(&mut x.borrow_mut()))
}
impl Cx {
    fn next(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}
#[cfg(not(feature = "conc64"))]
pub const TOL: R = 1e-3;
#[cfg(feature = "conc64")]
pub const TOL: R = 1e-6;

/// may: holds within tolerance; must: holds with a margin (equalities: exactly); exact: as computed.
#[derive(Clone, Copy, Debug)]
pub struct B {
    may: bool,
    must: bool,
    exact: bool,
}
impl From<bool> for B {
    fn from(b: bool) -> B {
        B { may: b, must: b, exact: b }
    }
}
fn tol(a: R, b: R) -> R {
    TOL * (1.0 + a.abs() + b.abs())
}
pub fn eq(a: R, b: R) -> B {
    let d = (a - b).abs();
    // equality as a premise: exact
    B { may: d <= tol(a, b), must: a == b, exact: a == b }
}
pub fn ne(a: R, b: R) -> B {
    not(eq(a, b))
}
pub fn le(a: R, b: R) -> B {
    B { may: a <= b + tol(a, b), must: a <= b - tol(a, b), exact: a <= b }
}
pub fn lt(a: R, b: R) -> B {
    B { may: a < b + tol(a, b), must: a < b - tol(a, b), exact: a < b }
}
pub fn ge(a: R, b: R) -> B {
    le(b, a)
}
pub fn gt(a: R, b: R) -> B {
    lt(b, a)
}
pub fn not(b: B) -> B {
    B { may: !b.must, must: !b.may, exact: !b.exact }
}
pub fn and(v: &[B]) -> B {
    B { may: v.iter().all(|b| b.may), must: v.iter().all(|b| b.must), exact: v.iter().all(|b| b.exact) }
}
pub fn or(v: &[B]) -> B {
    B { may: v.iter().any(|b| b.may), must: v.iter().any(|b| b.must), exact: v.iter().any(|b| b.exact) }
}
pub fn implies(a: B, b: B) -> B {
    or(&[not(a), b])
}
pub fn iff(a: B, b: B) -> B {
    and(&[implies(a, b), implies(b, a)])
}
pub fn sel(b: B, x: R, y: R) -> R {
    if b.exact {
        x
    } else {
        y
    }
}
fn sample(name: &str, lo: f64, hi: f64) -> R {
    c(|c| {
        if let Some(v) = c.used.get(name) {
            return *v as R;
        }
        let v = if let Some(v) = c.given.get(name) {
            *v
        } else {
            let k = c.unit();
            let u = c.unit();
            let v = if lo > -1e9 {
                lo + u * (hi - lo)
            } else if c.mode % 3 == 1 || k < 0.6 {
                -4.0 + 8.0 * u
            } else if k < 0.75 {
                (-3.0 + 6.0 * u).round()
            } else if k < 0.82 {
                0.0
            } else if k < 0.9 {
                -0.05 + 0.1 * u
            } else {
                -30.0 + 60.0 * u
            };
            v as f32
        };
        c.used.insert(name.to_string(), v);
        v as R
    })
}
pub fn var(name: &str) -> R {
    sample(name, -1e10, 1e10)
}
pub fn var_hint(name: &str, lo: R, hi: R) -> R {
    sample(name, lo as f64, hi as f64)
}
pub fn pos(name: &str) -> R {
    if c(|c| c.given.contains_key(name)) {
        let v = var(name);
        if !(v > 0.0) {
            abort_path();
        }
        return v;
    }
    sample(name, 0.05, 3.0)
}
pub fn nonneg(name: &str) -> R {
    if c(|c| c.given.contains_key(name)) {
        let v = var(name);
        if !(v >= 0.0) {
            abort_path();
        }
        return v;
    }
    let z = c(|c| c.unit());
    sample(name, if z < 0.3 { 0.0 } else { 0.05 }, if z < 0.3 { 0.0 } else { 3.0 })
}
pub fn assume(b: B) {
    if !b.exact {
        abort_path();
    }
}
pub fn stand_in(label: &str, x: R, _: R, holds: &dyn Fn(R) -> B) {
    ensure(label, holds(x));
}
/// Premise that samples can only meet approximately.
pub fn ensure(label: &str, b: B) {
    c(|c| {
        *c.hits.entry(label.to_string()).or_insert(0) += 1;
        if !b.may {
            c.failed.push((label.to_string(), String::new()));
        }
    })
}
pub fn lemma(label: &str, b: B) {
    ensure(label, b)
}
pub fn choose(label: &str, n: usize) -> usize {
    c(|c| {
        let k = match c.picks.get(label) {
            Some(k) => *k % n,
            None => (c.next() >> 20) as usize % n,
        };
        c.used_picks.insert(label.to_string(), k);
        k
    })
}
pub fn flag(label: &str) -> bool {
    choose(label, 2) == 1
}
pub fn abort_path() -> ! {
    std::panic::panic_any(Abort)
}
pub fn prune(_: bool) {}
pub fn domain_checks(_: bool) {}
pub fn summaries(_: bool) {}
pub fn forget_limit(_: usize) {}
pub fn symbolic() -> bool {
    false
}
pub fn known_eq(a: R, b: R) -> bool {
    same(a, b)
}
pub fn same(a: R, b: R) -> bool {
    a == b || (a - b).abs() <= tol(a, b)
}

fn run_one(f: fn()) -> (Vec<(String, String)>, bool) {
    hook::clear();
    c(|c| {
        c.used.clear();
        c.used_picks.clear();
        c.failed.clear();
    });
    match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(()) => (c(|c| c.failed.clone()), true),
        Err(e) => {
            if e.downcast_ref::<Abort>().is_some() {
                (vec![], false)
            } else {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                let mut fl = c(|c| c.failed.clone());
                fl.push((format!("no-panic: {}", m), m));
                (fl, true)
            }
        }
    }
}
/// A failure that disappears when every value is nudged a little sits on a decision boundary,
/// where rounding and not the code decides: it is not taken as a counterexample.
fn robust(f: fn(), used: &BTreeMap<String, f32>, picks: &BTreeMap<String, usize>) -> bool {
    let (mut accepted, mut failing) = (0, 0);
    for _ in 0..16 {
        c(|c| {
            let mut g = HashMap::new();
            for (n, v) in used {
                let d = (c.unit() - 0.5) * 4e-4 * (1.0 + v.abs() as f64);
                g.insert(n.clone(), (*v as f64 + d) as f32);
            }
            c.given = g;
            c.picks = picks.iter().map(|(a, b)| (a.clone(), *b)).collect();
        });
        let (fl, ok) = run_one(f);
        if ok {
            accepted += 1;
            failing += !fl.is_empty() as usize;
        }
    }
    10 * failing >= 9 * accepted
}
fn esc(s: &str) -> String {
    format!("{:?}", s)
}
/// Arguments: --list FILE   lines "harness<TAB>label<TAB>name=value,...<TAB>choice=k,..." (label "*" = any)
///            --seed N --samples N --time SECONDS --out FILE
pub fn run_all(hs: &[Harness]) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} in {}", m.lines().next().unwrap_or(""), loc));
    }));
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let samples: usize = arg("--samples").and_then(|s| s.parse().ok()).unwrap_or(20000);
    let limit: f64 = arg("--time").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let list = arg("--list").map(|p| std::fs::read_to_string(p).unwrap()).unwrap_or_else(|| hs.iter().map(|h| format!("{}\t*\t\t\n", h.0)).collect());
    let max: usize = arg("--max").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut out = String::new();
    for line in list.lines() {
        let p: Vec<&str> = line.split('\t').collect();
        if p.len() < 4 {
            continue;
        }
        let h = match hs.iter().find(|h| h.0 == p[0]) {
            Some(h) => h,
            None => continue,
        };
        let parse = |s: &str| -> Vec<(String, String)> {
            s.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.rsplit_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect()
        };
        let given: HashMap<String, f32> = parse(p[2]).into_iter().filter_map(|(a, b)| b.parse().ok().map(|v| (a, v))).collect();
        let picks: HashMap<String, usize> = parse(p[3]).into_iter().filter_map(|(a, b)| b.parse().ok().map(|v| (a, v))).collect();
        let exact = args.iter().any(|a| a == "--exact");
        let t0 = std::time::Instant::now();
        let (mut ran, mut accepted) = (0usize, 0usize);
        let mut founds: Vec<(String, BTreeMap<String, f32>, BTreeMap<String, usize>)> = vec![];
        c(|c| {
            c.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
            c.hits.clear()
        });
        for k in 0..samples {
            if t0.elapsed().as_secs_f64() > limit {
                break;
            }
            c(|c| {
                // first the counter-model itself, then its discrete choices with sampled values, then anything
                let have = !given.is_empty() || !picks.is_empty();
                c.given = if have && (k < 1 || exact) { given.clone() } else { HashMap::new() };
                c.picks = if have && (exact || k < samples * 2 / 3) { picks.clone() } else { HashMap::new() };
                c.mode = (k % 3) as u32;
                if have && !exact && k >= 1 && k % 4 == 0 && !given.is_empty() {
                    // perturbed model
                    let mut g = given.clone();
                    for v in g.values_mut() {
                        if c.unit() < 0.5 {
                            *v += ((c.unit() - 0.5) * 0.2) as f32;
                        }
                    }
                    c.given = g;
                }
            });
            let (fl, ok) = run_one(h.1);
            ran += 1;
            if ok {
                accepted += 1;
            }
            if let Some((l, _)) = fl.iter().find(|(l, _)| p[1] == "*" || l == p[1] || (p[1].starts_with("no-panic") && l.starts_with("no-panic"))) {
                let l = l.clone();
                let (used, used_picks) = c(|c| (c.used.clone(), c.used_picks.clone()));
                if !exact && !robust(h.1, &used, &used_picks) {
                    continue;
                }
                founds.push((l, used, used_picks));
                if founds.len() >= max {
                    break;
                }
            }
        }
        let hits = c(|c| c.hits.clone());
        let hits = hits.iter().map(|(a, b)| format!("{}:{}", esc(a), b)).collect::<Vec<_>>().join(",");
        let head = format!("\"harness\":{},\"label\":{},\"ran\":{},\"accepted\":{}", esc(p[0]), esc(p[1]), ran, accepted);
        if founds.is_empty() {
            out += &format!("{{{},\"found\":false,\"hits\":{{{}}}}}\n", head, hits);
        }
        for f in &founds {
            out += &format!(
                "{{{},\"found\":true,\"failed_label\":{},\"values\":{{{}}},\"choices\":{{{}}}}}\n",
                head,
                esc(&f.0),
                f.1.iter().map(|(a, b)| format!("{}:{}", esc(a), esc(&format!("{:?}", b)))).collect::<Vec<_>>().join(","),
                f.2.iter().map(|(a, b)| format!("{}:{}", esc(a), b)).collect::<Vec<_>>().join(","),
            );
        }
    }
    match arg("--out") {
        Some(p) => std::fs::write(p, out).unwrap(),
        None => print!("{}", out),
    }
}
