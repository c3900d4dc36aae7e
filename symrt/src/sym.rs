use crate::engine::*;
use crate::rat::Rat;
use crate::term::*;
use crate::{hook, pool, Abort, Harness};
use std::fmt;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A real number: the reading of `f32` in verified code.
#[derive(Clone, Copy)]
pub enum R {
    Lit(&'static str),
    Fn(fn() -> R),
    Id(Id),
}
impl R {
    pub const MAX: R = R::Fn(|| R::Id(cx(|c| c.ar.var("MAXF"))));
    pub const MIN: R = R::Fn(|| -R::Id(cx(|c| c.ar.var("MAXF"))));
    pub const INFINITY: R = R::MAX;
    pub const NEG_INFINITY: R = R::MIN;
    pub const EPSILON: R = R::Fn(|| R::Id(cx(|c| c.ar.konst(Rat { n: 1, d: 8388608 }))));
    pub const MIN_POSITIVE: R = R::Fn(|| R::Id(cx(|c| c.ar.konst(Rat { n: 1, d: 1 << 126 }))));
    pub const PI: R = R::Fn(|| R::Id(cx(|c| c.ar.var("PI"))));
    pub fn id(self) -> Id {
        match self {
            R::Lit(s) => cx(|c| {
                let r = Rat::parse(s).unwrap_or_else(|| panic!("literal {}", s));
                c.ar.konst(r)
            }),
            R::Fn(f) => f().id(),
            R::Id(i) => cx(|c| if c.alias.is_empty() { i } else { c.alias.get(&i).copied().unwrap_or(i) }),
        }
    }
    pub fn rat(n: i128, d: i128) -> R {
        R::Id(cx(|c| c.ar.konst(Rat::new(n, d).unwrap())))
    }
    fn f1(self, k: F1) -> R {
        let i = self.id();
        R::Id(cx(|c| c.ar.f1(k, i)))
    }
    pub fn sqrt(self) -> R {
        let i = self.id();
        domain_nonneg(i);
        if let Some(r) = cx(|c| exact_root(c, i)) {
            return R::Id(r);
        }
        self.f1(F1::Sqrt)
    }
    pub fn sin(self) -> R {
        self.f1(F1::Sin)
    }
    pub fn cos(self) -> R {
        self.f1(F1::Cos)
    }
    pub fn sin_cos(self) -> (R, R) {
        (self.sin(), self.cos())
    }
    pub fn tan(self) -> R {
        self.sin() / self.cos()
    }
    pub fn asin(self) -> R {
        self.f1(F1::Asin)
    }
    pub fn acos(self) -> R {
        self.f1(F1::Acos)
    }
    pub fn atan(self) -> R {
        self.f1(F1::Atan)
    }
    pub fn floor(self) -> R {
        self.f1(F1::Floor)
    }
    pub fn ceil(self) -> R {
        -(-self).floor()
    }
    pub fn round(self) -> R {
        self.f1(F1::Round)
    }
    pub fn exp(self) -> R {
        self.f1(F1::Exp)
    }
    pub fn ln(self) -> R {
        self.f1(F1::Ln)
    }
    pub fn atan2(self, o: R) -> R {
        let (a, b) = (self.id(), o.id());
        // the direction of the positive axis has angle zero
        if cx(|c| c.ar.const_value(a)).map_or(false, |y| y.is_zero()) {
            let p = R::Lit("0").b_lt(o);
            if cx(|c| c.known(p)) == Some(true) {
                return R::Lit("0");
            }
        }
        R::Id(cx(|c| c.ar.f2(F2::Atan2, a, b)))
    }
    pub fn powi(self, n: i32) -> R {
        let mut r = R::Lit("1");
        for _ in 0..n.abs() {
            r = r * self;
        }
        if n < 0 {
            R::Lit("1") / r
        } else {
            r
        }
    }
    pub fn powf(self, o: R) -> R {
        let (a, b) = (self.id(), o.id());
        R::Id(cx(|c| c.ar.f2(F2::Pow, a, b)))
    }
    pub fn mul_add(self, a: R, b: R) -> R {
        self * a + b
    }
    pub fn hypot(self, o: R) -> R {
        (self * self + o * o).sqrt()
    }
    pub fn recip(self) -> R {
        R::Lit("1") / self
    }
    pub fn abs(self) -> R {
        let z = R::Lit("0");
        let (neg, pos) = (self.b_lt(z), z.b_lt(self));
        let (x, y) = (self.id(), (-self).id());
        R::Id(cx(|c| match (c.known(neg), c.known(pos)) {
            (Some(true), _) | (_, Some(false)) => y,
            (Some(false), _) | (_, Some(true)) => x,
            _ if c.ar.frac_key(x) <= c.ar.frac_key(y) => c.ar.extreme(true, pos, x, y),
            _ => c.ar.extreme(true, neg, y, x),
        }))
    }
    pub fn max(self, o: R) -> R {
        extreme(true, self, o)
    }
    pub fn min(self, o: R) -> R {
        extreme(false, self, o)
    }
    pub fn clamp(self, lo: R, hi: R) -> R {
        ite(self.b_lt(lo), lo, ite(hi.b_lt(self), hi, self))
    }
    pub fn signum(self) -> R {
        if self < R::Lit("0") {
            R::Lit("-1")
        } else {
            R::Lit("1")
        }
    }
    pub fn copysign(self, o: R) -> R {
        self.abs() * o.signum()
    }
    pub fn to_radians(self) -> R {
        self * R::PI / R::Lit("180")
    }
    pub fn to_degrees(self) -> R {
        self * R::Lit("180") / R::PI
    }
    pub fn rem_euclid(self, o: R) -> R {
        self - o * (self / o).floor()
    }
    pub fn is_finite(self) -> bool {
        true
    }
    pub fn is_nan(self) -> bool {
        false
    }
    pub fn is_infinite(self) -> bool {
        false
    }
    pub fn is_normal(self) -> bool {
        true
    }
    pub fn is_sign_negative(self) -> bool {
        self < R::Lit("0")
    }
    pub fn is_sign_positive(self) -> bool {
        !(self < R::Lit("0"))
    }
    pub fn to_bits(self) -> u32 {
        self.id()
    }
    pub fn total_cmp(&self, o: &R) -> std::cmp::Ordering {
        self.partial_cmp(o).unwrap()
    }
    pub fn b_lt(self, o: R) -> BId {
        let (a, b) = (self.id(), o.id());
        cx(|c| atom(c, BNode::Lt(a, b)))
    }
    pub fn b_le(self, o: R) -> BId {
        let (a, b) = (self.id(), o.id());
        cx(|c| atom(c, BNode::Le(a, b)))
    }
    pub fn b_eq(self, o: R) -> BId {
        let (a, b) = (self.id(), o.id());
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        cx(|c| atom(c, BNode::Eq(a, b)))
    }
    pub fn cast<T: ToR>(t: T) -> R {
        t.to_r()
    }
}
pub trait ToR {
    fn to_r(self) -> R;
}
impl ToR for R {
    fn to_r(self) -> R {
        self
    }
}
macro_rules! tor { ($($t:ty),*) => { $(impl ToR for $t { fn to_r(self) -> R { R::rat(self as i128, 1) } })* } }
tor!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);
impl From<i32> for R {
    fn from(i: i32) -> R {
        i.to_r()
    }
}

/// Atom with constant folding only (no path knowledge, so the term does not depend on the path).
fn atom(c: &mut Ctx, b: BNode) -> BId {
    let (x, y) = match b {
        BNode::Lt(x, y) | BNode::Le(x, y) | BNode::Eq(x, y) => (x, y),
        _ => unreachable!(),
    };
    let d = c.ar.sub(x, y);
    if let Some(r) = c.ar.const_value(d) {
        let s = r.signum();
        let v = match b {
            BNode::Lt(..) => s < 0,
            BNode::Le(..) => s <= 0,
            _ => s == 0,
        };
        return if v { 0 } else { 1 };
    }
    c.ar.bmk(b)
}
fn ite(b: BId, x: R, y: R) -> R {
    let (x, y) = (x.id(), y.id());
    R::Id(cx(|c| match c.known(b) {
        Some(true) => x,
        Some(false) => y,
        None => c.ar.ite(b, x, y),
    }))
}
/// Larger or smaller of two values; one term per unordered pair of equal normal forms.
fn extreme(max: bool, x: R, y: R) -> R {
    let (a, b) = (x.id(), y.id());
    let (x, y) = cx(|c| if c.ar.frac_key(a) <= c.ar.frac_key(b) { (R::Id(a), R::Id(b)) } else { (R::Id(b), R::Id(a)) });
    let first = if max { y.b_lt(x) } else { x.b_lt(y) };
    let (a, b) = (x.id(), y.id());
    R::Id(cx(|c| match c.known(first) {
        Some(true) => a,
        Some(false) => b,
        None => c.ar.extreme(max, first, a, b),
    }))
}
fn decide(b: BId) -> bool {
    let v = cx(|c| c.decide(b));
    if cx(|c| c.dead) {
        std::panic::panic_any(Abort);
    }
    v
}
/// The root of a monomial with even exponents whose atoms are known to be non-negative on this path.
fn exact_root(c: &mut Ctx, i: Id) -> Option<Id> {
    let f = c.ar.nf(i)?;
    if !f.den.is_empty() || f.num.0.len() != 1 {
        return None;
    }
    let (m, k) = f.num.0[0].clone();
    if m.is_empty() || m.iter().any(|(_, e)| e % 2 != 0) || m.iter().any(|(a, _)| c.atom_sign(*a) & NEG != 0) {
        return None;
    }
    let kid = c.ar.konst(k);
    let mut r = c.ar.f1(F1::Sqrt, kid);
    c.ar.as_const(r)?;
    for (a, e) in &m {
        for _ in 0..e / 2 {
            r = c.ar.mul(r, *a);
        }
    }
    Some(r)
}
fn domain_nonneg(i: Id) {
    cx(|c| {
        let z = c.ar.konst(Rat::ZERO);
        let b = atom(c, BNode::Le(z, i));
        if c.known(b) == Some(true) {
            return;
        }
        if c.div_check {
            c.prove("sqrt-domain", b);
        } else {
            c.div_assumed += 1;
        }
        c.add_fact(b);
    })
}
fn divide(a: R, b: R) -> R {
    let (a, b) = (a.id(), b.id());
    R::Id(cx(|c| {
        if c.ar.as_const(b).map(|r| !r.is_zero()) != Some(true) && c.divs.insert(b) {
            let z = c.ar.konst(Rat::ZERO);
            let (x, y) = if z < b { (z, b) } else { (b, z) };
            let e = atom(c, BNode::Eq(x, y));
            let ne = c.ar.not(e);
            if c.known(ne) != Some(true) {
                if c.div_check {
                    c.prove("divisor-nonzero", ne);
                } else {
                    c.div_assumed += 1;
                }
                c.add_fact(ne);
            }
        }
        c.ar.div(a, b)
    }))
}
macro_rules! bin {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $body:expr) => {
        impl $tr for R {
            type Output = R;
            fn $f(self, o: R) -> R {
                let g: fn(R, R) -> R = $body;
                g(self, o)
            }
        }
        impl<'a> $tr<&'a R> for R {
            type Output = R;
            fn $f(self, o: &'a R) -> R {
                $tr::$f(self, *o)
            }
        }
        impl<'a> $tr<R> for &'a R {
            type Output = R;
            fn $f(self, o: R) -> R {
                $tr::$f(*self, o)
            }
        }
        impl<'a, 'b> $tr<&'b R> for &'a R {
            type Output = R;
            fn $f(self, o: &'b R) -> R {
                $tr::$f(*self, *o)
            }
        }
        impl $tra for R {
            fn $fa(&mut self, o: R) {
                *self = $tr::$f(*self, o);
            }
        }
        impl<'a> $tra<&'a R> for R {
            fn $fa(&mut self, o: &'a R) {
                *self = $tr::$f(*self, *o);
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, |a, b| {
    let (a, b) = (a.id(), b.id());
    R::Id(cx(|c| c.ar.add(a, b)))
});
bin!(Sub, sub, SubAssign, sub_assign, |a, b| {
    let (a, b) = (a.id(), b.id());
    R::Id(cx(|c| c.ar.sub(a, b)))
});
bin!(Mul, mul, MulAssign, mul_assign, |a, b| {
    let (a, b) = (a.id(), b.id());
    R::Id(cx(|c| c.ar.mul(a, b)))
});
bin!(Div, div, DivAssign, div_assign, |a, b| divide(a, b));
bin!(Rem, rem, RemAssign, rem_assign, |a, b| {
    let q = a / b;
    let t = if q < R::Lit("0") { q.ceil() } else { q.floor() };
    a - b * t
});
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        let a = self.id();
        R::Id(cx(|c| c.ar.neg(a)))
    }
}
impl<'a> Neg for &'a R {
    type Output = R;
    fn neg(self) -> R {
        -*self
    }
}
impl std::iter::Sum for R {
    fn sum<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R::Lit("0"), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a R> for R {
    fn sum<I: Iterator<Item = &'a R>>(it: I) -> R {
        it.fold(R::Lit("0"), |a, b| a + *b)
    }
}
impl std::iter::Product for R {
    fn product<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R::Lit("1"), |a, b| a * b)
    }
}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        decide(self.b_eq(*o))
    }
}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        Some(if *self < *o {
            Less
        } else if *self == *o {
            Equal
        } else {
            Greater
        })
    }
    fn lt(&self, o: &R) -> bool {
        decide(self.b_lt(*o))
    }
    fn le(&self, o: &R) -> bool {
        decide(self.b_le(*o))
    }
    fn gt(&self, o: &R) -> bool {
        decide(o.b_lt(*self))
    }
    fn ge(&self, o: &R) -> bool {
        decide(o.b_le(*self))
    }
}
impl Default for R {
    fn default() -> R {
        R::Lit("0")
    }
}
pub fn show(i: Id, depth: usize) -> String {
    fn go(c: &Ctx, i: Id, d: usize) -> String {
        if d == 0 {
            return "..".into();
        }
        match &c.ar.nodes[i as usize] {
            Node::Const(r) => format!("{}/{}", r.n, r.d),
            Node::Var(v) => c.ar.vars[*v as usize].clone(),
            Node::Add(a, b) => format!("({} + {})", go(c, *a, d - 1), go(c, *b, d - 1)),
            Node::Sub(a, b) => format!("({} - {})", go(c, *a, d - 1), go(c, *b, d - 1)),
            Node::Mul(a, b) => format!("{}*{}", go(c, *a, d - 1), go(c, *b, d - 1)),
            Node::Div(a, b) => format!("{}/{}", go(c, *a, d - 1), go(c, *b, d - 1)),
            Node::Neg(a) => format!("-{}", go(c, *a, d - 1)),
            Node::Ite(_, a, b) => format!("ite(_, {}, {})", go(c, *a, d - 1), go(c, *b, d - 1)),
            Node::F1(k, a) => format!("{:?}({})", k, go(c, *a, d - 1)),
            Node::F2(k, a, b) => format!("{:?}({}, {})", k, go(c, *a, d - 1), go(c, *b, d - 1)),
        }
    }
    CX.with(|c| match c.try_borrow() {
        Ok(c) => go(&c, i, depth),
        Err(_) => format!("#{}", i),
    })
}
impl fmt::Debug for R {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show(self.id(), 6))
    }
}
impl fmt::Display for R {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show(self.id(), 6))
    }
}
#[cfg(feature = "serde_support")]
impl serde::Serialize for R {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.id())
    }
}
#[cfg(feature = "serde_support")]
impl<'de> serde::Deserialize<'de> for R {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<R, D::Error> {
        u32::deserialize(d).map(R::Id)
    }
}

/// Stands in for `std::f32`.
pub mod f32m {
    use super::R;
    pub const MAX: R = R::MAX;
    pub const MIN: R = R::MIN;
    pub const EPSILON: R = R::EPSILON;
    pub const INFINITY: R = R::INFINITY;
    pub mod consts {
        use super::R;
        pub const PI: R = R::PI;
        pub const FRAC_PI_2: R = R::Fn(|| R::PI / R::Lit("2"));
        pub const FRAC_PI_4: R = R::Fn(|| R::PI / R::Lit("4"));
        pub const TAU: R = R::Fn(|| R::PI * R::Lit("2"));
    }
}

/// Contract of the two-argument selection functions (their bodies are verified against it in every check).
pub fn summary2<T>(name: &str, a: &T, b: &T) -> Option<T> {
    if std::any::type_name::<T>() != std::any::type_name::<R>() || !cx(|c| c.summaries) {
        return None;
    }
    let (x, y) = unsafe { (*(a as *const T as *const R), *(b as *const T as *const R)) };
    let r = match name {
        "b2_min" => x.min(y),
        "b2_max" => x.max(y),
        _ => return None,
    };
    Some(unsafe { std::mem::transmute_copy::<R, T>(&r) })
}

// ---------------------------------------------------------------- contract language
#[derive(Clone, Copy)]
pub struct B(pub BId);
impl From<bool> for B {
    fn from(b: bool) -> B {
        B(if b { 0 } else { 1 })
    }
}
pub fn eq(a: R, b: R) -> B {
    B(a.b_eq(b))
}
pub fn ne(a: R, b: R) -> B {
    not(eq(a, b))
}
pub fn le(a: R, b: R) -> B {
    B(a.b_le(b))
}
pub fn lt(a: R, b: R) -> B {
    B(a.b_lt(b))
}
pub fn ge(a: R, b: R) -> B {
    le(b, a)
}
pub fn gt(a: R, b: R) -> B {
    lt(b, a)
}
pub fn not(b: B) -> B {
    B(cx(|c| c.ar.not(b.0)))
}
pub fn and(v: &[B]) -> B {
    let w: Vec<BId> = v.iter().map(|b| b.0).collect();
    B(cx(|c| c.ar.and(&w)))
}
pub fn or(v: &[B]) -> B {
    let w: Vec<BId> = v.iter().map(|b| b.0).collect();
    B(cx(|c| c.ar.or(&w)))
}
pub fn implies(a: B, b: B) -> B {
    or(&[not(a), b])
}
pub fn iff(a: B, b: B) -> B {
    and(&[implies(a, b), implies(b, a)])
}
/// Value selected by a condition.
pub fn sel(b: B, x: R, y: R) -> R {
    ite(b.0, x, y)
}
pub fn var(name: &str) -> R {
    R::Id(cx(|c| c.ar.var(name)))
}
/// As `var`; the range only guides sampling when replaying.
pub fn var_hint(name: &str, _lo: R, _hi: R) -> R {
    var(name)
}
pub fn pos(name: &str) -> R {
    let v = var(name);
    assume(lt(R::Lit("0"), v));
    v
}
pub fn nonneg(name: &str) -> R {
    let v = var(name);
    assume(le(R::Lit("0"), v));
    v
}
pub fn assume(b: B) {
    let dead = cx(|c| {
        if c.known(b.0) == Some(false) {
            c.dead = true;
        }
        c.add_fact(b.0);
        c.dead
    });
    if dead {
        std::panic::panic_any(Abort);
    }
}
pub fn ensure(label: &str, b: B) {
    cx(|c| c.prove(label, b.0));
}
/// Proves a fact and then uses it on the rest of the path.
pub fn lemma(label: &str, b: B) {
    cx(|c| {
        c.prove(label, b.0);
        c.add_fact(b.0);
    });
}
/// Forgets everything about `x` but `holds`: the rest of the path sees `y` instead, which must be able to
/// take every value with that property.
pub fn stand_in(label: &str, x: R, y: R, holds: &dyn Fn(R) -> B) {
    ensure(label, holds(x));
    assume(holds(y));
    let (i, j) = (x.id(), y.id());
    cx(|c| {
        if c.ar.as_const(i).is_none() && i != j {
            c.alias.insert(i, j);
        }
    });
}
pub fn choose(label: &str, n: usize) -> usize {
    cx(|c| c.choose(label, n))
}
pub fn flag(label: &str) -> bool {
    choose(label, 2) == 1
}
pub fn abort_path() -> ! {
    std::panic::panic_any(Abort)
}
/// Prune infeasible branches with the solver while exploring.
pub fn prune(on: bool) {
    cx(|c| c.prune = on);
}
/// When off, divisors and square root arguments are assumed to be in their domain instead of proved.
pub fn domain_checks(on: bool) {
    cx(|c| c.div_check = on);
}
/// Replace the selection functions by their contract (default) or run their bodies.
pub fn summaries(on: bool) {
    cx(|c| c.summaries = on);
}
pub fn symbolic() -> bool {
    true
}
/// Same term (used for frame conditions: the field was not written or got back its old value).
pub fn same(a: R, b: R) -> bool {
    a.id() == b.id()
}
/// Equality that the ring normal form settles (never forks).
pub fn known_eq(a: R, b: R) -> bool {
    let (a, b) = (a.id(), b.id());
    a == b || cx(|c| c.ring_eq(a, b)) == Some(true)
}
pub fn forget_limit(n: usize) {
    cx(|c| c.ar.limit = n);
}

static REACHED: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
thread_local! {
    static REACHED_LAST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static REACHED_HERE: std::cell::RefCell<std::collections::HashSet<usize>> = std::cell::RefCell::new(std::collections::HashSet::new());
}
/// Extracted functions call this on entry.
#[inline]
pub fn reached(name: &'static str) {
    let here = name.as_ptr() as usize;
    if REACHED_LAST.with(|l| l.replace(here)) == here {
        return;
    }
    reached_new(name);
}
fn reached_new(name: &'static str) {
    REACHED_HERE.with(|r| {
        if r.borrow_mut().insert(name.as_ptr() as usize) {
            REACHED.lock().unwrap().insert(name);
        }
    })
}
pub fn reached_list() -> Vec<&'static str> {
    REACHED.lock().unwrap().iter().copied().collect()
}

pub struct HarnessResult {
    pub name: String,
    pub paths: usize,
    pub aborted: usize,
    pub forks: usize,
    pub labels: std::collections::BTreeMap<String, Stat>,
    pub cover: std::collections::BTreeMap<String, Vec<String>>,
    pub vcs: Vec<Vc>,
    pub error: Option<String>,
    pub div_assumed: usize,
    pub explore_s: f64,
    pub oracle_calls: usize,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn explore(name: &str, f: fn()) -> HarnessResult {
    let t0 = std::time::Instant::now();
    cx(|c| {
        *c = Ctx::new();
        c.harness = name.to_string();
    });
    let (mut paths, mut aborted) = (0, 0);
    let mut error = None;
    let deadline: f64 = std::env::var("EXPLORE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(400.0);
    loop {
        hook::clear();
        cx(|c| {
            c.begin_path();
            c.path = paths;
        });
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        match r {
            Ok(()) => {}
            Err(e) => {
                if e.downcast_ref::<Abort>().is_some() {
                    aborted += 1;
                } else {
                    let msg = LAST_PANIC.with(|l| l.borrow().clone());
                    cx(|c| {
                        let l = format!("no-panic: {}", msg);
                        c.prove(&l, 1);
                    });
                }
            }
        }
        paths += 1;
        let (more, n) = cx(|c| {
            let m = c.advance();
            (m, c.max_paths)
        });
        if !more {
            break;
        }
        if paths >= n {
            error = Some(format!("path limit {} reached", n));
            break;
        }
        if t0.elapsed().as_secs_f64() > deadline {
            error = Some(format!("exploration time limit reached after {} paths", paths));
            break;
        }
    }
    cx(|c| HarnessResult {
        name: name.to_string(),
        paths,
        aborted,
        forks: c.forks,
        labels: std::mem::take(&mut c.labels),
        cover: std::mem::take(&mut c.cover),
        vcs: std::mem::take(&mut c.vcs),
        error,
        div_assumed: c.div_assumed,
        explore_s: t0.elapsed().as_secs_f64(),
        oracle_calls: c.oracle.as_ref().map(|o| o.calls).unwrap_or(0),
    })
}

pub fn run_all(hs: &[Harness]) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} in {}", m.lines().next().unwrap_or(""), loc));
        if std::env::var("SYM_BT").is_ok() && i.payload().downcast_ref::<Abort>().is_none() {
            eprintln!("PANIC {} {:?}\n{}", m, i.location(), std::backtrace::Backtrace::force_capture());
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let out = args.iter().position(|a| a == "--out").map(|i| args[i + 1].clone());
    let sel: Vec<Harness> = hs.iter().copied().filter(|h| only.as_ref().map(|o| h.0 == o).unwrap_or(true)).collect();
    pool::run(&sel, explore, out);
}
