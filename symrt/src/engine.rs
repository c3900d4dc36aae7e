//! Path exploration and obligation generation (symbolic mode).
use crate::rat::Rat;
use crate::smt;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Debug)]
pub struct Decision {
    pub choice: usize,
    pub n: usize,
    pub label: String,
    pub fact: Option<BId>,
}

/// One verification condition handed to the solver pool.
pub struct Vc {
    pub harness: String,
    pub label: String,
    pub path: usize,
    pub trail: String,
    pub choices: Vec<(String, usize)>,
    pub scripts: Vec<(String, String)>,
    pub vars: Vec<String>,
    pub key: u64,
}

#[derive(Default, Clone)]
pub struct Stat {
    pub count: usize,
    pub folded: usize,
    pub ring: usize,
    pub sign: usize,
    pub queued: usize,
    pub dup: usize,
}

pub struct Ctx {
    pub ar: Arena,
    pub trail: Vec<Decision>,
    pub pos: usize,
    pub facts: Vec<BId>,
    pub factset: HashSet<BId>,
    pub signs: HashMap<(u32, u32), u8>,
    pub harness: String,
    pub path: usize,
    pub choices: Vec<(String, usize)>,
    pub labels: BTreeMap<String, Stat>,
    pub vcs: Vec<Vc>,
    pub seen: HashSet<u64>,
    pub prune: bool,
    pub div_check: bool,
    pub summaries: bool,
    pub oracle: Option<Oracle>,
    pub dead: bool,
    pub alias: std::collections::HashMap<Id, Id>,
    pub forks: usize,
    pub div_assumed: usize,
    pub cover: BTreeMap<String, Vec<String>>,
    pub cover_seen: std::collections::HashMap<String, usize>,
    pub max_paths: usize,
    pub divs: HashSet<Id>,
    pub called: BTreeMap<String, usize>,
    pub hyps: Vec<(String, Vec<(String, f64)>)>,
}

thread_local! {
    pub static CX: RefCell<Ctx> = RefCell::new(Ctx::new());
}
pub fn cx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CX.with(|c| f(&mut c.borrow_mut()))
}

pub struct PathAbort;

pub struct Oracle {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub calls: usize,
}
impl Oracle {
    pub fn new() -> Option<Oracle> {
        let mut child = Command::new("z3")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let inp = child.stdin.take()?;
        let out = BufReader::new(child.stdout.take()?);
        Some(Oracle { child, inp, out, calls: 0 })
    }
    /// Some(false) = unsat, Some(true) = sat, None = unknown
    pub fn check(&mut self, script: &str) -> Option<bool> {
        self.calls += 1;
        let _ = write!(self.inp, "(reset)\n(set-option :timeout 400)\n{}\n(check-sat)\n(echo \"done\")\n", script);
        let _ = self.inp.flush();
        let mut ans = None;
        let mut bad = false;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).ok()? == 0 {
                return None;
            }
            let t = l.trim();
            if t == "done" || t == "\"done\"" {
                return if bad { None } else { ans };
            }
            bad |= t.starts_with("(error");
            if t == "sat" {
                ans = Some(true);
            } else if t == "unsat" {
                ans = Some(false);
            }
        }
    }
}
impl Drop for Oracle {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn flip(s: u8) -> u8 {
    (if s & NEG != 0 { POS } else { 0 }) | (s & ZER) | (if s & POS != 0 { NEG } else { 0 })
}
pub fn sign_mul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for (x, i) in [(NEG, -1), (ZER, 0), (POS, 1)] {
        if a & x == 0 {
            continue;
        }
        for (y, j) in [(NEG, -1), (ZER, 0), (POS, 1)] {
            if b & y == 0 {
                continue;
            }
            r |= match i * j {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
        }
    }
    r
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            ar: Arena::new(),
            trail: vec![],
            pos: 0,
            facts: vec![],
            factset: HashSet::new(),
            signs: HashMap::new(),
            harness: String::new(),
            path: 0,
            choices: vec![],
            labels: BTreeMap::new(),
            vcs: vec![],
            seen: HashSet::new(),
            prune: false,
            div_check: true,
            summaries: true,
            oracle: None,
            dead: false,
            alias: Default::default(),
            forks: 0,
            div_assumed: 0,
            cover: BTreeMap::new(),
            cover_seen: Default::default(),
            max_paths: 60_000,
            divs: HashSet::new(),
            called: BTreeMap::new(),
            hyps: vec![],
        }
    }
    pub fn begin_path(&mut self) {
        self.pos = 0;
        self.facts.clear();
        self.factset.clear();
        self.signs.clear();
        self.choices.clear();
        self.divs.clear();
        self.dead = false;
        self.alias.clear();
        self.summaries = true;
        // f32 constants kept symbolic
        let pi = self.ar.var("PI");
        let maxf = self.ar.var("MAXF");
        let lo = self.ar.konst(Rat::new(314159, 100000).unwrap());
        let hi = self.ar.konst(Rat::new(314160, 100000).unwrap());
        let big = self.ar.konst(Rat::int(10i128.pow(30)));
        let b1 = self.ar.bmk(BNode::Lt(lo, pi));
        let b2 = self.ar.bmk(BNode::Lt(pi, hi));
        let b3 = self.ar.bmk(BNode::Lt(big, maxf));
        for b in [b1, b2, b3] {
            self.add_fact(b);
        }
    }
    // ---- sign reasoning
    pub fn atom_sign(&mut self, a: Id) -> u8 {
        let p = Poly(vec![(vec![(a, 1)], Rat::ONE)]);
        let k = self.ar.intern_poly(p);
        let mut s = self.signs.get(&(k, u32::MAX)).copied().unwrap_or(7);
        if let Node::F1(F1::Sqrt, _) = self.ar.nodes[a as usize] {
            s &= ZER | POS;
        }
        if let Node::F1(F1::Exp, _) = self.ar.nodes[a as usize] {
            s &= POS;
        }
        s
    }
    pub fn mono_sign(&mut self, m: &Mono) -> u8 {
        let mut s = POS;
        for (a, e) in m {
            let t = self.atom_sign(*a);
            let t = if e % 2 == 0 { sign_mul(t, t) & (ZER | POS) } else { t };
            let t = if e % 2 == 0 && self.atom_sign(*a) & ZER == 0 { POS } else { t };
            s = sign_mul(s, t);
        }
        s
    }
    /// Possible signs of a polynomial given the path.
    pub fn poly_sign(&mut self, p: &Poly) -> u8 {
        if let Some(c) = p.as_const() {
            return match c.signum() {
                -1 => NEG,
                0 => ZER,
                _ => POS,
            };
        }
        let mut known = 7;
        let lead = p.0[p.0.len() - 1].1;
        if let Some(inv) = lead.inv() {
            if let Some(m) = p.scale(inv) {
                let k = self.ar.intern_poly(m);
                if let Some(s) = self.signs.get(&(k, u32::MAX)) {
                    known = if lead.signum() < 0 { flip(*s) } else { *s };
                }
            }
        }
        if p.0.len() <= 200 {
            let (mut allnn, mut allnp, mut anyp, mut anyn) = (true, true, false, false);
            for (m, c) in &p.0 {
                let mut s = self.mono_sign(m);
                if c.signum() < 0 {
                    s = flip(s);
                }
                if s & NEG != 0 {
                    allnn = false;
                }
                if s & POS != 0 {
                    allnp = false;
                }
                if s == POS {
                    anyp = true;
                }
                if s == NEG {
                    anyn = true;
                }
            }
            if allnn {
                known &= if anyp { POS } else { ZER | POS };
            }
            if allnp {
                known &= if anyn { NEG } else { ZER | NEG };
            }
            if known == 7 || known == (ZER | POS) || known == (ZER | NEG) {
                known &= self.perfect_square_hint(p);
            }
        }
        known
    }
    /// a^2 + 2ab + b^2 + ... recognised for two- and three-term-square forms (k*(x+-y)^2).
    fn perfect_square_hint(&mut self, p: &Poly) -> u8 {
        if p.0.len() != 3 {
            return 7;
        }
        // two even monomials with positive coefficients and one cross term with c^2 <= 4ab
        let even: Vec<usize> = (0..3).filter(|i| p.0[*i].0.iter().all(|(_, e)| e % 2 == 0)).collect();
        for i in &even {
            for j in &even {
                if i >= j {
                    continue;
                }
                let k = 3 - i - j;
                if p.0[*i].1.signum() != p.0[*j].1.signum() {
                    continue;
                }
                let prod = mono_mul(&p.0[*i].0, &p.0[*j].0);
                let half: Mono = prod.iter().map(|(a, e)| (*a, e / 2)).collect();
                if half != p.0[k].0 {
                    continue;
                }
                let c2 = p.0[k].1.mul(p.0[k].1);
                let ab = p.0[*i].1.mul(p.0[*j].1).and_then(|x| x.mul(Rat::int(4)));
                if let (Some(c2), Some(ab)) = (c2, ab) {
                    if let Some(o) = c2.cmp0(ab) {
                        if o != std::cmp::Ordering::Greater {
                            return if p.0[*i].1.signum() > 0 { ZER | POS } else { ZER | NEG };
                        }
                    }
                }
            }
        }
        7
    }
    /// Signs of a - b, looking also at how products with zero on the other side were built.
    fn cmp_sign(&mut self, a: Id, b: Id) -> u8 {
        let (s, _) = self.diff_sign(a, b);
        if s == ZER || s == POS || s == NEG {
            return s;
        }
        let zero = |c: &Ctx, x: Id| matches!(&c.ar.nodes[x as usize], Node::Const(r) if r.is_zero());
        if zero(self, b) {
            s & self.built_sign(a, 4)
        } else if zero(self, a) {
            s & flip(self.built_sign(b, 4))
        } else {
            s
        }
    }
    fn built_sign(&mut self, a: Id, depth: u32) -> u8 {
        let z = self.ar.konst(Rat::ZERO);
        let (s, _) = self.diff_sign(a, z);
        if s == ZER || s == POS || s == NEG || depth == 0 {
            return s;
        }
        s & match self.ar.nodes[a as usize].clone() {
            Node::Mul(x, y) if x != y => sign_mul(self.built_sign(x, depth - 1), self.built_sign(y, depth - 1)),
            Node::Div(x, y) => {
                let d = self.built_sign(y, depth - 1) & !ZER;
                sign_mul(self.built_sign(x, depth - 1), if d == 0 { 7 } else { d })
            }
            Node::Mul(x, _) => {
                let s = self.built_sign(x, depth - 1);
                sign_mul(s, s) & (ZER | POS)
            }
            Node::Add(x, y) => {
                let (s, t) = (self.built_sign(x, depth - 1), self.built_sign(y, depth - 1));
                if (s | t) & NEG == 0 {
                    if s & ZER == 0 || t & ZER == 0 { POS } else { s | t }
                } else if (s | t) & POS == 0 {
                    if s & ZER == 0 || t & ZER == 0 { NEG } else { s | t }
                } else {
                    7
                }
            }
            Node::Ite(_, x, y) => self.built_sign(x, depth - 1) | self.built_sign(y, depth - 1),
            Node::Neg(x) => flip(self.built_sign(x, depth - 1)),
            Node::F1(F1::Sqrt, x) => match self.built_sign(x, depth - 1) {
                POS => POS,
                ZER => ZER,
                _ => ZER | POS,
            },
            _ => 7,
        }
    }
    /// Signs of a - b.
    pub fn diff_sign(&mut self, a: Id, b: Id) -> (u8, Option<(u32, u32, bool)>) {
        if a == b {
            return (ZER, None);
        }
        let d = self.ar.sub(a, b);
        let f = match self.ar.nf(d) {
            Some(f) => f,
            None => {
                let (x, y, fl) = if a < b { (a, b, false) } else { (b, a, true) };
                let key = (0x8000_0000 | x, y);
                let s = self.signs.get(&key).copied().unwrap_or(7);
                return (if fl { flip(s) } else { s }, Some((key.0, key.1, fl)));
            }
        };
        let mut fl = false;
        let mut dsign = POS;
        if !f.den.is_empty() {
            for (k, e) in f.den.iter() {
                let p = self.ar.polys[*k as usize].clone();
                let mut s = self.poly_sign(&p) & !ZER;
                if s == 0 {
                    s = POS;
                }
                if e % 2 == 0 {
                    s = POS;
                }
                dsign = sign_mul(dsign, s);
            }
            if dsign == NEG {
                fl = true;
            } else if dsign != POS {
                // unknown denominator sign: key on both
                let num = f.num.clone();
                let lead = num.0[num.0.len() - 1].1;
                let inv = match lead.inv().and_then(|i| num.scale(i)) {
                    Some(x) => x,
                    None => return (7, None),
                };
                let k1 = self.ar.intern_poly(inv);
                let mut h = 7u32;
                for (k, e) in f.den.iter() {
                    h = h.wrapping_mul(1000003).wrapping_add(*k * 17 + *e);
                }
                let h = h & 0x7fff_ffff;
                let fl = lead.signum() < 0;
                let s = self.signs.get(&(k1, h)).copied().unwrap_or(7);
                return (if fl { flip(s) } else { s }, Some((k1, h, fl)));
            }
        }
        let mut s = self.poly_sign(&f.num);
        if fl {
            s = flip(s);
        }
        if f.num.as_const().is_some() {
            return (s, None);
        }
        let lead = f.num.0[f.num.0.len() - 1].1;
        let m = match lead.inv().and_then(|i| f.num.scale(i)) {
            Some(m) => m,
            None => return (s, None),
        };
        let k = self.ar.intern_poly(m);
        if lead.signum() < 0 {
            fl = !fl;
        }
        (s, Some((k, u32::MAX, fl)))
    }
    fn is_maxf(&self, a: Id) -> i32 {
        match self.ar.nodes[a as usize] {
            Node::Var(1) => 1,
            Node::Neg(x) => {
                if self.is_maxf(x) == 1 {
                    -1
                } else {
                    0
                }
            }
            _ => 0,
        }
    }
    /// Decides an atom from what is known, without forking.
    pub fn known(&mut self, b: BId) -> Option<bool> {
        if b == 0 {
            return Some(true);
        }
        if b == 1 {
            return Some(false);
        }
        if self.factset.contains(&b) {
            return Some(true);
        }
        let nb = self.ar.not(b);
        if self.factset.contains(&nb) {
            return Some(false);
        }
        match self.ar.bnodes[b as usize].clone() {
            BNode::Lt(x, y) => {
                let (mx, my) = (self.is_maxf(x), self.is_maxf(y));
                if mx != my && (mx != 0 || my != 0) {
                    // every other value is assumed finite and below f32::MAX in magnitude
                    return Some(mx < my);
                }
                let s = self.cmp_sign(x, y);
                if s & NEG == 0 {
                    Some(false)
                } else if s == NEG {
                    Some(true)
                } else {
                    None
                }
            }
            BNode::Le(x, y) => {
                let (mx, my) = (self.is_maxf(x), self.is_maxf(y));
                if mx != my && (mx != 0 || my != 0) {
                    return Some(mx < my);
                }
                let s = self.cmp_sign(x, y);
                if s & POS == 0 {
                    Some(true)
                } else if s == POS {
                    Some(false)
                } else {
                    None
                }
            }
            BNode::Eq(x, y) => {
                let (mx, my) = (self.is_maxf(x), self.is_maxf(y));
                if mx != my && (mx != 0 || my != 0) {
                    return Some(false);
                }
                let s = self.cmp_sign(x, y);
                if s == ZER {
                    Some(true)
                } else if s & ZER == 0 {
                    Some(false)
                } else {
                    None
                }
            }
            BNode::Not(x) => self.known(x).map(|v| !v),
            BNode::And(v) => {
                let mut all = true;
                for x in v {
                    match self.known(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            BNode::Or(v) => {
                let mut none = true;
                for x in v {
                    match self.known(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn add_fact(&mut self, b: BId) {
        if b == 0 {
            return;
        }
        match self.ar.bnodes[b as usize].clone() {
            BNode::And(v) => {
                for x in v {
                    self.add_fact(x);
                }
                return;
            }
            BNode::Lt(x, y) => {
                self.restrict(x, y, NEG);
                self.through_zero(x, y, true);
            }
            BNode::Le(x, y) => {
                self.restrict(x, y, NEG | ZER);
                self.through_zero(x, y, false);
            }
            BNode::Eq(x, y) => self.restrict(x, y, ZER),
            BNode::Not(z) => {
                if let BNode::Eq(x, y) = self.ar.bnodes[z as usize].clone() {
                    self.restrict(x, y, NEG | POS)
                }
            }
            _ => {}
        }
        if self.factset.insert(b) {
            self.facts.push(b);
        }
    }
    /// What x < y (or x <= y) says about the signs of x and y.
    fn through_zero(&mut self, x: Id, y: Id, strict: bool) {
        let z = self.ar.konst(Rat::ZERO);
        if x == z || y == z {
            return;
        }
        let (sx, sy) = (self.built_sign(x, 2), self.built_sign(y, 2));
        if sx & NEG == 0 && sy & (NEG | ZER) != 0 {
            self.restrict(y, z, if strict || sx == POS { POS } else { ZER | POS });
        }
        if sy & POS == 0 && sx & (POS | ZER) != 0 {
            self.restrict(x, z, if strict || sy == NEG { NEG } else { ZER | NEG });
        }
    }
    fn restrict(&mut self, x: Id, y: Id, allowed: u8) {
        let (s, key) = self.diff_sign(x, y);
        if s & allowed == 0 {
            self.dead = true;
        }
        if let Some((k, h, fl)) = key {
            let v = s & allowed;
            let v = if fl { flip(v) } else { v };
            let e = self.signs.entry((k, h)).or_insert(7);
            *e &= v;
        }
    }
    fn next_decision(&mut self, n: usize, label: &str) -> usize {
        if self.pos < self.trail.len() {
            let c = self.trail[self.pos].choice;
            self.pos += 1;
            c
        } else {
            self.trail.push(Decision { choice: 0, n, label: label.to_string(), fact: None });
            self.pos += 1;
            0
        }
    }
    pub fn decide(&mut self, b: BId) -> bool {
        if let Some(v) = self.known(b) {
            return v;
        }
        if self.pos >= self.trail.len() && self.prune {
            // forced branch?
            let nb = self.ar.not(b);
            let t = self.feasible(b);
            if t == Some(false) {
                self.trail.push(Decision { choice: 1, n: 0, label: "forced".into(), fact: Some(nb) });
            } else if self.feasible(nb) == Some(false) {
                self.trail.push(Decision { choice: 0, n: 0, label: "forced".into(), fact: Some(b) });
            }
        }
        self.forks += 1;
        let c = self.next_decision(2, "if");
        let v = c == 0;
        let f = if v { b } else { self.ar.not(b) };
        self.add_fact(f);
        v
    }
    fn feasible(&mut self, b: BId) -> Option<bool> {
        let mut fs = self.facts.clone();
        fs.push(b);
        let s = smt::dag_script(&mut self.ar, &fs, None, false);
        if self.oracle.is_none() {
            self.oracle = Oracle::new();
        }
        match self.oracle.as_mut() {
            Some(o) => o.check(&s),
            None => None,
        }
    }
    pub fn choose(&mut self, label: &str, n: usize) -> usize {
        let c = self.next_decision(n, label);
        self.choices.push((label.to_string(), c));
        c
    }
    /// After a path: move to the next one. False when done.
    pub fn advance(&mut self) -> bool {
        self.trail.truncate(self.pos.max(0));
        while let Some(d) = self.trail.last_mut() {
            if d.choice + 1 < d.n {
                d.choice += 1;
                d.fact = None;
                return true;
            }
            self.trail.pop();
        }
        false
    }
    // ---- obligations
    pub fn ring_eq(&mut self, a: Id, b: Id) -> Option<bool> {
        let d = self.ar.sub(a, b);
        match self.ar.nf(d) {
            Some(f) => Some(f.num.is_zero()),
            None if self.ar.shallow(d).map_or(false, |p| p.is_zero()) => Some(true),
            None => None,
        }
    }
    /// x <= y (or x < y) from the bounds of the selections x and y are made of.
    fn bounded(&mut self, x: Id, y: Id, strict: bool, depth: u32) -> bool {
        let g = self.ar.bmk(if strict { BNode::Lt(x, y) } else { BNode::Le(x, y) });
        if (!strict && x == y) || self.known(g) == Some(true) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        // ite(c, a, b): every choice is bounded; a minimum is below either argument, a maximum above either
        let parts = |s: &Ctx, i: Id| match &s.ar.nodes[i as usize] {
            Node::Ite(c, a, b) => {
                let kind = match &s.ar.bnodes[*c as usize] {
                    BNode::Lt(p, q) | BNode::Le(p, q) if (p, q) == (a, b) => -1,
                    BNode::Lt(p, q) | BNode::Le(p, q) if (p, q) == (b, a) => 1,
                    _ => 0,
                };
                Some((*a, *b, kind))
            }
            _ => None,
        };
        if let Some((a, b, kind)) = parts(self, x) {
            let r = if kind < 0 {
                self.bounded(a, y, strict, depth - 1) || self.bounded(b, y, strict, depth - 1)
            } else {
                self.bounded(a, y, strict, depth - 1) && self.bounded(b, y, strict, depth - 1)
            };
            if r {
                return true;
            }
        }
        if let Some((a, b, kind)) = parts(self, y) {
            return if kind > 0 {
                self.bounded(x, a, strict, depth - 1) || self.bounded(x, b, strict, depth - 1)
            } else {
                self.bounded(x, a, strict, depth - 1) && self.bounded(x, b, strict, depth - 1)
            };
        }
        false
    }
    fn selected(&mut self, g: BId) -> bool {
        match self.ar.bnodes[g as usize].clone() {
            BNode::Le(x, y) => self.bounded(x, y, false, 3),
            BNode::Lt(x, y) => self.bounded(x, y, true, 3),
            BNode::Not(n) => match self.ar.bnodes[n as usize].clone() {
                BNode::Le(x, y) => self.bounded(y, x, true, 3),
                BNode::Lt(x, y) => self.bounded(y, x, false, 3),
                _ => false,
            },
            _ => false,
        }
    }
    pub fn prove(&mut self, label: &str, g: BId) {
        // conjunctions are proved separately
        if let BNode::And(v) = self.ar.bnodes[g as usize].clone() {
            for x in v {
                self.prove(label, x);
            }
            return;
        }
        self.labels.entry(label.to_string()).or_default().count += 1;
        if g == 0 {
            self.labels.get_mut(label).unwrap().folded += 1;
            self.note_cover(label);
            return;
        }
        if let BNode::Eq(a, b) = self.ar.bnodes[g as usize].clone() {
            if a == b || self.ring_eq(a, b) == Some(true) {
                self.labels.get_mut(label).unwrap().ring += 1;
                self.note_cover(label);
                return;
            }
        }
        if self.dead || self.known(g) == Some(true) || self.selected(g) {
            self.labels.get_mut(label).unwrap().sign += 1;
            self.note_cover(label);
            return;
        }
        let ng = self.ar.not(g);
        let mut facts = self.facts.clone();
        facts.push(ng);
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        facts.hash(&mut h);
        let key = h.finish();
        let st = self.labels.get_mut(label).unwrap();
        if !self.seen.insert(key) {
            st.dup += 1;
            return;
        }
        st.queued += 1;
        self.note_cover(label);
        let mut scripts = vec![];
        if let Some(s) = smt::linear_script(self, &facts) {
            scripts.push(("z3-linear".to_string(), s));
        }
        let (s, vars) = {
            let vars = smt::vars_of(&self.ar, &facts);
            (smt::dag_script(&mut self.ar, &facts, Some(&vars), true), vars)
        };
        if let Some(p) = smt::poly_script(self, &facts) {
            scripts.push(("z3-poly".to_string(), p));
        }
        scripts.push(("z3-dag".to_string(), s));
        let trail: String = self
            .trail
            .iter()
            .take(self.pos)
            .map(|d| if d.label == "if" || d.label == "forced" { format!("{}", d.choice) } else { format!("[{}={}]", d.label, d.choice) })
            .collect();
        self.vcs.push(Vc {
            harness: self.harness.clone(),
            label: label.to_string(),
            path: self.path,
            trail,
            choices: self.choices.clone(),
            scripts,
            vars,
            key,
        });
    }
    /// Keeps path conditions that reach an obligation: the first few and an even sample of the rest.
    fn note_cover(&mut self, label: &str) {
        if self.dead {
            return;
        }
        let n = self.cover_seen.entry(label.to_string()).or_insert(0);
        let i = *n;
        *n += 1;
        if i == 144 {
            // the sample is not exhaustive from here on: no model in it is no proof that there is none
            self.cover.entry(label.to_string()).or_default().push(String::new());
        }
        let slot = if i < 144 {
            i
        } else {
            let mut z = (i as u64).wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 29)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 32;
            let j = 12 + (z % (i as u64 - 11)) as usize;
            if j >= 144 {
                return;
            }
            j
        };
        let facts = self.facts.clone();
        let s = smt::dag_script(&mut self.ar, &facts, None, false);
        let v = self.cover.entry(label.to_string()).or_default();
        if slot < v.len() {
            v[slot] = s;
        } else {
            v.push(s);
        }
    }
}
