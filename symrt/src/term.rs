//! Hash-consed real and boolean terms with a ring normal form.
use crate::rat::Rat;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Id = u32;
pub type BId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F1 {
    Sqrt,
    Sin,
    Cos,
    Tan,
    Asin,
    Acos,
    Atan,
    Floor,
    Ceil,
    Round,
    Exp,
    Ln,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F2 {
    Atan2,
    Pow,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Rat),
    Var(u32),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Div(Id, Id),
    Neg(Id),
    Ite(BId, Id, Id),
    F1(F1, Id),
    F2(F2, Id, Id),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Lt(Id, Id),
    Le(Id, Id),
    Eq(Id, Id),
    Not(BId),
    And(Vec<BId>),
    Or(Vec<BId>),
}

pub type Mono = Vec<(Id, u32)>;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Rat)>);

impl Poly {
    pub fn constant(c: Rat) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::ZERO),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    fn from_map(m: HashMap<Mono, Rat>) -> Poly {
        let mut v: Vec<_> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        v.sort();
        Poly(v)
    }
    pub fn scale(&self, c: Rat) -> Option<Poly> {
        if c.is_zero() {
            return Some(Poly(vec![]));
        }
        let mut v = Vec::with_capacity(self.0.len());
        for (m, k) in &self.0 {
            v.push((m.clone(), k.mul(c)?));
        }
        Some(Poly(v))
    }
    pub fn add(&self, o: &Poly) -> Option<Poly> {
        let (a, b) = (&self.0, &o.0);
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                std::cmp::Ordering::Less => {
                    v.push(a[i].clone());
                    i += 1
                }
                std::cmp::Ordering::Greater => {
                    v.push(b[j].clone());
                    j += 1
                }
                _ => {
                    let c = a[i].1.add(b[j].1)?;
                    if !c.is_zero() {
                        v.push((a[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        v.extend_from_slice(&a[i..]);
        v.extend_from_slice(&b[j..]);
        Some(Poly(v))
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect())
    }
}
pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 {
            v.push(a[i]);
            i += 1;
        } else if a[i].0 > b[j].0 {
            v.push(b[j]);
            j += 1;
        } else {
            v.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    v.extend_from_slice(&a[i..]);
    v.extend_from_slice(&b[j..]);
    v
}

/// Monomial in lexicographic order of its exponents (an order that multiplication respects).
#[derive(Clone, PartialEq, Eq)]
struct Lex(Mono);
impl PartialOrd for Lex {
    fn partial_cmp(&self, o: &Lex) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Lex {
    fn cmp(&self, o: &Lex) -> std::cmp::Ordering {
        use std::cmp::Ordering::*;
        for k in 0.. {
            match (self.0.get(k), o.0.get(k)) {
                (None, None) => return Equal,
                (Some(_), None) => return Greater,
                (None, Some(_)) => return Less,
                (Some(a), Some(b)) if a.0 != b.0 => return if a.0 < b.0 { Greater } else { Less },
                (Some(a), Some(b)) if a.1 != b.1 => return a.1.cmp(&b.1),
                _ => {}
            }
        }
        Equal
    }
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut v = Vec::with_capacity(a.len());
    let mut j = 0;
    for (x, e) in a {
        if j < b.len() && b[j].0 < *x {
            return None;
        }
        if j < b.len() && b[j].0 == *x {
            if b[j].1 > *e {
                return None;
            }
            if *e > b[j].1 {
                v.push((*x, e - b[j].1));
            }
            j += 1;
        } else {
            v.push((*x, *e));
        }
    }
    if j < b.len() {
        None
    } else {
        Some(v)
    }
}
/// n / d where the division leaves no remainder.
fn div_exact(n: &Poly, d: &Poly) -> Option<Poly> {
    let (lm, lc) = d.0.iter().max_by(|a, b| Lex(a.0.clone()).cmp(&Lex(b.0.clone())))?;
    let inv = lc.inv()?;
    let mut rest: BTreeMap<Lex, Rat> = n.0.iter().map(|(m, c)| (Lex(m.clone()), *c)).collect();
    let mut q: Vec<(Mono, Rat)> = vec![];
    while let Some((m, c)) = rest.iter().next_back().map(|(m, c)| (m.0.clone(), *c)) {
        let t = mono_div(&m, lm)?;
        let k = c.mul(inv)?;
        for (x, e) in &d.0 {
            let key = Lex(mono_mul(&t, x));
            let v = rest.get(&key).copied().unwrap_or(Rat::ZERO).sub(e.mul(k)?)?;
            if v.is_zero() {
                rest.remove(&key);
            } else {
                rest.insert(key, v);
            }
        }
        q.push((t, k));
        if rest.len() > 2 * n.0.len() + 64 {
            return None;
        }
    }
    q.sort();
    Some(Poly(q))
}

/// num / prod(den_i ^ e_i); den polynomials are interned and monic.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frac {
    pub num: Rc<Poly>,
    pub den: BTreeMap<u32, u32>,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Id>,
    pub bnodes: Vec<BNode>,
    bmap: HashMap<BNode, BId>,
    pub vars: Vec<String>,
    varmap: HashMap<String, u32>,
    nf: Vec<Option<Option<Rc<Frac>>>>,
    pub polys: Vec<Rc<Poly>>,
    polymap: HashMap<Rc<Poly>, u32>,
    fracs: HashMap<Rc<Frac>, u32>,
    atom_rep: HashMap<(u8, u32, u32, u32), Id>,
    pub limit: usize,
    trig_args: Vec<Id>,
    extremes: Vec<(bool, Id, Id, Id)>,
    pub sub: HashMap<Id, Rc<Frac>>,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::new(),
            bnodes: vec![],
            bmap: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            nf: vec![],
            polys: vec![],
            polymap: HashMap::new(),
            fracs: HashMap::new(),
            atom_rep: HashMap::new(),
            limit: 200_000,
            trig_args: vec![],
            extremes: vec![],
            sub: HashMap::new(),
        };
        a.bmk(BNode::True);
        a.bmk(BNode::False);
        a.var("PI");
        a.var("MAXF");
        a
    }
    pub fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.nf.push(None);
        self.map.insert(n, i);
        i
    }
    pub fn bmk(&mut self, n: BNode) -> BId {
        if let Some(i) = self.bmap.get(&n) {
            return *i;
        }
        let i = self.bnodes.len() as BId;
        self.bnodes.push(n.clone());
        self.bmap.insert(n, i);
        i
    }
    pub fn var(&mut self, name: &str) -> Id {
        let v = match self.varmap.get(name) {
            Some(v) => *v,
            None => {
                let v = self.vars.len() as u32;
                self.vars.push(name.to_string());
                self.varmap.insert(name.to_string(), v);
                v
            }
        };
        self.mk(Node::Var(v))
    }
    pub fn konst(&mut self, r: Rat) -> Id {
        self.mk(Node::Const(r))
    }
    pub fn as_const(&self, i: Id) -> Option<Rat> {
        match self.nodes[i as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.add(y) {
                    return self.konst(r);
                }
            }
            (Some(x), _) if x.is_zero() => return b,
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Add(a, b))
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(Rat::ZERO);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.sub(y) {
                    return self.konst(r);
                }
            }
            (Some(x), _) if x.is_zero() => return self.neg(b),
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        self.mk(Node::Sub(a, b))
    }
    pub fn neg(&mut self, a: Id) -> Id {
        match self.nodes[a as usize] {
            Node::Const(r) => self.konst(r.neg()),
            Node::Neg(x) => x,
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let one = Rat::ONE;
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                if let Some(r) = x.mul(y) {
                    return self.konst(r);
                }
            }
            (Some(x), _) if x.is_zero() => return a,
            (_, Some(y)) if y.is_zero() => return b,
            (Some(x), _) if x == one => return b,
            (_, Some(y)) if y == one => return a,
            (Some(x), _) if x == one.neg() => return self.neg(b),
            (_, Some(y)) if y == one.neg() => return self.neg(a),
            _ => {}
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b))
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) if !y.is_zero() => {
                if let Some(r) = x.div(y) {
                    return self.konst(r);
                }
            }
            (_, Some(y)) if y == Rat::ONE => return a,
            (_, Some(y)) if !y.is_zero() => {
                if let Some(inv) = y.inv() {
                    let k = self.konst(inv);
                    return self.mul(k, a);
                }
            }
            _ => {}
        }
        self.mk(Node::Div(a, b))
    }
    pub fn frac_key(&mut self, i: Id) -> u32 {
        match self.nf(i) {
            Some(f) => {
                let n = self.fracs.len() as u32;
                *self.fracs.entry(f).or_insert(n)
            }
            None => 0x8000_0000 | i,
        }
    }
    /// Constant value via the normal form, if it is one.
    pub fn const_value(&mut self, i: Id) -> Option<Rat> {
        if let Some(r) = self.as_const(i) {
            return Some(r);
        }
        let f = self.nf(i)?;
        if f.den.is_empty() {
            f.num.as_const()
        } else if f.num.is_zero() {
            Some(Rat::ZERO)
        } else {
            None
        }
    }
    pub fn f1(&mut self, k: F1, a: Id) -> Id {
        if let Some(c) = self.const_value(a) {
            match k {
                F1::Sin | F1::Tan | F1::Asin | F1::Atan if c.is_zero() => return self.konst(Rat::ZERO),
                F1::Cos | F1::Exp if c.is_zero() => return self.konst(Rat::ONE),
                F1::Sqrt => {
                    let rt = |x: i128| -> Option<i128> {
                        if x < 0 {
                            return None;
                        }
                        let r = (x as f64).sqrt().round() as i128;
                        ((r - 2).max(0)..=r + 2).find(|y| y.checked_mul(*y) == Some(x))
                    };
                    if let (Some(n), Some(d)) = (rt(c.n), rt(c.d)) {
                        if let Some(r) = Rat::new(n, d) {
                            return self.konst(r);
                        }
                    }
                }
                F1::Floor => return self.konst(Rat::int(c.n.div_euclid(c.d))),
                F1::Ceil => return self.konst(Rat::int(-((-c.n).div_euclid(c.d)))),
                _ => {}
            }
        }
        // sin/cos of a negated argument: canonical sign, so that rotations by -a and a relate
        if matches!(k, F1::Sin | F1::Cos) {
            if let Node::Neg(x) = self.nodes[a as usize] {
                let r = self.f1(k, x);
                return if k == F1::Sin { self.neg(r) } else { r };
            }
        }
        let key = (k as u8, self.frac_key(a), 0, 0);
        if let Some(i) = self.atom_rep.get(&key) {
            return *i;
        }
        // equal (or opposite) arguments whose normal forms differ in their denominators
        if matches!(k, F1::Sin | F1::Cos) {
            let known = self.trig_args.clone();
            for b in known {
                let d = self.sub(a, b);
                if self.nf(d).map(|f| f.num.is_zero()) == Some(true) {
                    let r = self.mk(Node::F1(k, b));
                    self.atom_rep.insert(key, r);
                    return r;
                }
                let d = self.add(a, b);
                if self.nf(d).map(|f| f.num.is_zero()) == Some(true) {
                    let r = self.mk(Node::F1(k, b));
                    return if k == F1::Sin { self.neg(r) } else { r };
                }
            }
            self.trig_args.push(a);
        }
        let i = self.mk(Node::F1(k, a));
        self.atom_rep.insert(key, i);
        i
    }
    pub fn f2(&mut self, k: F2, a: Id, b: Id) -> Id {
        if k == F2::Atan2 {
            if let (Some(y), Some(x)) = (self.const_value(a), self.const_value(b)) {
                if y.is_zero() && x.signum() >= 0 {
                    return self.konst(Rat::ZERO);
                }
            }
        }
        let key = (100 + k as u8, self.frac_key(a), self.frac_key(b), 0);
        if let Some(i) = self.atom_rep.get(&key) {
            return *i;
        }
        let i = self.mk(Node::F2(k, a, b));
        self.atom_rep.insert(key, i);
        i
    }
    pub fn ite(&mut self, c: BId, a: Id, b: Id) -> Id {
        if c == 0 || a == b {
            return a;
        }
        if c == 1 {
            return b;
        }
        let (ka, kb) = (self.frac_key(a), self.frac_key(b));
        if ka == kb {
            return a;
        }
        let key = (200, c, ka, kb);
        if let Some(i) = self.atom_rep.get(&key) {
            return *i;
        }
        let i = self.mk(Node::Ite(c, a, b));
        self.atom_rep.insert(key, i);
        i
    }
    pub fn extreme(&mut self, max: bool, c: BId, a: Id, b: Id) -> Id {
        let key = (201 + max as u8, self.frac_key(a), self.frac_key(b), 0);
        if let Some(i) = self.atom_rep.get(&key) {
            return *i;
        }
        // equal arguments whose normal forms differ in their denominators
        let fractional = [a, b].iter().any(|x| self.nf(*x).map(|f| !f.den.is_empty()).unwrap_or(true));
        if fractional {
            let known = self.extremes.clone();
            for (m, x, y, i) in known.into_iter().rev().take(40) {
                if m == max && ((self.equal(a, x) && self.equal(b, y)) || (self.equal(a, y) && self.equal(b, x))) {
                    self.atom_rep.insert(key, i);
                    return i;
                }
            }
        }
        let i = self.ite(c, a, b);
        self.atom_rep.insert(key, i);
        if fractional {
            self.extremes.push((max, a, b, i));
        }
        i
    }
    fn equal(&mut self, a: Id, b: Id) -> bool {
        if a == b {
            return true;
        }
        let d = self.sub(a, b);
        self.nf(d).map(|f| f.num.is_zero()) == Some(true)
    }
    // ---- booleans
    pub fn not(&mut self, b: BId) -> BId {
        match self.bnodes[b as usize].clone() {
            BNode::True => 1,
            BNode::False => 0,
            BNode::Not(x) => x,
            BNode::Lt(a, c) => self.bmk(BNode::Le(c, a)),
            BNode::Le(a, c) => self.bmk(BNode::Lt(c, a)),
            _ => self.bmk(BNode::Not(b)),
        }
    }
    pub fn and(&mut self, v: &[BId]) -> BId {
        let mut o = vec![];
        for x in v {
            match &self.bnodes[*x as usize] {
                BNode::True => {}
                BNode::False => return 1,
                BNode::And(w) => o.extend_from_slice(w),
                _ => o.push(*x),
            }
        }
        o.sort();
        o.dedup();
        match o.len() {
            0 => 0,
            1 => o[0],
            _ => self.bmk(BNode::And(o)),
        }
    }
    pub fn or(&mut self, v: &[BId]) -> BId {
        let mut o = vec![];
        for x in v {
            match &self.bnodes[*x as usize] {
                BNode::False => {}
                BNode::True => return 0,
                BNode::Or(w) => o.extend_from_slice(w),
                _ => o.push(*x),
            }
        }
        o.sort();
        o.dedup();
        match o.len() {
            0 => 1,
            1 => o[0],
            _ => self.bmk(BNode::Or(o)),
        }
    }
    // ---- normal form
    pub fn intern_poly(&mut self, p: Poly) -> u32 {
        let p = Rc::new(p);
        if let Some(i) = self.polymap.get(&p) {
            return *i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.polymap.insert(p, i);
        i
    }
    fn atom_frac(&mut self, i: Id) -> Rc<Frac> {
        if let Some(f) = self.sub.get(&i) {
            return f.clone();
        }
        Rc::new(Frac { num: Rc::new(Poly(vec![(vec![(i, 1)], Rat::ONE)])), den: BTreeMap::new() })
    }
    /// Rewrites sin^2 -> 1 - cos^2 and sqrt(t)^2 -> t (t polynomial) in a product.
    fn reduce(&mut self, p: Poly) -> Option<Poly> {
        let mut work = p;
        for _ in 0..40 {
            let mut hit = false;
            let mut m: HashMap<Mono, Rat> = HashMap::new();
            let mut extra = Poly(vec![]);
            for (mono, c) in work.0.iter() {
                let mut found = None;
                for (k, (a, e)) in mono.iter().enumerate() {
                    if *e >= 2 {
                        match self.nodes[*a as usize] {
                            Node::F1(F1::Sin, x) => {
                                found = Some((k, F1::Sin, x));
                                break;
                            }
                            Node::F1(F1::Sqrt, x) => {
                                if let Some(f) = self.nf(x) {
                                    if f.den.is_empty() {
                                        found = Some((k, F1::Sqrt, x));
                                        break;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
                match found {
                    None => {
                        let e = m.entry(mono.clone()).or_insert(Rat::ZERO);
                        *e = e.add(*c)?;
                    }
                    Some((k, kind, x)) => {
                        hit = true;
                        let mut rest = mono.clone();
                        if rest[k].1 == 2 {
                            rest.remove(k);
                        } else {
                            rest[k].1 -= 2;
                        }
                        if kind == F1::Sin {
                            let e = m.entry(rest.clone()).or_insert(Rat::ZERO);
                            *e = e.add(*c)?;
                            let cosn = self.f1(F1::Cos, x);
                            let m2 = mono_mul(&rest, &vec![(cosn, 2)]);
                            let e = m.entry(m2).or_insert(Rat::ZERO);
                            *e = e.sub(*c)?;
                        } else {
                            let f = self.nf(x)?;
                            let mut t = Vec::with_capacity(f.num.0.len());
                            for (q, d) in f.num.0.iter() {
                                t.push((mono_mul(q, &rest), d.mul(*c)?));
                            }
                            t.sort();
                            // monomials stay distinct under multiplication by one monomial
                            extra = extra.add(&Poly(t))?;
                        }
                    }
                }
                if m.len() > self.limit || extra.0.len() > self.limit {
                    return None;
                }
            }
            let base = Poly::from_map(m);
            work = base.add(&extra)?;
            if !hit {
                return Some(work);
            }
        }
        None
    }
    pub fn pmul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if let Some(c) = a.as_const() {
            return b.scale(c);
        }
        if let Some(c) = b.as_const() {
            return a.scale(c);
        }
        if a.0.len().saturating_mul(b.0.len()) > 40 * self.limit {
            return None;
        }
        let mut m: HashMap<Mono, Rat> = HashMap::new();
        for (x, c) in &a.0 {
            for (y, d) in &b.0 {
                let k = mono_mul(x, y);
                let e = m.entry(k).or_insert(Rat::ZERO);
                *e = e.add(c.mul(*d)?)?;
            }
            if m.len() > self.limit {
                return None;
            }
        }
        let p = Poly::from_map(m);
        self.reduce(p)
    }
    fn den_poly(&mut self, d: &BTreeMap<u32, u32>) -> Option<Poly> {
        let mut p = Poly::constant(Rat::ONE);
        for (k, e) in d {
            let q = self.polys[*k as usize].clone();
            for _ in 0..*e {
                p = self.pmul(&p, &q)?;
            }
        }
        Some(p)
    }
    fn fadd(&mut self, a: &Frac, b: &Frac, sign: i128) -> Option<Frac> {
        let bn = if sign < 0 { b.num.neg() } else { (*b.num).clone() };
        if a.den == b.den {
            return Some(Frac { num: Rc::new(a.num.add(&bn)?), den: a.den.clone() });
        }
        let mut l = a.den.clone();
        for (k, e) in &b.den {
            let x = l.entry(*k).or_insert(0);
            *x = (*x).max(*e);
        }
        let diff = |d: &BTreeMap<u32, u32>| {
            let mut r = BTreeMap::new();
            for (k, e) in &l {
                let h = d.get(k).copied().unwrap_or(0);
                if *e > h {
                    r.insert(*k, e - h);
                }
            }
            r
        };
        let (da, db) = (diff(&a.den), diff(&b.den));
        let fa = self.den_poly(&da)?;
        let fb = self.den_poly(&db)?;
        let na = self.pmul(&a.num, &fa)?;
        let nb = self.pmul(&bn, &fb)?;
        Some(Frac { num: Rc::new(na.add(&nb)?), den: l })
    }
    fn fmul(&mut self, a: &Frac, b: &Frac) -> Option<Frac> {
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            *den.entry(*k).or_insert(0) += e;
        }
        // cancel whole factors: num equal to a den polynomial
        let (mut an, mut bn) = ((*a.num).clone(), (*b.num).clone());
        for n in [&mut an, &mut bn] {
            if n.0.len() <= 1 {
                if let Some((mono, c)) = n.0.get(0).cloned() {
                    let mut keep: Mono = vec![];
                    for (at, e) in mono {
                        let mut e = e;
                        let single = Poly(vec![(vec![(at, 1)], Rat::ONE)]);
                        if let Some(pi) = self.polymap.get(&single).copied() {
                            if let Some(k) = den.get_mut(&pi) {
                                let t = e.min(*k);
                                e -= t;
                                *k -= t;
                                if *k == 0 {
                                    den.remove(&pi);
                                }
                            }
                        }
                        if e > 0 {
                            keep.push((at, e));
                        }
                    }
                    *n = Poly(vec![(keep, c)]);
                }
            } else if !den.is_empty() {
                let lead = n.0[n.0.len() - 1].1;
                if let Some(inv) = lead.inv() {
                    if let Some(mon) = n.scale(inv) {
                        if let Some(pi) = self.polymap.get(&mon).copied() {
                            if let Some(k) = den.get_mut(&pi) {
                                *k -= 1;
                                if *k == 0 {
                                    den.remove(&pi);
                                }
                                *n = Poly::constant(lead);
                            }
                        }
                    }
                }
            }
        }
        let num = self.pmul(&an, &bn)?;
        if num.is_zero() {
            return Some(Frac { num: Rc::new(num), den: BTreeMap::new() });
        }
        Some(Frac { num: Rc::new(num), den })
    }
    fn finv(&mut self, b: &Frac) -> Option<Frac> {
        if b.num.is_zero() {
            return None;
        }
        let num = self.den_poly(&b.den)?;
        let mut den = BTreeMap::new();
        let mut scale = Rat::ONE;
        if let Some(c) = b.num.as_const() {
            scale = c.inv()?;
        } else if b.num.0.len() == 1 {
            let (m, c) = b.num.0[0].clone();
            scale = c.inv()?;
            for (a, e) in m {
                let k = self.intern_poly(Poly(vec![(vec![(a, 1)], Rat::ONE)]));
                den.insert(k, e);
            }
        } else {
            // common monomial factor
            let mut common: Mono = b.num.0[0].0.clone();
            for (m, _) in &b.num.0 {
                let mut n = vec![];
                for (a, e) in &common {
                    if let Some((_, f)) = m.iter().find(|(x, _)| x == a) {
                        n.push((*a, (*e).min(*f)));
                    }
                }
                common = n;
            }
            let mut rest = (*b.num).clone();
            if !common.is_empty() {
                let mut v = vec![];
                for (m, c) in &rest.0 {
                    let mut k = vec![];
                    for (a, e) in m {
                        let f = common.iter().find(|(x, _)| x == a).map(|x| x.1).unwrap_or(0);
                        if *e > f {
                            k.push((*a, e - f));
                        }
                    }
                    v.push((k, *c));
                }
                v.sort();
                rest = Poly(v);
                for (a, e) in &common {
                    let k = self.intern_poly(Poly(vec![(vec![(*a, 1)], Rat::ONE)]));
                    den.insert(k, *e);
                }
            }
            let lead = rest.0[rest.0.len() - 1].1;
            scale = scale.mul(lead.inv()?)?;
            let monic = rest.scale(lead.inv()?)?;
            let k = self.intern_poly(monic);
            den.insert(k, 1);
        }
        Some(Frac { num: Rc::new(num.scale(scale)?), den })
    }
    pub fn nf(&mut self, i: Id) -> Option<Rc<Frac>> {
        if let Some(r) = &self.nf[i as usize] {
            return r.clone();
        }
        // iterative over children to bound recursion depth
        let mut stack = vec![i];
        while let Some(&t) = stack.last() {
            if self.nf[t as usize].is_some() {
                stack.pop();
                continue;
            }
            let node = self.nodes[t as usize].clone();
            let kids: Vec<Id> = match &node {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
                Node::Neg(a) => vec![*a],
                _ => vec![],
            };
            let pend: Vec<Id> = kids.into_iter().filter(|k| self.nf[*k as usize].is_none()).collect();
            if !pend.is_empty() {
                stack.extend(pend);
                continue;
            }
            let r: Option<Rc<Frac>> = match node {
                Node::Const(c) => Some(Rc::new(Frac { num: Rc::new(Poly::constant(c)), den: BTreeMap::new() })),
                Node::Var(_) | Node::Ite(..) | Node::F1(..) | Node::F2(..) => Some(self.atom_frac(t)),
                Node::Neg(a) => self.nf(a).map(|f| Rc::new(Frac { num: Rc::new(f.num.neg()), den: f.den.clone() })),
                Node::Add(a, b) => self.bin(a, b, 0),
                Node::Sub(a, b) => self.bin(a, b, 1),
                Node::Mul(a, b) => self.bin(a, b, 2),
                Node::Div(a, b) => self.bin(a, b, 3),
            };
            self.nf[t as usize] = Some(r);
            stack.pop();
        }
        self.nf[i as usize].clone().unwrap()
    }
    fn bin(&mut self, a: Id, b: Id, op: u8) -> Option<Rc<Frac>> {
        let fa = self.nf(a)?;
        let fb = self.nf(b)?;
        let r = match op {
            0 => self.fadd(&fa, &fb, 1)?,
            1 => self.fadd(&fa, &fb, -1)?,
            2 => self.fmul(&fa, &fb)?,
            _ => {
                let inv = self.finv(&fb)?;
                self.fmul(&fa, &inv)?
            }
        };
        if r.num.is_zero() {
            return Some(Rc::new(Frac { num: r.num, den: BTreeMap::new() }));
        }
        Some(Rc::new(self.cancel(r)))
    }
    /// Divides the numerator by those denominators that divide it exactly.
    fn cancel(&self, r: Frac) -> Frac {
        let mut r = r;
        for k in r.den.keys().copied().collect::<Vec<_>>() {
            let d = self.polys[k as usize].clone();
            if d.0.len() < 2 {
                continue;
            }
            while r.num.0.len() >= d.0.len() && r.num.0.len() <= 4000 {
                let Some(q) = div_exact(&r.num, &d) else { break };
                r.num = Rc::new(q);
                let e = r.den.get_mut(&k).unwrap();
                *e -= 1;
                if *e == 0 {
                    r.den.remove(&k);
                    break;
                }
            }
        }
        r
    }
    /// Normal form with quotients, selections and functions as atoms; for terms too large for `nf`.
    pub fn shallow(&mut self, i: Id) -> Option<Rc<Poly>> {
        let mut memo: HashMap<Id, Option<Rc<Poly>>> = HashMap::new();
        let mut stack = vec![i];
        while let Some(&t) = stack.last() {
            if memo.contains_key(&t) {
                stack.pop();
                continue;
            }
            let node = self.nodes[t as usize].clone();
            let kids: Vec<Id> = match &node {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) => vec![*a, *b],
                Node::Neg(a) => vec![*a],
                _ => vec![],
            };
            let pend: Vec<Id> = kids.into_iter().filter(|k| !memo.contains_key(k)).collect();
            if !pend.is_empty() {
                stack.extend(pend);
                continue;
            }
            let get = |k: &Id| memo[k].clone();
            let r: Option<Poly> = match &node {
                Node::Const(c) => Some(Poly::constant(*c)),
                Node::Neg(a) => get(a).map(|p| p.neg()),
                Node::Add(a, b) => get(a).zip(get(b)).and_then(|(p, q)| p.add(&q)),
                Node::Sub(a, b) => get(a).zip(get(b)).and_then(|(p, q)| p.add(&q.neg())),
                Node::Mul(a, b) => match get(a).zip(get(b)) {
                    Some((p, q)) if p.0.len() * q.0.len() <= 20_000 => self.pmul(&p, &q),
                    _ => None,
                },
                _ => Some(Poly(vec![(vec![(t, 1)], Rat::ONE)])),
            };
            memo.insert(t, r.map(Rc::new));
            stack.pop();
        }
        memo.remove(&i).unwrap()
    }
    pub fn clear_nf(&mut self) {
        for x in self.nf.iter_mut() {
            *x = None;
        }
    }
}
