//! SMT-LIB emission.
use crate::engine::*;
use crate::rat::Rat;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write;

fn kids(n: &Node) -> Vec<Id> {
    match n {
        Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::F2(_, a, b) => vec![*a, *b],
        Node::Neg(a) | Node::F1(_, a) => vec![*a],
        Node::Ite(_, a, b) => vec![*a, *b],
        _ => vec![],
    }
}
fn bkids(n: &BNode) -> (Vec<BId>, Vec<Id>) {
    match n {
        BNode::Lt(a, b) | BNode::Le(a, b) | BNode::Eq(a, b) => (vec![], vec![*a, *b]),
        BNode::Not(a) => (vec![*a], vec![]),
        BNode::And(v) | BNode::Or(v) => (v.clone(), vec![]),
        _ => (vec![], vec![]),
    }
}
/// Nodes reachable, in dependency order (ids grow with construction, so sorting is enough).
fn reach(ar: &Arena, bs: &[BId]) -> (BTreeSet<Id>, BTreeSet<BId>) {
    let (mut n, mut b) = (BTreeSet::new(), BTreeSet::new());
    let (mut sn, mut sb): (Vec<Id>, Vec<BId>) = (vec![], bs.to_vec());
    loop {
        if let Some(x) = sb.pop() {
            if b.insert(x) {
                let (p, q) = bkids(&ar.bnodes[x as usize]);
                sb.extend(p);
                sn.extend(q);
            }
        } else if let Some(x) = sn.pop() {
            if n.insert(x) {
                let nd = &ar.nodes[x as usize];
                sn.extend(kids(nd));
                if let Node::Ite(c, _, _) = nd {
                    sb.push(*c);
                }
            }
        } else {
            break;
        }
    }
    (n, b)
}
pub fn vname(ar: &Arena, v: u32) -> String {
    // prefixed, so that no name of a harness meets a generated one
    format!("|v:{}|", ar.vars[v as usize])
}
pub fn vars_of(ar: &Arena, bs: &[BId]) -> Vec<String> {
    let (n, _) = reach(ar, bs);
    n.iter()
        .filter_map(|i| match ar.nodes[*i as usize] {
            Node::Var(v) => Some(ar.vars[v as usize].clone()),
            _ => None,
        })
        .collect()
}
/// Script over the term DAG. sqrt/sin/cos are fresh variables with their defining facts.
pub fn dag_script(ar: &mut Arena, facts: &[BId], _want: Option<&Vec<String>>, _model: bool) -> String {
    let (ns, bs) = reach(ar, facts);
    // order: real and boolean nodes may depend on each other through ite
    let mut out = String::new();
    let mut done_n: HashSet<Id> = HashSet::new();
    let mut done_b: HashSet<BId> = HashSet::new();
    let mut stack: Vec<(bool, u32)> = vec![];
    for b in facts {
        stack.push((true, *b));
    }
    let mut trig: BTreeMap<Id, (Option<Id>, Option<Id>)> = BTreeMap::new();
    while let Some(&(isb, x)) = stack.last() {
        if isb {
            if done_b.contains(&x) {
                stack.pop();
                continue;
            }
            let nd = ar.bnodes[x as usize].clone();
            let (p, q) = bkids(&nd);
            let mut ready = true;
            for c in p {
                if !done_b.contains(&c) {
                    stack.push((true, c));
                    ready = false;
                }
            }
            for c in q {
                if !done_n.contains(&c) {
                    stack.push((false, c));
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let e = match nd {
                BNode::True => "true".to_string(),
                BNode::False => "false".to_string(),
                BNode::Lt(a, b) => format!("(< t{} t{})", a, b),
                BNode::Le(a, b) => format!("(<= t{} t{})", a, b),
                BNode::Eq(a, b) => format!("(= t{} t{})", a, b),
                BNode::Not(a) => format!("(not b{})", a),
                BNode::And(v) => format!("(and{})", v.iter().map(|i| format!(" b{}", i)).collect::<String>()),
                BNode::Or(v) => format!("(or{})", v.iter().map(|i| format!(" b{}", i)).collect::<String>()),
            };
            let _ = writeln!(out, "(define-fun b{} () Bool {})", x, e);
            done_b.insert(x);
            stack.pop();
        } else {
            if done_n.contains(&x) {
                stack.pop();
                continue;
            }
            let nd = ar.nodes[x as usize].clone();
            let mut ready = true;
            for c in kids(&nd) {
                if !done_n.contains(&c) {
                    stack.push((false, c));
                    ready = false;
                }
            }
            if let Node::Ite(c, _, _) = nd {
                if !done_b.contains(&c) {
                    stack.push((true, c));
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            match nd {
                Node::Const(r) => {
                    let _ = writeln!(out, "(define-fun t{} () Real {})", x, r.smt());
                }
                Node::Var(v) => {
                    let n = vname(ar, v);
                    let _ = writeln!(out, "(declare-fun {} () Real)\n(define-fun t{} () Real {})", n, x, n);
                }
                Node::Add(a, b) => {
                    let _ = writeln!(out, "(define-fun t{} () Real (+ t{} t{}))", x, a, b);
                }
                Node::Sub(a, b) => {
                    let _ = writeln!(out, "(define-fun t{} () Real (- t{} t{}))", x, a, b);
                }
                Node::Mul(a, b) => {
                    let _ = writeln!(out, "(define-fun t{} () Real (* t{} t{}))", x, a, b);
                }
                Node::Neg(a) => {
                    let _ = writeln!(out, "(define-fun t{} () Real (- t{}))", x, a);
                }
                Node::Div(a, b) => {
                    let _ = writeln!(out, "(declare-fun t{} () Real)\n(assert (=> (not (= t{} 0.0)) (= (* t{} t{}) t{})))", x, b, x, b, a);
                }
                Node::Ite(c, a, b) => {
                    let _ = writeln!(out, "(define-fun t{} () Real (ite b{} t{} t{}))", x, c, a, b);
                }
                Node::F1(k, a) => {
                    let _ = writeln!(out, "(declare-fun t{} () Real)", x);
                    match k {
                        F1::Sqrt => {
                            let _ = writeln!(out, "(assert (and (>= t{} 0.0) (=> (>= t{} 0.0) (= (* t{} t{}) t{}))))", x, a, x, x, a);
                        }
                        F1::Sin => trig.entry(a).or_default().0 = Some(x),
                        F1::Cos => trig.entry(a).or_default().1 = Some(x),
                        F1::Floor => {
                            let _ = writeln!(out, "(declare-fun i{} () Int)\n(assert (and (= t{} (to_real i{})) (<= t{} t{}) (< t{} (+ t{} 1.0))))", x, x, x, x, a, a, x);
                        }
                        F1::Exp => {
                            let _ = writeln!(out, "(assert (and (> t{} 0.0) (=> (<= t{} 0.0) (<= t{} 1.0)) (=> (>= t{} 0.0) (>= t{} 1.0))))", x, a, x, a, x);
                        }
                        _ => {}
                    }
                }
                Node::F2(..) => {
                    let _ = writeln!(out, "(declare-fun t{} () Real)", x);
                }
            }
            done_n.insert(x);
            stack.pop();
        }
    }
    let _ = (ns, bs);
    for (_, (s, c)) in trig {
        match (s, c) {
            (Some(s), Some(c)) => {
                let _ = writeln!(out, "(assert (= (+ (* t{} t{}) (* t{} t{})) 1.0))", s, s, c, c);
            }
            (Some(s), None) | (None, Some(s)) => {
                let _ = writeln!(out, "(assert (and (<= (- 1.0) t{}) (<= t{} 1.0)))", s, s);
            }
            _ => {}
        }
    }
    for b in facts {
        let _ = writeln!(out, "(assert b{})", b);
    }
    out
}

struct PolyEmit<'a> {
    cx: &'a mut Ctx,
    linear: bool,
    monos: BTreeMap<Mono, usize>,
    order: Vec<Mono>,
    atoms: BTreeSet<Id>,
    new_atoms: Vec<Id>,
    out: String,
    defs: HashMap<BId, Option<String>>,
}
impl<'a> PolyEmit<'a> {
    fn atom(&mut self, a: Id) -> String {
        if self.atoms.insert(a) {
            self.new_atoms.push(a);
        }
        format!("a{}", a)
    }
    fn mono(&mut self, m: &Mono) -> String {
        if m.is_empty() {
            return "1.0".into();
        }
        if m.len() == 1 && m[0].1 == 1 {
            return self.atom(m[0].0);
        }
        for (a, _) in m {
            self.atom(*a);
        }
        if self.linear {
            let n = self.monos.len();
            let k = *self.monos.entry(m.clone()).or_insert(n);
            if k == n {
                self.order.push(m.clone());
            }
            format!("m{}", k)
        } else {
            let mut s = String::from("(*");
            for (a, e) in m {
                for _ in 0..*e {
                    let _ = write!(s, " a{}", a);
                }
            }
            s.push(')');
            s
        }
    }
    fn poly(&mut self, p: &Poly) -> String {
        match p.0.len() {
            0 => return "0.0".into(),
            _ => {}
        }
        let mut s = String::from("(+ 0.0");
        for (m, c) in &p.0 {
            if m.is_empty() {
                let _ = write!(s, " {}", c.smt());
            } else {
                let t = self.mono(m);
                if *c == Rat::ONE {
                    let _ = write!(s, " {}", t);
                } else {
                    let _ = write!(s, " (* {} {})", c.smt(), t);
                }
            }
        }
        s.push(')');
        s
    }
    /// Sign of the denominator if it is certain; else None.
    fn den_sign(&mut self, f: &Frac) -> Option<i32> {
        let mut s = POS;
        for (k, e) in f.den.iter() {
            let p = self.cx.ar.polys[*k as usize].clone();
            let mut t = self.cx.poly_sign(&p) & !ZER;
            if e % 2 == 0 {
                t = POS;
            }
            if t == 0 {
                t = POS;
            }
            s = sign_mul(s, t);
        }
        if s == POS {
            Some(1)
        } else if s == NEG {
            Some(-1)
        } else {
            None
        }
    }
    fn cmp(&mut self, a: Id, b: Id, op: &str) -> Option<String> {
        let d = self.cx.ar.sub(a, b);
        let f = self.cx.ar.nf(d)?;
        if f.num.0.len() > 3000 {
            return None;
        }
        if op == "=" || f.den.is_empty() {
            let p = self.poly(&f.num);
            return Some(format!("({} {} 0.0)", op, p));
        }
        match self.den_sign(&f) {
            Some(1) => {
                let p = self.poly(&f.num);
                Some(format!("({} {} 0.0)", op, p))
            }
            Some(-1) => {
                let p = self.poly(&f.num);
                Some(format!("({} 0.0 {})", op, p))
            }
            _ => {
                // multiply by the product of the odd denominators
                let mut odd = Poly::constant(Rat::ONE);
                for (k, e) in f.den.iter() {
                    if e % 2 == 1 {
                        let q = self.cx.ar.polys[*k as usize].clone();
                        odd = self.cx.ar.pmul(&odd, &q)?;
                    }
                }
                let p = self.cx.ar.pmul(&f.num, &odd)?;
                if p.0.len() > 3000 {
                    return None;
                }
                let p = self.poly(&p);
                Some(format!("({} {} 0.0)", op, p))
            }
        }
    }
    fn b(&mut self, x: BId) -> Option<String> {
        if let Some(r) = self.defs.get(&x) {
            return r.clone();
        }
        let r = match self.cx.ar.bnodes[x as usize].clone() {
            BNode::True => Some("true".to_string()),
            BNode::False => Some("false".to_string()),
            BNode::Lt(a, b) => self.cmp(a, b, "<"),
            BNode::Le(a, b) => self.cmp(a, b, "<="),
            BNode::Eq(a, b) => self.cmp(a, b, "="),
            BNode::Not(a) => self.b(a).map(|s| format!("(not {})", s)),
            BNode::And(v) => {
                let mut s = String::from("(and");
                let mut ok = true;
                for y in v {
                    match self.b(y) {
                        Some(t) => {
                            s.push(' ');
                            s += &t
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                s.push(')');
                if ok {
                    Some(s)
                } else {
                    None
                }
            }
            BNode::Or(v) => {
                let mut s = String::from("(or");
                let mut ok = true;
                for y in v {
                    match self.b(y) {
                        Some(t) => {
                            s.push(' ');
                            s += &t
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                s.push(')');
                if ok {
                    Some(s)
                } else {
                    None
                }
            }
        };
        self.defs.insert(x, r.clone());
        r
    }
}
/// Facts over normalised polynomials. With `linear`, every nonlinear monomial is one opaque variable
/// (sound: an unsatisfiable abstraction is unsatisfiable); sign lemmas are added for monomials.
/// Facts whose polynomial form is unavailable are dropped, except the last one (the negated goal).
fn poly_facts(cx: &mut Ctx, facts: &[BId], linear: bool) -> Option<String> {
    let mut e = PolyEmit {
        cx,
        linear,
        monos: BTreeMap::new(),
        order: vec![],
        atoms: BTreeSet::new(),
        new_atoms: vec![],
        out: String::new(),
        defs: HashMap::new(),
    };
    let last = facts.len() - 1;
    let mut asserts = vec![];
    for (i, f) in facts.iter().enumerate() {
        match e.b(*f) {
            Some(s) => asserts.push(s),
            None if i == last => return None,
            None => {}
        }
    }
    let mut extra: Vec<String> = vec![];
    let mut trig: BTreeMap<Id, (Option<Id>, Option<Id>)> = BTreeMap::new();
    let mut guard = 0;
    loop {
        while let Some(a) = e.new_atoms.pop() {
            guard += 1;
            if guard > 4000 {
                return None;
            }
            match e.cx.ar.nodes[a as usize].clone() {
                Node::Ite(c, x, y) => {
                    if let Some(cs) = e.b(c) {
                        if let Some(t) = e.cmp(a, x, "=") {
                            extra.push(format!("(=> {} {})", cs, t));
                        }
                        if let Some(t) = e.cmp(a, y, "=") {
                            extra.push(format!("(=> (not {}) {})", cs, t));
                        }
                    }
                }
                Node::F1(F1::Sqrt, x) => {
                    extra.push(format!("(<= 0.0 a{})", a));
                    if !linear {
                        if let Some(f) = e.cx.ar.nf(x) {
                            if f.den.is_empty() {
                                let p = e.poly(&f.num);
                                extra.push(format!("(= (* a{} a{}) {})", a, a, p));
                            } else {
                                let sq = e.cx.ar.mul(a, a);
                                if let Some(t) = e.cmp(sq, x, "=") {
                                    extra.push(t);
                                }
                            }
                        }
                    }
                }
                Node::F1(F1::Sin, x) => trig.entry(x).or_default().0 = Some(a),
                Node::F1(F1::Cos, x) => trig.entry(x).or_default().1 = Some(a),
                Node::F1(F1::Floor, x) => {
                    e.out += &format!("(declare-fun i{} () Int)\n", a);
                    extra.push(format!("(= a{} (to_real i{}))", a, a));
                    let one = e.cx.ar.konst(Rat::ONE);
                    let up = e.cx.ar.add(a, one);
                    if let Some(t) = e.cmp(a, x, "<=") {
                        extra.push(t);
                    }
                    if let Some(t) = e.cmp(x, up, "<") {
                        extra.push(t);
                    }
                }
                Node::F1(F1::Exp, x) => {
                    extra.push(format!("(< 0.0 a{})", a));
                    let (one, zero) = (e.cx.ar.konst(Rat::ONE), e.cx.ar.konst(Rat::ZERO));
                    if let (Some(s), Some(t)) = (e.cmp(x, zero, "<="), e.cmp(a, one, "<=")) {
                        extra.push(format!("(=> {} {})", s, t));
                    }
                }
                _ => {}
            }
        }
        if e.new_atoms.is_empty() {
            break;
        }
    }
    for (_, (s, c)) in trig {
        for x in [s, c].iter().flatten() {
            extra.push(format!("(and (<= (- 1.0) a{}) (<= a{} 1.0))", x, x));
        }
        if let (Some(s), Some(c)) = (s, c) {
            if !linear {
                extra.push(format!("(= (+ (* a{} a{}) (* a{} a{})) 1.0)", s, s, c, c));
            }
        }
    }
    // sign lemmas for atoms and monomials
    let atoms: Vec<Id> = e.atoms.iter().copied().collect();
    for a in atoms {
        let s = e.cx.atom_sign(a);
        if let Some(t) = sign_assert(&format!("a{}", a), s) {
            extra.push(t);
        }
    }
    if linear {
        let order = e.order.clone();
        for (i, m) in order.iter().enumerate() {
            let s = e.cx.mono_sign(m);
            if let Some(t) = sign_assert(&format!("m{}", i), s) {
                extra.push(t);
            }
        }
    }
    let mut out = String::new();
    for a in e.atoms.iter() {
        let _ = writeln!(out, "(declare-fun a{} () Real)", a);
        if let Node::Var(v) = e.cx.ar.nodes[*a as usize] {
            let n = vname(&e.cx.ar, v);
            let _ = writeln!(out, "(define-fun {} () Real a{})", n, a);
        }
    }
    for i in 0..e.order.len() {
        let _ = writeln!(out, "(declare-fun m{} () Real)", i);
    }
    out += &e.out;
    for s in asserts.iter().chain(extra.iter()) {
        let _ = writeln!(out, "(assert {})", s);
    }
    Some(out)
}
fn sign_assert(x: &str, s: u8) -> Option<String> {
    match s {
        POS => Some(format!("(> {} 0.0)", x)),
        NEG => Some(format!("(< {} 0.0)", x)),
        ZER => Some(format!("(= {} 0.0)", x)),
        6 => Some(format!("(>= {} 0.0)", x)),
        3 => Some(format!("(<= {} 0.0)", x)),
        5 => Some(format!("(not (= {} 0.0))", x)),
        _ => None,
    }
}
pub fn linear_script(cx: &mut Ctx, facts: &[BId]) -> Option<String> {
    poly_facts(cx, facts, true)
}
pub fn poly_script(cx: &mut Ctx, facts: &[BId]) -> Option<String> {
    poly_facts(cx, facts, false)
}
