mod common;
use box2d_rs::b2_common::*;
use box2d_rs::b2_rope::*;
use box2d_rs::private::rope::b2_rope as solver;
use common::*;
use std::cell::RefCell;

const BENDS: [B2bendingModel; 6] = [
    B2bendingModel::B2SpringAngleBendingModel,
    B2bendingModel::B2PbdAngleBendingModel,
    B2bendingModel::B2XpbdAngleBendingModel,
    B2bendingModel::B2PbdDistanceBendingModel,
    B2bendingModel::B2PbdHeightBendingModel,
    B2bendingModel::B2PbdTriangleBendingModel,
];
fn bending(i: usize) -> B2bendingModel {
    BENDS[i]
}
fn stretching(i: usize) -> B2stretchingModel {
    if i == 0 { B2stretchingModel::B2PbdStretchingModel } else { B2stretchingModel::B2XpbdStretchingModel }
}
fn tuning(bend: usize, stretch: usize) -> B2ropeTuning {
    B2ropeTuning { isometric: once("isometric"), fixed_effective_mass: once("fixed mass"), ..tuned(bend, stretch) }
}
/// Any number; sampled where the simulation is stable.
fn some(n: &str, lo: f32, hi: f32) -> f32 {
    let x = var_hint(n, lo, hi);
    if !symbolic() {
        assume(and(&[ge(x, lo), le(x, hi)]));
    }
    x
}
fn plain(bend: usize, stretch: usize) -> B2ropeTuning {
    B2ropeTuning { isometric: false, fixed_effective_mass: false, ..tuned(bend, stretch) }
}
fn tuned(bend: usize, stretch: usize) -> B2ropeTuning {
    B2ropeTuning {
        stretching_model: stretching(stretch),
        bending_model: bending(bend),
        damping: some("damping", 0.0, 3.0),
        stretch_stiffness: some("stretch stiffness", 0.0, 1.0),
        stretch_hertz: some("stretch hertz", 0.0, 3.0),
        stretch_damping: some("stretch damping", 0.0, 3.0),
        bend_stiffness: some("bend stiffness", 0.0, 1.0),
        bend_hertz: some("bend hertz", 0.0, 3.0),
        bend_damping: some("bend damping", 0.0, 3.0),
        ..Default::default()
    }
}
thread_local! { static ASKED: RefCell<Vec<(String, bool)>> = RefCell::new(vec![]); }
/// A case distinction that may be asked about again.
fn once(label: &str) -> bool {
    if let Some(x) = ASKED.with(|a| a.borrow().iter().find(|x| x.0 == label).map(|x| x.1)) {
        return x;
    }
    let x = flag(label);
    ASKED.with(|a| a.borrow_mut().push((label.to_string(), x)));
    x
}
fn begin() {
    ASKED.with(|a| a.borrow_mut().clear());
}
/// Pinned or free.
fn inv_mass(n: &str) -> f32 {
    if once(&format!("{} is pinned", n)) { 0.0 } else { pos(&format!("{}.inv", n)) }
}
fn point(n: &str, at: B2vec2, w: f32) -> B2ropePositions {
    B2ropePositions { m_bind_positions: vec2(&format!("{}.bind", n)), m_ps: at, m_p0s: vec2(&format!("{}.old", n)), m_vs: vec2(&format!("{}.v", n)), m_inv_masses: w }
}
fn rope(ps: Vec<B2ropePositions>, tuning: B2ropeTuning) -> B2rope {
    let mut r = B2rope::default();
    r.m_position = vec2("at");
    r.m_positions = ps;
    r.m_gravity = vec2("gravity");
    r.m_tuning = tuning;
    r
}
fn stretch_of(i: usize, w: [f32; 2]) -> B2ropeStretch {
    B2ropeStretch { i1: i as i32, i2: i as i32 + 1, inv_mass1: w[0], inv_mass2: w[1], l: nonneg("rest"), lambda: var("lambda"), spring: nonneg("spring"), damper: nonneg("damper") }
}
/// Everything but the named vertices stays, and velocities, previous places and settings of all.
fn frame(r: &B2rope, before: &[B2ropePositions], moved: &[usize]) {
    ensure("same number of vertices", b_of(r.m_positions.len() == before.len()));
    for (i, (a, b)) in r.m_positions.iter().zip(before).enumerate() {
        if !moved.contains(&i) {
            ensure("other vertices stay", eqv(a.m_ps, b.m_ps));
        }
        ensure("only places are corrected", and(&[eqv(a.m_bind_positions, b.m_bind_positions), eqv(a.m_p0s, b.m_p0s), eqv(a.m_vs, b.m_vs), eq(a.m_inv_masses, b.m_inv_masses)]));
    }
}
/// Pinned ends stay; when none is pinned the mass-weighted moves cancel.
fn pushes(r: &B2rope, before: &[B2ropePositions], ids: &[usize], w: &[f32], pinned: &[bool]) {
    let mut sum = zero2();
    for (k, i) in ids.iter().enumerate() {
        let d = sub(r.m_positions[*i].m_ps, before[*i].m_ps);
        if pinned[k] {
            ensure("pinned vertices are not moved by corrections", eqv(d, zero2()));
        } else {
            sum = add(sum, scale(1.0 / w[k], d));
        }
    }
    if pinned.iter().all(|p| !p) {
        ensure("pushes cancel", eqv(sum, zero2()));
    }
}
/// A segment of any length, direction given by a unit vector; some are shorter than what the code normalises.
fn segment(n: &str) -> (f32, B2vec2) {
    let u = unit(n);
    let l = pos(&format!("{}.len", n));
    assume(ge(l, B2_EPSILON));
    (l, u)
}
fn pair_rope(stretch: usize) -> (B2rope, Vec<B2ropePositions>, [f32; 2], [bool; 2], f32, B2vec2, usize) {
    let (l, u) = segment("s");
    let i = choose("segment", 2);
    let w = [inv_mass("a"), inv_mass("b")];
    let pinned = [once("a is pinned"), once("b is pinned")];
    let p1 = vec2("p1");
    let mut ps = vec![point("a", p1, w[0]), point("b", add(p1, scale(l, u)), w[1])];
    ps.insert(if i == 0 { 2 } else { 0 }, point("other", vec2("other"), 1.0));
    let mut r = rope(ps.clone(), plain(1, stretch));
    r.m_stretch_constraints = vec![stretch_of(i, w)];
    (r, ps, w, pinned, l, u, i)
}
fn stretch_pbd() {
    begin();
    let (mut r, ps, w, pinned, l, u, i) = pair_rope(0);
    let k = var("stretch stiffness");
    let rest = nonneg("rest");
    solver::solve_stretch_pbd(&mut r);
    frame(&r, &ps, &[i, i + 1]);
    pushes(&r, &ps, &[i, i + 1], &w, &pinned);
    let d = sub(r.m_positions[i + 1].m_ps, r.m_positions[i].m_ps);
    if !(pinned[0] && pinned[1]) {
        ensure("stretch correction by stiffness", eqv(d, scale(l + k * (rest - l), u)));
        ensure("full stiffness restores the rest length", implies(eq(k, 1.0), eqv(d, scale(rest, u))));
    }
}
/// Implicit spring: the impulse balances spring and damper over the step.
fn balance(c: f32, cdot: f32, dlambda: f32, lambda: f32, wsum: f32, spring: f32, damper: f32, dt: f32) -> B {
    eq(spring * dt * c + damper * cdot + (spring * dt + damper) * wsum * dlambda, -lambda / dt)
}
fn stretch_xpbd() {
    begin();
    let (mut r, ps, w, pinned, l, u, i) = pair_rope(1);
    let dt = pos("dt");
    let rest = nonneg("rest");
    let soft = once("no spring");
    if soft {
        r.m_stretch_constraints[0].spring = 0.0;
    } else {
        r.m_stretch_constraints[0].spring = pos("k");
    }
    solver::solve_stretch_xpbd(&mut r, dt);
    let c = r.m_stretch_constraints[0];
    frame(&r, &ps, &[i, i + 1]);
    pushes(&r, &ps, &[i, i + 1], &w, &pinned);
    ensure("settings of the segment stay", and(&[eq(c.l, rest), eq(c.damper, nonneg("damper")), eq(c.inv_mass1, w[0]), eq(c.inv_mass2, w[1])]));
    let dl = c.lambda - var("lambda");
    for k in 0..2 {
        let j = scale(if k == 0 { -1.0 } else { 1.0 }, u);
        ensure("moves follow the impulse", eqv(sub(r.m_positions[i + k].m_ps, ps[i + k].m_ps), scale(w[k] * dl, j)));
    }
    if soft || pinned[0] && pinned[1] {
        ensure("nothing to correct", eq(dl, 0.0));
    } else {
        let cdot = dot(u, sub(sub(ps[i + 1].m_ps, ps[i + 1].m_p0s), sub(ps[i].m_ps, ps[i].m_p0s)));
        ensure("spring balance of the segment", balance(l - rest, cdot, dl, c.lambda, w[0] + w[1], pos("k"), nonneg("damper"), dt));
    }
}
struct Bend {
    r: B2rope,
    ps: Vec<B2ropePositions>,
    w: [f32; 3],
    pinned: [bool; 3],
    i: usize,
    d: [B2vec2; 2],
    len: [f32; 2],
}
/// Three consecutive vertices anywhere in a rope; `gaps` false: no two of them coincide.
fn bend_rope(t: B2ropeTuning, gaps: bool) -> Bend {
    let w = [inv_mass("a"), inv_mass("b"), inv_mass("c")];
    let pinned = [once("a is pinned"), once("b is pinned"), once("c is pinned")];
    let i = choose("corner", 2);
    let p1 = vec2("p1");
    let mut d = [zero2(); 2];
    let mut len = [0.0; 2];
    for k in 0..2 {
        if !(gaps && once(&format!("gap {} is zero", k))) {
            len[k] = pos(&format!("d{}.len", k));
            d[k] = scale(len[k], unit(&format!("d{}", k)));
        }
    }
    let p2 = add(p1, d[0]);
    let mut ps = vec![point("a", p1, w[0]), point("b", p2, w[1]), point("c", add(p2, d[1]), w[2])];
    ps.insert(if i == 0 { 3 } else { 0 }, point("other", vec2("other"), 1.0));
    let mut r = rope(ps.clone(), t);
    r.m_bend_constraints = vec![B2ropeBend {
        i1: i as i32,
        i2: i as i32 + 1,
        i3: i as i32 + 2,
        inv_mass1: w[0],
        inv_mass2: w[1],
        inv_mass3: w[2],
        inv_effective_mass: 0.0,
        lambda: var("lambda"),
        l1: pos("rest1"),
        l2: pos("rest2"),
        alpha1: 0.0,
        alpha2: 0.0,
        spring: nonneg("spring"),
        damper: nonneg("damper"),
    }];
    Bend { r, ps, w, pinned, i, d, len }
}
impl Bend {
    fn c(&self) -> B2ropeBend {
        self.r.m_bend_constraints[0]
    }
    fn ids(&self) -> [usize; 3] {
        [self.i, self.i + 1, self.i + 2]
    }
    fn done(&self) {
        frame(&self.r, &self.ps, &self.ids());
        pushes(&self.r, &self.ps, &self.ids(), &self.w, &self.pinned);
    }
    fn moved(&self, k: usize) -> B2vec2 {
        sub(self.r.m_positions[self.i + k].m_ps, self.ps[self.i + k].m_ps)
    }
    fn all_pinned(&self) -> bool {
        self.pinned.iter().all(|p| *p)
    }
    /// Lengths the angle is measured with: those at rest or those now.
    fn lengths(&self) -> [f32; 2] {
        if self.r.m_tuning.isometric { [self.c().l1, self.c().l2] } else { self.len }
    }
    /// How the angle changes with each vertex.
    fn gradient(&self) -> [B2vec2; 3] {
        let l = self.lengths();
        let g = |k: usize| scale(1.0 / (l[k] * l[k]), B2vec2::new(-self.d[k].y, self.d[k].x));
        let (j1, j3) = (g(0), g(1));
        [j1, scale(-1.0, add(j1, j3)), j3]
    }
    fn angle(&self) -> f32 {
        b2_atan2(cross(self.d[0], self.d[1]), dot(self.d[0], self.d[1]))
    }
    fn wsum(&self, j: &[B2vec2; 3]) -> f32 {
        if self.r.m_tuning.fixed_effective_mass {
            return self.c().inv_effective_mass;
        }
        self.w[0] * dot(j[0], j[0]) + self.w[1] * dot(j[1], j[1]) + self.w[2] * dot(j[2], j[2])
    }
}
/// A corner whose angle is corrected: which lengths and which mass count is a matter of the tuning.
fn angled(model: usize) -> (Bend, bool) {
    let mut b = bend_rope(tuning(model, 0), true);
    let live = |c: &mut f32, n: &str, dead: bool| *c = if dead || once(&format!("{} is zero", n)) { 0.0 } else { pos(n) };
    let (iso, fixed) = (b.r.m_tuning.isometric, b.r.m_tuning.fixed_effective_mass);
    let all = b.all_pinned();
    let c = &mut b.r.m_bend_constraints[0];
    if iso {
        live(&mut c.l1, "rest1", false);
        live(&mut c.l2, "rest2", false);
    }
    // rest mass of the corner: zero when all are pinned or an edge vanished at creation
    if fixed {
        live(&mut c.inv_effective_mass, "rest mass", all);
    }
    let flat = if iso { once("rest1 is zero") || once("rest2 is zero") } else { once("gap 0 is zero") || once("gap 1 is zero") };
    let dead = flat || all || (fixed && once("rest mass is zero"));
    (b, dead)
}
fn bend_pbd_angle() {
    begin();
    let (mut b, dead) = angled(1);
    solver::solve_bend_pbd_angle(&mut b.r);
    b.done();
    if dead {
        for k in 0..3 {
            ensure("a corner that cannot be measured is left alone", eqv(b.moved(k), zero2()));
        }
        return;
    }
    let j = b.gradient();
    let s = b.wsum(&j);
    let x = if s == 0.0 { 0.0 } else { -var("bend stiffness") * b.angle() / s };
    for k in 0..3 {
        ensure("angle correction by stiffness", eqv(b.moved(k), scale(b.w[k] * x, j[k])));
    }
}
fn bend_xpbd_angle() {
    begin();
    let (mut b, dead) = angled(2);
    let dt = pos("dt");
    let soft = once("no spring");
    let dead = dead || soft;
    b.r.m_bend_constraints[0].spring = if soft { 0.0 } else { pos("k") };
    solver::solve_bend_xpbd_angle(&mut b.r, dt);
    b.done();
    let c = b.c();
    let dl = c.lambda - var("lambda");
    if dead {
        ensure("nothing to correct", eq(dl, 0.0));
        for k in 0..3 {
            ensure("a corner that cannot be measured is left alone", eqv(b.moved(k), zero2()));
        }
        return;
    }
    let j = b.gradient();
    if b.wsum(&j) == 0.0 {
        ensure("nothing to correct", eq(dl, 0.0));
    }
    let mut cdot = 0.0;
    for k in 0..3 {
        ensure("moves follow the impulse", eqv(b.moved(k), scale(b.w[k] * dl, j[k])));
        cdot += dot(j[k], sub(b.ps[b.i + k].m_ps, b.ps[b.i + k].m_p0s));
    }
    if b.wsum(&j) != 0.0 {
        ensure("spring balance of the corner", balance(b.angle(), cdot, dl, c.lambda, b.wsum(&j), pos("k"), nonneg("damper"), dt));
    }
}
fn bend_forces() {
    begin();
    let (mut b, dead) = angled(0);
    let dt = pos("dt");
    solver::apply_bend_forces(&mut b.r, dt);
    let j = if dead { [zero2(); 3] } else { b.gradient() };
    let mut cdot = 0.0;
    for k in 0..3 {
        cdot += dot(j[k], b.ps[b.i + k].m_vs);
    }
    let dead = dead || b.wsum(&j) == 0.0;
    let mass = if dead { 0.0 } else { 1.0 / b.wsum(&j) };
    let om = 2.0 * B2_PI * var("bend hertz");
    let x = if dead { 0.0 } else { -dt * mass * (om * om * b.angle() + 2.0 * var("bend damping") * om * cdot) };
    let mut sum = zero2();
    for (i, (p, q)) in b.r.m_positions.iter().zip(&b.ps).enumerate() {
        ensure("bending springs act on velocities only", and(&[eqv(p.m_ps, q.m_ps), eqv(p.m_p0s, q.m_p0s), eqv(p.m_bind_positions, q.m_bind_positions), eq(p.m_inv_masses, q.m_inv_masses)]));
        let dv = sub(p.m_vs, q.m_vs);
        if i < b.i || i > b.i + 2 {
            ensure("other vertices keep their velocity", eqv(dv, zero2()));
            continue;
        }
        let k = i - b.i;
        ensure("bending spring and damper", eqv(dv, scale(b.w[k] * x, j[k])));
        if b.pinned[k] {
            ensure("pinned vertices feel no spring", eqv(dv, zero2()));
        } else {
            sum = add(sum, scale(1.0 / b.w[k], dv));
        }
    }
    if b.pinned.iter().all(|p| !p) {
        ensure("pushes cancel", eqv(sum, zero2()));
    }
}
fn bend_distance() {
    begin();
    let (l, u) = segment("s");
    let mut b = bend_rope(plain(3, 0), false);
    let i = b.i;
    let far = add(b.ps[i].m_ps, scale(l, u));
    b.ps[i + 2].m_ps = far;
    b.r.m_positions[i + 2].m_ps = far;
    solver::solve_bend_pbd_distance(&mut b.r);
    frame(&b.r, &b.ps, &[i, i + 2]);
    pushes(&b.r, &b.ps, &[i, i + 2], &[b.w[0], b.w[2]], &[b.pinned[0], b.pinned[2]]);
    let k = var("bend stiffness");
    let rest = pos("rest1") + pos("rest2");
    if !(b.pinned[0] && b.pinned[2]) {
        ensure("ends are pushed apart by stiffness", eqv(sub(b.r.m_positions[i + 2].m_ps, b.r.m_positions[i].m_ps), scale(l + k * (rest - l), u)));
    }
}
fn bend_height() {
    begin();
    let mut b = bend_rope(plain(4, 0), false);
    let i = b.i;
    // shares of the two ends as creation sets them
    let lost = once("no shares");
    let a1 = var_hint("share", 0.0, 1.0);
    let (a1, a2) = if lost { (0.0, 0.0) } else { (a1, 1.0 - a1) };
    b.r.m_bend_constraints[0].alpha1 = a1;
    b.r.m_bend_constraints[0].alpha2 = a2;
    let h = if once("flat") { zero2() } else { scale(pos("height"), unit("up")) };
    if !lost {
        let p2 = sub(add(scale(a1, b.ps[i].m_ps), scale(a2, b.ps[i + 2].m_ps)), h);
        b.ps[i + 1].m_ps = p2;
        b.r.m_positions[i + 1].m_ps = p2;
    }
    solver::solve_bend_pbd_height(&mut b.r);
    b.done();
    if lost || b.all_pinned() {
        for k in 0..3 {
            ensure("a corner that cannot be measured is left alone", eqv(b.moved(k), zero2()));
        }
        return;
    }
    let p = |k: usize| b.r.m_positions[i + k].m_ps;
    let left = sub(add(scale(a1, p(0)), scale(a2, p(2))), p(1));
    // only when some free vertex has a share
    if !(b.pinned[1] && (b.pinned[0] || b.pinned[2])) {
        ensure("height correction by stiffness", eqv(left, scale(1.0 - var("bend stiffness"), h)));
    }
}
fn bend_triangle() {
    begin();
    let mut b = bend_rope(plain(5, 0), true);
    let i = b.i;
    solver::solve_bend_pbd_triangle(&mut b.r);
    b.done();
    if b.all_pinned() {
        return;
    }
    let h = |q: &[B2ropePositions]| sub(q[i + 1].m_ps, scale(1.0 / 3.0, add(add(q[i].m_ps, q[i + 1].m_ps), q[i + 2].m_ps)));
    ensure("triangle correction by stiffness", eqv(h(&b.r.m_positions), scale(1.0 - 4.0 / 3.0 * var("bend stiffness") * (b.w[0] + b.w[2] + 4.0 * b.w[1]) / (2.0 * (b.w[0] + b.w[2] + 2.0 * b.w[1])), h(&b.ps))));
}
/// A list of two constraints is handled one after the other.
fn lists() {
    begin();
    let model = choose("model", 8);
    let w: Vec<f32> = (0..4).map(|i| pos(&format!("w{}", i))).collect();
    let build = || {
        let ps: Vec<_> = (0..4).map(|i| point(&format!("n{}", i), vec2(&format!("n{}", i)), w[i])).collect();
        let mut r = rope(ps, plain(if model < 6 { model } else { 1 }, if model == 7 { 1 } else { 0 }));
        for i in 0..3 {
            let f = |x: &str| pos(&format!("{}{}", x, i));
            r.m_stretch_constraints.push(B2ropeStretch { i1: i as i32, i2: i as i32 + 1, inv_mass1: w[i], inv_mass2: w[i + 1], l: f("rest"), lambda: f("lambda"), spring: f("spring"), damper: f("damper") });
        }
        for i in 0..2 {
            let f = |x: &str| pos(&format!("{}{}", x, i));
            r.m_bend_constraints.push(B2ropeBend { i1: i as i32, i2: i as i32 + 1, i3: i as i32 + 2, inv_mass1: w[i], inv_mass2: w[i + 1], inv_mass3: w[i + 2], inv_effective_mass: f("em"), lambda: f("bl"), l1: f("rest"), l2: f("rest2"), alpha1: f("a1"), alpha2: f("a2"), spring: f("bs"), damper: f("bd") });
        }
        r
    };
    let dt = pos("dt");
    let run = |r: &mut B2rope| match model {
        0 => solver::apply_bend_forces(r, dt),
        1 => solver::solve_bend_pbd_angle(r),
        2 => solver::solve_bend_xpbd_angle(r, dt),
        3 => solver::solve_bend_pbd_distance(r),
        4 => solver::solve_bend_pbd_height(r),
        5 => solver::solve_bend_pbd_triangle(r),
        6 => solver::solve_stretch_pbd(r),
        _ => solver::solve_stretch_xpbd(r, dt),
    };
    domain_checks(false);
    let n = if model < 6 { 2 } else { 3 };
    let mut whole = build();
    if model >= 6 {
        whole.m_stretch_constraints.remove(2);
    }
    let mut parts = build();
    run(&mut whole);
    let (all_s, all_b) = (parts.m_stretch_constraints.clone(), parts.m_bend_constraints.clone());
    let mut lambda = vec![];
    for k in 0..2.min(n) {
        parts.m_stretch_constraints = vec![all_s[k]];
        parts.m_bend_constraints = vec![all_b[k]];
        run(&mut parts);
        lambda.push((parts.m_stretch_constraints[0].lambda, parts.m_bend_constraints[0].lambda));
    }
    for i in 0..4 {
        ensure("constraints act in order", and(&[eqv(whole.m_positions[i].m_ps, parts.m_positions[i].m_ps), eqv(whole.m_positions[i].m_vs, parts.m_positions[i].m_vs)]));
    }
    for k in 0..2 {
        ensure("each constraint keeps its own impulse", and(&[eq(whole.m_stretch_constraints[k].lambda, lambda[k].0), eq(whole.m_bend_constraints[k].lambda, lambda[k].1)]));
    }
}
/// A new rope, also over an old one.
fn creation() {
    begin();
    let n = 3 + choose("vertices", 2);
    let at = vec2("place");
    let mut d = vec![];
    let mut len = vec![];
    for k in 0..n - 1 {
        let l = if once(&format!("gap {} is zero", k)) { 0.0 } else { pos(&format!("d{}.len", k)) };
        d.push(scale(l, unit(&format!("d{}", k))));
        len.push(l);
    }
    let mut def = B2ropeDef::default();
    def.position = at;
    def.gravity = vec2("gravity");
    def.tuning = tuned(choose("bend", 6), choose("stretch", 2));
    let mut p = vec2("start");
    let mut w = vec![];
    for k in 0..n {
        if k > 0 {
            p = add(p, d[k - 1]);
        }
        let m = if k < 3 && once(&format!("{} is pinned", k)) { -nonneg(&format!("m{}", k)) } else { pos(&format!("m{}", k)) };
        w.push(if k < 3 && once(&format!("{} is pinned", k)) { 0.0 } else { 1.0 / m });
        def.vertices.push(B2ropeDefVertices { position: p, mass: m });
    }
    let mut r = B2rope::default();
    if once("used before") {
        r = rope((0..5).map(|i| point(&format!("old{}", i), vec2(&format!("old{}", i)), 1.0)).collect(), plain(1, 0));
        r.m_stretch_constraints = vec![stretch_of(2, [1.0, 2.0]); 4];
        r.m_bend_constraints = vec![B2ropeBend { i1: 2, alpha1: var("junk1"), alpha2: var("junk2"), inv_effective_mass: var("junk3"), lambda: var("junk4"), ..Default::default() }; 1];
    }
    r.create(&def);
    ensure("one place per vertex", b_of(r.m_positions.len() == n && r.m_stretch_constraints.len() == n - 1 && r.m_bend_constraints.len() == n - 2));
    ensure("gravity and place are taken over", and(&[eqv(r.m_gravity, def.gravity), eqv(r.m_position, at)]));
    for k in 0..n {
        let q = &r.m_positions[k];
        let b = def.vertices[k].position;
        ensure("vertices start at rest in the bind pose", and(&[eqv(q.m_bind_positions, b), eqv(q.m_ps, add(b, at)), eqv(q.m_p0s, add(b, at)), eqv(q.m_vs, zero2())]));
        ensure("vertices without mass are pinned", eq(q.m_inv_masses, w[k]));
    }
    for k in 0..n - 1 {
        let c = r.m_stretch_constraints[k];
        ensure("segments join neighbours", b_of(c.i1 as usize == k && c.i2 as usize == k + 1));
        ensure("segments rest at their bind length", and(&[eq(c.l, len[k]), eq(c.lambda, 0.0), eq(c.inv_mass1, w[k]), eq(c.inv_mass2, w[k + 1])]));
    }
    for k in 0..n - 2 {
        let c = r.m_bend_constraints[k];
        ensure("corners join neighbours", b_of(c.i1 as usize == k && c.i2 as usize == k + 1 && c.i3 as usize == k + 2));
        ensure("corners rest at their bind lengths", and(&[eq(c.l1, len[k]), eq(c.l2, len[k + 1]), eq(c.lambda, 0.0), eq(c.inv_mass1, w[k]), eq(c.inv_mass2, w[k + 1]), eq(c.inv_mass3, w[k + 2])]));
        if once(&format!("gap {} is zero", k)) || once(&format!("gap {} is zero", k + 1)) {
            ensure("no rest mass without two edges", and(&[eq(c.inv_effective_mass, 0.0), eq(c.alpha1, 0.0), eq(c.alpha2, 0.0)]));
            continue;
        }
        let g = |k: usize| scale(1.0 / (len[k] * len[k]), B2vec2::new(-d[k].y, d[k].x));
        let (j1, j3) = (g(k), g(k + 1));
        let j2 = add(j1, j3);
        ensure("rest mass of the corner", eq(c.inv_effective_mass, w[k] * dot(j1, j1) + w[k + 1] * dot(j2, j2) + w[k + 2] * dot(j3, j3)));
        let e = add(d[k], d[k + 1]);
        if dot(e, e) == 0.0 {
            ensure("no shares when the ends coincide", and(&[eq(c.alpha1, 0.0), eq(c.alpha2, 0.0)]));
        } else {
            ensure("shares of the ends", and(&[eq(c.alpha1 + c.alpha2, 1.0), eq(c.alpha1 * dot(e, e), dot(d[k + 1], e)), eq(c.alpha2 * dot(e, e), dot(d[k], e))]));
        }
    }
    let t = r.m_tuning;
    ensure("tuning is taken over", and(&[b_of(t.bending_model == def.tuning.bending_model && t.stretching_model == def.tuning.stretching_model), eq(t.damping, def.tuning.damping), eq(t.bend_stiffness, def.tuning.bend_stiffness), eq(t.stretch_stiffness, def.tuning.stretch_stiffness)]));
    if !once("used before") {
        springs(&r);
    }
}
fn springs(r: &B2rope) {
    let om = 2.0 * B2_PI * r.m_tuning.stretch_hertz;
    for c in &r.m_stretch_constraints {
        let s = c.inv_mass1 + c.inv_mass2;
        if s != 0.0 {
            ensure("stretch spring and damper", and(&[eq(c.spring * s, om * om), eq(c.damper * s, 2.0 * r.m_tuning.stretch_damping * om)]));
        }
    }
    let om = 2.0 * B2_PI * r.m_tuning.bend_hertz;
    for c in &r.m_bend_constraints {
        if c.l1 == 0.0 || c.l2 == 0.0 || (c.inv_mass1 == 0.0 && c.inv_mass2 == 0.0 && c.inv_mass3 == 0.0) {
            ensure("no spring where nothing bends", and(&[eq(c.spring, 0.0), eq(c.damper, 0.0)]));
            continue;
        }
        let j = 1.0 / c.l1 + 1.0 / c.l2;
        let s = c.inv_mass1 / (c.l1 * c.l1) + c.inv_mass2 * j * j + c.inv_mass3 / (c.l2 * c.l2);
        ensure("bend spring and damper", and(&[eq(c.spring * s, om * om), eq(c.damper * s, 2.0 * r.m_tuning.bend_damping * om)]));
    }
}
/// New settings for a rope in motion.
fn retuning() {
    begin();
    let mut b = bend_rope(plain(1, 0), false);
    let (z1, z2) = (once("rest1 is zero"), once("rest2 is zero"));
    let c = &mut b.r.m_bend_constraints[0];
    c.l1 = if z1 { 0.0 } else { pos("rest1") };
    c.l2 = if z2 { 0.0 } else { pos("rest2") };
    b.r.m_stretch_constraints = vec![stretch_of(b.i, [b.w[0], b.w[1]])];
    let old = b.r.m_stretch_constraints[0];
    let mut t = tuned(choose("bend", 6), choose("stretch", 2));
    t.bend_hertz = var("new bend hertz");
    t.stretch_hertz = var("new stretch hertz");
    t.bend_stiffness = var("new stiffness");
    t.isometric = once("isometric");
    t.fixed_effective_mass = once("fixed mass");
    b.r.set_tuning(&t);
    frame(&b.r, &b.ps, &[]);
    let n = b.r.m_tuning;
    ensure("all settings are taken over", and(&[
        b_of(n.bending_model == t.bending_model && n.stretching_model == t.stretching_model && n.isometric == t.isometric && n.fixed_effective_mass == t.fixed_effective_mass),
        eq(n.damping, t.damping), eq(n.stretch_stiffness, t.stretch_stiffness), eq(n.stretch_hertz, t.stretch_hertz), eq(n.stretch_damping, t.stretch_damping), eq(n.bend_stiffness, t.bend_stiffness), eq(n.bend_hertz, t.bend_hertz), eq(n.bend_damping, t.bend_damping),
    ]));
    springs(&b.r);
    let c = b.r.m_stretch_constraints[0];
    ensure("rest lengths stay", and(&[eq(c.l, old.l), eq(c.lambda, old.lambda), eq(b.c().lambda, var("lambda"))]));
}
fn back_to_bind() {
    begin();
    let mut b = bend_rope(plain(1, 0), true);
    b.r.m_stretch_constraints = vec![stretch_of(b.i, [b.w[0], b.w[1]])];
    let at = vec2("new place");
    b.r.reset(at);
    ensure("the rope is placed anew", eqv(b.r.m_position, at));
    for (p, q) in b.r.m_positions.iter().zip(&b.ps) {
        ensure("vertices return to the bind pose at rest", and(&[eqv(p.m_ps, add(q.m_bind_positions, at)), eqv(p.m_p0s, add(q.m_bind_positions, at)), eqv(p.m_vs, zero2()), eqv(p.m_bind_positions, q.m_bind_positions), eq(p.m_inv_masses, q.m_inv_masses)]));
    }
    ensure("impulses are forgotten", and(&[eq(b.r.m_stretch_constraints[0].lambda, 0.0), eq(b.c().lambda, 0.0)]));
    ensure("rest values stay", and(&[eq(b.r.m_stretch_constraints[0].l, nonneg("rest")), eq(b.c().l1, pos("rest1")), eq(b.c().l2, pos("rest2"))]));
}
// ---- the step, with the corrections by their contracts
#[derive(Default, Clone)]
struct Log {
    calls: Vec<usize>,
    start: Vec<B2vec2>,
    speeds: Vec<B2vec2>,
    forces: bool,
}
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }
fn correction(r: &mut B2rope, kind: usize) {
    let n = LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.calls.is_empty() {
            l.start = r.m_positions.iter().map(|p| p.m_ps).collect();
        }
        l.calls.push(kind);
        l.calls.len()
    });
    if n == 1 {
        for c in &r.m_bend_constraints {
            ensure("corrections start without impulse", eq(c.lambda, 0.0));
        }
        for c in &r.m_stretch_constraints {
            ensure("corrections start without impulse", eq(c.lambda, 0.0));
        }
    }
    for (i, p) in r.m_positions.iter_mut().enumerate() {
        if p.m_inv_masses > 0.0 {
            p.m_ps = vec2(&format!("c{}.{}", n, i));
        }
    }
    for c in &mut r.m_bend_constraints {
        c.lambda = var("bl");
    }
    for c in &mut r.m_stretch_constraints {
        c.lambda = var("sl");
    }
}
fn same_step(dt: f32) {
    ensure("corrections get the step", eq(dt, pos("dt")));
}
fn c1(r: &mut B2rope) {
    correction(r, 1)
}
fn c2(r: &mut B2rope, dt: f32) {
    same_step(dt);
    correction(r, 2)
}
fn c3(r: &mut B2rope) {
    correction(r, 3)
}
fn c4(r: &mut B2rope) {
    correction(r, 4)
}
fn c5(r: &mut B2rope) {
    correction(r, 5)
}
fn c6(r: &mut B2rope) {
    correction(r, 6)
}
fn c7(r: &mut B2rope, dt: f32) {
    same_step(dt);
    correction(r, 7)
}
fn forces(r: &mut B2rope, dt: f32) {
    same_step(dt);
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.forces = true;
        l.speeds = r.m_positions.iter().map(|p| p.m_vs).collect();
    });
    for (i, p) in r.m_positions.iter_mut().enumerate() {
        if p.m_inv_masses > 0.0 {
            p.m_vs = vec2(&format!("f.{}", i));
        }
    }
}
fn stepping() {
    begin();
    let (bend, stretch) = (choose("bend", 6), choose("stretch", 2));
    let rounds = choose("rounds", 4);
    let mut r = rope(
        (0..3).map(|i| {
            let n = ["a", "b", "c"][i];
            let w = if i < 2 { inv_mass(n) } else { 1.0 };
            let mut p = point(n, vec2(&format!("p{}", i)), w);
            // creation, resetting and stepping leave it so
            p.m_p0s = p.m_ps;
            p
        }).collect(),
        tuned(bend, stretch),
    );
    r.m_stretch_constraints = vec![stretch_of(0, [1.0, 1.0]), stretch_of(1, [1.0, 1.0])];
    r.m_bend_constraints = vec![B2ropeBend { i1: 0, i2: 1, i3: 2, lambda: var("lambda"), ..Default::default() }];
    let ps = r.m_positions.clone();
    let to = vec2("new place");
    let dt = if once("no time") { 0.0 } else { pos("dt") };
    if symbolic() {
        LOG.with(|l| *l.borrow_mut() = Log::default());
        hook::set::<fn(&mut B2rope)>("solve_bend_pbd_angle", c1);
        hook::set::<fn(&mut B2rope, f32)>("solve_bend_xpbd_angle", c2);
        hook::set::<fn(&mut B2rope)>("solve_bend_pbd_distance", c3);
        hook::set::<fn(&mut B2rope)>("solve_bend_pbd_height", c4);
        hook::set::<fn(&mut B2rope)>("solve_bend_pbd_triangle", c5);
        hook::set::<fn(&mut B2rope)>("solve_stretch_pbd", c6);
        hook::set::<fn(&mut B2rope, f32)>("solve_stretch_xpbd", c7);
        hook::set::<fn(&mut B2rope, f32)>("apply_bend_forces", forces);
    } else {
        // real corrections need a real rope
        for (i, c) in r.m_stretch_constraints.iter_mut().enumerate() {
            *c = B2ropeStretch { inv_mass1: ps[i].m_inv_masses, inv_mass2: ps[i + 1].m_inv_masses, ..*c };
        }
        let c = &mut r.m_bend_constraints[0];
        *c = B2ropeBend { inv_mass1: ps[0].m_inv_masses, inv_mass2: ps[1].m_inv_masses, inv_mass3: ps[2].m_inv_masses, l1: 1.0, l2: 1.0, inv_effective_mass: 1.0, spring: 1.0, alpha1: 0.5, alpha2: 0.5, ..*c };
    }
    r.step(dt, rounds as i32, to);
    hook::clear();
    let log = LOG.with(|l| l.borrow().clone());
    let pinned = [once("a is pinned"), once("b is pinned"), false];
    if once("no time") {
        for (p, q) in r.m_positions.iter().zip(&ps) {
            ensure("no time, no change", and(&[eqv(p.m_ps, q.m_ps), eqv(p.m_p0s, q.m_p0s), eqv(p.m_vs, q.m_vs)]));
        }
        return;
    }
    for (i, (p, q)) in r.m_positions.iter().zip(&ps).enumerate() {
        if pinned[i] {
            ensure("pinned vertices follow the prescribed motion", eqv(p.m_ps, add(q.m_bind_positions, to)));
        }
        ensure("velocity is the distance moved", eqv(p.m_vs, scale(1.0 / dt, sub(p.m_ps, q.m_ps))));
        ensure("the place is remembered", eqv(p.m_p0s, p.m_ps));
        ensure("bind pose and mass stay", and(&[eqv(p.m_bind_positions, q.m_bind_positions), eq(p.m_inv_masses, q.m_inv_masses)]));
        if !symbolic() {
            continue;
        }
        let speed = add(scale((-dt * var("damping")).exp(), q.m_vs), scale(dt, vec2("gravity")));
        let start = if log.calls.is_empty() { p.m_ps } else { log.start[i] };
        if pinned[i] {
            ensure("corrections start from the prescribed place", eqv(start, add(q.m_bind_positions, to)));
        } else if bend == 0 {
            ensure("springs act on the loaded velocity", eqv(log.speeds[i], speed));
            ensure("free vertices move on", eqv(start, add(q.m_ps, scale(dt, vec2(&format!("f.{}", i))))));
        } else {
            ensure("free vertices move on", eqv(start, add(q.m_ps, scale(dt, speed))));
        }
    }
    if symbolic() {
        ensure("springs act in the spring model only", b_of(log.forces == (bend == 0)));
        let mut want = vec![];
        for _ in 0..rounds {
            if bend > 0 {
                want.push(bend);
            }
            want.push(6 + stretch);
        }
        ensure("each round corrects bending, then stretching", b_of(log.calls == want));
    }
}
/// A straight, evenly spaced rope without loads stays as it is.
fn straight() {
    begin();
    let (bend, stretch) = (choose("bend", 6), choose("stretch", 2));
    let u = unit("u");
    let gap = pos("gap");
    assume(ge(gap, B2_EPSILON));
    lemma("two gaps are measurable too", ge(2.0 * gap, B2_EPSILON));
    let mut def = B2ropeDef::default();
    def.position = vec2("place");
    def.tuning = tuned(bend, stretch);
    def.tuning.bend_hertz = pos("bend frequency");
    def.tuning.stretch_hertz = pos("stretch frequency");
    def.tuning.isometric = once("isometric");
    def.tuning.fixed_effective_mass = once("fixed mass");
    let mut p = vec2("start");
    for k in 0..4 {
        def.vertices.push(B2ropeDefVertices { position: p, mass: if k < 2 && once(&format!("{} is pinned", k)) { 0.0 } else { pos(&format!("m{}", k)) } });
        p = add(p, scale(gap, u));
    }
    let mut r = B2rope::default();
    r.create(&def);
    domain_checks(false);
    r.step(pos("dt"), 1 + choose("rounds", 2) as i32, def.position);
    for k in 0..4 {
        ensure("a straight rope at rest stays", and(&[eqv(r.m_positions[k].m_ps, add(def.vertices[k].position, def.position)), eqv(r.m_positions[k].m_vs, zero2())]));
    }
}
contracts! { selection_bodies, stretch_pbd, stretch_xpbd, bend_pbd_angle, bend_xpbd_angle, bend_forces, bend_distance, bend_height, bend_triangle, lists, creation, retuning, back_to_bind, stepping, straight }
