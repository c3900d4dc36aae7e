mod common;
mod phys;
mod joints;
mod audit;
use audit::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_rope::*;
use common::selection_bodies;
use joints::*;

/// What a drawer was asked to draw: points in the order given, a radius or direction where there is one.
#[derive(Clone)]
struct Mark {
    kind: &'static str,
    at: Vec<B2vec2>,
    radius: f32,
    color: Option<B2color>,
}
#[derive(Default)]
struct Pen {
    base: B2draw,
    marks: Vec<Mark>,
}
fn mark(kind: &'static str, at: &[B2vec2], radius: f32, color: Option<B2color>) -> Mark {
    Mark { kind, at: at.to_vec(), radius, color }
}
impl B2drawTrait for Pen {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.marks.push(mark("polygon", v, 0.0, Some(c)));
    }
    fn draw_solid_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.marks.push(mark("solid polygon", v, 0.0, Some(c)));
    }
    fn draw_circle(&mut self, p: B2vec2, r: f32, c: B2color) {
        self.marks.push(mark("circle", &[p], r, Some(c)));
    }
    fn draw_solid_circle(&mut self, p: B2vec2, r: f32, axis: B2vec2, c: B2color) {
        self.marks.push(mark("solid circle", &[p, axis], r, Some(c)));
    }
    fn draw_segment(&mut self, p1: B2vec2, p2: B2vec2, c: B2color) {
        self.marks.push(mark("segment", &[p1, p2], 0.0, Some(c)));
    }
    fn draw_transform(&mut self, xf: B2Transform) {
        self.marks.push(mark("frame", &[xf.p, B2vec2 { x: xf.q.c, y: xf.q.s }], 0.0, None));
    }
    fn draw_point(&mut self, p: B2vec2, size: f32, c: B2color) {
        ensure("a point has a size", gt(size, 0.0));
        self.marks.push(mark("point", &[p], 0.0, Some(c)));
    }
}
const NO_COLOR: Option<B2color> = None;
fn seg(p: B2vec2, q: B2vec2) -> Mark {
    mark("segment", &[p, q], 0.0, NO_COLOR)
}
fn dot_at(p: B2vec2) -> Mark {
    mark("point", &[p], 0.0, NO_COLOR)
}
fn same_points(a: &[B2vec2], b: &[B2vec2]) -> B {
    let v: Vec<B> = a.iter().zip(b).map(|(x, y)| eqv(*x, *y)).collect();
    and(&v)
}
/// The same mark; a segment may be given from either end.
fn same_mark(a: &Mark, b: &Mark) -> B {
    if a.kind != b.kind || a.at.len() != b.at.len() {
        return b_of(false);
    }
    let straight = and(&[same_points(&a.at, &b.at), eq(a.radius, b.radius)]);
    if a.kind == "segment" {
        return or(&[straight, same_points(&a.at, &[b.at[1], b.at[0]])]);
    }
    straight
}
/// Exactly the expected marks, in any order.
fn exactly(label: &str, got: &[Mark], want: &[Mark]) {
    let kinds = |v: &[Mark]| {
        let mut k: Vec<(&str, usize)> = v.iter().map(|m| (m.kind, m.at.len())).collect();
        k.sort();
        k
    };
    ensure(&format!("{}: nothing more and nothing less", label), b_of(kinds(got) == kinds(want)));
    for x in want {
        let v: Vec<B> = got.iter().map(|m| same_mark(m, x)).collect();
        ensure(&format!("{}: {}", label, x.kind), or(&v));
    }
}
fn eq_color(a: &B2color, b: &B2color) -> B {
    and(&[eq(a.r, b.r), eq(a.g, b.g), eq(a.b, b.b), eq(a.a, b.a)])
}
fn pen(w: &World, flags: B2drawShapeFlags) -> Rc<RefCell<Pen>> {
    let p = Rc::new(RefCell::new(Pen::default()));
    p.borrow_mut().base.set_flags(flags);
    w.borrow_mut().set_debug_draw(p.clone());
    p
}
fn drawn(w: &World, p: &Rc<RefCell<Pen>>) -> Vec<Mark> {
    p.borrow_mut().marks.clear();
    w.borrow().debug_draw();
    let m = p.borrow().marks.clone();
    m
}
fn put_on(b: &Body, shape: ShapeDefPtr) -> FixturePtr<D> {
    let mut fd = B2fixtureDef::default();
    fd.shape = Some(shape);
    B2body::create_fixture(b.clone(), &fd)
}
/// What a shape looks like in a pose.
fn picture(f: &FixturePtr<D>, x: B2Transform) -> Vec<Mark> {
    use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived as S;
    let f = f.borrow();
    let s = f.get_shape();
    match s.as_derived() {
        S::AsCircle(c) => vec![mark("solid circle", &[apply(x, c.m_p), B2vec2 { x: x.q.c, y: x.q.s }], c.base.m_radius, NO_COLOR)],
        S::AsEdge(e) => {
            let (p, q) = (apply(x, e.m_vertex1), apply(x, e.m_vertex2));
            if e.m_one_sided { vec![seg(p, q)] } else { vec![seg(p, q), dot_at(p), dot_at(q)] }
        }
        S::AsChain(c) => (1..c.m_vertices.len()).map(|i| seg(apply(x, c.m_vertices[i - 1]), apply(x, c.m_vertices[i]))).collect(),
        S::AsPolygon(p) => {
            let v: Vec<B2vec2> = (0..p.m_count).map(|i| apply(x, p.m_vertices[i])).collect();
            vec![mark("solid polygon", &v, 0.0, NO_COLOR)]
        }
    }
}
const SHAPES: B2drawShapeFlags = B2drawShapeFlags::SHAPE_BIT;
/// Every fixture is drawn once, in the pose of its body.
fn shapes() {
    let w = quiet_world();
    let a = body_of(&w, "a", B2bodyType::B2DynamicBody);
    let b = body_of(&w, "b", B2bodyType::B2StaticBody);
    let fa = put_on(&a, shape_of(choose("shape", 4), "x"));
    let fb = put_on(&b, Rc::new(RefCell::new(circle(vec2("y.c"), pos("y.r")))));
    let p = pen(&w, SHAPES);
    let mut want = picture(&fa, a.borrow().m_xf);
    want.extend(picture(&fb, b.borrow().m_xf));
    if flag("a second fixture") {
        let fc = put_on(&a, Rc::new(RefCell::new(circle(vec2("z.c"), pos("z.r")))));
        want.extend(picture(&fc, a.borrow().m_xf));
    }
    let before = [snap(&a.borrow()), snap(&b.borrow())];
    exactly("shapes", &drawn(&w, &p), &want);
    let after = [snap(&a.borrow()), snap(&b.borrow())];
    for (x, y) in before.iter().zip(&after) {
        ensure("drawing changes nothing", and(&[eqv(x.sweep.c, y.sweep.c), eqv(x.v, y.v), eqv(x.xf.p, y.xf.p), b_of(x.flags == y.flags)]));
    }
}
/// The states a drawing tells apart.
fn in_state(w: &World, n: &str, k: usize) -> Body {
    let ty = match k {
        2 => B2bodyType::B2StaticBody,
        3 => B2bodyType::B2KinematicBody,
        1 => body_type(n),
        _ => B2bodyType::B2DynamicBody,
    };
    let b = body_of(w, n, ty);
    if k == 0 {
        b.borrow_mut().m_mass = 0.0;
    }
    put_on(&b, Rc::new(RefCell::new(circle(vec2(&format!("{}.at", n)), pos(&format!("{}.r", n))))));
    let asleep = k == 4 || (k != 5 && flag(&format!("{} sleeps", n)));
    if asleep {
        b.borrow_mut().m_flags.remove(BodyFlags::E_AWAKE_FLAG);
    }
    // a body without mass is shown as such whether enabled or not
    if k == 1 || (k == 0 && flag(&format!("{} is off", n))) {
        b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    }
    b
}
fn colours() {
    let w = quiet_world();
    let (i, j) = (choose("state of a", 6), choose("state of b", 6));
    in_state(&w, "a", i);
    in_state(&w, "b", j);
    let p = pen(&w, SHAPES);
    let m = drawn(&w, &p);
    ensure("both are drawn", b_of(m.len() == 2));
    if m.len() != 2 {
        abort_path();
    }
    let same = eq_color(m[0].color.as_ref().unwrap(), m[1].color.as_ref().unwrap());
    if i == j {
        ensure("bodies in the same state have the same colour", same);
    } else {
        ensure("bodies in different states have different colours", not(same));
    }
}
/// Categories that are off are not drawn, and a world without a drawer draws nothing.
fn categories() {
    let w = quiet_world();
    let on = [flag("shapes"), flag("joints"), flag("boxes"), flag("pairs"), flag("centres")];
    let bits = [
        B2drawShapeFlags::SHAPE_BIT,
        B2drawShapeFlags::JOINT_BIT,
        B2drawShapeFlags::AABB_BIT,
        B2drawShapeFlags::PAIR_BIT,
        B2drawShapeFlags::CENTER_OF_MASS_BIT,
    ];
    let a = body_of(&w, "a", B2bodyType::B2DynamicBody);
    let b = body_of(&w, "b", B2bodyType::B2StaticBody);
    let (fa, fb) = (fixture_in(&a, "x", 1), fixture_in(&b, "y", 1));
    let la = (vec2("la"), vec2("lb"));
    let mut jd = B2frictionJointDef::<D>::default();
    jd.base.body_a = Some(a.clone());
    jd.base.body_b = Some(b.clone());
    jd.base.collide_connected = true;
    jd.local_anchor_a = la.0;
    jd.local_anchor_b = la.1;
    w.borrow_mut().create_joint(&B2JointDefEnum::FrictionJoint(jd));
    meet(&w, &fa, &fb);
    w.borrow().debug_draw();
    let p = Rc::new(RefCell::new(Pen::default()));
    w.borrow_mut().set_debug_draw(p.clone());
    exactly("without categories", &drawn(&w, &p), &[]);
    // flags are added and taken away one by one, or set at once
    if flag("set at once") {
        let mut f = B2drawShapeFlags::empty();
        for k in 0..5 {
            f.set(bits[k], on[k]);
        }
        p.borrow_mut().base.append_flags(B2drawShapeFlags::all());
        p.borrow_mut().base.set_flags(f);
    } else {
        let start = flag("all on first");
        p.borrow_mut().base.set_flags(if start { B2drawShapeFlags::all() } else { B2drawShapeFlags::empty() });
        for k in 0..5 {
            let mut x = p.borrow_mut();
            if on[k] {
                x.base.append_flags(bits[k]);
            } else {
                x.base.clear_flags(bits[k]);
            }
        }
    }
    let f = p.borrow().base.get_flags();
    ensure("flags are as asked", b_of((0..5).all(|k| f.contains(bits[k]) == on[k])));
    let (xa, xb) = (a.borrow().m_xf, b.borrow().m_xf);
    let mut want = vec![];
    if on[0] {
        want.extend(picture(&fa, xa));
        want.extend(picture(&fb, xb));
    }
    if on[1] {
        let (pa, pb) = (apply(xa, la.0), apply(xb, la.1));
        want.extend(vec![seg(xa.p, pa), seg(pa, pb), seg(xb.p, pb)]);
    }
    if on[2] {
        want.push(frame_of(&w, &fa, 0));
        want.push(frame_of(&w, &fb, 0));
    }
    if on[3] {
        want.push(seg(middle(&fa, 0), middle(&fb, 0)));
    }
    if on[4] {
        want.push(centre_frame(&a));
        want.push(centre_frame(&b));
    }
    exactly("categories", &drawn(&w, &p), &want);
}
fn tight(f: &FixturePtr<D>, i: usize) -> B2AABB {
    let f = f.borrow();
    let x = f.m_proxies[i].borrow().aabb;
    x
}
fn middle(f: &FixturePtr<D>, i: usize) -> B2vec2 {
    let x = tight(f, i);
    scale(0.5, add(x.lower_bound, x.upper_bound))
}
/// The outline of the stored box, corner after corner.
fn frame_of(w: &World, f: &FixturePtr<D>, i: usize) -> Mark {
    let id = f.borrow().m_proxies[i].borrow().proxy_id;
    let bp = manager(w).borrow().m_broad_phase.clone();
    let x = bp.borrow().m_tree.m_nodes[id as usize].aabb;
    let (l, u) = (x.lower_bound, x.upper_bound);
    mark("polygon", &[l, B2vec2 { x: u.x, y: l.y }, u, B2vec2 { x: l.x, y: u.y }], 0.0, NO_COLOR)
}
fn centre_frame(b: &Body) -> Mark {
    let b = b.borrow();
    mark("frame", &[b.m_sweep.c, B2vec2 { x: b.m_xf.q.c, y: b.m_xf.q.s }], 0.0, NO_COLOR)
}
fn any_box(n: &str) -> B2AABB {
    let l = vec2(&format!("{}.lower", n));
    B2AABB { lower_bound: l, upper_bound: add(l, B2vec2 { x: nonneg(&format!("{}.w", n)), y: nonneg(&format!("{}.h", n)) }) }
}
/// Boxes of every child of every fixture of the enabled bodies; contacts between the children that meet.
fn boxes() {
    let w = quiet_world();
    let a = body_of(&w, "a", B2bodyType::B2DynamicBody);
    let b = body_of(&w, "b", B2bodyType::B2DynamicBody);
    let (fa, fb) = (fixture_in(&a, "x", 2), fixture_in(&b, "y", 1));
    let fc = fixture_in(&a, "z", 1);
    // boxes of some earlier time
    let bp = manager(&w).borrow().m_broad_phase.clone();
    for (n, f, i) in [("x0", &fa, 0), ("x1", &fa, 1), ("y", &fb, 0), ("z", &fc, 0)] {
        let f = f.borrow();
        let mut q = f.m_proxies[i].borrow_mut();
        q.aabb = any_box(&format!("{}.tight", n));
        bp.borrow_mut().m_tree.m_nodes[q.proxy_id as usize].aabb = any_box(&format!("{}.fat", n));
    }
    let k = choose("child", 2);
    {
        let m = manager(&w);
        m.borrow_mut().add_pair(proxy(&fa, k), proxy(&fb, 0));
    }
    let touching = flag("touching");
    contacts(&w)[0].borrow_mut().get_base_mut().m_flags.set(ContactFlags::E_TOUCHING_FLAG, touching);
    let p = pen(&w, B2drawShapeFlags::PAIR_BIT);
    exactly("pairs", &drawn(&w, &p), &[seg(middle(&fa, k), middle(&fb, 0))]);
    p.borrow_mut().base.set_flags(B2drawShapeFlags::AABB_BIT);
    let mut want = vec![];
    if flag("a is off") {
        a.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    } else {
        want.extend(vec![frame_of(&w, &fa, 0), frame_of(&w, &fa, 1), frame_of(&w, &fc, 0)]);
    }
    if flag("b is off") {
        b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    } else {
        want.push(frame_of(&w, &fb, 0));
    }
    exactly("boxes", &drawn(&w, &p), &want);
}
// ---- joints
struct Ends {
    pa: B2vec2,
    pb: B2vec2,
    xa: B2Transform,
    xb: B2Transform,
}
fn ends(r: &Rig) -> Ends {
    let (xa, xb) = (r.a.borrow().m_xf, r.b.borrow().m_xf);
    Ends { pa: apply(xa, r.la()), pb: apply(xb, r.lb()), xa, xb }
}
fn sketch(j: &dyn B2jointTraitDyn<D>) -> Vec<Mark> {
    let mut p = Pen::default();
    j.draw(&mut p);
    p.marks
}
fn simple_rig(d: B2vec2) -> Rig {
    rig_of(vec2("ra"), vec2("rb"), d, true, (0, pos("a.inv_mass"), pos("a.inv_i")), (1, 0.0, 0.0))
}
/// An axis joint shows its anchors and its track, with the limits across it where there are any.
fn track(e: &Ends, axis: B2vec2, limit: Option<(f32, f32)>) -> Vec<Mark> {
    let at = |s: f32| add(e.pa, scale(s, axis));
    let mut v = vec![seg(e.pa, e.pb), dot_at(e.pa), dot_at(e.pb)];
    match limit {
        Some((l, u)) => {
            let across = |p: B2vec2| seg(sub(p, scale(0.5, perp(axis))), add(p, scale(0.5, perp(axis))));
            v.extend(vec![seg(at(l), at(u)), across(at(l)), across(at(u))]);
        }
        None => v.push(seg(at(-1.0), at(1.0))),
    }
    v
}
fn axis_joints() {
    let n = unit("n");
    let r = simple_rig(vec2("d"));
    let e = ends(&r);
    if flag("wheel") {
        let mut j = wheel(&r, n);
        j.m_local_xaxis_a = unit("axis");
        j.m_local_yaxis_a = perp(j.m_local_xaxis_a);
        let limit = if j.is_limit_enabled() { Some((j.get_lower_limit(), j.get_upper_limit())) } else { None };
        let axis = rotv(e.xa.q, j.m_local_xaxis_a);
        exactly("wheel", &sketch(&j), &track(&e, axis, limit));
    } else {
        let mut j = prismatic(&r, n);
        j.m_local_xaxis_a = unit("axis");
        j.m_local_yaxis_a = perp(j.m_local_xaxis_a);
        let limit = if j.is_limit_enabled() { Some((j.get_lower_limit(), j.get_upper_limit())) } else { None };
        let axis = rotv(e.xa.q, j.m_local_xaxis_a);
        exactly("prismatic", &sketch(&j), &track(&e, axis, limit));
    }
}
fn hinge() {
    let r = simple_rig(vec2("d"));
    let e = ends(&r);
    let j = revolute(&r);
    let m = sketch(&j);
    let hand = |a: f32| add(e.pb, scale(0.5, B2vec2 { x: a.cos(), y: a.sin() }));
    let angle = r.b.borrow().m_sweep.a - r.a.borrow().m_sweep.a - j.get_reference_angle();
    let mut want = vec![dot_at(e.pa), dot_at(e.pb), mark("circle", &[e.pb], 0.5, NO_COLOR), seg(e.pb, hand(angle)), seg(e.xa.p, e.pa), seg(e.pa, e.pb), seg(e.xb.p, e.pb)];
    if j.is_limit_enabled() {
        want.push(seg(e.pb, hand(j.get_lower_limit())));
        want.push(seg(e.pb, hand(j.get_upper_limit())));
    }
    exactly("hinge", &m, &want);
}
fn rod() {
    let u = unit("u");
    // anchors in one place have no direction between them
    let met = flag("the anchors meet");
    let len = if met { 0.0 } else { pos("len") };
    if !met {
        assume(ge(len, B2_EPSILON));
    }
    let r = simple_rig(scale(len, u));
    let (pa, pb) = (add(r.pos[0].c, r.ra), add(r.pos[1].c, r.rb));
    let j = distance(&r);
    let m = sketch(&j);
    let at = |l: f32| add(pa, if met { zero2() } else { scale(l, u) });
    let mut want = vec![seg(pa, pb)];
    if j.m_max_length > j.m_min_length {
        if j.m_min_length > B2_LINEAR_SLOP {
            want.push(dot_at(at(j.m_min_length)));
        }
        if j.m_max_length < B2_MAX_FLOAT {
            want.push(dot_at(at(j.m_max_length)));
        }
    }
    want.push(dot_at(at(j.m_length)));
    exactly("rod", &m, &want);
}
/// The joints without a picture of their own.
fn plain_joints() {
    let r = simple_rig(vec2("d"));
    let e = ends(&r);
    let (j, x): (Box<dyn B2jointTraitDyn<D>>, Ends) = match choose("kind", 3) {
        0 => (Box::new(weld(&r)), e),
        1 => (Box::new(friction(&r)), e),
        _ => (Box::new(motor(&r)), Ends { pa: e.xa.p, pb: e.xb.p, ..e }),
    };
    exactly("joint", &sketch(&*j), &[seg(x.xa.p, x.pa), seg(x.pa, x.pb), seg(x.xb.p, x.pb)]);
}
fn mouse_pulley() {
    let r = simple_rig(vec2("d"));
    let e = ends(&r);
    if flag("mouse") {
        let j = mouse(&r);
        let t = j.m_target_a;
        exactly("mouse", &sketch(&j), &[dot_at(t), dot_at(e.pb), seg(t, e.pb)]);
    } else {
        let mut d = B2pulleyJointDef::<D>::default();
        d.base = r.base(B2jointType::EPulleyJoint);
        d.local_anchor_a = r.la();
        d.local_anchor_b = r.lb();
        d.ground_anchor_a = vec2("ga");
        d.ground_anchor_b = vec2("gb");
        d.length_a = nonneg("length_a");
        d.length_b = nonneg("length_b");
        d.ratio = pos("ratio");
        let j = B2pulleyJoint::new(&d);
        let (ga, gb) = (d.ground_anchor_a, d.ground_anchor_b);
        exactly("pulley", &sketch(&j), &[seg(ga, e.pa), seg(gb, e.pb), seg(ga, gb)]);
    }
}
fn geared() {
    let g = gear(true, flag("shared frame"));
    let (xa, xb) = (g.j.base.m_body_a.borrow().m_xf, g.j.base.m_body_b.borrow().m_xf);
    let (pa, pb) = (g.j.get_anchor_a(), g.j.get_anchor_b());
    exactly("gear", &sketch(&g.j), &[seg(xa.p, pa), seg(pa, pb), seg(xb.p, pb)]);
}
/// A rope: its segments, and its vertices with pinned ones told apart.
fn rope() {
    let mut r = B2rope::default();
    let n = 3 + choose("count", 2);
    let pinned: Vec<bool> = (0..n).map(|i| flag(&format!("{} pinned", i))).collect();
    for i in 0..n {
        r.m_positions.push(B2ropePositions {
            m_bind_positions: vec2(&format!("bind{}", i)),
            m_ps: vec2(&format!("p{}", i)),
            m_p0s: vec2(&format!("old{}", i)),
            m_vs: vec2(&format!("v{}", i)),
            m_inv_masses: if pinned[i] { 0.0 } else { pos(&format!("inv{}", i)) },
        });
    }
    let mut p = Pen::default();
    r.draw(&mut p);
    let at = |i: usize| r.m_positions[i].m_ps;
    let mut want: Vec<Mark> = (1..n).map(|i| seg(at(i - 1), at(i))).collect();
    want.extend((0..n).map(|i| dot_at(at(i))));
    exactly("rope", &p.marks, &want);
    // every point drawn in a vertex has the colour of its kind
    let dots: Vec<&Mark> = p.marks.iter().filter(|m| m.kind == "point").collect();
    for i in 0..n {
        for k in 0..n {
            for (x, y) in dots.iter().flat_map(|x| dots.iter().map(move |y| (x, y))) {
                let here = and(&[eqv(x.at[0], at(i)), eqv(y.at[0], at(k))]);
                let same = eq_color(x.color.as_ref().unwrap(), y.color.as_ref().unwrap());
                if i == k {
                    continue;
                }
                let apart = and(&(0..n).flat_map(|a| (0..a).map(move |b| (a, b))).map(|(a, b)| not(eqv(at(a), at(b)))).collect::<Vec<_>>());
                ensure("pinned vertices stand out", implies(and(&[here, apart]), if pinned[i] == pinned[k] { same } else { not(same) }));
            }
        }
    }
}
contracts! { shapes, colours, categories, boxes, axis_joints, hinge, rod, plain_joints, mouse_pulley, geared, rope, selection_bodies }
