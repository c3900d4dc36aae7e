mod common;
mod phys;
use phys::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;

fn md() -> B2massData {
    B2massData { mass: var("m0"), center: vec2("c0"), i: var("i0") }
}
fn circle_mass() {
    let (c, r, d) = (vec2("c"), nonneg("r"), nonneg("density"));
    let mut m = md();
    circle(c, r).compute_mass(&mut m, d);
    let mass = d * B2_PI * r * r;
    ensure("circle: mass is density times area", eq(m.mass, mass));
    ensure("circle: centre of mass is the centre", eqv(m.center, c));
    ensure("circle: inertia about the body origin", eq(m.i, mass * (r * r / 2.0 + len2(c))));
}
fn polygon_mass_n(n: usize) {
    let mut s = B2polygonShape::default();
    s.m_count = n;
    s.m_centroid = vec2("centroid");
    s.base.m_radius = nonneg("r");
    for i in 0..B2_MAX_POLYGON_VERTICES {
        s.m_vertices[i] = vec2(&format!("v{}", i));
        s.m_normals[i] = vec2(&format!("n{}", i));
    }
    let d = nonneg("density");
    // area integrals over the closed boundary (Green)
    let (mut a2, mut cx, mut cy, mut i12) = (0.0, 0.0, 0.0, 0.0);
    for i in 0..n {
        let (p, q) = (s.m_vertices[i], s.m_vertices[(i + 1) % n]);
        let k = cross(p, q);
        a2 += k;
        cx += k * (p.x + q.x);
        cy += k * (p.y + q.y);
        i12 += k * (len2(p) + dot(p, q) + len2(q));
    }
    assume(gt(a2, 2.0 * B2_EPSILON));
    let mut m = md();
    s.compute_mass(&mut m, d);
    ensure("polygon: mass is density times area", eq(m.mass, d * a2 / 2.0));
    ensure("polygon: centre of mass is the centroid of the area", eqv(m.center, B2vec2 { x: cx / (3.0 * a2), y: cy / (3.0 * a2) }));
    ensure("polygon: inertia about the body origin", eq(m.i, d * i12 / 12.0));
}
fn polygon_mass() {
    polygon_mass_n(3 + choose("vertices - 3", B2_MAX_POLYGON_VERTICES - 2));
}
fn line_mass() {
    let d = nonneg("density");
    let mut m = md();
    edge(vec2("v1"), vec2("v2")).compute_mass(&mut m, d);
    ensure("edge: no mass", and(&[eq(m.mass, 0.0), eq(m.i, 0.0)]));
    ensure("edge: centre of mass is its middle", eqv(m.center, scale(0.5, add(vec2("v1"), vec2("v2")))));
    let mut c = B2chainShape::default();
    c.m_vertices = (0..3).map(|i| vec2(&format!("w{}", i))).collect();
    let mut m = md();
    c.compute_mass(&mut m, d);
    ensure("chain: no mass", and(&[eq(m.mass, 0.0), eq(m.i, 0.0), eqv(m.center, zero2())]));
}
/// Stands for every shape: its mass data is arbitrary per unit of density (contract of compute_mass).
#[derive(Clone)]
struct AnyShape {
    base: B2Shape,
    m: f32,
    c: B2vec2,
    k: f32,
}
impl ToDerivedShape for AnyShape {
    fn as_derived(&self) -> ShapeAsDerived { panic!() }
    fn as_circle(&self) -> Option<&B2circleShape> { None }
    fn as_edge(&self) -> Option<&B2edgeShape> { None }
    fn as_polygon(&self) -> Option<&B2polygonShape> { None }
    fn as_chain(&self) -> Option<&B2chainShape> { None }
}
impl B2shapeDynTrait for AnyShape {
    fn get_base(&self) -> &B2Shape { &self.base }
    fn get_type(&self) -> B2ShapeType { B2ShapeType::ECircle }
    fn clone_box(&self) -> Box<dyn B2shapeDynTrait> { Box::new(self.clone()) }
    fn clone_rc(&self) -> ShapePtr { Rc::new(self.clone()) }
    fn get_child_count(&self) -> usize { 1 }
    fn test_point(&self, _: B2Transform, _: B2vec2) -> bool { false }
    fn ray_cast(&self, _: &mut B2rayCastOutput, _: &B2rayCastInput, _: B2Transform, _: usize) -> bool { false }
    fn compute_aabb(&self, aabb: &mut B2AABB, _: B2Transform, _: usize) {
        aabb.lower_bound = zero2();
        aabb.upper_bound = zero2();
    }
    fn compute_mass(&self, mass_data: &mut B2massData, density: f32) {
        mass_data.mass = density * self.m;
        mass_data.center = self.c;
        mass_data.i = density * self.m * (self.k + len2(self.c));
    }
}
fn any_shape(n: &str, massless: bool) -> AnyShape {
    let f = |s: &str| format!("{}.{}", n, s);
    AnyShape {
        base: B2Shape::default(),
        m: if massless { 0.0 } else { pos(&f("area")) },
        c: vec2(&f("c")),
        k: if massless { 0.0 } else { pos(&f("gyration2")) },
    }
}
struct Part { m: f32, c: B2vec2, i: f32 }
fn with_fixtures(b: &Body, n: usize, massless: &dyn Fn(usize) -> bool) -> Vec<Part> {
    let mut parts = vec![];
    b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    let mut made = vec![];
    for k in 0..n {
        let s = any_shape(&format!("f{}", k), massless(k));
        let zero = flag(&format!("f{} weightless", k));
        // added without density, then given one, so that the state before the recomputation stays arbitrary
        let mut fd = B2fixtureDef::default();
        fd.shape = Some(Rc::new(RefCell::new(s.clone())));
        fd.density = 0.0;
        // sensors have mass like any other fixture
        fd.is_sensor = k == 0 && flag("f0 is a sensor");
        let f = B2body::create_fixture(b.clone(), &fd);
        let d = if zero { 0.0 } else { pos(&format!("f{}.density", k)) };
        f.borrow_mut().set_density(d);
        ensure("density reads back", eq(f.borrow().get_density(), d));
        made.push((s, d));
    }
    b.borrow_mut().m_flags.insert(BodyFlags::E_ENABLED_FLAG);
    for (s, d) in made {
        if !s.m.is_lit_zero() && !d.is_lit_zero() {
            parts.push(Part { m: d * s.m, c: s.c, i: d * s.m * (s.k + len2(s.c)) });
        }
    }
    parts
}
trait LitZero { fn is_lit_zero(&self) -> bool; }
impl LitZero for f32 {
    fn is_lit_zero(&self) -> bool { known_eq(*self, 0.0) }
}
fn check_motion(old: &Snap, new: &Snap) {
    // the new centre is a material point of the body
    ensure("centre of mass of the body is the stored local one in its pose", eqv(new.sweep.c, apply(new.xf, new.sweep.local_center)));
    ensure("start of the sweep is moved too", eqv(new.sweep.c0, new.sweep.c));
    ensure("pose is kept", and(&[same_xf(old.xf, new.xf), eq(old.sweep.a, new.sweep.a)]));
    ensure("velocity of the material at the new centre is kept", eqv(new.v, vel_at(old, new.sweep.c)));
    ensure("angular velocity is kept", eq(new.w, old.w));
    ensure("loads and settings are kept", and(&[same_loads(old, new), same_settings(old, new), b_of(old.flags == new.flags)]));
}
fn body_mass_n(n: usize, massless: bool) {
    let w = world();
    let b = body_of(&w, "b", B2bodyType::B2DynamicBody);
    let parts = with_fixtures(&b, n, &|_| massless);
    let fixed = b.borrow().is_fixed_rotation();
    let old = snap(&b.borrow());
    b.borrow_mut().reset_mass_data();
    let new = snap(&b.borrow());
    let mut m = 0.0;
    let mut mc = zero2();
    let mut i = 0.0;
    for p in &parts {
        m = m + p.m;
        mc = add(mc, scale(p.m, p.c));
        i = i + p.i;
    }
    ensure("mass is the sum over the fixtures", eq(new.mass, m));
    ensure("get_mass agrees", eq(b.borrow().get_mass(), m));
    if parts.is_empty() {
        ensure("no mass: inverse values are zero", and(&[eq(new.inv_mass, 0.0), eq(new.inv_i, 0.0), eq(new.i, 0.0)]));
    } else {
        ensure("inverse mass matches", eq(new.inv_mass * m, 1.0));
        ensure("centre is the weighted mean", eqv(scale(m, new.sweep.local_center), mc));
        if fixed {
            ensure("fixed rotation: no rotational inertia", and(&[eq(new.i, 0.0), eq(new.inv_i, 0.0)]));
        } else {
            ensure("inertia is the sum moved to the centre of mass", eq(new.i * m, i * m - len2(mc)));
            ensure("inverse inertia matches", eq(new.inv_i * new.i, 1.0));
            ensure("inertia about the origin is the plain sum", eq(b.borrow().get_inertia(), i));
            let mut q = md();
            b.borrow().get_mass_data(&mut q);
            ensure("mass data reads back", and(&[eq(q.mass, m), eqv(scale(m, q.center), mc), eq(q.i, i)]));
        }
    }
    check_motion(&old, &new);
}
fn body_mass() {
    body_mass_n(choose("fixtures", 3), false);
}
fn body_mass_of_three() {
    body_mass_n(3, false);
}
fn body_mass_of_lines() {
    body_mass_n(1 + choose("fixtures", 2), true);
}
fn mass_of_immovable() {
    let w = world();
    let ty = if flag("static") { B2bodyType::B2StaticBody } else { B2bodyType::B2KinematicBody };
    let b = body_of(&w, "b", ty);
    with_fixtures(&b, 1, &|_| false);
    b.borrow_mut().reset_mass_data();
    let new = snap(&b.borrow());
    ensure("static and kinematic bodies have no mass", and(&[eq(new.mass, 0.0), eq(new.inv_mass, 0.0), eq(new.i, 0.0), eq(new.inv_i, 0.0)]));
    ensure("their centre is the origin", and(&[eqv(new.sweep.c, new.xf.p), eqv(new.sweep.c0, new.xf.p), eqv(new.sweep.local_center, zero2())]));
}
fn creating_updates_mass() {
    let w = world();
    let b = body_of(&w, "b", B2bodyType::B2DynamicBody);
    b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    let s = any_shape("f", false);
    let d = pos("density");
    let old = snap(&b.borrow());
    let f = B2body::create_fixture_by_shape(b.clone(), Rc::new(RefCell::new(s.clone())), d);
    let new = snap(&b.borrow());
    ensure("adding a fixture updates the mass", eq(new.mass, d * s.m));
    ensure("adding a fixture updates the centre", eqv(new.sweep.local_center, s.c));
    check_motion(&old, &new);
    B2body::destroy_fixture(b.clone(), f);
    let last = snap(&b.borrow());
    ensure("removing the last fixture leaves no mass", and(&[eq(last.mass, 0.0), eq(last.inv_mass, 0.0), eq(last.inv_i, 0.0)]));
    check_motion(&new, &last);
}
fn overriding_mass() {
    let w = world();
    let b = body_of(&w, "b", B2bodyType::B2DynamicBody);
    let fixed = b.borrow().is_fixed_rotation();
    let (m, c) = (var("m"), vec2("c"));
    let k = var("k");
    let mm = sel(gt(m, 0.0), m, 1.0);
    let i = k + mm * len2(c);
    // inertia about the origin exceeds that of the mass at the centre, unless there is none
    assume(or(&[gt(k, 0.0), le(i, 0.0)]));
    let old = snap(&b.borrow());
    b.borrow_mut().set_mass_data(&B2massData { mass: m, center: c, i });
    let new = snap(&b.borrow());
    ensure("mass is the given one, or one", eq(new.mass, mm));
    ensure("inverse mass matches the given", eq(new.inv_mass * mm, 1.0));
    ensure("centre is the given one", eqv(new.sweep.local_center, c));
    if fixed {
        ensure("fixed rotation: inertia stays zero", and(&[eq(new.i, 0.0), eq(new.inv_i, 0.0)]));
    } else {
        ensure("inertia is moved to the centre of mass", implies(gt(i, 0.0), and(&[eq(new.i, k), eq(new.inv_i * k, 1.0)])));
        ensure("no inertia given: none", implies(le(i, 0.0), and(&[eq(new.i, 0.0), eq(new.inv_i, 0.0)])));
    }
    check_motion(&old, &new);
}
fn overriding_immovable() {
    let w = world();
    let ty = if flag("static") { B2bodyType::B2StaticBody } else { B2bodyType::B2KinematicBody };
    let b = body_of(&w, "b", ty);
    let old = snap(&b.borrow());
    b.borrow_mut().set_mass_data(&B2massData { mass: var("m"), center: vec2("c"), i: var("i") });
    let new = snap(&b.borrow());
    ensure("mass of static and kinematic bodies cannot be overridden", and(&[same_mass(&old, &new), same_pose(&old, &new), same_vel(&old, &new)]));
}
fn fixed_rotation() {
    let w = world();
    let b = body_of(&w, "b", B2bodyType::B2DynamicBody);
    let parts = with_fixtures(&b, 1, &|_| false);
    let was = b.borrow().is_fixed_rotation();
    let to = flag("to");
    let old = snap(&b.borrow());
    b.borrow_mut().set_fixed_rotation(to);
    let new = snap(&b.borrow());
    ensure("fixed rotation reads back", b_of(b.borrow().is_fixed_rotation() == to));
    if was == to {
        ensure("no change keeps everything", and(&[same_mass(&old, &new), same_pose(&old, &new), same_vel(&old, &new)]));
    } else {
        ensure("changing it stops rotation", eq(new.w, 0.0));
        ensure("the centre keeps its velocity", eqv(new.v, old.v));
        if to {
            ensure("no rotational inertia", and(&[eq(new.i, 0.0), eq(new.inv_i, 0.0)]));
        } else if !parts.is_empty() {
            ensure("rotational inertia restored", and(&[gt(new.i, 0.0), eq(new.i * new.inv_i, 1.0)]));
        }
    }
}
use common::selection_bodies;
contracts! { circle_mass, polygon_mass, line_mass, body_mass, body_mass_of_three, body_mass_of_lines, mass_of_immovable, creating_updates_mass, overriding_mass, overriding_immovable, fixed_rotation, selection_bodies }
