#![allow(dead_code)]
//! Worlds, bodies and fixtures with symbolic contents.
pub use crate::common::*;
pub use box2d_rs::b2_body::*;
pub use box2d_rs::b2_collision::*;
pub use box2d_rs::b2_common::*;
pub use box2d_rs::b2_fixture::*;
pub use box2d_rs::b2_math::*;
pub use box2d_rs::b2_settings::*;
pub use box2d_rs::b2_shape::*;
pub use box2d_rs::b2_world::*;
pub use box2d_rs::b2rs_common::*;
pub use box2d_rs::shapes::b2_chain_shape::*;
pub use box2d_rs::shapes::b2_circle_shape::*;
pub use box2d_rs::shapes::b2_edge_shape::*;
pub use box2d_rs::shapes::b2_polygon_shape::*;
pub use std::cell::RefCell;
pub use std::rc::{Rc, Weak};

#[derive(Default, Clone, Debug)]
#[cfg_attr(feature = "serde_support", derive(serde::Serialize, serde::Deserialize))]
pub struct D;
impl UserDataType for D {
    type Fixture = i32;
    type Body = i32;
    type Joint = i32;
}
pub type World = B2worldPtr<D>;
pub type Body = BodyPtr<D>;

pub fn world() -> World {
    B2world::<D>::new(vec2("gravity"))
}
pub fn body_type(n: &str) -> B2bodyType {
    match choose(&format!("{} type", n), 3) {
        0 => B2bodyType::B2StaticBody,
        1 => B2bodyType::B2KinematicBody,
        _ => B2bodyType::B2DynamicBody,
    }
}
/// A body of the given type with an arbitrary state that respects the invariants of its type:
/// pose and sweep agree, inverse mass values match, only dynamic bodies have mass.
pub fn body_of(w: &World, n: &str, ty: B2bodyType) -> Body {
    let mut def = B2bodyDef::<D>::default();
    def.body_type = ty;
    def.position = zero2();
    let b = B2world::create_body(w.clone(), &def);
    {
        let mut b = b.borrow_mut();
        let f = |s: &str| format!("{}.{}", n, s);
        let a = var_hint(&f("angle"), -4.0, 4.0);
        b.m_sweep.local_center = vec2(&f("lc"));
        b.m_sweep.a = a;
        b.m_sweep.c = vec2(&f("c"));
        b.m_sweep.a0 = var_hint(&f("a0"), -4.0, 4.0);
        b.m_sweep.c0 = vec2(&f("c0"));
        b.m_sweep.alpha0 = 0.0;
        b.m_xf.q = B2Rot { s: a.sin(), c: a.cos() };
        b.m_xf.p = sub(b.m_sweep.c, rotv(b.m_xf.q, b.m_sweep.local_center));
        b.m_linear_velocity = vec2(&f("v"));
        b.m_angular_velocity = var(&f("w"));
        b.m_force = vec2(&f("force"));
        b.m_torque = var(&f("torque"));
        b.m_linear_damping = nonneg(&f("linear_damping"));
        b.m_angular_damping = nonneg(&f("angular_damping"));
        b.m_gravity_scale = var(&f("gravity_scale"));
        b.m_sleep_time = nonneg(&f("sleep_time"));
        match ty {
            B2bodyType::B2DynamicBody => {
                b.m_inv_mass = pos(&f("inv_mass"));
                b.m_mass = 1.0 / b.m_inv_mass;
                if flag(&f("fixed rotation")) {
                    b.m_flags.insert(BodyFlags::E_FIXED_ROTATION_FLAG);
                    b.m_inv_i = 0.0;
                    b.m_i = 0.0;
                } else {
                    b.m_inv_i = pos(&f("inv_i"));
                    b.m_i = 1.0 / b.m_inv_i;
                }
            }
            _ => {
                b.m_inv_mass = 0.0;
                b.m_mass = 0.0;
                b.m_inv_i = 0.0;
                b.m_i = 0.0;
            }
        }
        if ty == B2bodyType::B2StaticBody {
            b.m_linear_velocity = zero2();
            b.m_angular_velocity = 0.0;
            b.m_force = zero2();
            b.m_torque = 0.0;
            b.m_sweep.a0 = a;
            b.m_sweep.c0 = b.m_sweep.c;
        }
    }
    b
}
/// Numeric state of a body, to compare before and after.
#[derive(Clone, Copy)]
pub struct Snap {
    pub xf: B2Transform,
    pub sweep: B2Sweep,
    pub v: B2vec2,
    pub w: f32,
    pub force: B2vec2,
    pub torque: f32,
    pub mass: f32,
    pub inv_mass: f32,
    pub i: f32,
    pub inv_i: f32,
    pub ld: f32,
    pub ad: f32,
    pub gs: f32,
    pub sleep: f32,
    pub flags: u16,
    pub ty: B2bodyType,
}
pub fn snap(b: &B2body<D>) -> Snap {
    Snap {
        xf: b.m_xf,
        sweep: b.m_sweep,
        v: b.m_linear_velocity,
        w: b.m_angular_velocity,
        force: b.m_force,
        torque: b.m_torque,
        mass: b.m_mass,
        inv_mass: b.m_inv_mass,
        i: b.m_i,
        inv_i: b.m_inv_i,
        ld: b.m_linear_damping,
        ad: b.m_angular_damping,
        gs: b.m_gravity_scale,
        sleep: b.m_sleep_time,
        flags: b.m_flags.bits(),
        ty: b.m_type,
    }
}
pub fn same_xf(a: B2Transform, b: B2Transform) -> B {
    and(&[eqv(a.p, b.p), eq(a.q.s, b.q.s), eq(a.q.c, b.q.c)])
}
pub fn same_sweep(a: B2Sweep, b: B2Sweep) -> B {
    and(&[eqv(a.local_center, b.local_center), eqv(a.c, b.c), eqv(a.c0, b.c0), eq(a.a, b.a), eq(a.a0, b.a0), eq(a.alpha0, b.alpha0)])
}
pub fn same_pose(a: &Snap, b: &Snap) -> B {
    and(&[same_xf(a.xf, b.xf), same_sweep(a.sweep, b.sweep)])
}
pub fn same_vel(a: &Snap, b: &Snap) -> B {
    and(&[eqv(a.v, b.v), eq(a.w, b.w)])
}
pub fn same_loads(a: &Snap, b: &Snap) -> B {
    and(&[eqv(a.force, b.force), eq(a.torque, b.torque)])
}
pub fn same_mass(a: &Snap, b: &Snap) -> B {
    and(&[eq(a.mass, b.mass), eq(a.inv_mass, b.inv_mass), eq(a.i, b.i), eq(a.inv_i, b.inv_i)])
}
pub fn same_settings(a: &Snap, b: &Snap) -> B {
    and(&[eq(a.ld, b.ld), eq(a.ad, b.ad), eq(a.gs, b.gs)])
}
/// Velocity of the material of the body at a world point.
pub fn vel_at(s: &Snap, p: B2vec2) -> B2vec2 {
    add(s.v, sxv(s.w, sub(p, s.sweep.c)))
}
pub fn circle(c: B2vec2, r: f32) -> B2circleShape {
    let mut s = B2circleShape::default();
    s.m_p = c;
    s.base.m_radius = r;
    s
}
pub fn edge(v1: B2vec2, v2: B2vec2) -> B2edgeShape {
    let mut s = B2edgeShape::default();
    s.set_two_sided(v1, v2);
    s
}
/// A shape of any kind with arbitrary numbers.
pub fn shape_of(kind: usize, n: &str) -> ShapeDefPtr {
    let f = |s: &str| format!("{}.{}", n, s);
    match kind {
        0 => Rc::new(RefCell::new(circle(vec2(&f("c")), pos(&f("r"))))),
        1 => {
            let mut e = B2edgeShape::default();
            e.m_vertex0 = vec2(&f("v0"));
            e.m_vertex1 = vec2(&f("v1"));
            e.m_vertex2 = vec2(&f("v2"));
            e.m_vertex3 = vec2(&f("v3"));
            e.m_one_sided = flag(&f("one sided"));
            e.base.m_radius = pos(&f("r"));
            Rc::new(RefCell::new(e))
        }
        2 => {
            let mut p = B2polygonShape::default();
            p.m_count = 3 + choose(&f("count"), 6);
            for i in 0..p.m_count {
                p.m_vertices[i] = vec2(&format!("{}.v{}", n, i));
                p.m_normals[i] = vec2(&format!("{}.n{}", n, i));
            }
            p.m_centroid = vec2(&f("centroid"));
            p.base.m_radius = pos(&f("r"));
            Rc::new(RefCell::new(p))
        }
        _ => {
            let mut c = B2chainShape::default();
            for i in 0..2 + choose(&f("count"), 3) {
                c.m_vertices.push(vec2(&format!("{}.v{}", n, i)));
            }
            c.m_prev_vertex = vec2(&f("prev"));
            c.m_next_vertex = vec2(&f("next"));
            c.base.m_radius = pos(&f("r"));
            Rc::new(RefCell::new(c))
        }
    }
}
pub fn equal_shapes(o: &dyn B2shapeDynTrait, l: &dyn B2shapeDynTrait) {
    use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived as S;
    ensure("the kind of a shape is unchanged", b_of(o.get_type() == l.get_type()));
    ensure("the radius of a shape is unchanged", eq(o.get_base().m_radius, l.get_base().m_radius));
    match (o.as_derived(), l.as_derived()) {
        (S::AsCircle(a), S::AsCircle(b)) => ensure("the centre of a circle is unchanged", eqv(a.m_p, b.m_p)),
        (S::AsEdge(a), S::AsEdge(b)) => {
            ensure("the vertices of an edge are unchanged", and(&[eqv(a.m_vertex0, b.m_vertex0), eqv(a.m_vertex1, b.m_vertex1), eqv(a.m_vertex2, b.m_vertex2), eqv(a.m_vertex3, b.m_vertex3)]));
            ensure("an edge stays one or two sided", b_of(a.m_one_sided == b.m_one_sided));
        }
        (S::AsPolygon(a), S::AsPolygon(b)) => {
            ensure("a polygon keeps its number of vertices", b_of(a.m_count == b.m_count));
            ensure("the centroid of a polygon is unchanged", eqv(a.m_centroid, b.m_centroid));
            for i in 0..a.m_count {
                ensure("the vertices of a polygon are unchanged", eqv(a.m_vertices[i], b.m_vertices[i]));
                ensure("the normals of a polygon are unchanged", eqv(a.m_normals[i], b.m_normals[i]));
            }
        }
        (S::AsChain(a), S::AsChain(b)) => {
            ensure("a chain keeps its number of vertices", b_of(a.m_vertices.len() == b.m_vertices.len()));
            for i in 0..a.m_vertices.len().min(b.m_vertices.len()) {
                ensure("the vertices of a chain are unchanged", eqv(a.m_vertices[i], b.m_vertices[i]));
            }
            ensure("the ends of a chain are unchanged", and(&[eqv(a.m_prev_vertex, b.m_prev_vertex), eqv(a.m_next_vertex, b.m_next_vertex)]));
        }
        _ => ensure("the kind of a shape is unchanged", b_of(false)),
    }
}
pub use box2d_rs::b2_contact::*;
pub use box2d_rs::b2_contact_manager::*;
pub use box2d_rs::b2_time_step::*;
pub use box2d_rs::private::dynamics::b2_contact_solver::*;

/// A contact whose narrow phase returns any manifold (the contract of the collide functions).
pub struct AnyContact {
    pub base: B2contact<D>,
    pub result: B2manifold,
}
impl B2contactDynTrait<D> for AnyContact {
    fn get_base<'a>(&'a self) -> &'a B2contact<D> {
        &self.base
    }
    fn get_base_mut<'a>(&'a mut self) -> &'a mut B2contact<D> {
        &mut self.base
    }
    fn evaluate(&self, manifold: &mut B2manifold, _: &B2Transform, _: &B2Transform) {
        *manifold = self.result;
    }
}
pub fn fixture_on(b: &Body, n: &str) -> FixturePtr<D> {
    let enabled = b.borrow().is_enabled();
    b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    let mut fd = B2fixtureDef::default();
    fd.shape = Some(Rc::new(RefCell::new(circle(vec2(&format!("{}.centre", n)), nonneg(&format!("{}.radius", n))))));
    let f = B2body::create_fixture(b.clone(), &fd);
    if enabled {
        b.borrow_mut().m_flags.insert(BodyFlags::E_ENABLED_FLAG);
    }
    f
}
pub fn manifold_type(n: &str) -> B2manifoldType {
    match choose(n, 3) {
        0 => B2manifoldType::ECircles,
        1 => B2manifoldType::EFaceA,
        _ => B2manifoldType::EFaceB,
    }
}
/// Any manifold with the given number of points; face normals are unit vectors, stored impulses respect their signs.
pub fn any_manifold(n: &str, points: usize, mt: B2manifoldType) -> B2manifold {
    let f = |s: &str| format!("{}.{}", n, s);
    let mut m = B2manifold::default();
    m.manifold_type = mt;
    m.local_normal = unit(&f("normal"));
    m.local_point = vec2(&f("point"));
    m.point_count = points;
    for i in 0..2 {
        m.points[i].local_point = vec2(&f(&format!("p{}", i)));
        m.points[i].normal_impulse = nonneg(&f(&format!("ni{}", i)));
        m.points[i].tangent_impulse = var(&f(&format!("ti{}", i)));
        m.points[i].id.cf.index_a = i as u8;
    }
    m
}
pub fn any_contact(fa: &FixturePtr<D>, fb: &FixturePtr<D>, m: B2manifold) -> ContactPtr<D> {
    let base = B2contact::new(fa.clone(), 0, fb.clone(), 0);
    let c: ContactPtr<D> = Rc::new(RefCell::new(AnyContact { base, result: m }));
    c.borrow_mut().get_base_mut().m_manifold = m;
    c
}
pub fn time_step() -> B2timeStep {
    let dt = pos("dt");
    B2timeStep { dt, inv_dt: 1.0 / dt, dt_ratio: nonneg("dt_ratio"), velocity_iterations: 1, position_iterations: 1, warm_starting: flag("warm starting") }
}
pub fn tangent(n: B2vec2) -> B2vec2 {
    B2vec2 { x: n.y, y: -n.x }
}
/// Any vector, written in the frame of a unit vector and its perpendicular.
pub fn framed(nn: B2vec2, s: &str) -> B2vec2 {
    add(scale(var(&format!("{}.n", s)), nn), scale(var(&format!("{}.t", s)), tangent(nn)))
}
pub fn keff(ma: f32, ia: f32, mb: f32, ib: f32, a: (f32, f32), b: (f32, f32)) -> f32 {
    ma + mb + ia * a.0 * b.0 + ib * a.1 * b.1
}
/// Moves a body so that its centre of mass is at c.
pub fn place(b: &Body, c: B2vec2) {
    let mut b = b.borrow_mut();
    b.m_sweep.c = c;
    b.m_xf.p = sub(c, rotv(b.m_xf.q, b.m_sweep.local_center));
}
pub fn to_local(x: B2Transform, p: B2vec2) -> B2vec2 {
    let d = sub(p, x.p);
    B2vec2 { x: x.q.c * d.x + x.q.s * d.y, y: -x.q.s * d.x + x.q.c * d.y }
}
/// inverse mass and inertia of a body: dynamic, dynamic with fixed rotation, or immovable
pub fn inv(n: &str) -> (f32, f32) {
    match choose(&format!("{} kind", n), 3) {
        0 => (pos(&format!("{}.inv_mass", n)), pos(&format!("{}.inv_i", n))),
        1 => (pos(&format!("{}.inv_mass", n)), 0.0),
        _ => (0.0, 0.0),
    }
}
pub use box2d_rs::b2_joint::*;
pub use box2d_rs::private::dynamics::b2_island::*;

/// A joint that follows only the contract of a joint: it may change the velocities of its two
/// bodies in each velocity pass (here by given amounts) and says whether positions are fine.
pub struct AnyJoint {
    pub base: B2joint<D>,
    pub ok: bool,
    pub kick: (B2vec2, B2vec2),
    pub calls: [i32; 3],
    pub steps: Vec<B2timeStep>,
}
impl ToDerivedJoint<D> for AnyJoint {
    fn as_derived(&self) -> JointAsDerived<D> {
        panic!()
    }
    fn as_derived_mut(&mut self) -> JointAsDerivedMut<D> {
        panic!()
    }
}
impl B2jointTraitDyn<D> for AnyJoint {
    fn get_base(&self) -> &B2joint<D> {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2joint<D> {
        &mut self.base
    }
    fn get_anchor_a(&self) -> B2vec2 {
        zero2()
    }
    fn get_anchor_b(&self) -> B2vec2 {
        zero2()
    }
    fn get_reaction_force(&self, _: f32) -> B2vec2 {
        zero2()
    }
    fn get_reaction_torque(&self, _: f32) -> f32 {
        0.0
    }
    fn init_velocity_constraints(&mut self, d: &B2solverData, _: &[B2position], _: &mut [B2velocity]) {
        self.calls[0] += 1;
        self.steps.push(d.step);
    }
    fn solve_velocity_constraints(&mut self, _: &B2solverData, v: &mut [B2velocity]) {
        self.calls[1] += 1;
        let (a, b) = (self.base.m_body_a.borrow().m_island_index as usize, self.base.m_body_b.borrow().m_island_index as usize);
        v[a].v = add(v[a].v, self.kick.0);
        v[b].v = add(v[b].v, self.kick.1);
    }
    fn solve_position_constraints(&mut self, _: &B2solverData, _: &mut [B2position]) -> bool {
        self.calls[2] += 1;
        self.ok
    }
}
/// Connects two bodies in a world by such a joint.
pub fn join(w: &World, a: &Body, b: &Body, ok: bool) -> Rc<RefCell<AnyJoint>> {
    let mut jd = B2jointDef::<D>::default();
    jd.body_a = Some(a.clone());
    jd.body_b = Some(b.clone());
    let j = Rc::new(RefCell::new(AnyJoint { base: B2joint::new(&jd), ok, kick: (zero2(), zero2()), calls: [0; 3], steps: vec![] }));
    let d: B2jointPtr<D> = j.clone();
    w.borrow_mut().m_joint_list.push_front(d.clone());
    w.borrow_mut().m_joint_count += 1;
    let (ea, eb) = {
        let mk = |o: &Body| Rc::new(RefCell::new(B2jointEdge { joint: Rc::downgrade(&d), other: Rc::downgrade(o), prev: None, next: None }));
        (mk(b), mk(a))
    };
    j.borrow_mut().base.m_edge_a = Some(ea.clone());
    j.borrow_mut().base.m_edge_b = Some(eb.clone());
    a.borrow_mut().m_joint_list.push_front(ea);
    b.borrow_mut().m_joint_list.push_front(eb);
    j
}
