#![allow(dead_code)]
//! Two bodies connected by a joint of each kind, with symbolic geometry, settings and accumulated impulses.
pub use crate::phys::*;
pub use box2d_rs::joints::b2_distance_joint::*;
pub use box2d_rs::joints::b2_friction_joint::*;
pub use box2d_rs::joints::b2_gear_joint::*;
pub use box2d_rs::joints::b2_motor_joint::*;
pub use box2d_rs::joints::b2_mouse_joint::*;
pub use box2d_rs::joints::b2_prismatic_joint::*;
pub use box2d_rs::joints::b2_pulley_joint::*;
pub use box2d_rs::joints::b2_revolute_joint::*;
pub use box2d_rs::joints::b2_weld_joint::*;
pub use box2d_rs::joints::b2_wheel_joint::*;

/// The two bodies of a joint as the solver sees them.  `ra`, `rb` are the arms from the mass centres to the anchors and
/// `d` is the vector from the first anchor to the second, all in world coordinates.
pub struct Rig {
    pub w: World,
    pub a: Body,
    pub b: Body,
    pub ka: usize,
    pub kb: usize,
    pub ma: f32,
    pub ia: f32,
    pub mb: f32,
    pub ib: f32,
    pub ra: B2vec2,
    pub rb: B2vec2,
    pub d: B2vec2,
    pub qa: B2Rot,
    pub qb: B2Rot,
    pub pos: Vec<B2position>,
    pub data: B2solverData,
}
pub fn plain(w: &World, n: &str, k: usize, m: f32, i: f32) -> Body {
    let mut def = B2bodyDef::<D>::default();
    def.body_type = if known_eq(m, 0.0) { B2bodyType::B2StaticBody } else { B2bodyType::B2DynamicBody };
    let b = B2world::create_body(w.clone(), &def);
    {
        let mut b = b.borrow_mut();
        b.m_sweep.local_center = vec2(&format!("{}.lc", n));
        b.m_inv_mass = m;
        b.m_inv_i = i;
        b.m_island_index = k as i32;
    }
    b
}
pub fn step_data(warm: bool) -> B2solverData {
    let dt = pos("dt");
    B2solverData { step: B2timeStep { dt, inv_dt: 1.0 / dt, dt_ratio: nonneg("dt_ratio"), velocity_iterations: 1, position_iterations: 1, warm_starting: warm } }
}
pub fn rig(ra: B2vec2, rb: B2vec2, d: B2vec2, warm: bool) -> Rig {
    let (ma, ia) = inv("a");
    let (mb, ib) = inv("b");
    if known_eq(ma, 0.0) && known_eq(mb, 0.0) {
        abort_path();
    }
    let (ka, kb) = if flag("slots") { (2, 0) } else { (0, 1) };
    rig_of(ra, rb, d, warm, (ka, ma, ia), (kb, mb, ib))
}
pub fn rig_of(ra: B2vec2, rb: B2vec2, d: B2vec2, warm: bool, ia: (usize, f32, f32), ib: (usize, f32, f32)) -> Rig {
    let w = world();
    let a = plain(&w, "a", ia.0, ia.1, ia.2);
    let b = plain(&w, "b", ib.0, ib.1, ib.2);
    let (aa, ab) = (var_hint("a.angle", -4.0, 4.0), var_hint("b.angle", -4.0, 4.0));
    let qa = B2Rot { s: aa.sin(), c: aa.cos() };
    let qb = B2Rot { s: ab.sin(), c: ab.cos() };
    let ca = vec2("a.c");
    let cb = sub(add(add(ca, ra), d), rb);
    let mut pos: Vec<B2position> = (0..3).map(|i| B2position { c: vec2(&format!("c{}", i)), a: var(&format!("angle{}", i)) }).collect();
    pos[ia.0] = B2position { c: ca, a: aa };
    pos[ib.0] = B2position { c: cb, a: ab };
    // the bodies themselves are in the same pose (the queries use it)
    for (x, q, c, an) in [(&a, qa, ca, aa), (&b, qb, cb, ab)].iter() {
        let mut x = x.borrow_mut();
        let lc = x.m_sweep.local_center;
        x.m_sweep.c = *c;
        x.m_sweep.a = *an;
        x.m_xf.q = *q;
        x.m_xf.p = sub(*c, rotv(*q, lc));
    }
    Rig { w, a, b, ka: ia.0, kb: ib.0, ma: ia.1, ia: ia.2, mb: ib.1, ib: ib.2, ra, rb, d, qa, qb, pos, data: step_data(warm) }
}
pub fn back(q: B2Rot, v: B2vec2) -> B2vec2 {
    B2vec2 { x: q.c * v.x + q.s * v.y, y: -q.s * v.x + q.c * v.y }
}
impl Rig {
    pub fn la(&self) -> B2vec2 {
        add(self.a.borrow().m_sweep.local_center, back(self.qa, self.ra))
    }
    pub fn lb(&self) -> B2vec2 {
        add(self.b.borrow().m_sweep.local_center, back(self.qb, self.rb))
    }
    pub fn base(&self, t: B2jointType) -> B2jointDef<D> {
        let mut j = B2jointDef::<D>::default();
        j.jtype = t;
        j.body_a = Some(self.a.clone());
        j.body_b = Some(self.b.clone());
        j
    }
    /// velocities of the bodies when the arms are the usual ones
    pub fn rel(&self, arm_a: B2vec2, v: &[B2velocity]) -> B2vec2 {
        let (a, b) = (v[self.ka], v[self.kb]);
        sub(add(b.v, sxv(b.w, self.rb)), add(a.v, sxv(a.w, arm_a)))
    }
    /// Velocities change by the impulse p at arm `arm_a` of the first and `rb` of the second body, opposite, and by the
    /// opposite angular impulses l.
    pub fn pushed(&self, arm_a: B2vec2, p: B2vec2, l: f32, before: &[B2velocity], after: &[B2velocity]) {
        self.pushed_by(p, cross(arm_a, p) + l, p, cross(self.rb, p) + l, before, after);
    }
    pub fn pushed_by(&self, pa: B2vec2, la: f32, pb: B2vec2, lb: f32, before: &[B2velocity], after: &[B2velocity]) {
        ensure("first body changes only by the opposite impulse", and(&[
            eqv(after[self.ka].v, sub(before[self.ka].v, scale(self.ma, pa))), eq(after[self.ka].w, before[self.ka].w - self.ia * la)]));
        ensure("second body changes only by the impulse", and(&[
            eqv(after[self.kb].v, add(before[self.kb].v, scale(self.mb, pb))), eq(after[self.kb].w, before[self.kb].w + self.ib * lb)]));
        for k in 0..before.len() {
            if k != self.ka && k != self.kb {
                ensure("other bodies are untouched", and(&[eqv(after[k].v, before[k].v), eq(after[k].w, before[k].w)]));
            }
        }
    }
    /// determinant of the response at the common anchor
    pub fn point_response(&self) {
        let m = self.ma + self.mb;
        let x = cross(self.ra, self.rb);
        lemma("the anchor responds to impulses", gt(m * m + m * (self.ia * len2(self.ra) + self.ib * len2(self.rb)) + self.ia * self.ib * x * x, 0.0));
    }
}
/// response to an impulse along a unit direction at the given arms
pub fn line_k(r: &Rig, arm: B2vec2, n: B2vec2) -> f32 {
    let (a, b) = (cross(arm, n), cross(r.rb, n));
    r.ma + r.mb + r.ia * a * a + r.ib * b * b
}
pub fn line_response(r: &Rig, arm: B2vec2, n: B2vec2) {
    lemma("the line responds to impulses", gt(line_k(r, arm, n), 0.0));
}
pub fn vels(nn: B2vec2) -> Vec<B2velocity> {
    (0..3).map(|i| B2velocity { v: framed(nn, &format!("v{}", i)), w: var(&format!("w{}", i)) }).collect()
}
pub fn plain_vels() -> Vec<B2velocity> {
    (0..3).map(|i| B2velocity { v: vec2(&format!("v{}", i)), w: var(&format!("w{}", i)) }).collect()
}
/// a x b for a unit first axis turned by a right angle
pub fn perp(n: B2vec2) -> B2vec2 {
    B2vec2 { x: -n.y, y: n.x }
}
pub fn reaction<J: B2jointTraitDyn<D>>(j: &J) -> (B2vec2, f32) {
    (j.get_reaction_force(1.0), j.get_reaction_torque(1.0))
}
pub fn v0(n: usize) -> Vec<B2velocity> {
    vec![B2velocity { v: zero2(), w: 0.0 }; n]
}

// ---- joints of each kind on a rig

pub fn revolute(r: &Rig) -> B2revoluteJoint<D> {
    let mut d = B2revoluteJointDef::<D>::default();
    d.base = r.base(B2jointType::ERevoluteJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.reference_angle = var("reference");
    d.enable_limit = flag("limit");
    d.lower_angle = var("lower");
    d.upper_angle = d.lower_angle + nonneg("range");
    d.enable_motor = flag("motor");
    d.motor_speed = var("speed");
    d.max_motor_torque = nonneg("max_motor");
    B2revoluteJoint::new(&d)
}
/// an axis joint's world axis is `n`
pub fn prismatic(r: &Rig, n: B2vec2) -> B2prismaticJoint<D> {
    let mut d = B2prismaticJointDef::<D>::default();
    d.base = r.base(B2jointType::EPrismaticJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.local_axis_a = back(r.qa, n);
    d.reference_angle = var("reference");
    d.enable_limit = flag("limit");
    d.lower_translation = var("lower");
    d.upper_translation = d.lower_translation + nonneg("range");
    d.enable_motor = flag("motor");
    d.motor_speed = var("speed");
    d.max_motor_force = nonneg("max_motor");
    B2prismaticJoint::new(&d)
}
pub fn wheel(r: &Rig, n: B2vec2) -> B2wheelJoint<D> {
    let mut d = B2wheelJointDef::<D>::default();
    d.base = r.base(B2jointType::EWheelJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.local_axis_a = back(r.qa, n);
    d.enable_limit = flag("limit");
    d.lower_translation = var("lower");
    d.upper_translation = d.lower_translation + nonneg("range");
    d.enable_motor = flag("motor");
    d.motor_speed = var("speed");
    d.max_motor_torque = nonneg("max_motor");
    d.stiffness = if flag("spring") { pos("stiffness") } else { t0() };
    d.damping = nonneg("damping");
    B2wheelJoint::new(&d)
}
pub fn t0() -> f32 {
    0.0
}
pub fn distance(r: &Rig) -> B2distanceJoint<D> {
    let mut d = B2distanceJointDef::<D>::default();
    d.base = r.base(B2jointType::EDistanceJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    let mut j = B2distanceJoint::new(&d);
    j.m_length = pos("length");
    j.m_min_length = pos("min");
    j.m_max_length = if flag("range") { j.m_min_length + pos("slack") } else { j.m_min_length };
    j.m_stiffness = if flag("spring") { pos("stiffness") } else { t0() };
    j.m_damping = nonneg("damping");
    j
}
pub fn weld(r: &Rig) -> B2weldJoint<D> {
    let mut d = B2weldJointDef::<D>::default();
    d.base = r.base(B2jointType::EWeldJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.reference_angle = var("reference");
    d.stiffness = if flag("spring") { pos("stiffness") } else { t0() };
    d.damping = nonneg("damping");
    B2weldJoint::new(&d)
}
pub fn friction(r: &Rig) -> B2frictionJoint<D> {
    let mut d = B2frictionJointDef::<D>::default();
    d.base = r.base(B2jointType::EFrictionJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.max_force = nonneg("max_force");
    d.max_torque = nonneg("max_torque");
    B2frictionJoint::new(&d)
}
pub fn motor(r: &Rig) -> B2motorJoint<D> {
    let mut d = B2motorJointDef::<D>::default();
    d.base = r.base(B2jointType::EMotorJoint);
    // the target point of the second body's origin, seen from the first body's centre, is the first arm
    d.linear_offset = r.la();
    d.angular_offset = var("offset");
    d.max_force = nonneg("max_force");
    d.max_torque = nonneg("max_torque");
    d.correction_factor = nonneg("factor");
    B2motorJoint::new(&d)
}
pub fn mouse(r: &Rig) -> B2mouseJoint<D> {
    let mut d = B2mouseJointDef::<D>::default();
    d.base = r.base(B2jointType::EMouseJoint);
    d.max_force = nonneg("max_force");
    d.stiffness = nonneg("stiffness");
    d.damping = nonneg("damping");
    let mut j = B2mouseJoint::new(&d);
    j.m_local_anchor_b = r.lb();
    j.m_target_a = vec2("target");
    j
}
// ---- pulley: ropes along na and nb from the ground anchors
pub struct Pulley {
    pub r: Rig,
    pub j: B2pulleyJoint<D>,
    pub ua: B2vec2,
    pub ub: B2vec2,
}
pub fn pulley(warm: bool) -> Pulley {
    let (na, nb) = (unit("na"), unit("nb"));
    let r = rig(framed(na, "ra"), framed(nb, "rb"), vec2("d"), warm);
    let side = |n: &str, u: B2vec2| {
        let len = nonneg(&format!("{}.len", n));
        if flag(&format!("{} rope is short", n)) {
            assume(le(len, 10.0 * B2_LINEAR_SLOP));
            (scale(len, u), zero2())
        } else {
            assume(gt(len, 10.0 * B2_LINEAR_SLOP));
            (scale(len, u), u)
        }
    };
    let ((xa, ua), (xb, ub)) = (side("a", na), side("b", nb));
    let mut d = B2pulleyJointDef::<D>::default();
    d.base = r.base(B2jointType::EPulleyJoint);
    d.local_anchor_a = r.la();
    d.local_anchor_b = r.lb();
    d.ground_anchor_a = sub(add(r.pos[r.ka].c, r.ra), xa);
    d.ground_anchor_b = sub(add(r.pos[r.kb].c, r.rb), xb);
    d.length_a = nonneg("length_a");
    d.length_b = nonneg("length_b");
    d.ratio = pos("ratio");
    let j = B2pulleyJoint::new(&d);
    let (ca, cb) = (cross(r.ra, ua), cross(r.rb, ub));
    lemma("the ropes respond to impulses", gt(r.ma + r.ia * ca * ca + d.ratio * d.ratio * (r.mb + r.ib * cb * cb), 0.0));
    Pulley { r, j, ua, ub }
}
// ---- gear: joint 1 connects c and a, joint 2 connects d and b
pub struct Side {
    pub body: Body,
    pub ground: Body,
    pub k: usize,
    pub g: usize,
    /// direction and the two arms' moments per unit impulse
    pub r: B2vec2,
    pub rg: B2vec2,
    pub u: B2vec2,
    pub jw: f32,
    pub jg: f32,
    pub m: (f32, f32),
    pub mg: (f32, f32),
    pub joint: B2jointPtr<D>,
}
pub fn side(w: &World, n: &str, gn: &str, k: usize, g: usize, m: (f32, f32), mg: (f32, f32), pos: &mut Vec<B2position>, shared: Option<Body>) -> Side {
    let f = |x: &str| format!("{}.{}", n, x);
    let body = plain(w, n, k, m.0, m.1);
    let ground = match shared {
        Some(b) => b,
        None => plain(w, gn, g, mg.0, mg.1),
    };
    let an = var_hint(&f("angle"), -4.0, 4.0);
    let gan = var_hint(&format!("{}.angle", gn), -4.0, 4.0);
    pos[k] = B2position { c: vec2(&f("c")), a: an };
    pos[g] = B2position { c: vec2(&format!("{}.c", gn)), a: gan };
    let (q, qg) = (B2Rot { s: an.sin(), c: an.cos() }, B2Rot { s: gan.sin(), c: gan.cos() });
    for (b, x) in [(&body, pos[k]), (&ground, pos[g])].iter() {
        let mut b = b.borrow_mut();
        let lc = b.m_sweep.local_center;
        b.m_sweep.c = x.c;
        b.m_sweep.a = x.a;
        b.m_xf.q = B2Rot { s: x.a.sin(), c: x.a.cos() };
        b.m_xf.p = sub(x.c, rotv(b.m_xf.q, lc));
    }
    let dir = unit(&f("axis"));
    let (r, rg) = (framed(dir, &f("r")), framed(dir, &f("rg")));
    let la = add(ground.borrow().m_sweep.local_center, back(qg, rg));
    let lb = add(body.borrow().m_sweep.local_center, back(q, r));
    let mut base = B2jointDef::<D>::default();
    base.body_a = Some(ground.clone());
    base.body_b = Some(body.clone());
    if flag(&f("sliding")) {
        let mut d = B2prismaticJointDef::<D>::default();
        base.jtype = B2jointType::EPrismaticJoint;
        d.base = base;
        d.local_anchor_a = la;
        d.local_anchor_b = lb;
        d.local_axis_a = back(qg, dir);
        let joint: B2jointPtr<D> = Rc::new(RefCell::new(B2prismaticJoint::new(&d)));
        Side { body, ground, k, g, r, rg, u: dir, jw: cross(r, dir), jg: cross(rg, dir), m, mg, joint }
    } else {
        let mut d = B2revoluteJointDef::<D>::default();
        base.jtype = B2jointType::ERevoluteJoint;
        d.base = base;
        d.local_anchor_a = la;
        d.local_anchor_b = lb;
        d.reference_angle = var(&f("reference"));
        let joint: B2jointPtr<D> = Rc::new(RefCell::new(B2revoluteJoint::new(&d)));
        Side { body, ground, k, g, r, rg, u: zero2(), jw: 1.0, jg: 1.0, m, mg, joint }
    }
}
pub struct Gear {
    pub s: [Side; 2],
    pub j: B2gearJoint<D>,
    pub pos: Vec<B2position>,
    pub data: B2solverData,
    pub k: f32,
}
pub fn gear(warm: bool, shared: bool) -> Gear {
    let w = world();
    let mut p: Vec<B2position> = (0..5).map(|i| B2position { c: vec2(&format!("c{}", i)), a: var(&format!("angle{}", i)) }).collect();
    let wheel = |n: &str, fixed: bool| (pos(&format!("{}.inv_mass", n)), if fixed { t0() } else { pos(&format!("{}.inv_i", n)) });
    let fixed = flag("fixed rotation");
    let frame = shared || flag("frame moves");
    let fm = |n: &str| if frame { wheel(n, false) } else { (t0(), t0()) };
    let s1 = side(&w, "a", "c", 3, 0, wheel("a", fixed), fm("c"), &mut p, None);
    let s2 = if shared {
        side(&w, "b", "c", 1, 0, wheel("b", false), s1.mg, &mut p, Some(s1.ground.clone()))
    } else {
        side(&w, "b", "d", 1, 2, wheel("b", false), fm("d"), &mut p, None)
    };
    let mut d = B2gearJointDef::<D>::default();
    // the geared bodies are those of the two joints, whatever the definition names
    d.base.jtype = B2jointType::EGearJoint;
    if flag("definition names the frames") && !shared {
        d.base.body_a = Some(s1.ground.clone());
        d.base.body_b = Some(s2.ground.clone());
    } else {
        d.base.body_a = Some(s1.body.clone());
        d.base.body_b = Some(s2.body.clone());
    }
    d.joint1 = Some(s1.joint.clone());
    d.joint2 = Some(s2.joint.clone());
    d.ratio = var("ratio");
    let j = B2gearJoint::new(&d);
    let part = |s: &Side| {
        let lin = if s.u.is_zero() { t0() } else { s.m.0 + s.mg.0 };
        lin + s.m.1 * s.jw * s.jw + s.mg.1 * s.jg * s.jg
    };
    let k = part(&s1) + d.ratio * d.ratio * part(&s2);
    Gear { s: [s1, s2], j, pos: p, data: step_data(warm), k }
}
pub trait Z {
    fn is_zero(&self) -> bool;
}
impl Z for B2vec2 {
    fn is_zero(&self) -> bool {
        known_eq(self.x, 0.0) && known_eq(self.y, 0.0)
    }
}
