mod common;
mod phys;
mod joints;
use box2d_rs::b2_joint::*;
use common::selection_bodies;
use joints::*;

fn posed() -> Rig {
    let r = rig_of(vec2("ra"), vec2("rb"), vec2("d"), true, (0, pos("a.inv_mass"), pos("a.inv_i")), (1, pos("b.inv_mass"), pos("b.inv_i")));
    moving(&r);
    r
}
fn moving(r: &Rig) {
    for (n, x) in [("a", &r.a), ("b", &r.b)].iter() {
        let mut x = x.borrow_mut();
        x.m_linear_velocity = vec2(&format!("{}.v", n));
        x.m_angular_velocity = var(&format!("{}.w", n));
    }
}
fn anchor_a(r: &Rig) -> B2vec2 {
    add(r.pos[r.ka].c, r.ra)
}
fn anchor_b(r: &Rig) -> B2vec2 {
    add(r.pos[r.kb].c, r.rb)
}
fn anchors<J: B2jointTraitDyn<D>>(r: &Rig, j: &J) {
    ensure("anchors are the local anchors in the bodies' current poses", and(&[eqv(j.get_anchor_a(), anchor_a(r)), eqv(j.get_anchor_b(), anchor_b(r))]));
    whose(r, j);
}
fn whose<J: B2jointTraitDyn<D>>(r: &Rig, j: &J) {
    let b = j.get_base();
    ensure("the joint names its bodies", b_of(Rc::ptr_eq(&b.get_body_a(), &r.a) && Rc::ptr_eq(&b.get_body_b(), &r.b)));
}
/// rate of a value seen in the first body's frame: velocity of the second anchor relative to the first body, along the axis
fn axis_rate(r: &Rig, n: B2vec2) -> f32 {
    let (a, b) = (r.a.borrow(), r.b.borrow());
    let vb = add(b.m_linear_velocity, sxv(b.m_angular_velocity, r.rb));
    let va = add(a.m_linear_velocity, sxv(a.m_angular_velocity, add(r.ra, r.d)));
    dot(sub(vb, va), n)
}
fn spin(r: &Rig) -> f32 {
    r.b.borrow().m_angular_velocity - r.a.borrow().m_angular_velocity
}
fn turn(r: &Rig) -> f32 {
    r.pos[r.kb].a - r.pos[r.ka].a
}
fn revolute_queries() {
    let r = posed();
    let j = revolute(&r);
    anchors(&r, &j);
    ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb())]));
    ensure("joint angle", eq(j.get_joint_angle(), turn(&r) - j.get_reference_angle()));
    ensure("joint speed", eq(j.get_joint_speed(), spin(&r)));
    ensure("limit switch", b_of(j.is_limit_enabled() == j.m_enable_limit));
}
fn prismatic_queries() {
    let r = posed();
    let n = unit("axis");
    let j = prismatic(&r, n);
    anchors(&r, &j);
    ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb()), eqv(j.get_local_axis_a(), back(r.qa, n))]));
    ensure("joint translation", eq(j.get_joint_translation(), dot(r.d, n)));
    ensure("joint speed", eq(j.get_joint_speed(), axis_rate(&r, n)));
    ensure("reference angle", eq(j.get_reference_angle(), j.m_reference_angle));
}
fn wheel_queries() {
    let r = posed();
    let n = unit("axis");
    let j = wheel(&r, n);
    anchors(&r, &j);
    ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb()), eqv(j.get_local_axis_a(), back(r.qa, n))]));
    ensure("joint translation", eq(j.get_joint_translation(), dot(r.d, n)));
    ensure("joint linear speed", eq(j.get_joint_linear_speed(), axis_rate(&r, n)));
    ensure("joint angle", eq(j.get_joint_angle(), turn(&r)));
    ensure("joint angular speed", eq(j.get_joint_angular_speed(), spin(&r)));
}
fn distance_queries() {
    let len = nonneg("len");
    let r = rig_of(vec2("ra"), vec2("rb"), scale(len, unit("dir")), true, (0, pos("a.inv_mass"), pos("a.inv_i")), (1, pos("b.inv_mass"), pos("b.inv_i")));
    let j = distance(&r);
    anchors(&r, &j);
    ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb())]));
    ensure("current length", eq(j.get_current_length(), len));
    ensure("lengths", and(&[eq(j.get_length(), j.m_length), eq(j.get_min_length(), j.m_min_length), eq(j.get_max_length(), j.m_max_length)]));
}
fn pulley_queries() {
    let r = posed();
    let (la, lb) = (nonneg("la"), nonneg("lb"));
    let (ga, gb) = (sub(anchor_a(&r), scale(la, unit("ua"))), sub(anchor_b(&r), scale(lb, unit("ub"))));
    let mut d = B2pulleyJointDef::<D>::default();
    let ratio = pos("ratio");
    assume(gt(ratio, B2_EPSILON));
    d.initialize(r.a.clone(), r.b.clone(), ga, gb, anchor_a(&r), anchor_b(&r), ratio);
    let j = B2pulleyJoint::new(&d);
    anchors(&r, &j);
    ensure("ground anchors", and(&[eqv(j.get_ground_anchor_a(), ga), eqv(j.get_ground_anchor_b(), gb)]));
    ensure("rope lengths from the definition's anchors", and(&[eq(j.get_length_a(), la), eq(j.get_length_b(), lb)]));
    ensure("current rope lengths", and(&[eq(j.get_current_length_a(), la), eq(j.get_current_length_b(), lb)]));
    ensure("ratio", eq(j.get_ratio(), ratio));
    // later
    let m = vec2("moved");
    let p = r.a.borrow().m_xf.p;
    r.a.borrow_mut().m_xf.p = add(p, m);
    ensure("anchor follows the body", eqv(j.get_anchor_a(), add(anchor_a(&r), m)));
    ensure("the definition's rope lengths stay", and(&[eq(j.get_length_a(), la), eq(j.get_length_b(), lb)]));
    let now = add(scale(la, unit("ua")), m);
    ensure("current rope length follows the body", eq(j.get_current_length_a() * j.get_current_length_a(), len2(now)));
}
fn other_queries() {
    let r = posed();
    match choose("joint", 5) {
        0 => {
            let j = weld(&r);
            anchors(&r, &j);
            ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb())]));
            ensure("reference angle", eq(j.get_reference_angle(), j.m_reference_angle));
        }
        1 => {
            let j = friction(&r);
            anchors(&r, &j);
            ensure("local anchors are those of the definition", and(&[eqv(j.get_local_anchor_a(), r.la()), eqv(j.get_local_anchor_b(), r.lb())]));
        }
        2 => {
            let j = motor(&r);
            whose(&r, &j);
            ensure("motor joint anchors are the body origins", and(&[eqv(j.get_anchor_a(), r.a.borrow().m_xf.p), eqv(j.get_anchor_b(), r.b.borrow().m_xf.p)]));
        }
        3 => {
            let mut d = B2mouseJointDef::<D>::default();
            d.base = r.base(B2jointType::EMouseJoint);
            d.target = anchor_b(&r);
            d.max_force = nonneg("f");
            d.stiffness = nonneg("k");
            d.damping = nonneg("c");
            let mut j = B2mouseJoint::new(&d);
            whose(&r, &j);
            ensure("the body is held where the target was", and(&[eqv(j.get_anchor_b(), anchor_b(&r)), eqv(j.get_target(), anchor_b(&r)), eqv(j.get_anchor_a(), anchor_b(&r))]));
            ensure("mouse settings are those of the definition", and(&[eq(j.get_max_force(), d.max_force), eq(j.get_stiffness(), d.stiffness), eq(j.get_damping(), d.damping)]));
            let t = vec2("t");
            j.set_target(t);
            ensure("the held point stays when the target moves", and(&[eqv(j.get_anchor_b(), anchor_b(&r)), eqv(j.get_anchor_a(), t)]));
        }
        _ => {
            let mut base = r.base(B2jointType::EWeldJoint);
            base.collide_connected = flag("collide");
            let want = base.collide_connected;
            let mut d = B2weldJointDef::<D>::default();
            d.base = base;
            let j = B2weldJoint::new(&d);
            ensure("type and collision setting", b_of(j.get_base().get_type() == B2jointType::EWeldJoint && j.get_base().get_collide_connected() == want));
            let en = (flag("a enabled"), flag("b enabled"));
            for (e, x) in [(en.0, &r.a), (en.1, &r.b)].iter() {
                if !e {
                    x.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
                }
            }
            ensure("enabled while both bodies are", b_of(j.get_base().is_enabled() == (en.0 && en.1)));
        }
    }
}
/// Definitions made from world anchors.
fn definitions() {
    let r = posed();
    let x = vec2("anchor");
    let n = unit("axis");
    let both = |a: B2vec2, b: B2vec2| and(&[eqv(a, x), eqv(b, x)]);
    match choose("joint", 7) {
        0 => {
            let mut d = B2revoluteJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x);
            let j = B2revoluteJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", both(j.get_anchor_a(), j.get_anchor_b()));
            ensure("initialised angle is zero", eq(j.get_joint_angle(), 0.0));
            defaults(j.m_enable_limit, j.m_enable_motor);
        }
        1 => {
            let mut d = B2prismaticJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x, n);
            let j = B2prismaticJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", both(j.get_anchor_a(), j.get_anchor_b()));
            ensure("initialised axis", eqv(rotv(r.qa, j.get_local_axis_a()), n));
            ensure("initialised translation is zero", eq(j.get_joint_translation(), 0.0));
            ensure("initialised reference angle", eq(j.get_reference_angle(), turn(&r)));
            defaults(j.m_enable_limit, j.m_enable_motor);
        }
        2 => {
            let mut d = B2wheelJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x, n);
            let j = B2wheelJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", both(j.get_anchor_a(), j.get_anchor_b()));
            ensure("initialised axis", eqv(rotv(r.qa, j.get_local_axis_a()), n));
            ensure("initialised translation is zero", eq(j.get_joint_translation(), 0.0));
            defaults(j.m_enable_limit, j.m_enable_motor);
        }
        3 => {
            let mut d = B2weldJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x);
            let j = B2weldJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", both(j.get_anchor_a(), j.get_anchor_b()));
            ensure("initialised reference angle", eq(j.get_reference_angle(), turn(&r)));
        }
        4 => {
            let mut d = B2frictionJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x);
            let j = B2frictionJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", both(j.get_anchor_a(), j.get_anchor_b()));
        }
        5 => {
            let mut d = B2motorJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone());
            let j = B2motorJoint::new(&d);
            whose(&r, &j);
            let p = r.a.borrow().m_xf.p;
            ensure("initialised offsets are the current ones", and(&[eqv(add(p, rotv(r.qa, j.get_linear_offset())), r.b.borrow().m_xf.p), eq(j.get_angular_offset(), turn(&r))]));
        }
        _ => {
            let len = nonneg("len");
            let y = add(x, scale(len, n));
            let mut d = B2distanceJointDef::<D>::default();
            d.initialize(r.a.clone(), r.b.clone(), x, y);
            let j = B2distanceJoint::new(&d);
            whose(&r, &j);
            ensure("initialised anchors", and(&[eqv(j.get_anchor_a(), x), eqv(j.get_anchor_b(), y)]));
            let l = len.max(B2_LINEAR_SLOP);
            ensure("initialised lengths", and(&[eq(j.get_length(), l), eq(j.get_min_length(), l), eq(j.get_max_length(), l)]));
            ensure("current length", eq(j.get_current_length(), len));
        }
    }
}
fn defaults(limit: bool, motor: bool) {
    ensure("no limit and no motor unless asked for", b_of(!limit && !motor));
}
/// A joint starts from the values of its definition.
fn from_definition() {
    let r = posed();
    match choose("joint", 3) {
        0 => {
            let (mut d, f, g) = (B2revoluteJointDef::<D>::default(), flag("limit"), flag("motor"));
            d.base = r.base(B2jointType::ERevoluteJoint);
            d.enable_limit = f;
            d.enable_motor = g;
            d.lower_angle = var("lower");
            d.upper_angle = d.lower_angle + nonneg("range");
            d.motor_speed = var("speed");
            d.max_motor_torque = var("max");
            d.reference_angle = var("ref");
            let j = B2revoluteJoint::new(&d);
            ensure("settings of the definition", and(&[b_of(j.is_limit_enabled() == f && j.is_motor_enabled() == g), eq(j.get_lower_limit(), d.lower_angle),
                eq(j.get_upper_limit(), d.upper_angle), eq(j.get_motor_speed(), d.motor_speed), eq(j.get_max_motor_torque(), d.max_motor_torque), eq(j.get_reference_angle(), d.reference_angle)]));
            ensure("no impulses at first", none(&j));
        }
        1 => {
            let (mut d, f, g) = (B2prismaticJointDef::<D>::default(), flag("limit"), flag("motor"));
            d.base = r.base(B2jointType::EPrismaticJoint);
            d.enable_limit = f;
            d.enable_motor = g;
            d.lower_translation = var("lower");
            d.upper_translation = d.lower_translation + nonneg("range");
            d.motor_speed = var("speed");
            d.max_motor_force = var("max");
            d.reference_angle = var("ref");
            let j = B2prismaticJoint::new(&d);
            ensure("settings of the definition", and(&[b_of(j.m_enable_limit == f && j.is_motor_enabled() == g), eq(j.get_lower_limit(), d.lower_translation),
                eq(j.get_upper_limit(), d.upper_translation), eq(j.get_motor_speed(), d.motor_speed), eq(j.get_max_motor_force(), d.max_motor_force), eq(j.get_reference_angle(), d.reference_angle)]));
            ensure("no impulses at first", none(&j));
        }
        _ => {
            let (mut d, f, g) = (B2wheelJointDef::<D>::default(), flag("limit"), flag("motor"));
            d.base = r.base(B2jointType::EWheelJoint);
            d.enable_limit = f;
            d.enable_motor = g;
            d.lower_translation = var("lower");
            d.upper_translation = d.lower_translation + nonneg("range");
            d.motor_speed = var("speed");
            d.max_motor_torque = var("max");
            d.stiffness = var("k");
            d.damping = var("c");
            let j = B2wheelJoint::new(&d);
            ensure("settings of the definition", and(&[b_of(j.is_limit_enabled() == f && j.is_motor_enabled() == g), eq(j.get_lower_limit(), d.lower_translation),
                eq(j.get_upper_limit(), d.upper_translation), eq(j.get_motor_speed(), d.motor_speed), eq(j.get_max_motor_torque(), d.max_motor_torque),
                eq(j.get_stiffness(), d.stiffness), eq(j.get_damping(), d.damping)]));
            ensure("no impulses at first", none(&j));
        }
    }
}
fn from_definition_soft() {
    let r = posed();
    match choose("joint", 4) {
        0 => {
            let mut d = B2distanceJointDef::<D>::default();
            d.base = r.base(B2jointType::EDistanceJoint);
            d.length = var("len");
            d.min_length = var("min");
            d.max_length = var("max");
            d.stiffness = var("k");
            d.damping = var("c");
            let j = B2distanceJoint::new(&d);
            let lo = d.min_length.max(B2_LINEAR_SLOP);
            ensure("settings of the definition", and(&[eq(j.get_length(), d.length.max(B2_LINEAR_SLOP)), eq(j.get_min_length(), lo), eq(j.get_max_length(), d.max_length.max(lo)),
                eq(j.get_stiffness(), d.stiffness), eq(j.get_damping(), d.damping)]));
            ensure("no impulses at first", none(&j));
        }
        1 => {
            let mut d = B2weldJointDef::<D>::default();
            d.base = r.base(B2jointType::EWeldJoint);
            d.reference_angle = var("ref");
            d.stiffness = var("k");
            d.damping = var("c");
            let j = B2weldJoint::new(&d);
            ensure("settings of the definition", and(&[eq(j.get_reference_angle(), d.reference_angle), eq(j.get_stiffness(), d.stiffness), eq(j.get_damping(), d.damping)]));
            ensure("no impulses at first", none(&j));
        }
        2 => {
            let mut d = B2frictionJointDef::<D>::default();
            d.base = r.base(B2jointType::EFrictionJoint);
            d.max_force = var("f");
            d.max_torque = var("t");
            let j = B2frictionJoint::new(&d);
            ensure("settings of the definition", and(&[eq(j.get_max_force(), d.max_force), eq(j.get_max_torque(), d.max_torque)]));
            ensure("no impulses at first", none(&j));
        }
        _ => {
            let mut d = B2motorJointDef::<D>::default();
            d.base = r.base(B2jointType::EMotorJoint);
            d.linear_offset = vec2("off");
            d.angular_offset = var("ang");
            d.max_force = var("f");
            d.max_torque = var("t");
            d.correction_factor = var("c");
            let j = B2motorJoint::new(&d);
            ensure("settings of the definition", and(&[eqv(j.get_linear_offset(), d.linear_offset), eq(j.get_angular_offset(), d.angular_offset), eq(j.get_max_force(), d.max_force),
                eq(j.get_max_torque(), d.max_torque), eq(j.get_correction_factor(), d.correction_factor)]));
            ensure("no impulses at first", none(&j));
        }
    }
}
fn none<J: B2jointTraitDyn<D>>(j: &J) -> B {
    let (f, t) = reaction(j);
    and(&[eqv(f, zero2()), eq(t, 0.0)])
}
// ---- reactions: the impulses of the last step times the inverse time step
fn reacts<J: B2jointTraitDyn<D>>(j: &J, p: B2vec2, l: f32) {
    let h = pos("inv_dt");
    ensure("reaction force is the accumulated impulse per time", eqv(j.get_reaction_force(h), scale(h, p)));
    ensure("reaction torque is the accumulated angular impulse per time", eq(j.get_reaction_torque(h), h * l));
}
fn solve_rig(d: B2vec2, ra: B2vec2, rb: B2vec2) -> Rig {
    rig_of(ra, rb, d, true, (0, pos("a.inv_mass"), pos("a.inv_i")), (1, pos("b.inv_mass"), pos("b.inv_i")))
}
/// The reaction is what the joint really did to the second body since its impulses were empty.
fn did(r: &Rig, j: &dyn B2jointTraitDyn<D>, p: B2vec2, l: f32) {
    let _ = r;
    let h = pos("inv_dt");
    ensure("reaction force is the accumulated impulse per time", eqv(j.get_reaction_force(h), scale(h, p)));
    ensure("reaction torque is the accumulated angular impulse per time", eq(j.get_reaction_torque(h), h * l));
}
fn reactions() {
    let n = unit("axis");
    let (lo, up, mo) = (nonneg("pl"), nonneg("pu"), var("pm"));
    match choose("joint", 8) {
        0 => {
            let r = solve_rig(zero2(), vec2("ra"), vec2("rb"));
            let mut j = revolute(&r);
            j.m_impulse = vec2("p");
            j.m_lower_impulse = lo;
            j.m_upper_impulse = up;
            j.m_motor_impulse = mo;
            did(&r, &j, vec2("p"), mo + lo - up);
            ensure("motor torque", eq(j.get_motor_torque(pos("inv_dt")), pos("inv_dt") * mo));
        }
        1 => {
            let r = solve_rig(framed(n, "d"), framed(n, "ra"), framed(n, "rb"));
            let mut j = prismatic(&r, n);
            domain_checks(false);
            j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
            let p = vec2("p");
            j.m_impulse = p;
            j.m_lower_impulse = lo;
            j.m_upper_impulse = up;
            j.m_motor_impulse = mo;
            did(&r, &j, add(scale(p.x, perp(n)), scale(mo + lo - up, n)), p.y);
            ensure("motor force", eq(j.get_motor_force(pos("inv_dt")), pos("inv_dt") * mo));
        }
        2 => {
            let r = solve_rig(framed(n, "d"), framed(n, "ra"), framed(n, "rb"));
            let mut j = wheel(&r, n);
            domain_checks(false);
            j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
            let (p, s) = (var("p"), var("ps"));
            j.m_impulse = p;
            j.m_spring_impulse = s;
            j.m_lower_impulse = lo;
            j.m_upper_impulse = up;
            j.m_motor_impulse = mo;
            did(&r, &j, add(scale(p, perp(n)), scale(s + lo - up, n)), mo);
            ensure("motor torque", eq(j.get_motor_torque(pos("inv_dt")), pos("inv_dt") * mo));
        }
        3 => {
            let len = pos("len");
            assume(gt(len, B2_LINEAR_SLOP));
            let r = solve_rig(scale(len, n), framed(n, "ra"), framed(n, "rb"));
            let mut j = distance(&r);
            domain_checks(false);
            j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
            j.m_impulse = var("p");
            j.m_lower_impulse = lo;
            j.m_upper_impulse = up;
            did(&r, &j, scale(var("p") + lo - up, n), t0());
        }
        4 => {
            let r = posed();
            let mut j = weld(&r);
            j.m_impulse = vec3("p");
            let p = j.m_impulse;
            did(&r, &j, B2vec2 { x: p.x, y: p.y }, p.z);
        }
        5 => {
            let r = posed();
            let mut j = friction(&r);
            j.m_linear_impulse = vec2("p");
            j.m_angular_impulse = var("l");
            did(&r, &j, vec2("p"), var("l"));
        }
        6 => {
            let r = posed();
            let mut j = motor(&r);
            j.m_linear_impulse = vec2("p");
            j.m_angular_impulse = var("l");
            did(&r, &j, vec2("p"), var("l"));
        }
        _ => {
            let r = posed();
            let mut j = mouse(&r);
            j.m_impulse = vec2("p");
            did(&r, &j, vec2("p"), t0());
        }
    }
}
fn gear_queries() {
    let mut g = gear(true, false);
    domain_checks(false);
    g.j.init_velocity_constraints(&g.data, &g.pos, &mut v0(5));
    let p = var("p");
    g.j.m_impulse = p;
    reacts(&g.j, scale(p, g.s[0].u), p * g.s[0].jw);
    ensure("ratio", eq(g.j.get_ratio(), g.j.m_ratio));
    let q = var("q");
    g.j.set_ratio(q);
    ensure("a new ratio is stored", eq(g.j.get_ratio(), q));
    ensure("the geared joints are reported", b_of(Rc::ptr_eq(&g.j.get_joint1(), &g.s[0].joint) && Rc::ptr_eq(&g.j.get_joint2(), &g.s[1].joint)));
    let at = |s: &Side| add(g.pos[s.k].c, s.r);
    ensure("anchors are those of the geared bodies", and(&[eqv(g.j.get_anchor_a(), at(&g.s[0])), eqv(g.j.get_anchor_b(), at(&g.s[1]))]));
}
/// A gear joint keeps the sum of its coordinates at creation.
fn gear_creation() {
    let g = gear(true, false);
    let coord = |s: &Side, reference: f32| {
        if s.u.is_zero() {
            g.pos[s.k].a - g.pos[s.g].a - reference
        } else {
            dot(sub(add(g.pos[s.k].c, s.r), add(g.pos[s.g].c, s.rg)), s.u)
        }
    };
    let c = coord(&g.s[0], g.j.m_reference_angle_a) + g.j.m_ratio * coord(&g.s[1], g.j.m_reference_angle_b);
    ensure("the geared sum is that at creation", eq(g.j.m_constant, c));
}
fn pulley_reaction() {
    let mut p = pulley(true);
    p.j.init_velocity_constraints(&p.r.data, &p.r.pos, &mut v0(3));
    let l = var("p");
    p.j.m_impulse = l;
    reacts(&p.j, scale(l, p.ub), t0());
}
fn stiffness() {
    let w = world();
    let m = |n: &str| if flag(&format!("{} is movable", n)) { (pos(&format!("{}.m", n)), pos(&format!("{}.i", n))) } else { (t0(), t0()) };
    let (ma, mb) = (m("a"), m("b"));
    let mk = |n: &str, m: (f32, f32)| {
        let b = plain(&w, n, 0, m.0, m.1);
        b.borrow_mut().m_mass = m.0;
        b.borrow_mut().m_i = m.1;
        b.borrow_mut().m_sweep.local_center = zero2();
        b
    };
    let (a, b) = (mk("a", ma), mk("b", mb));
    let (hz, ratio) = (nonneg("hz"), nonneg("ratio"));
    let (mut k, mut c) = (t0(), t0());
    b2_linear_stiffness(&mut k, &mut c, hz, ratio, a.clone(), b.clone());
    let (mut ka, mut ca) = (t0(), t0());
    b2_angular_stiffness(&mut ka, &mut ca, hz, ratio, a.clone(), b.clone());
    let reduced = |x: f32, y: f32| {
        if known_eq(x, 0.0) {
            y
        } else if known_eq(y, 0.0) {
            x
        } else {
            x * y / (x + y)
        }
    };
    let w = 2.0 * B2_PI * hz;
    let (m, i) = (reduced(ma.0, mb.0), reduced(ma.1, mb.1));
    ensure("spring of the given frequency and damping ratio", and(&[eq(k, m * w * w), eq(c, 2.0 * m * ratio * w)]));
    ensure("angular spring of the given frequency and damping ratio", and(&[eq(ka, i * w * w), eq(ca, 2.0 * i * ratio * w)]));
}
contracts! {
    selection_bodies,
    revolute_queries, prismatic_queries, wheel_queries, distance_queries, pulley_queries, other_queries,
    definitions, from_definition, from_definition_soft, reactions, gear_queries, gear_creation, pulley_reaction, stiffness,
}
