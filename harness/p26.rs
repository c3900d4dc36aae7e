mod common;
mod phys;
mod joints;
mod audit;
use audit::*;
use common::selection_bodies;
use joints::*;
use box2d_rs::b2_joint::*;
use box2d_rs::serialize::serialize_b2_world::B2worldDeserializeResult;

/// Saves the world and loads it, through a format that names its fields or one that relies on their order.
fn reload(w: &World) -> World {
    if flag("fields by name") {
        let s = serde_json::to_string(&*w.borrow()).unwrap();
        serde_json::from_str::<B2worldDeserializeResult<D>>(&s).unwrap().world
    } else {
        let s = bincode::serialize(&*w.borrow()).unwrap();
        bincode::deserialize::<B2worldDeserializeResult<D>>(&s).unwrap().world
    }
}
fn tagged_body(w: &World, tag: i32, ty: B2bodyType) -> Body {
    let n = format!("body{}", tag);
    let f = |s: &str| format!("{}.{}", n, s);
    let mut def = B2bodyDef::<D>::default();
    def.body_type = ty;
    def.position = vec2(&f("p"));
    def.angle = var_hint(&f("angle"), -4.0, 4.0);
    if ty != B2bodyType::B2StaticBody {
        def.linear_velocity = vec2(&f("v"));
        def.angular_velocity = var(&f("w"));
    }
    def.linear_damping = nonneg(&f("linear_damping"));
    def.angular_damping = nonneg(&f("angular_damping"));
    def.gravity_scale = var(&f("gravity_scale"));
    def.user_data = Some(tag);
    B2world::create_body(w.clone(), &def)
}
/// A body whose state is no longer the one it was created with.
fn moved_body(w: &World, tag: i32) -> Body {
    let ty = body_type(&format!("body{}", tag));
    let b = tagged_body(w, tag, ty);
    {
        let mut b = b.borrow_mut();
        let n = format!("body{} now", tag);
        let (p, a) = (vec2(&format!("{}.p", n)), var_hint(&format!("{}.angle", n), -4.0, 4.0));
        b.m_xf.p = p;
        b.m_xf.q = B2Rot { s: a.sin(), c: a.cos() };
        b.m_sweep.c = p;
        b.m_sweep.a = a;
        for (f, l) in [
            (BodyFlags::E_AUTO_SLEEP_FLAG, "allow sleep"),
            (BodyFlags::E_AWAKE_FLAG, "awake"),
            (BodyFlags::E_FIXED_ROTATION_FLAG, "fixed rotation"),
            (BodyFlags::E_BULLET_FLAG, "bullet"),
            (BodyFlags::E_ENABLED_FLAG, "enabled"),
        ] {
            let on = flag(l);
            // static bodies are never awake
            b.m_flags.set(f, on && !(ty == B2bodyType::B2StaticBody && l == "awake"));
        }
    }
    b
}
fn body_tag(b: &Body) -> Option<i32> {
    b.borrow().get_user_data()
}
fn find_body(w: &World, tag: i32) -> Body {
    let v: Vec<Body> = bodies(w).into_iter().filter(|b| body_tag(b) == Some(tag)).collect();
    ensure("each saved body is loaded once", b_of(v.len() == 1));
    if v.len() != 1 {
        abort_path();
    }
    v[0].clone()
}
fn find_joint(w: &World, tag: i32) -> B2jointPtr<D> {
    let v: Vec<B2jointPtr<D>> = joints_of(w).into_iter().filter(|j| j.borrow().get_base().get_user_data() == Some(tag)).collect();
    ensure("each saved joint is loaded once", b_of(v.len() == 1));
    if v.len() != 1 {
        abort_path();
    }
    v[0].clone()
}
fn same_body(o: &Body, l: &Body) {
    let (o, l) = (o.borrow(), l.borrow());
    ensure("the kind of a body is unchanged", b_of(o.get_type() == l.get_type()));
    ensure("the position of a body is unchanged", eqv(o.get_position(), l.get_position()));
    ensure("the angle of a body is unchanged", eq(o.get_angle(), l.get_angle()));
    ensure("the frame of a body is unchanged", same_xf(o.get_transform(), l.get_transform()));
    ensure("the velocity of a body is unchanged", and(&[eqv(o.get_linear_velocity(), l.get_linear_velocity()), eq(o.get_angular_velocity(), l.get_angular_velocity())]));
    ensure(
        "the settings of a body are unchanged",
        and(&[
            eq(o.get_linear_damping(), l.get_linear_damping()),
            eq(o.get_angular_damping(), l.get_angular_damping()),
            eq(o.get_gravity_scale(), l.get_gravity_scale()),
        ]),
    );
    ensure(
        "the flags of a body are unchanged",
        and(&[
            b_of(o.is_sleeping_allowed() == l.is_sleeping_allowed()),
            b_of(o.is_awake() == l.is_awake()),
            b_of(o.is_fixed_rotation() == l.is_fixed_rotation()),
            b_of(o.is_bullet() == l.is_bullet()),
            b_of(o.is_enabled() == l.is_enabled()),
        ]),
    );
}
fn body_values() {
    let w = quiet_world();
    let o = moved_body(&w, 7);
    let before = snap(&o.borrow());
    let l = reload(&w);
    ensure("gravity is unchanged", eqv(w.borrow().get_gravity(), l.borrow().get_gravity()));
    ensure("as many bodies are loaded as were saved", b_of(l.borrow().get_body_count() == 1 && bodies(&l).len() == 1));
    let b = find_body(&l, 7);
    same_body(&o, &b);
    let after = snap(&o.borrow());
    ensure("saving a world leaves it as it was", and(&[same_pose(&before, &after), same_vel(&before, &after), same_loads(&before, &after), same_mass(&before, &after), same_settings(&before, &after)]));
}
fn same_shape(o: &FixturePtr<D>, l: &FixturePtr<D>) {
    let (o, l) = (o.borrow(), l.borrow());
    let (o, l) = (o.get_shape(), l.get_shape());
    equal_shapes(&*o, &*l);
}
fn attach(b: &Body, tag: i16, kind: usize, density: f32) -> FixturePtr<D> {
    let n = format!("fixture{}", tag);
    let f = |s: &str| format!("{}.{}", n, s);
    let mut def = B2fixtureDef::<D>::default();
    def.shape = Some(shape_of(kind, &n));
    def.density = density;
    let x = B2body::create_fixture(b.clone(), &def);
    {
        let mut x = x.borrow_mut();
        x.m_friction = nonneg(&f("friction"));
        x.m_restitution = nonneg(&f("restitution"));
        x.m_restitution_threshold = nonneg(&f("threshold"));
        x.m_is_sensor = flag(&f("sensor"));
        x.m_filter.category_bits = 0x8421;
        x.m_filter.mask_bits = 0x1357;
        x.m_filter.group_index = tag;
    }
    x
}
fn same_fixture(o: &FixturePtr<D>, l: &FixturePtr<D>) {
    {
        let (o, l) = (o.borrow(), l.borrow());
        ensure(
            "the material of a fixture is unchanged",
            and(&[
                eq(o.get_friction(), l.get_friction()),
                eq(o.get_restitution(), l.get_restitution()),
                eq(o.get_restitution_threshold(), l.get_restitution_threshold()),
                eq(o.get_density(), l.get_density()),
            ]),
        );
        ensure("a fixture stays solid or a sensor", b_of(o.is_sensor() == l.is_sensor()));
        let (a, b) = (o.get_filter_data(), l.get_filter_data());
        ensure("the filter of a fixture is unchanged", b_of(a.category_bits == b.category_bits && a.mask_bits == b.mask_bits && a.group_index == b.group_index));
    }
    same_shape(o, l);
}
fn find_fixture(b: &Body, tag: i16) -> FixturePtr<D> {
    let v: Vec<_> = fixtures(b).into_iter().filter(|f| f.borrow().m_filter.group_index == tag).collect();
    ensure("each saved fixture is loaded once, on its own body", b_of(v.len() == 1));
    if v.len() != 1 {
        abort_path();
    }
    v[0].clone()
}
fn fixture_values() {
    let w = quiet_world();
    let ty = body_type("body");
    let o = tagged_body(&w, 7, ty);
    o.borrow_mut().m_flags.set(BodyFlags::E_ENABLED_FLAG, flag("enabled"));
    // a density that is saved without being turned into mass: mass is the subject of another contract
    let f = attach(&o, -3, choose("shape", 4), 0.0);
    if ty != B2bodyType::B2DynamicBody {
        f.borrow_mut().m_density = nonneg("density");
    }
    let l = reload(&w);
    let b = find_body(&l, 7);
    ensure("as many fixtures are loaded as were saved", b_of(fixtures(&b).len() == 1 && b.borrow().m_fixture_count == 1));
    same_body(&o, &b);
    same_fixture(&f, &find_fixture(&b, -3));
}
fn dynamic_fixture() {
    let w = quiet_world();
    let o = tagged_body(&w, 7, B2bodyType::B2DynamicBody);
    let f = attach(&o, -3, 0, pos("density"));
    let l = reload(&w);
    let b = find_body(&l, 7);
    same_body(&o, &b);
    same_fixture(&f, &find_fixture(&b, -3));
    let (o, b) = (o.borrow(), b.borrow());
    ensure("the mass of a body is unchanged", and(&[eq(o.get_mass(), b.get_mass()), eq(o.get_inertia(), b.get_inertia()), eqv(o.get_local_center(), b.get_local_center())]));
}
/// Every body of a larger world keeps its own fixtures.
fn many() {
    let w = quiet_world();
    let n = 1 + choose("bodies", 3);
    let mut all: Vec<(Body, Vec<FixturePtr<D>>)> = vec![];
    for i in 0..n {
        let b = tagged_body(&w, i as i32, B2bodyType::B2StaticBody);
        let m = choose(&format!("fixtures {}", i), 3);
        let mut fs = vec![];
        for k in 0..m {
            fs.push(attach(&b, (10 * i + k) as i16, 0, 0.0));
            fs[k].borrow_mut().m_is_sensor = k == 1;
        }
        all.push((b, fs));
    }
    let l = reload(&w);
    ensure("as many bodies are loaded as were saved", b_of(l.borrow().get_body_count() as usize == n && bodies(&l).len() == n));
    for (i, (o, fs)) in all.iter().enumerate() {
        let b = find_body(&l, i as i32);
        same_body(o, &b);
        ensure("as many fixtures are loaded as were saved", b_of(fixtures(&b).len() == fs.len() && b.borrow().m_fixture_count as usize == fs.len()));
        for f in fs {
            let g = find_fixture(&b, f.borrow().m_filter.group_index);
            same_fixture(f, &g);
        }
    }
}
macro_rules! agree {
    ($a:expr, $b:expr, [$($v:ident),*], [$($x:ident),*], [$($f:ident),*]) => {{
        let (a, b) = ($a, $b);
        let _ = (&a.base, &b.base);
        $( ensure(concat!("loaded as saved: ", stringify!($v)), eqv(a.$v, b.$v)); )*
        $( ensure(concat!("loaded as saved: ", stringify!($x)), eq(a.$x, b.$x)); )*
        $( ensure(concat!("loaded as saved: ", stringify!($f)), b_of(a.$f == b.$f)); )*
    }};
}
fn base(tag: i32, a: &Body, b: &Body, collide: bool) -> B2jointDef<D> {
    let mut d = B2jointDef::<D>::default();
    d.body_a = Some(a.clone());
    d.body_b = Some(b.clone());
    d.user_data = Some(tag);
    d.collide_connected = collide;
    d
}
fn with(mut d: B2jointDef<D>, t: B2jointType) -> B2jointDef<D> {
    d.jtype = t;
    d
}
/// A joint of the given kind with arbitrary settings.
fn make(w: &World, kind: usize, tag: i32, a: &Body, b: &Body, collide: bool) -> B2jointPtr<D> {
    let bs = base(tag, a, b, collide);
    let v = |s: &str| vec2(&format!("joint{}.{}", tag, s));
    let x = |s: &str| var(&format!("joint{}.{}", tag, s));
    let p = |s: &str| nonneg(&format!("joint{}.{}", tag, s));
    let g = |s: &str| flag(&format!("joint{} {}", tag, s));
    let def = match kind {
        0 => {
            let mut d = B2distanceJointDef::<D>::default();
            d.base = with(bs, B2jointType::EDistanceJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.length = p("length");
            d.min_length = p("min");
            d.max_length = d.min_length + p("span");
            d.stiffness = p("stiffness");
            d.damping = p("damping");
            B2JointDefEnum::DistanceJoint(d)
        }
        1 => {
            let mut d = B2frictionJointDef::<D>::default();
            d.base = with(bs, B2jointType::EFrictionJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.max_force = p("force");
            d.max_torque = p("torque");
            B2JointDefEnum::FrictionJoint(d)
        }
        2 => {
            let mut d = B2motorJointDef::<D>::default();
            d.base = with(bs, B2jointType::EMotorJoint);
            d.linear_offset = v("offset");
            d.angular_offset = x("angle");
            d.max_force = p("force");
            d.max_torque = p("torque");
            d.correction_factor = p("factor");
            B2JointDefEnum::MotorJoint(d)
        }
        3 => {
            let mut d = B2pulleyJointDef::<D>::default();
            d.base = with(bs, B2jointType::EPulleyJoint);
            d.ground_anchor_a = v("ga");
            d.ground_anchor_b = v("gb");
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.length_a = p("length a");
            d.length_b = p("length b");
            d.ratio = pos(&format!("joint{}.ratio", tag));
            B2JointDefEnum::PulleyJoint(d)
        }
        4 => {
            let mut d = B2revoluteJointDef::<D>::default();
            d.base = with(bs, B2jointType::ERevoluteJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.reference_angle = x("angle");
            d.enable_limit = g("limit");
            d.lower_angle = x("lower");
            d.upper_angle = d.lower_angle + p("span");
            d.enable_motor = g("motor");
            d.motor_speed = x("speed");
            d.max_motor_torque = p("torque");
            B2JointDefEnum::RevoluteJoint(d)
        }
        5 => {
            let mut d = B2prismaticJointDef::<D>::default();
            d.base = with(bs, B2jointType::EPrismaticJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.local_axis_a = unit(&format!("joint{}.axis", tag));
            d.reference_angle = x("angle");
            d.enable_limit = g("limit");
            d.lower_translation = x("lower");
            d.upper_translation = d.lower_translation + p("span");
            d.enable_motor = g("motor");
            d.motor_speed = x("speed");
            d.max_motor_force = p("force");
            B2JointDefEnum::PrismaticJoint(d)
        }
        6 => {
            let mut d = B2weldJointDef::<D>::default();
            d.base = with(bs, B2jointType::EWeldJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.reference_angle = x("angle");
            d.stiffness = p("stiffness");
            d.damping = p("damping");
            B2JointDefEnum::WeldJoint(d)
        }
        7 => {
            let mut d = B2wheelJointDef::<D>::default();
            d.base = with(bs, B2jointType::EWheelJoint);
            d.local_anchor_a = v("la");
            d.local_anchor_b = v("lb");
            d.local_axis_a = unit(&format!("joint{}.axis", tag));
            d.enable_limit = g("limit");
            d.lower_translation = x("lower");
            d.upper_translation = d.lower_translation + p("span");
            d.enable_motor = g("motor");
            d.motor_speed = x("speed");
            d.max_motor_torque = p("torque");
            d.stiffness = p("stiffness");
            d.damping = p("damping");
            B2JointDefEnum::WheelJoint(d)
        }
        _ => {
            let mut d = B2mouseJointDef::<D>::default();
            d.base = with(bs, B2jointType::EMouseJoint);
            d.target = v("target");
            d.max_force = p("force");
            d.stiffness = p("stiffness");
            d.damping = p("damping");
            B2JointDefEnum::MouseJoint(d)
        }
    };
    w.borrow_mut().create_joint(&def)
}
/// The loaded joint is the saved one: kind, bodies, every setting.
fn same_joint(o: &B2jointPtr<D>, l: &B2jointPtr<D>) {
    use JointAsDerived as J;
    let (o, l) = (o.borrow(), l.borrow());
    let (ob, lb) = (o.get_base(), l.get_base());
    ensure("the kind of a joint is unchanged", b_of(ob.get_type() == lb.get_type()));
    ensure(
        "a joint connects the same bodies in the same order",
        b_of(body_tag(&ob.get_body_a()) == body_tag(&lb.get_body_a()) && body_tag(&ob.get_body_b()) == body_tag(&lb.get_body_b())),
    );
    ensure("whether connected bodies collide is unchanged", b_of(ob.get_collide_connected() == lb.get_collide_connected()));
    match (o.as_derived(), l.as_derived()) {
        (J::EDistanceJoint(a), J::EDistanceJoint(b)) => {
            agree!(a, b, [m_local_anchor_a, m_local_anchor_b], [m_length, m_min_length, m_max_length, m_stiffness, m_damping], [])
        }
        (J::EFrictionJoint(a), J::EFrictionJoint(b)) => agree!(a, b, [m_local_anchor_a, m_local_anchor_b], [m_max_force, m_max_torque], []),
        (J::EMotorJoint(a), J::EMotorJoint(b)) => agree!(a, b, [m_linear_offset], [m_angular_offset, m_max_force, m_max_torque, m_correction_factor], []),
        (J::EPulleyJoint(a), J::EPulleyJoint(b)) => {
            agree!(a, b, [m_ground_anchor_a, m_ground_anchor_b, m_local_anchor_a, m_local_anchor_b], [m_length_a, m_length_b, m_ratio, m_constant], [])
        }
        (J::ERevoluteJoint(a), J::ERevoluteJoint(b)) => agree!(
            a,
            b,
            [m_local_anchor_a, m_local_anchor_b],
            [m_reference_angle, m_lower_angle, m_upper_angle, m_motor_speed, m_max_motor_torque],
            [m_enable_limit, m_enable_motor]
        ),
        (J::EPrismaticJoint(a), J::EPrismaticJoint(b)) => agree!(
            a,
            b,
            [m_local_anchor_a, m_local_anchor_b, m_local_xaxis_a, m_local_yaxis_a],
            [m_reference_angle, m_lower_translation, m_upper_translation, m_motor_speed, m_max_motor_force],
            [m_enable_limit, m_enable_motor]
        ),
        (J::EWeldJoint(a), J::EWeldJoint(b)) => agree!(a, b, [m_local_anchor_a, m_local_anchor_b], [m_reference_angle, m_stiffness, m_damping], []),
        (J::EWheelJoint(a), J::EWheelJoint(b)) => agree!(
            a,
            b,
            [m_local_anchor_a, m_local_anchor_b, m_local_xaxis_a, m_local_yaxis_a],
            [m_lower_translation, m_upper_translation, m_motor_speed, m_max_motor_torque, m_stiffness, m_damping],
            [m_enable_limit, m_enable_motor]
        ),
        (J::EGearJoint(a), J::EGearJoint(b)) => {
            let tag = |j: &B2jointPtr<D>| j.borrow().get_base().get_user_data();
            ensure("a gear connects the same joints in the same order", b_of(tag(&a.m_joint1) == tag(&b.m_joint1) && tag(&a.m_joint2) == tag(&b.m_joint2)));
            agree!(a, b, [m_local_anchor_a, m_local_anchor_b, m_local_anchor_c, m_local_anchor_d], [m_ratio], [])
        }
        _ => ensure("the kind of a joint is unchanged", b_of(false)),
    }
}
fn three(w: &World) -> Vec<Body> {
    (0..3).map(|i| tagged_body(w, i, B2bodyType::B2DynamicBody)).collect()
}
fn joint_values() {
    let w = quiet_world();
    let bs = three(&w);
    let j = make(&w, choose("kind", 8), 5, &bs[0], &bs[1], flag("collide"));
    let l = reload(&w);
    ensure("as many joints are loaded as were saved", b_of(l.borrow().get_joint_count() == 1 && joints_of(&l).len() == 1));
    same_joint(&j, &find_joint(&l, 5));
}
/// Any of three bodies connected to any other, by two joints created in either order.
fn connections() {
    let w = quiet_world();
    let bs = three(&w);
    let mut js = vec![];
    for k in 0..2 {
        let (a, d) = (choose(&format!("first body {}", k), 3), 1 + choose(&format!("second body {}", k), 2));
        js.push(make(&w, if k == 0 { 6 } else { 1 }, k, &bs[a], &bs[(a + d) % 3], false));
    }
    let l = reload(&w);
    ensure("as many joints are loaded as were saved", b_of(l.borrow().get_joint_count() == 2 && joints_of(&l).len() == 2));
    for k in 0..2 {
        same_joint(&js[k], &find_joint(&l, k as i32));
    }
    for b in &bs {
        let t = body_tag(b).unwrap();
        let lb = find_body(&l, t);
        ensure("a body is loaded with as many joints as it had", b_of(joint_edges(b).len() == joint_edges(&lb).len()));
    }
}
/// A gear over two of three joints; a mouse joint, which is not saved, may sit anywhere among them.
fn gears() {
    let w = quiet_world();
    let bs = three(&w);
    let mouse = choose("mouse", 5);
    let mut js = vec![];
    let first = choose("first joint", 3);
    let second = (first + 1 + choose("second joint", 2)) % 3;
    for k in 0..3 {
        if mouse == k {
            make(&w, 8, 99, &bs[0], &bs[1], false);
        }
        // the joint no gear uses is of another kind, so that it cannot stand in
        let kind = if k == first || k == second { 4 } else { 6 };
        let (a, b) = if k == first { (0, 1) } else { (0, 2) };
        js.push(make(&w, kind, k as i32, &bs[a], &bs[b], false));
    }
    for j in &js {
        match j.borrow_mut().as_derived_mut() {
            JointAsDerivedMut::ERevoluteJoint(j) => {
                j.m_enable_limit = true;
                j.m_enable_motor = false;
            }
            _ => (),
        }
    }
    let mut d = B2gearJointDef::<D>::default();
    d.base = with(base(50, &bs[1], &bs[2], false), B2jointType::EGearJoint);
    d.joint1 = Some(js[first].clone());
    d.joint2 = Some(js[second].clone());
    d.ratio = pos("ratio");
    let g = w.borrow_mut().create_joint(&B2JointDefEnum::GearJoint(d));
    if mouse == 3 {
        make(&w, 8, 99, &bs[0], &bs[1], false);
    }
    let l = reload(&w);
    ensure("as many joints are loaded as were saved", b_of(l.borrow().get_joint_count() == 4 && joints_of(&l).len() == 4));
    for k in 0..3 {
        same_joint(&js[k], &find_joint(&l, k as i32));
    }
    same_joint(&g, &find_joint(&l, 50));
}
fn empty() {
    let w = quiet_world();
    let l = reload(&w);
    ensure("gravity is unchanged", eqv(w.borrow().get_gravity(), l.borrow().get_gravity()));
    ensure("an empty world stays empty", b_of(bodies(&l).is_empty() && joints_of(&l).is_empty()));
}
contracts! { selection_bodies, body_values, fixture_values, dynamic_fixture, many, joint_values, connections, gears, empty }
