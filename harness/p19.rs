mod common;
mod phys;
use common::selection_bodies;
use phys::*;

/// A body of any type, awake or not (static bodies never are, sleepers are at rest).
fn any_body(w: &World) -> Body {
    let ty = body_type("b");
    let b = body_of(w, "b", ty);
    if ty == B2bodyType::B2StaticBody || flag("asleep") {
        let mut m = b.borrow_mut();
        m.m_flags.remove(BodyFlags::E_AWAKE_FLAG);
        m.m_linear_velocity = zero2();
        m.m_angular_velocity = 0.0;
        m.m_force = zero2();
        m.m_torque = 0.0;
    }
    b
}
fn same_flags_but(a: &Snap, b: &Snap, but: BodyFlags) -> B {
    b_of(a.flags & !but.bits() == b.flags & !but.bits())
}
fn loads() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let (f, at, tq) = (vec2("applied"), vec2("at"), var("turn"));
    let wake = flag("wake");
    let kind = choose("load", 6);
    {
        let mut m = b.borrow_mut();
        match kind {
            0 => m.apply_force(f, at, wake),
            1 => m.apply_force_to_center(f, wake),
            2 => m.apply_torque(tq, wake),
            3 => m.apply_linear_impulse(f, at, wake),
            4 => m.apply_linear_impulse_to_center(f, wake),
            _ => m.apply_angular_impulse(tq, wake),
        }
    }
    let t = snap(&b.borrow());
    let dynamic = s.ty == B2bodyType::B2DynamicBody;
    let was = s.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0;
    let acts = dynamic && (was || wake);
    let arm = cross(sub(at, s.sweep.c), f);
    let (mut force, mut torque, mut v, mut om) = (s.force, s.torque, s.v, s.w);
    if acts {
        match kind {
            0 => { force = add(force, f); torque = torque + arm; }
            1 => force = add(force, f),
            2 => torque = torque + tq,
            3 => { v = add(v, scale(s.inv_mass, f)); om = om + s.inv_i * arm; }
            4 => v = add(v, scale(s.inv_mass, f)),
            _ => om = om + s.inv_i * tq,
        }
    }
    ensure("force changes by exactly the applied one", eqv(t.force, force));
    ensure("torque changes by the moment about the centre of mass", eq(t.torque, torque));
    ensure("velocity changes by impulse over mass", eqv(t.v, v));
    ensure("spin changes by the moment over inertia", eq(t.w, om));
    ensure("pose, mass and settings stay", and(&[same_pose(&s, &t), same_mass(&s, &t), same_settings(&s, &t), same_flags_but(&s, &t, BodyFlags::E_AWAKE_FLAG)]));
    let now = t.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0;
    ensure("wakes only when asked", b_of(now == (was || (wake && dynamic))));
}
fn frames() {
    let w = world();
    let b = any_body(&w);
    let b = b.borrow();
    let s = snap(&b);
    let (p, v) = (vec2("p"), vec2("v"));
    ensure("world point", eqv(b.get_world_point(p), apply(s.xf, p)));
    ensure("world vector", eqv(b.get_world_vector(v), rotv(s.xf.q, v)));
    ensure("local point inverts world point", eqv(b.get_local_point(b.get_world_point(p)), p));
    ensure("world point inverts local point", eqv(b.get_world_point(b.get_local_point(p)), p));
    ensure("local vector inverts world vector", eqv(b.get_local_vector(b.get_world_vector(v)), v));
    ensure("world vector inverts local vector", eqv(b.get_world_vector(b.get_local_vector(v)), v));
    ensure("velocity at a world point", eqv(b.get_linear_velocity_from_world_point(p), vel_at(&s, p)));
    ensure("velocity at a local point", eqv(b.get_linear_velocity_from_local_point(p), vel_at(&s, apply(s.xf, p))));
    ensure("position is the origin", and(&[eqv(b.get_position(), s.xf.p), same_xf(b.get_transform(), s.xf)]));
    ensure("angle", eq(b.get_angle(), s.sweep.a));
    ensure("centre of mass", and(&[eqv(b.get_world_center(), apply(s.xf, s.sweep.local_center)), eqv(b.get_local_center(), s.sweep.local_center)]));
    ensure("velocities", and(&[eqv(b.get_linear_velocity(), s.v), eq(b.get_angular_velocity(), s.w)]));
}
fn placement() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let (p, a) = (vec2("p"), var_hint("to", -4.0, 4.0));
    b.borrow_mut().set_transform(p, a);
    let t = snap(&b.borrow());
    ensure("origin and angle are as set", and(&[eqv(t.xf.p, p), eq(t.xf.q.s, a.sin()), eq(t.xf.q.c, a.cos()), eq(t.sweep.a, a)]));
    ensure("the centre of mass follows", and(&[eqv(t.sweep.c, apply(t.xf, s.sweep.local_center)), eqv(t.sweep.local_center, s.sweep.local_center)]));
    ensure("no motion is left from the old place", and(&[eqv(t.sweep.c0, t.sweep.c), eq(t.sweep.a0, a)]));
    ensure("velocity, load and mass stay", and(&[same_vel(&s, &t), same_loads(&s, &t), same_mass(&s, &t), same_settings(&s, &t), b_of(s.flags == t.flags)]));
}
fn velocities() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let (v, om) = (vec2("to"), var("spin"));
    let lin = flag("linear");
    if lin { b.borrow_mut().set_linear_velocity(v) } else { b.borrow_mut().set_angular_velocity(om) }
    let t = snap(&b.borrow());
    let fixed = s.ty == B2bodyType::B2StaticBody;
    ensure("velocity is as set, except on static bodies", eqv(t.v, if fixed || !lin { s.v } else { v }));
    ensure("spin is as set, except on static bodies", eq(t.w, if fixed || lin { s.w } else { om }));
    let moving = if lin { not(and(&[eq(v.x, 0.0), eq(v.y, 0.0)])) } else { ne(om, 0.0) };
    let was = b_of(s.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0);
    let now = b_of(t.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0);
    ensure("a non-zero velocity wakes", iff(now, or(&[was, and(&[moving, b_of(!fixed)])])));
    ensure("nothing else changes", and(&[same_pose(&s, &t), same_loads(&s, &t), same_mass(&s, &t), same_settings(&s, &t), same_flags_but(&s, &t, BodyFlags::E_AWAKE_FLAG)]));
}
fn waking() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let on = flag("on");
    b.borrow_mut().set_awake(on);
    let t = snap(&b.borrow());
    let fixed = s.ty == B2bodyType::B2StaticBody;
    if fixed {
        ensure("a static body is never awake", b_of(!b.borrow().is_awake()));
    } else {
        ensure("awake state is as set", b_of(b.borrow().is_awake() == on));
        ensure("time to sleep restarts", eq(t.sleep, 0.0));
        if on {
            ensure("waking keeps motion and load", and(&[same_vel(&s, &t), same_loads(&s, &t)]));
        } else {
            ensure("sleep stops all motion and load", and(&[eqv(t.v, zero2()), eq(t.w, 0.0), eqv(t.force, zero2()), eq(t.torque, 0.0)]));
        }
    }
    ensure("nothing else changes", and(&[same_pose(&s, &t), same_mass(&s, &t), same_settings(&s, &t), same_flags_but(&s, &t, BodyFlags::E_AWAKE_FLAG)]));
}
fn settings() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let on = flag("on");
    let x = nonneg("value");
    let mut m = b.borrow_mut();
    let was = m.is_awake();
    match choose("setting", 5) {
        0 => {
            m.set_linear_damping(x);
            ensure("linear damping reads back", and(&[eq(m.get_linear_damping(), x), eq(m.get_angular_damping(), s.ad), eq(m.get_gravity_scale(), s.gs)]));
        }
        1 => {
            m.set_angular_damping(x);
            ensure("angular damping reads back", and(&[eq(m.get_angular_damping(), x), eq(m.get_linear_damping(), s.ld), eq(m.get_gravity_scale(), s.gs)]));
        }
        2 => {
            let g = var("g");
            m.set_gravity_scale(g);
            ensure("gravity scale reads back", and(&[eq(m.get_gravity_scale(), g), eq(m.get_linear_damping(), s.ld), eq(m.get_angular_damping(), s.ad)]));
        }
        3 => {
            m.set_bullet(on);
            ensure("bullet reads back", b_of(m.is_bullet() == on));
            let t = snap(&m);
            ensure("bullet changes no other flag", same_flags_but(&s, &t, BodyFlags::E_BULLET_FLAG));
        }
        _ => {
            m.set_sleeping_allowed(on);
            ensure("sleeping permission reads back", b_of(m.is_sleeping_allowed() == on));
            ensure("forbidding sleep wakes", b_of(m.is_awake() == (was || (!on && s.ty != B2bodyType::B2StaticBody))));
            let t = snap(&m);
            ensure("sleeping permission changes no other flag", same_flags_but(&s, &t, BodyFlags::E_AWAKE_FLAG | BodyFlags::E_AUTO_SLEEP_FLAG));
        }
    }
    let t = snap(&m);
    ensure("state is kept", and(&[same_pose(&s, &t), same_vel(&s, &t), same_loads(&s, &t), same_mass(&s, &t)]));
}
fn creation() {
    let w = world();
    let mut def = B2bodyDef::<D>::default();
    def.body_type = body_type("b");
    def.position = vec2("p");
    def.angle = var_hint("angle", -4.0, 4.0);
    def.linear_velocity = vec2("v");
    def.angular_velocity = var("w");
    def.linear_damping = nonneg("ld");
    def.angular_damping = nonneg("ad");
    def.gravity_scale = var("gs");
    let bits = choose("flags", 32);
    def.allow_sleep = bits & 1 != 0;
    def.awake = bits & 2 != 0;
    def.fixed_rotation = bits & 4 != 0;
    def.bullet = bits & 8 != 0;
    def.enabled = bits & 16 != 0;
    def.user_data = Some(7);
    let b = B2world::create_body(w.clone(), &def);
    let b = b.borrow();
    let s = snap(&b);
    ensure("pose is as defined", and(&[eqv(s.xf.p, def.position), eq(s.xf.q.s, def.angle.sin()), eq(s.xf.q.c, def.angle.cos()), eqv(s.sweep.c, def.position), eqv(s.sweep.c0, def.position), eq(s.sweep.a, def.angle), eq(s.sweep.a0, def.angle)]));
    ensure("velocity is as defined", and(&[eqv(s.v, def.linear_velocity), eq(s.w, def.angular_velocity)]));
    ensure("settings are as defined", and(&[eq(s.ld, def.linear_damping), eq(s.ad, def.angular_damping), eq(s.gs, def.gravity_scale), b_of(b.get_type() == def.body_type)]));
    ensure("flags are as defined", b_of(b.is_sleeping_allowed() == def.allow_sleep && b.is_fixed_rotation() == def.fixed_rotation && b.is_bullet() == def.bullet && b.is_enabled() == def.enabled));
    ensure("awake as defined unless static", b_of(b.is_awake() == (def.awake && def.body_type != B2bodyType::B2StaticBody)));
    ensure("no load, user data kept", and(&[eqv(s.force, zero2()), eq(s.torque, 0.0), b_of(b.get_user_data() == Some(7))]));
}
fn body_types() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let to = body_type("new");
    B2body::set_type(b.clone(), to);
    let t = snap(&b.borrow());
    ensure("type reads back", b_of(b.borrow().get_type() == to));
    ensure("the origin stays", and(&[same_xf(s.xf, t.xf), eq(t.sweep.a, s.sweep.a), eqv(t.sweep.c, apply(t.xf, t.sweep.local_center))]));
    if to == s.ty {
        ensure("same type changes nothing", and(&[same_pose(&s, &t), same_vel(&s, &t), same_loads(&s, &t), same_mass(&s, &t), b_of(s.flags == t.flags)]));
        return;
    }
    ensure("load is dropped", and(&[eqv(t.force, zero2()), eq(t.torque, 0.0)]));
    if to == B2bodyType::B2StaticBody {
        ensure("a static body is at rest and not awake", and(&[eqv(t.v, zero2()), eq(t.w, 0.0), eqv(t.sweep.c0, t.sweep.c), eq(t.sweep.a0, t.sweep.a), b_of(!b.borrow().is_awake())]));
    } else {
        ensure("a changed body is awake", b_of(b.borrow().is_awake()));
        ensure("spin stays", eq(t.w, s.w));
    }
    if to != B2bodyType::B2DynamicBody {
        ensure("only dynamic bodies have mass", and(&[eq(t.mass, 0.0), eq(t.inv_mass, 0.0), eq(t.i, 0.0), eq(t.inv_i, 0.0)]));
    }
    ensure("settings stay", and(&[same_settings(&s, &t), same_flags_but(&s, &t, BodyFlags::E_AWAKE_FLAG)]));
}
fn fixed_rotation() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    let on = flag("on");
    let was = b.borrow().is_fixed_rotation();
    b.borrow_mut().set_fixed_rotation(on);
    let t = snap(&b.borrow());
    ensure("fixed rotation reads back", b_of(b.borrow().is_fixed_rotation() == on));
    ensure("no other flag changes", same_flags_but(&s, &t, BodyFlags::E_FIXED_ROTATION_FLAG));
    if on != was {
        ensure("a change stops the spin", eq(t.w, 0.0));
        if on {
            ensure("fixed rotation has no inertia", and(&[eq(t.i, 0.0), eq(t.inv_i, 0.0)]));
        }
    } else {
        ensure("no change keeps the state", and(&[same_pose(&s, &t), same_vel(&s, &t), same_mass(&s, &t)]));
    }
    ensure("the origin and load stay", and(&[same_xf(s.xf, t.xf), same_loads(&s, &t), same_settings(&s, &t)]));
}
fn follow_sweep() {
    let w = world();
    let b = any_body(&w);
    let s = snap(&b.borrow());
    if flag("advance") {
        let al = var_hint("alpha", 0.0, 1.0);
        assume(and(&[ge(al, 0.0), le(al, 1.0)]));
        b.borrow_mut().advance(al);
        let t = snap(&b.borrow());
        ensure("advancing moves along the sweep", and(&[
            eqv(t.sweep.c, add(scale(1.0 - al, s.sweep.c0), scale(al, s.sweep.c))), eq(t.sweep.a, (1.0 - al) * s.sweep.a0 + al * s.sweep.a),
            eqv(t.sweep.c0, t.sweep.c), eq(t.sweep.a0, t.sweep.a)]));
        ensure("pose agrees with the sweep", and(&[eq(t.xf.q.s, t.sweep.a.sin()), eq(t.xf.q.c, t.sweep.a.cos()), eqv(apply(t.xf, t.sweep.local_center), t.sweep.c)]));
    } else {
        let a = var_hint("turned", -4.0, 4.0);
        { let mut m = b.borrow_mut(); m.m_sweep.a = a; m.m_sweep.c = vec2("moved"); m.synchronize_transform(); }
        let t = snap(&b.borrow());
        ensure("pose agrees with the sweep", and(&[eq(t.xf.q.s, a.sin()), eq(t.xf.q.c, a.cos()), eqv(apply(t.xf, t.sweep.local_center), vec2("moved"))]));
    }
}
contracts! { loads, frames, placement, velocities, waking, settings, creation, body_types, fixed_rotation, follow_sweep, selection_bodies }
