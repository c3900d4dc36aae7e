mod audit;
mod common;
mod phys;
use audit::*;
use common::selection_bodies;

/// A body of any type with any of the flags that matter for a step.
fn stepped(w: &World, n: &str, ty: B2bodyType) -> Body {
    let b = body_of(w, n, ty);
    if ty == B2bodyType::B2StaticBody {
        b.borrow_mut().m_flags.remove(BodyFlags::E_AWAKE_FLAG);
    }
    b
}
fn put_to_sleep(b: &Body) {
    let mut m = b.borrow_mut();
    m.m_flags.remove(BodyFlags::E_AWAKE_FLAG);
    m.m_linear_velocity = zero2();
    m.m_angular_velocity = 0.0;
    m.m_force = zero2();
    m.m_torque = 0.0;
}
fn quiet() {
    summaries(false);
}
/// Velocity after gravity, load and damping.
fn accelerated(s: &Snap, h: f32, g: B2vec2) -> (B2vec2, f32) {
    if s.ty != B2bodyType::B2DynamicBody {
        return (s.v, s.w);
    }
    let a = add(scale(s.gs, g), scale(s.inv_mass, s.force));
    (scale(1.0 / (1.0 + h * s.ld), add(s.v, scale(h, a))), (s.w + h * s.inv_i * s.torque) / (1.0 + h * s.ad))
}
/// Limits of what one step may move.
fn capped(v: B2vec2, w: f32, h: f32) -> (B2vec2, f32) {
    let tr = scale(h, v);
    let v = if dot(tr, tr) > B2_MAX_TRANSLATION * B2_MAX_TRANSLATION { scale(B2_MAX_TRANSLATION / len2(tr).sqrt(), v) } else { v };
    let r = h * w;
    let w = if r * r > B2_MAX_ROTATION * B2_MAX_ROTATION { if r > 0.0 { B2_MAX_ROTATION / h } else { -B2_MAX_ROTATION / h } } else { w };
    (v, w)
}
fn moved(s: &Snap, t: &Snap, v: B2vec2, w: f32, h: f32, sleeps: bool) {
    if sleeps {
        ensure("a body that falls asleep stops", and(&[eqv(t.v, zero2()), eq(t.w, 0.0)]));
    } else {
        ensure("velocity after the step", and(&[eqv(t.v, v), eq(t.w, w)]));
    }
    ensure("the centre of mass advances by step times velocity", eqv(t.sweep.c, add(s.sweep.c, scale(h, v))));
    ensure("the angle advances by step times spin", eq(t.sweep.a, s.sweep.a + h * w));
    ensure("the start of the motion is recorded", and(&[eqv(t.sweep.c0, s.sweep.c), eq(t.sweep.a0, s.sweep.a)]));
    ensure("pose follows the centre", and(&[eq(t.xf.q.s, t.sweep.a.sin()), eq(t.xf.q.c, t.sweep.a.cos()), eqv(apply(t.xf, t.sweep.local_center), t.sweep.c)]));
    ensure("mass and settings stay", and(&[same_mass(s, t), same_settings(s, t)]));
}
fn unmoved(s: &Snap, t: &Snap) {
    ensure("a body that takes no part does not move", and(&[same_xf(s.xf, t.xf), eqv(s.sweep.c, t.sweep.c), eq(s.sweep.a, t.sweep.a), same_vel(s, t), same_mass(s, t), same_settings(s, t), eq(s.sleep, t.sleep)]));
}
fn slow(v: B2vec2, w: f32) -> bool {
    !(w * w > B2_ANGULAR_SLEEP_TOLERANCE * B2_ANGULAR_SLEEP_TOLERANCE) && !(dot(v, v) > B2_LINEAR_SLEEP_TOLERANCE * B2_LINEAR_SLEEP_TOLERANCE)
}
/// One body through a whole world step.
fn one_body() {
    quiet();
    let w = world();
    let ty = body_type("b");
    let b = stepped(&w, "b", ty);
    let mode = choose("state", 4);
    let mut takes_part = ty != B2bodyType::B2StaticBody;
    let mut may_sleep = true;
    match mode {
        0 => {}
        1 => {
            if ty == B2bodyType::B2StaticBody { abort_path(); }
            put_to_sleep(&b);
            takes_part = false;
        }
        2 => {
            b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
            takes_part = false;
        }
        _ => {
            b.borrow_mut().m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
            may_sleep = false;
        }
    }
    let keep = flag("keep forces");
    w.borrow_mut().set_auto_clear_forces(!keep);
    let s = snap(&b.borrow());
    let h = pos("dt");
    w.borrow_mut().step(h, 2, 2);
    let t = snap(&b.borrow());
    if takes_part {
        let (v, om) = accelerated(&s, h, vec2("gravity"));
        let (v, om) = capped(v, om, h);
        ensure("translation per step is bounded", le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION));
        ensure("rotation per step is bounded", le(h * h * om * om, B2_MAX_ROTATION * B2_MAX_ROTATION));
        // sleeping needs permission, low speed and enough time
        let drowsy = may_sleep && slow(v, om);
        let sleeps = drowsy && s.sleep + h >= B2_TIME_TO_SLEEP;
        moved(&s, &t, v, om, h, sleeps);
        ensure("falls asleep exactly when slow long enough", b_of(b.borrow().is_awake() == !sleeps));
        ensure("time at rest is counted", eq(t.sleep, if sleeps || !drowsy { 0.0 } else { s.sleep + h }));
    } else {
        unmoved(&s, &t);
        ensure("its sleep state stays", b_of((t.flags ^ s.flags) & BodyFlags::E_AWAKE_FLAG.bits() == 0));
    }
    if keep {
        if takes_part && t.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0 {
            ensure("forces stay when not cleared", same_loads(&s, &t));
        }
    } else {
        ensure("forces are cleared after the step", and(&[eqv(t.force, zero2()), eq(t.torque, 0.0)]));
    }
}
/// A step of no duration moves nothing.
fn no_time() {
    let w = world();
    let b = stepped(&w, "b", body_type("b"));
    let s = snap(&b.borrow());
    w.borrow_mut().step(0.0, 1, 1);
    let t = snap(&b.borrow());
    unmoved(&s, &t);
}
/// Two unconnected bodies: the step of one does not depend on the other.
fn two_bodies() {
    quiet();
    let w = world();
    let kinds = choose("pair", 4);
    let k = |x: bool| if x { B2bodyType::B2DynamicBody } else { B2bodyType::B2KinematicBody };
    let (x, y) = (stepped(&w, "x", k(kinds & 1 == 0)), stepped(&w, "y", k(kinds & 2 == 0)));
    for b in [&x, &y] {
        // slow bodies below the caps, which the contract for one body covers
        let mut m = b.borrow_mut();
        m.m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
        if m.m_flags.contains(BodyFlags::E_FIXED_ROTATION_FLAG) { abort_path(); }
    }
    let h = pos("dt");
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    let mut want = vec![];
    for s in [&sx, &sy] {
        let (v, om) = accelerated(s, h, vec2("gravity"));
        assume(and(&[le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * om * om, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
        want.push((v, om));
    }
    w.borrow_mut().step(h, 1, 1);
    let (tx, ty) = (snap(&x.borrow()), snap(&y.borrow()));
    moved(&sx, &tx, want[0].0, want[0].1, h, false);
    moved(&sy, &ty, want[1].0, want[1].1, h, false);
}
/// Two connected bodies fall asleep together, and only then; a sleeper is woken by its group.
fn group_sleep() {
    quiet();
    let w = world();
    let ty = if flag("anchored") { B2bodyType::B2StaticBody } else { B2bodyType::B2KinematicBody };
    let (x, y) = (stepped(&w, "x", ty), stepped(&w, "y", B2bodyType::B2KinematicBody));
    let fine = flag("positions fine");
    let j = join(&w, &x, &y, fine);
    let asleep = ty == B2bodyType::B2KinematicBody && flag("other asleep");
    if asleep { put_to_sleep(&x); }
    let allow_x = !flag("x insomniac");
    let allow = !flag("world insomniac");
    if !allow_x { x.borrow_mut().m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG); }
    w.borrow_mut().m_allow_sleep = allow;
    let h = pos("dt");
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    for s in [&sx, &sy] {
        assume(and(&[le(h * h * dot(s.v, s.v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * s.w * s.w, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
    }
    w.borrow_mut().step(h, 1, 1);
    let (tx, t) = (snap(&x.borrow()), snap(&y.borrow()));
    let calm_x = ty == B2bodyType::B2StaticBody || (allow_x && slow(sx.v, sx.w) && sx.sleep + h >= B2_TIME_TO_SLEEP);
    let calm_y = slow(sy.v, sy.w) && sy.sleep + h >= B2_TIME_TO_SLEEP;
    let sleeps = allow && fine && calm_x && calm_y;
    ensure("the group sleeps exactly when all of it has been calm", b_of(y.borrow().is_awake() == !sleeps));
    if ty != B2bodyType::B2StaticBody {
        ensure("both bodies share the state", b_of(x.borrow().is_awake() == !sleeps));
    } else {
        ensure("a static member stays", and(&[same_pose(&sx, &tx), b_of(!x.borrow().is_awake())]));
    }
    let c = j.borrow().calls;
    ensure("the joint took part", b_of(c == [1, 1, 1]));
    let _ = t;
}
/// What constraints do to velocities is what bodies move with; passes run as often as asked.
fn constrained() {
    quiet();
    let w = world();
    let (x, y) = (stepped(&w, "x", B2bodyType::B2DynamicBody), stepped(&w, "y", B2bodyType::B2DynamicBody));
    for b in [&x, &y] {
        let mut m = b.borrow_mut();
        m.m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
        if m.m_flags.contains(BodyFlags::E_FIXED_ROTATION_FLAG) { abort_path(); }
    }
    let fine = flag("positions fine");
    let also_fine = flag("positions of the other joint fine");
    let j = join(&w, &x, &y, fine);
    let other = join(&w, &y, &x, also_fine);
    let (kx, ky) = (vec2("kx"), vec2("ky"));
    j.borrow_mut().kick = (kx, ky);
    let n = choose("passes", 3) as i32;
    let h = pos("dt");
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    let mut want = vec![];
    for (s, k) in [(&sx, kx), (&sy, ky)] {
        let (v, om) = accelerated(s, h, vec2("gravity"));
        let mut v = v;
        for _ in 0..n { v = add(v, k); }
        assume(and(&[le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * om * om, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
        want.push((v, om));
    }
    w.borrow_mut().step(h, n, 3);
    let (tx, ty) = (snap(&x.borrow()), snap(&y.borrow()));
    moved(&sx, &tx, want[0].0, want[0].1, h, false);
    moved(&sy, &ty, want[1].0, want[1].1, h, false);
    ensure("solver passes run as often as asked", b_of(j.borrow().calls == [1, n, if fine && also_fine { 1 } else { 3 }] && other.borrow().calls == j.borrow().calls));
}
/// A joint to a disabled body is not simulated, and does not pull that body into the step.
fn disabled_partner() {
    quiet();
    let w = world();
    let (x, y) = (stepped(&w, "x", B2bodyType::B2KinematicBody), stepped(&w, "y", B2bodyType::B2KinematicBody));
    x.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    y.borrow_mut().m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
    let j = join(&w, &x, &y, true);
    let h = pos("dt");
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    assume(and(&[le(h * h * dot(sy.v, sy.v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * sy.w * sy.w, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
    w.borrow_mut().step(h, 1, 1);
    let (tx, t) = (snap(&x.borrow()), snap(&y.borrow()));
    unmoved(&sx, &tx);
    moved(&sy, &t, sy.v, sy.w, h, false);
    ensure("the joint took no part", b_of(j.borrow().calls == [0, 0, 0]));
}
/// Motion of the sub-step that resolves a time of impact.
fn sub_step() {
    quiet();
    let w = world();
    let (x, y) = (stepped(&w, "x", body_type("x")), stepped(&w, "y", B2bodyType::B2KinematicBody));
    let mut island = B2island::<D>::new(2, 0, 0, None);
    island.add_body(x.clone());
    island.add_body(y.clone());
    let h = pos("dt");
    let st = B2timeStep { dt: h, inv_dt: 1.0 / h, dt_ratio: 1.0, velocity_iterations: 1, position_iterations: 1, warm_starting: false };
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    assume(and(&[le(h * h * dot(sy.v, sy.v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * sy.w * sy.w, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
    island.solve_toi(&st, 0, 1);
    let (tx, ty) = (snap(&x.borrow()), snap(&y.borrow()));
    let (v, om) = capped(sx.v, sx.w, h);
    moved(&sx, &tx, v, om, h, false);
    moved(&sy, &ty, sy.v, sy.w, h, false);
    ensure("loads stay", and(&[same_loads(&sx, &tx), same_loads(&sy, &ty)]));
}
/// Constraints are told the step, the settings and how the step compares with the last one.
fn told() {
    quiet();
    let w = world();
    let (x, y) = (stepped(&w, "x", B2bodyType::B2StaticBody), stepped(&w, "y", B2bodyType::B2KinematicBody));
    y.borrow_mut().m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
    let j = join(&w, &x, &y, true);
    let warm = [flag("first warm"), flag("second warm")];
    let pause = flag("pause between");
    let h = [pos("first dt"), pos("second dt")];
    let (n, m) = ([3, 5], [2, 4]);
    let v = snap(&y.borrow());
    for k in 0..2 {
        assume(and(&[le(h[k] * h[k] * dot(v.v, v.v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h[k] * h[k] * v.w * v.w, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
    }
    for k in 0..2 {
        w.borrow_mut().set_warm_starting(warm[k]);
        w.borrow_mut().step(h[k], n[k], m[k]);
        if pause { w.borrow_mut().step(0.0, 1, 1); }
    }
    let s = j.borrow().steps.clone();
    ensure("once in each step that takes time", b_of(s.len() == 2));
    for k in 0..s.len().min(2) {
        ensure("the step and its inverse", and(&[eq(s[k].dt, h[k]), eq(s[k].inv_dt * h[k], 1.0)]));
        ensure("the settings asked for", b_of(s[k].warm_starting == warm[k] && s[k].velocity_iterations == n[k] && s[k].position_iterations == m[k]));
        ensure("the ratio to the last step", if k == 0 { eq(s[k].dt_ratio, 0.0) } else { eq(s[k].dt_ratio * h[0], h[1]) });
    }
}
/// Settings of a world are kept as given and do not disturb each other.
fn settings() {
    let w = world();
    let on = [flag("sleeping"), flag("warm starting"), flag("continuous"), flag("sub-stepping"), flag("clear forces")];
    {
        let mut w = w.borrow_mut();
        w.set_allow_sleeping(on[0]);
        w.set_warm_starting(on[1]);
        w.set_continuous_physics(on[2]);
        w.set_sub_stepping(on[3]);
        w.set_auto_clear_forces(on[4]);
        w.set_gravity(vec2("pull"));
    }
    let w = w.borrow();
    let got = [w.get_allow_sleeping(), w.get_warm_starting(), w.get_continuous_physics(), w.get_sub_stepping(), w.get_auto_clear_forces()];
    ensure("a setting is what was asked for", and(&[b_of(got == on), eqv(w.get_gravity(), vec2("pull"))]));
}
/// What the contact solver was asked to do; each pass by its contract (P13, P14): it may push the bodies of its contacts.
#[derive(Default)]
struct Passes {
    log: Vec<&'static str>,
    starts: Vec<B2vec2>,
    ends: Vec<(i32, i32)>,
    solved: Vec<usize>,
    fine_at: usize,
}
thread_local! {
    static PASSES: RefCell<Passes> = RefCell::new(Passes::default());
}
fn passes<T>(f: impl FnOnce(&mut Passes) -> T) -> T {
    PASSES.with(|p| f(&mut p.borrow_mut()))
}
type Solver = B2contactSolver;
fn on_start(s: &mut Solver, p: &[B2position], _: &[B2velocity], c: &[ContactPtr<D>]) {
    passes(|l| {
        l.log.push(if c.is_empty() { "nothing" } else { "start" });
        l.starts = p.iter().map(|p| p.c).collect();
        l.solved.extend(c.iter().map(addr));
    });
    ensure("one constraint for each contact", b_of(s.m_velocity_constraints.len() == c.len()));
}
fn on_warm(s: &mut Solver, v: &mut [B2velocity]) {
    push(s, v, "warm");
}
fn on_pass(s: &mut Solver, v: &mut [B2velocity]) {
    push(s, v, "pass");
}
fn push(s: &mut Solver, v: &mut [B2velocity], what: &'static str) {
    if s.m_velocity_constraints.is_empty() {
        return;
    }
    passes(|l| l.log.push(what));
    let (a, b) = (s.m_velocity_constraints[0].index_a as usize, s.m_velocity_constraints[0].index_b as usize);
    v[a].v = add(v[a].v, vec2(&format!("{} a", what)));
    v[b].v = add(v[b].v, vec2(&format!("{} b", what)));
}
fn on_store(s: &mut Solver, c: &[ContactPtr<D>]) {
    if !c.is_empty() {
        passes(|l| l.log.push("store"));
    }
    ensure("impulses are kept for each contact", b_of(s.m_velocity_constraints.len() == c.len()));
}
fn on_position(s: &mut Solver, p: &mut [B2position]) -> bool {
    if s.m_velocity_constraints.is_empty() {
        return true;
    }
    let (a, b) = (s.m_velocity_constraints[0].index_a as usize, s.m_velocity_constraints[0].index_b as usize);
    p[a].c = add(p[a].c, vec2("shove a"));
    p[b].c = add(p[b].c, vec2("shove b"));
    passes(|l| {
        l.log.push("position");
        l.fine_at > 0 && l.log.iter().filter(|x| **x == "position").count() >= l.fine_at
    })
}
fn on_toi(s: &mut Solver, a: i32, b: i32, p: &mut [B2position]) -> bool {
    passes(|l| l.ends.push((a, b)));
    on_position(s, p)
}
fn solver_contracts(fine_at: usize) {
    passes(|l| *l = Passes { fine_at, ..Passes::default() });
    hook::set::<fn(&mut Solver, &[B2position], &[B2velocity], &[ContactPtr<D>])>("initialize_velocity_constraints", on_start);
    hook::set::<fn(&mut Solver, &mut [B2velocity])>("warm_start", on_warm);
    hook::set::<fn(&mut Solver, &mut [B2velocity])>("solve_velocity_constraints", on_pass);
    hook::set::<fn(&mut Solver, &[ContactPtr<D>])>("store_impulses", on_store);
    hook::set::<fn(&mut Solver, &mut [B2position]) -> bool>("solve_position_constraints", on_position);
    hook::set::<fn(&mut Solver, i32, i32, &mut [B2position]) -> bool>("solve_toiposition_constraints", on_toi);
}
/// Two bodies with a contact between them.
fn pair(w: &World, ty: B2bodyType) -> (Body, Body, ContactPtr<D>) {
    hook::set::<fn(&mut B2dynamicTree<FixtureProxyPtr<D>>, i32)>("insert_leaf", |_, _| ());
    hook::set::<fn(&mut B2dynamicTree<FixtureProxyPtr<D>>, i32)>("remove_leaf", |_, _| ());
    hook::set::<fn(&mut B2dynamicTree<FixtureProxyPtr<D>>, i32, B2AABB, B2vec2) -> bool>("move_proxy", |_, _, _, _| false);
    let (x, y) = (stepped(w, "x", B2bodyType::B2DynamicBody), stepped(w, "y", ty));
    for b in [&x, &y] {
        let mut m = b.borrow_mut();
        m.m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
        if m.m_flags.contains(BodyFlags::E_FIXED_ROTATION_FLAG) { abort_path(); }
    }
    let (fx, fy) = (fixture_in(&x, "fx", 1), fixture_in(&y, "fy", 1));
    if flag("order") { meet(w, &fx, &fy); } else { meet(w, &fy, &fx); }
    let c = contacts(w)[0].clone();
    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
    let o = any_contact(&fa, &fb, any_manifold("m", 1, B2manifoldType::EFaceA));
    swap_in(w, &c, &o);
    (x, y, o)
}
fn add_all(v: B2vec2, p: B2vec2, n: usize) -> B2vec2 {
    (0..n).fold(v, |v, _| add(v, p))
}
/// Touching solids are simulated together: who takes part, and in what order the passes act.
fn touching() {
    let w = world();
    let kind = choose("second", 4);
    let ty = [B2bodyType::B2DynamicBody, B2bodyType::B2DynamicBody, B2bodyType::B2KinematicBody, B2bodyType::B2StaticBody][kind];
    let (x, y, c) = pair(&w, ty);
    let asleep = kind == 1;
    if asleep { put_to_sleep(&y); }
    let odd = choose("special", 5);
    {
        let mut c = c.borrow_mut();
        let g = c.get_base_mut();
        g.set_enabled(odd != 1);
        g.m_flags.set(ContactFlags::E_TOUCHING_FLAG, odd != 2);
        g.m_fixture_a.borrow_mut().m_is_sensor = odd == 3;
        g.m_fixture_b.borrow_mut().m_is_sensor = odd == 4;
    }
    let linked = odd == 0;
    let (fine_at, warm) = (choose("positions fine", 3), flag("warm"));
    let h = pos("dt");
    let st = B2timeStep { dt: h, inv_dt: 1.0 / h, dt_ratio: 1.0, velocity_iterations: 2, position_iterations: 2, warm_starting: warm };
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    let x_first = Rc::ptr_eq(&c.borrow().get_base().m_fixture_a.borrow().get_body(), &x);
    let part_y = ty != B2bodyType::B2StaticBody && (!asleep || linked);
    let mut want = vec![];
    for (s, k) in [(&sx, x_first), (&sy, !x_first)] {
        let (v, om) = accelerated(s, h, vec2("gravity"));
        let k = if k { "a" } else { "b" };
        let mut v = v;
        if linked {
            if warm { v = add(v, vec2(&format!("warm {}", k))); }
            v = add_all(v, vec2(&format!("pass {}", k)), 2);
        }
        assume(and(&[le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * om * om, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
        want.push((v, om, vec2(&format!("shove {}", k))));
    }
    solver_contracts(fine_at);
    w.borrow_mut().solve(st);
    let tries = if fine_at == 1 { 1 } else { 2 };
    let mut order = vec![];
    if linked {
        order.push("start");
        if warm { order.push("warm"); }
        order.extend(["pass", "pass", "store"]);
        for _ in 0..tries { order.push("position"); }
    }
    let got: Vec<&str> = passes(|l| l.log.iter().copied().filter(|x| *x != "nothing").collect());
    ensure("exactly touching, enabled solids are solved, pass by pass", b_of(got == order));
    let (tx, t) = (snap(&x.borrow()), snap(&y.borrow()));
    for (s, t, k, part) in [(&sx, &tx, 0, true), (&sy, &t, 1, part_y)] {
        if !part {
            if s.ty == B2bodyType::B2StaticBody && linked { continue; }
            unmoved(s, t);
            continue;
        }
        let (v, om, shove) = want[k];
        let shove = if linked { scale(tries as f32, shove) } else { zero2() };
        ensure("velocity after all passes", and(&[eqv(t.v, v), eq(t.w, om)]));
        ensure("the body moves with that velocity and is then corrected", and(&[eqv(t.sweep.c, add(add(s.sweep.c, scale(h, v)), shove)), eq(t.sweep.a, s.sweep.a + h * om)]));
        ensure("the start of the motion is recorded", and(&[eqv(t.sweep.c0, s.sweep.c), eq(t.sweep.a0, s.sweep.a)]));
        ensure("pose follows the centre", and(&[eq(t.xf.q.s, t.sweep.a.sin()), eqv(apply(t.xf, t.sweep.local_center), t.sweep.c)]));
        ensure("who takes part is awake", b_of(t.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0));
    }
    if asleep && !linked {
        ensure("a sleeper that is not touched sleeps on", b_of(!y.borrow().is_awake()));
    }
}
/// Bodies that nothing connects are solved group by group, each group once.
fn groups() {
    let w = world();
    let first = pair(&w, B2bodyType::B2DynamicBody);
    let second = pair(&w, B2bodyType::B2DynamicBody);
    let joints: Vec<_> = [&first, &second].iter().filter(|_| flag("joined")).map(|g| join(&w, &g.0, &g.1, true)).collect();
    for c in [&first.2, &second.2] {
        let mut c = c.borrow_mut();
        let g = c.get_base_mut();
        g.set_enabled(true);
        g.m_flags.insert(ContactFlags::E_TOUCHING_FLAG);
    }
    let h = pos("dt");
    let st = B2timeStep { dt: h, inv_dt: 1.0 / h, dt_ratio: 1.0, velocity_iterations: 1, position_iterations: 1, warm_starting: false };
    let mut want = vec![];
    for g in [&first, &second] {
        let x_first = Rc::ptr_eq(&g.2.borrow().get_base().m_fixture_a.borrow().get_body(), &g.0);
        for (b, k) in [(&g.0, x_first), (&g.1, !x_first)] {
            let s = snap(&b.borrow());
            let (v, om) = accelerated(&s, h, vec2("gravity"));
            let v = add(v, vec2(if k { "pass a" } else { "pass b" }));
            assume(and(&[le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * om * om, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
            want.push((b.clone(), v, om));
        }
    }
    solver_contracts(1);
    w.borrow_mut().solve(st);
    let mut solved = passes(|l| l.solved.clone());
    let mut all = vec![addr(&first.2), addr(&second.2)];
    solved.sort();
    all.sort();
    ensure("each contact is solved in one group only", b_of(solved == all));
    ensure("each joint is solved in one group only", b_of(joints.iter().all(|j| j.borrow().calls == [1, 1, 1])));
    for (b, v, om) in want {
        let t = snap(&b.borrow());
        ensure("each body is solved once", and(&[eqv(t.v, v), eq(t.w, om)]));
    }
}
/// The sub-step at an impact: bodies are moved apart, start anew from there, and go on with the velocity the passes give.
fn sub_step_passes() {
    let w = world();
    let (x, y, c) = pair(&w, B2bodyType::B2DynamicBody);
    let fine_at = 1 + choose("fine", 3);
    let mut island = B2island::<D>::new(2, 1, 0, None);
    island.add_body(x.clone());
    island.add_body(y.clone());
    island.add_contact(c.clone());
    let (m, n) = (1 + choose("position passes", 2), choose("velocity passes", 3));
    let h = pos("dt");
    let st = B2timeStep { dt: h, inv_dt: 1.0 / h, dt_ratio: 1.0, velocity_iterations: n as i32, position_iterations: m as i32, warm_starting: false };
    let (sx, sy) = (snap(&x.borrow()), snap(&y.borrow()));
    let x_first = Rc::ptr_eq(&c.borrow().get_base().m_fixture_a.borrow().get_body(), &x);
    let tries = m.min(fine_at);
    let mut want = vec![];
    for (s, k) in [(&sx, x_first), (&sy, !x_first)] {
        let k = if k { "a" } else { "b" };
        let v = add_all(s.v, vec2(&format!("pass {}", k)), n);
        assume(and(&[le(h * h * dot(v, v), B2_MAX_TRANSLATION * B2_MAX_TRANSLATION), le(h * h * s.w * s.w, B2_MAX_ROTATION * B2_MAX_ROTATION)]));
        want.push((v, add_all(s.sweep.c, vec2(&format!("shove {}", k)), tries)));
    }
    solver_contracts(fine_at);
    island.solve_toi(&st, 0, 1);
    let mut order = vec!["position"; tries];
    order.push("start");
    order.extend(vec!["pass"; n]);
    ensure("positions first, then velocities, nothing stored", b_of(passes(|l| l.log.clone()) == order));
    ensure("the pair in question is passed on", b_of(passes(|l| l.ends.iter().all(|e| *e == (0, 1)))));
    let (tx, t) = (snap(&x.borrow()), snap(&y.borrow()));
    for (s, t, k) in [(&sx, &tx, 0), (&sy, &t, 1)] {
        let (v, c) = want[k];
        ensure("the motion starts anew where the bodies are apart", and(&[eqv(t.sweep.c0, c), eq(t.sweep.a0, s.sweep.a), eqv(passes(|l| l.starts[k]), c)]));
        ensure("and goes on with the new velocity", and(&[eqv(t.v, v), eq(t.w, s.w), eqv(t.sweep.c, add(c, scale(h, v))), eq(t.sweep.a, s.sweep.a + h * s.w)]));
        ensure("pose follows the centre", and(&[eq(t.xf.q.s, t.sweep.a.sin()), eqv(apply(t.xf, t.sweep.local_center), t.sweep.c)]));
    }
}
contracts! { told, settings, touching, groups, sub_step_passes, one_body, no_time, two_bodies, group_sleep, constrained, disabled_partner, sub_step, selection_bodies }
