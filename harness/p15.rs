mod common;
mod phys;
mod joints;
use common::selection_bodies;
use joints::*;

fn zeroed(fs: &[f32]) -> B {
    and(&fs.iter().map(|x| eq(*x, 0.0)).collect::<Vec<_>>())
}
/// Accumulated impulses after the set-up: scaled to the new step when warm starting, dropped otherwise.
fn carried(r: &Rig, warm: bool, old: &[f32], new: &[f32]) {
    if warm {
        ensure("accumulated impulses are scaled to the new time step", and(&old.iter().zip(new).map(|(o, n)| eq(*n, *o * r.data.step.dt_ratio)).collect::<Vec<_>>()));
    } else {
        ensure("without warm starting nothing is carried over", zeroed(new));
    }
}
fn on(b: bool, x: f32) -> f32 {
    if b { x } else { 0.0 }
}
fn point_law<J: B2jointTraitDyn<D>>(r: &Rig, j: &J, old: (B2vec2, f32), before: &[B2velocity], after: &[B2velocity]) {
    let new = reaction(j);
    r.pushed(r.ra, sub(new.0, old.0), new.1 - old.1, before, after);
}

// ---- revolute
fn revolute_start() {
    let warm = flag("warm");
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), warm);
    let mut j = revolute(&r);
    let old = [var("px"), var("py"), var("pm"), nonneg("pl"), nonneg("pu")];
    j.m_impulse = B2vec2::new(old[0], old[1]);
    j.m_motor_impulse = old[2];
    j.m_lower_impulse = old[3];
    j.m_upper_impulse = old[4];
    let before = plain_vels();
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    let turn = !known_eq(r.ia + r.ib, 0.0);
    let (m, l) = (j.m_enable_motor && turn, j.m_enable_limit && turn);
    carried(&r, warm, &[old[0], old[1], on(m, old[2]), on(l, old[3]), on(l, old[4])], &[j.m_impulse.x, j.m_impulse.y, j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse]);
    point_law(&r, &j, (zero2(), 0.0), &before, &after);
}
fn revolute_solve() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut j = revolute(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = vec2("p");
    if j.m_enable_motor {
        j.m_motor_impulse = var("pm");
    }
    if j.m_enable_limit {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let old = reaction(&j);
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    point_law(&r, &j, old, &before, &after);
    ensure("the anchors move together afterwards", eqv(r.rel(r.ra, &after), zero2()));
}
// ---- axis joints: world axis n, arm of the first body reaches to the second anchor
fn axis_rig(warm: bool) -> (Rig, B2vec2, B2vec2) {
    let n = unit("axis");
    let (ra, rb, d) = (framed(n, "ra"), framed(n, "rb"), framed(n, "d"));
    let arm = add(d, ra);
    (rig(ra, rb, d, warm), n, arm)
}
fn axis_law<J: B2jointTraitDyn<D>>(r: &Rig, arm: B2vec2, j: &J, old: (B2vec2, f32), before: &[B2velocity], after: &[B2velocity]) {
    let new = reaction(j);
    r.pushed(arm, sub(new.0, old.0), new.1 - old.1, before, after);
}
fn prismatic_start() {
    let warm = flag("warm");
    let (r, n, arm) = axis_rig(warm);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let mut j = prismatic(&r, n);
    let old = [var("px"), var("py"), var("pm"), nonneg("pl"), nonneg("pu")];
    j.m_impulse = B2vec2::new(old[0], old[1]);
    j.m_motor_impulse = old[2];
    j.m_lower_impulse = old[3];
    j.m_upper_impulse = old[4];
    let before = vels(n);
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    let (m, l) = (j.m_enable_motor, j.m_enable_limit);
    carried(&r, warm, &[old[0], old[1], on(m, old[2]), on(l, old[3]), on(l, old[4])], &[j.m_impulse.x, j.m_impulse.y, j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse]);
    axis_law(&r, arm, &j, (zero2(), 0.0), &before, &after);
}
fn prismatic_solve() {
    let (r, n, arm) = axis_rig(true);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let mut j = prismatic(&r, n);
    let s = (cross(arm, perp(n)), cross(r.rb, perp(n)));
    let x = s.0 - s.1;
    let m = r.ma + r.mb;
    if known_eq(r.ia + r.ib, 0.0) {
        lemma("the line constraint responds", gt(m, 0.0));
    } else {
        lemma("the line constraint responds", gt(m * (r.ia + r.ib) + r.ia * r.ib * x * x, 0.0));
    }
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = vec2("p");
    if j.m_enable_motor {
        j.m_motor_impulse = var("pm");
    }
    if j.m_enable_limit {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let old = reaction(&j);
    let before = vels(n);
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    axis_law(&r, arm, &j, old, &before, &after);
    ensure("no velocity across the axis afterwards", eq(dot(r.rel(arm, &after), perp(n)), 0.0));
    if !known_eq(r.ia + r.ib, 0.0) {
        ensure("no relative rotation afterwards", eq(after[r.ka].w, after[r.kb].w));
    }
}
fn wheel_start() {
    let warm = flag("warm");
    let (r, n, arm) = axis_rig(warm);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let mut j = wheel(&r, n);
    let old = [var("p"), var("ps"), var("pm"), nonneg("pl"), nonneg("pu")];
    j.m_impulse = old[0];
    j.m_spring_impulse = old[1];
    j.m_motor_impulse = old[2];
    j.m_lower_impulse = old[3];
    j.m_upper_impulse = old[4];
    let before = vels(n);
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    let (m, l, s) = (j.m_enable_motor, j.m_enable_limit, !known_eq(j.m_stiffness, 0.0));
    carried(&r, warm, &[old[0], on(s, old[1]), on(m, old[2]), on(l, old[3]), on(l, old[4])], &[j.m_impulse, j.m_spring_impulse, j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse]);
    axis_law(&r, arm, &j, (zero2(), 0.0), &before, &after);
}
fn wheel_solve() {
    let (r, n, arm) = axis_rig(true);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let mut j = wheel(&r, n);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = var("p");
    if !known_eq(j.m_stiffness, 0.0) {
        j.m_spring_impulse = var("ps");
    }
    if j.m_enable_motor {
        j.m_motor_impulse = var("pm");
    }
    if j.m_enable_limit {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let (old, s_old) = (reaction(&j), j.m_spring_impulse);
    let before = vels(n);
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    axis_law(&r, arm, &j, old, &before, &after);
    ensure("no velocity across the axis afterwards", eq(dot(r.rel(arm, &after), perp(n)), 0.0));
    // spring and damper along the axis act on the velocity that holds after their own impulse
    let h = r.data.step.dt;
    let k = r.ma + r.mb + r.ia * cross(arm, n) * cross(arm, n) + r.ib * cross(r.rb, n) * cross(r.rb, n);
    let dp = j.m_spring_impulse - s_old;
    let speed = dot(r.rel(arm, &before), n) + k * dp;
    if known_eq(j.m_stiffness, 0.0) {
        ensure("without spring there is no spring impulse", eq(dp, 0.0));
    } else {
        ensure("the spring impulse is that of spring and damper", eq(-j.m_spring_impulse, h * (j.m_stiffness * (dot(r.d, n) + h * speed) + j.m_damping * speed)));
    }
}
// ---- distance: direction n, separation len
fn distance_rig(warm: bool) -> (Rig, B2vec2, f32) {
    let n = unit("axis");
    let len = pos("len");
    assume(gt(len, B2_LINEAR_SLOP));
    let (ra, rb) = (framed(n, "ra"), framed(n, "rb"));
    let r = rig(ra, rb, scale(len, n), warm);
    line_response(&r, r.ra, n);
    (r, n, len)
}
fn distance_start() {
    let warm = flag("warm");
    let (r, n, _) = distance_rig(warm);
    let mut j = distance(&r);
    let old = [var("p"), nonneg("pl"), nonneg("pu")];
    j.m_impulse = old[0];
    j.m_lower_impulse = old[1];
    j.m_upper_impulse = old[2];
    let before = vels(n);
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    carried(&r, warm, &old, &[j.m_impulse, j.m_lower_impulse, j.m_upper_impulse]);
    point_law(&r, &j, (zero2(), 0.0), &before, &after);
}
/// Anchors (nearly) on top of each other: there is no direction to act along.
fn distance_collapsed() {
    let n = unit("axis");
    let len = nonneg("len");
    assume(le(len, B2_LINEAR_SLOP));
    let r = rig(framed(n, "ra"), framed(n, "rb"), scale(len, n), flag("warm"));
    let mut j = distance(&r);
    j.m_impulse = var("p");
    j.m_lower_impulse = nonneg("pl");
    j.m_upper_impulse = nonneg("pu");
    let before = vels(n);
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    ensure("accumulated impulses are dropped", zeroed(&[j.m_impulse, j.m_lower_impulse, j.m_upper_impulse]));
    j.solve_velocity_constraints(&r.data, &mut after);
    r.pushed(zero2(), zero2(), 0.0, &before, &after);
}
fn distance_solve() {
    let (r, n, len) = distance_rig(true);
    let mut j = distance(&r);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = var("p");
    j.m_lower_impulse = nonneg("pl");
    j.m_upper_impulse = nonneg("pu");
    let (old, p_old) = (reaction(&j), j.m_impulse);
    let before = vels(n);
    let mut after = before.clone();
    let rigid = known_eq(j.m_min_length, j.m_max_length);
    j.solve_velocity_constraints(&r.data, &mut after);
    point_law(&r, &j, old, &before, &after);
    let h = r.data.step.dt;
    let dp = j.m_impulse - p_old;
    let k = r.ma + r.mb + r.ia * cross(r.ra, n) * cross(r.ra, n) + r.ib * cross(r.rb, n) * cross(r.rb, n);
    if rigid {
        ensure("the anchors keep their distance afterwards", eq(dot(r.rel(r.ra, &after), n), 0.0));
    } else if known_eq(j.m_stiffness, 0.0) {
        ensure("without spring there is no spring impulse", eq(dp, 0.0));
    } else {
        let speed = dot(r.rel(r.ra, &before), n) + k * dp;
        ensure("the spring impulse is that of spring and damper", eq(-j.m_impulse, h * (j.m_stiffness * (len - j.m_length + h * speed) + j.m_damping * speed)));
    }
}
// ---- weld
fn weld_start() {
    let warm = flag("warm");
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), warm);
    let mut j = weld(&r);
    domain_checks(false); // the inverse response is not used here; see weld_solve
    let old = vec3("p");
    j.m_impulse = old;
    let before = plain_vels();
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    carried(&r, warm, &[old.x, old.y, old.z], &[j.m_impulse.x, j.m_impulse.y, j.m_impulse.z]);
    point_law(&r, &j, (zero2(), 0.0), &before, &after);
}
fn weld_solve() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut j = weld(&r);
    r.point_response();
    let m = r.ma + r.mb;
    if !known_eq(r.ia + r.ib, 0.0) {
        lemma("the welded frame responds", gt(m * (m * (r.ia + r.ib) + r.ia * r.ib * len2(sub(r.ra, r.rb))), 0.0));
    }
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = vec3("p");
    let (old, z_old) = (reaction(&j), j.m_impulse.z);
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    point_law(&r, &j, old, &before, &after);
    ensure("the anchors move together afterwards", eqv(r.rel(r.ra, &after), zero2()));
    let h = r.data.step.dt;
    if known_eq(j.m_stiffness, 0.0) {
        if !known_eq(r.ia + r.ib, 0.0) {
            ensure("no relative rotation afterwards", eq(after[r.ka].w, after[r.kb].w));
        }
    } else {
        let speed = before[r.kb].w - before[r.ka].w + (r.ia + r.ib) * (j.m_impulse.z - z_old);
        let c = r.pos[r.kb].a - r.pos[r.ka].a - j.m_reference_angle;
        ensure("the angular spring impulse is that of spring and damper", eq(-j.m_impulse.z, h * (j.m_stiffness * (c + h * speed) + j.m_damping * speed)));
    }
}
// ---- friction and motor joints
fn friction_start() {
    let warm = flag("warm");
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), warm);
    let mut j = friction(&r);
    r.point_response();
    let old = [var("px"), var("py"), var("pz")];
    j.m_linear_impulse = B2vec2::new(old[0], old[1]);
    j.m_angular_impulse = old[2];
    let before = plain_vels();
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    carried(&r, warm, &old, &[j.m_linear_impulse.x, j.m_linear_impulse.y, j.m_angular_impulse]);
    point_law(&r, &j, (zero2(), 0.0), &before, &after);
}
fn friction_solve() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut j = friction(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_linear_impulse = vec2("p");
    j.m_angular_impulse = var("pz");
    let old = reaction(&j);
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    point_law(&r, &j, old, &before, &after);
}
fn motor_rig(warm: bool) -> Rig {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), warm);
    // this joint holds the origin of the second body
    r.b.borrow_mut().m_sweep.local_center = scale(-1.0, back(r.qb, r.rb));
    r
}
fn motor_start() {
    let warm = flag("warm");
    let r = motor_rig(warm);
    let mut j = motor(&r);
    r.point_response();
    let old = [var("px"), var("py"), var("pz")];
    j.m_linear_impulse = B2vec2::new(old[0], old[1]);
    j.m_angular_impulse = old[2];
    let before = plain_vels();
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    carried(&r, warm, &old, &[j.m_linear_impulse.x, j.m_linear_impulse.y, j.m_angular_impulse]);
    point_law(&r, &j, (zero2(), 0.0), &before, &after);
}
fn motor_solve() {
    let r = motor_rig(true);
    let mut j = motor(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_linear_impulse = vec2("p");
    j.m_angular_impulse = var("pz");
    let old = reaction(&j);
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    point_law(&r, &j, old, &before, &after);
}
// ---- mouse: acts on the second body only, which also loses 2% of its spin at the start of the step
fn mouse_rig(warm: bool) -> Rig {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), warm);
    if known_eq(r.mb, 0.0) {
        abort_path();
    }
    r
}
fn mouse_law(r: &Rig, p: B2vec2, before: &[B2velocity], after: &[B2velocity]) {
    r.pushed_by(zero2(), 0.0, p, cross(r.rb, p), before, after);
}
fn mouse_response(r: &Rig, j: &B2mouseJoint<D>) {
    let h = r.data.step.dt;
    let g = h * (j.m_damping + h * j.m_stiffness);
    if g > 0.0 {
        let m = r.mb + 1.0 / g;
        lemma("the held point responds to impulses", gt(m * m + m * r.ib * len2(r.rb), 0.0));
    } else {
        lemma("the held point responds to impulses", gt(r.mb * r.mb + r.mb * r.ib * len2(r.rb), 0.0));
    }
}
fn mouse_start() {
    let warm = flag("warm");
    let r = mouse_rig(warm);
    let mut j = mouse(&r);
    mouse_response(&r, &j);
    let old = vec2("p");
    j.m_impulse = old;
    let mut before = plain_vels();
    let mut after = before.clone();
    j.init_velocity_constraints(&r.data, &r.pos, &mut after);
    carried(&r, warm, &[old.x, old.y], &[j.m_impulse.x, j.m_impulse.y]);
    before[r.kb].w = before[r.kb].w * 0.98;
    mouse_law(&r, reaction(&j).0, &before, &after);
}
fn mouse_solve() {
    let r = mouse_rig(true);
    let mut j = mouse(&r);
    mouse_response(&r, &j);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = vec2("p");
    let old = j.m_impulse;
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    mouse_law(&r, sub(reaction(&j).0, old), &before, &after);
}
/// Both bodies are pulled towards (or pushed from) their own ground anchor, the second `ratio` times as much.
fn pulley_law(p: &Pulley, l: f32, before: &[B2velocity], after: &[B2velocity]) {
    let pa = scale(l, p.ua);
    let pb = scale(-l * p.j.m_ratio, p.ub);
    p.r.pushed_by(pa, cross(p.r.ra, pa), pb, cross(p.r.rb, pb), before, after);
}
fn pulley_start() {
    let warm = flag("warm");
    let mut p = pulley(warm);
    let old = var("p");
    p.j.m_impulse = old;
    let before = plain_vels();
    let mut after = before.clone();
    p.j.init_velocity_constraints(&p.r.data, &p.r.pos, &mut after);
    carried(&p.r, warm, &[old], &[p.j.m_impulse]);
    pulley_law(&p, p.j.m_impulse, &before, &after);
}
fn pulley_solve() {
    let mut p = pulley(true);
    p.j.init_velocity_constraints(&p.r.data, &p.r.pos, &mut v0(3));
    let old = var("p");
    p.j.m_impulse = old;
    let before = plain_vels();
    let mut after = before.clone();
    p.j.solve_velocity_constraints(&p.r.data, &mut after);
    pulley_law(&p, p.j.m_impulse - old, &before, &after);
    let (a, b) = (after[p.r.ka], after[p.r.kb]);
    let rate = dot(add(a.v, sxv(a.w, p.r.ra)), p.ua) + p.j.m_ratio * dot(add(b.v, sxv(b.w, p.r.rb)), p.ub);
    if !p.ua.is_zero() && !p.ub.is_zero() {
        ensure("the total rope length stays afterwards", eq(rate, 0.0));
    }
}
fn gear_vels() -> Vec<B2velocity> {
    (0..5).map(|i| B2velocity { v: vec2(&format!("v{}", i)), w: var(&format!("w{}", i)) }).collect()
}
/// An impulse l along the motion of each joint, the second scaled by the ratio, opposite on the frames.
fn gear_law(g: &Gear, l: f32, before: &[B2velocity], after: &[B2velocity]) {
    let mut want: Vec<B2velocity> = before.to_vec();
    for (s, q) in g.s.iter().zip([1.0 * l, g.j.m_ratio * l].iter()) {
        want[s.k].v = add(want[s.k].v, scale(s.m.0 * *q, s.u));
        want[s.k].w = want[s.k].w + s.m.1 * *q * s.jw;
        want[s.g].v = sub(want[s.g].v, scale(s.mg.0 * *q, s.u));
        want[s.g].w = want[s.g].w - s.mg.1 * *q * s.jg;
    }
    for i in 0..before.len() {
        ensure("bodies change only by the impulse along their joint, in ratio, opposite on the frames", and(&[eqv(after[i].v, want[i].v), eq(after[i].w, want[i].w)]));
    }
}
fn gear_start_of(g: &mut Gear, warm: bool) {
    let old = var("p");
    g.j.m_impulse = old;
    let before = gear_vels();
    let mut after = before.clone();
    g.j.init_velocity_constraints(&g.data, &g.pos, &mut after);
    if warm {
        ensure("accumulated impulses are scaled to the new time step", eq(g.j.m_impulse, old * g.data.step.dt_ratio));
    } else {
        ensure("without warm starting nothing is carried over", eq(g.j.m_impulse, 0.0));
    }
    gear_law(g, g.j.m_impulse, &before, &after);
}
fn gear_start() {
    let warm = flag("warm");
    let mut g = gear(warm, false);
    gear_start_of(&mut g, warm);
}
fn gear_solve() {
    let mut g = gear(true, false);
    g.j.init_velocity_constraints(&g.data, &g.pos, &mut v0(5));
    let old = var("p");
    g.j.m_impulse = old;
    let before = gear_vels();
    let mut after = before.clone();
    g.j.solve_velocity_constraints(&g.data, &mut after);
    gear_law(&g, g.j.m_impulse - old, &before, &after);
    let rate = |s: &Side| dot(sub(after[s.k].v, after[s.g].v), s.u) + s.jw * after[s.k].w - s.jg * after[s.g].w;
    if g.k > 0.0 {
        ensure("the geared motions keep their ratio afterwards", eq(rate(&g.s[0]) + g.j.m_ratio * rate(&g.s[1]), 0.0));
    }
}
/// Both geared joints on one movable frame.
fn known_gear_shared() {
    let mut g = gear(true, true);
    gear_start_of(&mut g, true);
}
contracts! {
    pulley_start, pulley_solve,
    gear_start, gear_solve, known_gear_shared,
    selection_bodies,
    revolute_start, revolute_solve,
    prismatic_start, prismatic_solve,
    wheel_start, wheel_solve,
    distance_start, distance_collapsed, distance_solve,
    weld_start, weld_solve,
    friction_start, friction_solve,
    motor_start, motor_solve,
    mouse_start, mouse_solve,
}
