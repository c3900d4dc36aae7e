mod common;
mod phys;
mod joints;
use common::selection_bodies;
use joints::*;

/// The chain one iteration of a motor and two limits along one coordinate has to follow: `rate` is the relative speed,
/// `k` the response of that speed to a unit impulse.
struct Axis {
    k: f32,
    rate: f32,
    h: f32,
}
impl Axis {
    fn motor(&mut self, old: f32, new: f32, speed: f32, max: f32) {
        let want = (old + (speed - self.rate) / self.k).min(self.h * max).max(-(self.h * max));
        ensure("the motor impulse never exceeds strength times step", and(&[le(new, self.h * max), ge(new, -(self.h * max))]));
        ensure("the motor reaches its speed or its strength", eq(new, want));
        self.rate = self.rate + self.k * (new - old);
    }
    /// a limit with the given distance to go; `sign` is the direction it pushes
    fn limit(&mut self, what: &str, old: f32, new: f32, room: f32, sign: f32) {
        let closing = sign * self.rate + room.max(0.0 * room) / self.h;
        ensure(&format!("the {} limit only pushes back into range", what), ge(new, 0.0));
        ensure(&format!("the {} limit stops the motion at the end of the range and no earlier", what), eq(new, (old - closing / self.k).max(0.0 * old)));
        self.rate = self.rate + sign * self.k * (new - old);
    }
}
fn revolute_limits() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut j = revolute(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let turn = !known_eq(r.ia + r.ib, 0.0);
    let (m, l) = (j.m_enable_motor && turn, j.m_enable_limit && turn);
    if m {
        j.m_motor_impulse = var("pm");
    }
    if l {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let old = (j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse);
    let before = plain_vels();
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    let mut ax = Axis { k: r.ia + r.ib, rate: before[r.kb].w - before[r.ka].w, h: r.data.step.dt };
    let angle = r.pos[r.kb].a - r.pos[r.ka].a - j.m_reference_angle;
    if m {
        ax.motor(old.0, j.m_motor_impulse, j.m_motor_speed, j.m_max_motor_torque);
    } else {
        ensure("a motor that is off gives no impulse", eq(j.m_motor_impulse, 0.0));
    }
    if l {
        ax.limit("lower", old.1, j.m_lower_impulse, angle - j.m_lower_angle, 1.0);
        ax.limit("upper", old.2, j.m_upper_impulse, j.m_upper_angle - angle, -1.0);
    } else {
        ensure("a limit that is off gives no impulse", and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_upper_impulse, 0.0)]));
    }
}
fn axis_rig() -> (Rig, B2vec2, B2vec2) {
    let n = unit("axis");
    let (ra, rb, d) = (framed(n, "ra"), framed(n, "rb"), framed(n, "d"));
    let arm = add(d, ra);
    let r = rig(ra, rb, d, true);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    (r, n, arm)
}
fn prismatic_limits() {
    let (r, n, arm) = axis_rig();
    let mut j = prismatic(&r, n);
    let s = (cross(arm, perp(n)), cross(r.rb, perp(n)));
    let m = r.ma + r.mb;
    if known_eq(r.ia + r.ib, 0.0) {
        lemma("the line constraint responds", gt(m, 0.0));
    } else {
        lemma("the line constraint responds", gt(m * (r.ia + r.ib) + r.ia * r.ib * (s.0 - s.1) * (s.0 - s.1), 0.0));
    }
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let (m, l) = (j.m_enable_motor, j.m_enable_limit);
    if m {
        j.m_motor_impulse = var("pm");
    }
    if l {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let old = (j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse);
    let before = vels(n);
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    let mut ax = Axis { k: line_k(&r, arm, n), rate: dot(r.rel(arm, &before), n), h: r.data.step.dt };
    if m {
        ax.motor(old.0, j.m_motor_impulse, j.m_motor_speed, j.m_max_motor_force);
    } else {
        ensure("a motor that is off gives no impulse", eq(j.m_motor_impulse, 0.0));
    }
    if l {
        ax.limit("lower", old.1, j.m_lower_impulse, dot(r.d, n) - j.m_lower_translation, 1.0);
        ax.limit("upper", old.2, j.m_upper_impulse, j.m_upper_translation - dot(r.d, n), -1.0);
    } else {
        ensure("a limit that is off gives no impulse", and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_upper_impulse, 0.0)]));
    }
}
fn wheel_limits() {
    let (r, n, arm) = axis_rig();
    let mut j = wheel(&r, n);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let (m, l) = (j.m_enable_motor, j.m_enable_limit);
    if !known_eq(j.m_stiffness, 0.0) {
        j.m_spring_impulse = var("ps");
    }
    if m {
        j.m_motor_impulse = var("pm");
        // the strength holds for the impulse that is carried over as well
        let max = r.data.step.dt * j.m_max_motor_torque;
        assume(and(&[le(j.m_motor_impulse, max), ge(j.m_motor_impulse, -max)]));
    }
    if l {
        j.m_lower_impulse = nonneg("pl");
        j.m_upper_impulse = nonneg("pu");
    }
    let old = (j.m_motor_impulse, j.m_lower_impulse, j.m_upper_impulse, j.m_spring_impulse);
    let before = vels(n);
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    let h = r.data.step.dt;
    let (ca, cb) = (cross(arm, n), cross(r.rb, n));
    // spring first: its impulse changes the spin as well
    let ds = j.m_spring_impulse - old.3;
    let turn = before[r.kb].w - before[r.ka].w + (r.ib * cb + r.ia * ca) * ds;
    let mut dm = 0.0;
    if m {
        dm = j.m_motor_impulse - old.0;
        let max = h * j.m_max_motor_torque;
        ensure("the motor impulse never exceeds strength times step", and(&[le(j.m_motor_impulse, max), ge(j.m_motor_impulse, -max)]));
        if !known_eq(r.ia + r.ib, 0.0) {
            ensure("the motor reaches its speed or its strength", eq(j.m_motor_impulse, (old.0 + (j.m_motor_speed - turn) / (r.ia + r.ib)).min(max).max(-max)));
        }
    } else {
        ensure("a motor that is off gives no impulse", eq(j.m_motor_impulse, 0.0));
    }
    let k = line_k(&r, arm, n);
    // spinning the bodies also moves the anchors along the axis
    let mut ax = Axis { k, rate: dot(r.rel(arm, &before), n) + k * ds + (r.ib * cb + r.ia * ca) * dm, h };
    if l {
        ax.limit("lower", old.1, j.m_lower_impulse, dot(r.d, n) - j.m_lower_translation, 1.0);
        ax.limit("upper", old.2, j.m_upper_impulse, j.m_upper_translation - dot(r.d, n), -1.0);
    } else {
        ensure("a limit that is off gives no impulse", and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_upper_impulse, 0.0)]));
    }
}
fn distance_limits() {
    let n = unit("axis");
    let len = pos("len");
    assume(gt(len, B2_LINEAR_SLOP));
    let r = rig(framed(n, "ra"), framed(n, "rb"), scale(len, n), true);
    line_response(&r, r.ra, n);
    let mut j = distance(&r);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let range = !known_eq(j.m_min_length, j.m_max_length);
    j.m_impulse = if range && known_eq(j.m_stiffness, 0.0) { t0() } else { var("p") };
    j.m_lower_impulse = nonneg("pl");
    j.m_upper_impulse = nonneg("pu");
    let old = (j.m_impulse, j.m_lower_impulse, j.m_upper_impulse);
    let before = vels(n);
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    let k = line_k(&r, r.ra, n);
    let mut ax = Axis { k, rate: dot(r.rel(r.ra, &before), n) + k * (j.m_impulse - old.0), h: r.data.step.dt };
    if range {
        ax.limit("lower", old.1, j.m_lower_impulse, len - j.m_min_length, 1.0);
        ax.limit("upper", old.2, j.m_upper_impulse, j.m_max_length - len, -1.0);
    } else {
        ensure("a rigid rod leaves the limit impulses alone", and(&[eq(j.m_lower_impulse, old.1), eq(j.m_upper_impulse, old.2)]));
    }
}
/// change of the relative velocity of the anchors by an impulse at them
fn answer(r: &Rig, p: B2vec2) -> B2vec2 {
    let turn = |i: f32, x: B2vec2| sxv(i * cross(x, p), x);
    add(scale(r.ma + r.mb, p), add(turn(r.ia, r.ra), turn(r.ib, r.rb)))
}
/// the wanted impulse where the strength suffices, otherwise one in its direction
fn cut(new: B2vec2, want: B2vec2, max: f32) {
    ensure("linear impulse within its maximum", le(len2(new), max * max));
    if len2(want) <= max * max {
        ensure("linear impulse as wanted while the strength suffices", eqv(new, want));
    } else {
        ensure("linear impulse cut to its maximum in the wanted direction", and(&[eq(cross(new, want), 0.0), ge(dot(new, want), 0.0),
            or(&[eq(len2(new), max * max), lt(len2(want), B2_EPSILON * B2_EPSILON)])]));
    }
}
/// Angular and linear impulses of friction and motor joints: the ones that reach the target velocity, cut to their maximum.
fn drive<J: B2jointTraitDyn<D>>(r: &Rig, j: &mut J, max: (f32, f32), target: (B2vec2, f32), read: fn(&J) -> (B2vec2, f32)) {
    let old = read(j);
    let h = r.data.step.dt;
    let (mf, mt) = (h * max.0, h * max.1);
    // the strength holds for what is carried over
    assume(and(&[le(old.1, mt), ge(old.1, -mt)]));
    let mut before = plain_vels();
    let w = before[r.kb].w - before[r.ka].w;
    let turn = !known_eq(r.ia + r.ib, 0.0);
    let wz = if turn { (old.1 + (target.1 - w) / (r.ia + r.ib)).min(mt).max(-mt) } else { old.1 };
    // velocities for which the impulse `want` leads to the target velocity
    let want = vec2("want");
    let (wa, wb) = (before[r.ka].w - r.ia * (wz - old.1), before[r.kb].w + r.ib * (wz - old.1));
    before[r.kb].v = sub(add(add(before[r.ka].v, sxv(wa, r.ra)), sub(target.0, sxv(wb, r.rb))), answer(r, sub(want, old.0)));
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    let new = read(j);
    ensure("angular impulse within its maximum", and(&[le(new.1, mt), ge(new.1, -mt)]));
    ensure("angular impulse reaches the target rate or its maximum", eq(new.1, wz));
    cut(new.0, want, mf);
}
fn friction_strength() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut j = friction(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_linear_impulse = vec2("p");
    j.m_angular_impulse = var("pz");
    let max = (j.m_max_force, j.m_max_torque);
    drive(&r, &mut j, max, (zero2(), t0()), |j| (j.m_linear_impulse, j.m_angular_impulse));
}
fn motor_strength() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    r.b.borrow_mut().m_sweep.local_center = scale(-1.0, back(r.qb, r.rb));
    let mut j = motor(&r);
    r.point_response();
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_linear_impulse = vec2("p");
    j.m_angular_impulse = var("pz");
    // correct the given fraction of the offset error within the step
    let f = j.m_correction_factor / r.data.step.dt;
    let ang = r.pos[r.kb].a - r.pos[r.ka].a - j.m_angular_offset;
    let max = (j.m_max_force, j.m_max_torque);
    drive(&r, &mut j, max, (scale(-f, r.d), -f * ang), |j| (j.m_linear_impulse, j.m_angular_impulse));
}
fn mouse_strength() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    if known_eq(r.mb, 0.0) || !known_eq(r.ma, 0.0) {
        abort_path();
    }
    let mut j = mouse(&r);
    let h = r.data.step.dt;
    // a spring and damper given by its response g = 1 / (h (d + h k)), or none
    let g = if flag("soft") {
        let g = pos("g");
        j.m_damping = 1.0 / (h * g) - h * j.m_stiffness;
        assume(ge(j.m_damping, 0.0));
        g
    } else {
        j.m_damping = t0();
        j.m_stiffness = t0();
        t0()
    };
    let m = r.mb + g;
    lemma("the held point responds to impulses", gt(m * m + m * r.ib * len2(r.rb), 0.0));
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    j.m_impulse = vec2("p");
    let want = vec2("want");
    let mut before = plain_vels();
    // spring and damper on the held point, implicit in the new velocity: with the impulse `want` it moves by -g (h k c + want)
    let c = sub(add(r.pos[r.kb].c, r.rb), j.m_target_a);
    let moved = scale(-g, add(scale(h * j.m_stiffness, c), want));
    let more = sub(want, j.m_impulse);
    let given = add(scale(r.mb, more), sxv(r.ib * cross(r.rb, more), r.rb));
    before[r.kb].v = sub(sub(moved, given), sxv(before[r.kb].w, r.rb));
    let mut after = before.clone();
    j.solve_velocity_constraints(&r.data, &mut after);
    cut(j.m_impulse, want, h * j.m_max_force);
}
// ---- settings
fn pair() -> Rig {
    let m = |n: &str| (pos(&format!("{}.inv_mass", n)), pos(&format!("{}.inv_i", n)));
    let (a, b) = (m("a"), m("b"));
    let r = rig_of(vec2("ra"), vec2("rb"), vec2("d"), true, (0, a.0, a.1), (1, b.0, b.1));
    for x in [&r.a, &r.b].iter() {
        x.borrow_mut().m_flags.remove(BodyFlags::E_AWAKE_FLAG);
    }
    r
}
fn awake(r: &Rig) -> B {
    b_of(r.a.borrow().is_awake() && r.b.borrow().is_awake())
}
macro_rules! axis_settings {
    ($name:ident, $mk:expr, $lo:ident, $hi:ident, $max:ident, $setmax:ident, $getmax:ident) => {
        fn $name() {
            let r = pair();
            let mut j = $mk(&r);
            j.m_lower_impulse = nonneg("pl");
            j.m_upper_impulse = nonneg("pu");
            let (l, u) = (j.m_lower_impulse, j.m_upper_impulse);
            match choose("setting", 6) {
                0 => {
                    let f = flag("value");
                    let was = j.m_enable_limit;
                    j.enable_limit(f);
                    ensure("the limit is switched as asked", b_of(j.m_enable_limit == f));
                    if was != f {
                        ensure("switching the limit wakes the bodies", awake(&r));
                        ensure("switching the limit resets its impulses", and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_upper_impulse, 0.0)]));
                    } else {
                        ensure("nothing to switch, impulses stay", and(&[eq(j.m_lower_impulse, l), eq(j.m_upper_impulse, u)]));
                    }
                }
                1 => {
                    let (lo, hi) = (var("lo"), var("hi"));
                    assume(le(lo, hi));
                    let (o, p) = (j.$lo, j.$hi);
                    j.set_limits(lo, hi);
                    ensure("limits are stored", and(&[eq(j.get_lower_limit(), lo), eq(j.get_upper_limit(), hi)]));
                    ensure("changed limits wake the bodies", or(&[awake(&r), and(&[eq(o, lo), eq(p, hi)])]));
                    ensure("changed limits reset their impulses", or(&[and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_upper_impulse, 0.0)]), and(&[eq(o, lo), eq(p, hi)])]));
                }
                2 => {
                    let f = flag("value");
                    let was = j.m_enable_motor;
                    j.enable_motor(f);
                    ensure("the motor is switched as asked", b_of(j.is_motor_enabled() == f));
                    ensure("switching the motor wakes the bodies", or(&[awake(&r), b_of(was == f)]));
                }
                3 => {
                    let v = var("v");
                    let o = j.m_motor_speed;
                    j.set_motor_speed(v);
                    ensure("motor speed is stored", eq(j.get_motor_speed(), v));
                    ensure("a new motor speed wakes the bodies", or(&[awake(&r), eq(o, v)]));
                }
                4 => {
                    let v = nonneg("v");
                    let o = j.$max;
                    j.$setmax(v);
                    ensure("motor strength is stored", eq(j.$getmax(), v));
                    ensure("a new motor strength wakes the bodies", or(&[awake(&r), eq(o, v)]));
                }
                _ => {
                    ensure("queries report the settings", and(&[eq(j.get_lower_limit(), j.$lo), eq(j.get_upper_limit(), j.$hi), eq(j.get_motor_speed(), j.m_motor_speed),
                        eq(j.$getmax(), j.$max), b_of(j.is_motor_enabled() == j.m_enable_motor)]));
                }
            }
        }
    };
}
axis_settings!(revolute_settings, |r: &Rig| revolute(r), m_lower_angle, m_upper_angle, m_max_motor_torque, set_max_motor_torque, get_max_motor_torque);
axis_settings!(prismatic_settings, |r: &Rig| prismatic(r, unit("axis")), m_lower_translation, m_upper_translation, m_max_motor_force, set_max_motor_force, get_max_motor_force);
axis_settings!(wheel_settings, |r: &Rig| wheel(r, unit("axis")), m_lower_translation, m_upper_translation, m_max_motor_torque, set_max_motor_torque, get_max_motor_torque);

fn other_settings() {
    let r = pair();
    let v = nonneg("v");
    let x = vec2("x");
    match choose("joint", 9) {
        0 => {
            let mut j = wheel(&r, unit("axis"));
            j.set_stiffness(v);
            j.set_damping(v + 1.0);
            ensure("stiffness and damping are stored", and(&[eq(j.get_stiffness(), v), eq(j.get_damping(), v + 1.0)]));
            ensure("the limit switch is reported", b_of(j.is_limit_enabled() == j.m_enable_limit));
        }
        1 => {
            let mut j = weld(&r);
            j.set_stiffness(v);
            j.set_damping(v + 1.0);
            ensure("stiffness and damping are stored", and(&[eq(j.get_stiffness(), v), eq(j.get_damping(), v + 1.0)]));
        }
        2 => {
            let mut j = distance(&r);
            j.set_stiffness(v);
            j.set_damping(v + 1.0);
            ensure("stiffness and damping are stored", and(&[eq(j.get_stiffness(), v), eq(j.get_damping(), v + 1.0)]));
        }
        3 => {
            let mut j = friction(&r);
            j.set_max_force(v);
            j.set_max_torque(v + 1.0);
            ensure("strengths are stored", and(&[eq(j.get_max_force(), v), eq(j.get_max_torque(), v + 1.0)]));
        }
        4 => {
            let mut j = motor(&r);
            j.set_max_force(v);
            j.set_max_torque(v + 1.0);
            ensure("strengths are stored", and(&[eq(j.get_max_force(), v), eq(j.get_max_torque(), v + 1.0)]));
            let c = var("c");
            assume(and(&[ge(c, 0.0), le(c, 1.0)]));
            j.set_correction_factor(c);
            ensure("the correction factor is stored", eq(j.get_correction_factor(), c));
            ensure("strengths do not touch the offsets", and(&[eqv(j.get_linear_offset(), r.la()), eq(j.get_angular_offset(), j.m_angular_offset)]));
        }
        5 => {
            let mut j = motor(&r);
            let o = j.get_linear_offset();
            j.set_linear_offset(x);
            ensure("the linear offset is stored", eqv(j.get_linear_offset(), x));
            ensure("a new linear offset wakes the bodies", or(&[awake(&r), eqv(o, x)]));
        }
        6 => {
            let mut j = motor(&r);
            let o = j.get_angular_offset();
            j.set_angular_offset(v);
            ensure("the angular offset is stored", eq(j.get_angular_offset(), v));
            ensure("a new angular offset wakes the bodies", or(&[awake(&r), eq(o, v)]));
        }
        7 => {
            let mut j = mouse(&r);
            let o = j.get_target();
            j.set_target(x);
            ensure("the target is stored", eqv(j.get_target(), x));
            ensure("a new target wakes the held body", or(&[b_of(r.b.borrow().is_awake()), eqv(o, x)]));
        }
        _ => {
            let mut j = mouse(&r);
            j.set_max_force(v);
            j.set_stiffness(v + 1.0);
            j.set_damping(v + 2.0);
            ensure("mouse settings are stored", and(&[eq(j.get_max_force(), v), eq(j.get_stiffness(), v + 1.0), eq(j.get_damping(), v + 2.0)]));
        }
    }
}
fn distance_settings() {
    let r = pair();
    let mut j = distance(&r);
    assume(and(&[ge(j.m_min_length, B2_LINEAR_SLOP), ge(j.m_max_length, j.m_min_length)]));
    j.m_impulse = var("p");
    j.m_lower_impulse = nonneg("pl");
    j.m_upper_impulse = nonneg("pu");
    let (p, l, u, len, min, max) = (j.m_impulse, j.m_lower_impulse, j.m_upper_impulse, j.m_length, j.m_min_length, j.m_max_length);
    let v = var("v");
    match choose("setting", 3) {
        0 => {
            let got = j.set_length(v);
            ensure("the rest length is stored, at least the slop", and(&[eq(got, v.max(B2_LINEAR_SLOP)), eq(j.get_length(), got)]));
            ensure("a new rest length resets its impulse only", and(&[eq(j.m_impulse, 0.0), eq(j.m_lower_impulse, l), eq(j.m_upper_impulse, u), eq(j.get_min_length(), min), eq(j.get_max_length(), max)]));
        }
        1 => {
            let got = j.set_min_length(v);
            ensure("the minimum is stored, between slop and maximum", and(&[eq(got, v.min(max).max(B2_LINEAR_SLOP)), eq(j.get_min_length(), got)]));
            ensure("a new minimum resets its impulse only", and(&[eq(j.m_lower_impulse, 0.0), eq(j.m_impulse, p), eq(j.m_upper_impulse, u), eq(j.get_length(), len), eq(j.get_max_length(), max)]));
        }
        _ => {
            let got = j.set_max_length(v);
            ensure("the maximum is stored, at least the minimum", and(&[eq(got, v.max(min)), eq(j.get_max_length(), got)]));
            ensure("a new maximum resets its impulse only", and(&[eq(j.m_upper_impulse, 0.0), eq(j.m_impulse, p), eq(j.m_lower_impulse, l), eq(j.get_length(), len), eq(j.get_min_length(), min)]));
        }
    }
}
contracts! {
    selection_bodies,
    revolute_limits, prismatic_limits, wheel_limits, distance_limits,
    friction_strength, motor_strength, mouse_strength,
    revolute_settings, prismatic_settings, wheel_settings, distance_settings, other_settings,
}
