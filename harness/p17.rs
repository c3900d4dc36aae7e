mod common;
mod phys;
mod joints;
use common::selection_bodies;
use joints::*;

/// Pose the joint was prepared in; the bodies have moved on since, or not.
fn prepared(r: &Rig, stale: bool) -> Vec<B2position> {
    if stale {
        (0..3).map(|i| B2position { c: vec2(&format!("old{}", i)), a: var_hint(&format!("olda{}", i), -4.0, 4.0) }).collect()
    } else {
        r.pos.clone()
    }
}
fn moved(before: &[B2position], after: &[B2position], k: usize) -> (B2vec2, f32) {
    (sub(after[k].c, before[k].c), after[k].a - before[k].a)
}
/// Opposite pushes at the ends of the arms, and opposite angular pushes where the joint has them.
fn opposite(r: &Rig, arm: B2vec2, angular: bool, before: &[B2position], after: &[B2position]) {
    let ((ca, aa), (cb, ab)) = (moved(before, after, r.ka), moved(before, after, r.kb));
    momentum(r, before, after);
    let ta = r.ma * aa - r.ia * cross(arm, ca);
    let tb = r.mb * ab - r.ib * cross(r.rb, cb);
    if angular {
        ensure("opposite angular pushes", and(&[eq(r.ia * r.ma * tb, -(r.ib * r.mb * ta)),
            or(&[b_of(!known_eq(r.ia, 0.0)), eq(aa, 0.0)]), or(&[b_of(!known_eq(r.ib, 0.0)), eq(ab, 0.0)])]));
    } else {
        ensure("bodies turn only by the pushes at their anchors", and(&[eq(ta, 0.0), eq(tb, 0.0)]));
    }
}
fn momentum(r: &Rig, before: &[B2position], after: &[B2position]) {
    let ((ca, aa), (cb, ab)) = (moved(before, after, r.ka), moved(before, after, r.kb));
    ensure("opposite pushes by inverse mass", eqv(scale(r.mb, ca), scale(-r.ma, cb)));
    if known_eq(r.ma, 0.0) {
        ensure("immovable bodies stay", and(&[eqv(ca, zero2()), eq(aa, 0.0)]));
    }
    if known_eq(r.mb, 0.0) {
        ensure("immovable bodies stay", and(&[eqv(cb, zero2()), eq(ab, 0.0)]));
    }
    for k in 0..before.len() {
        if k != r.ka && k != r.kb {
            ensure("other bodies are untouched", and(&[eqv(after[k].c, before[k].c), eq(after[k].a, before[k].a)]));
        }
    }
}
/// first order change of the distance vector of the anchors
fn shift(r: &Rig, arm: B2vec2, before: &[B2position], after: &[B2position]) -> B2vec2 {
    let ((ca, aa), (cb, ab)) = (moved(before, after, r.ka), moved(before, after, r.kb));
    sub(add(cb, sxv(ab, r.rb)), add(ca, sxv(aa, arm)))
}
fn unmoved(before: &[B2position], after: &[B2position]) -> B {
    let v: Vec<B> = (0..before.len()).map(|k| and(&[eqv(after[k].c, before[k].c), eq(after[k].a, before[k].a)])).collect();
    and(&v)
}
fn gap() -> (f32, B2vec2) {
    let len = nonneg("gap");
    (len, scale(len, unit("dir")))
}
fn revolute_position() {
    let (len, d) = gap();
    let mut r = rig(vec2("ra"), vec2("rb"), d, true);
    let mut j = revolute(&r);
    domain_checks(false);
    j.init_velocity_constraints(&r.data, &prepared(&r, flag("moved since")), &mut v0(3));
    domain_checks(true);
    // the hinge angle is brought back into range first, by at most the largest correction
    let angle = r.pos[r.kb].a - r.pos[r.ka].a - j.m_reference_angle;
    let turns = !known_eq(r.ia + r.ib, 0.0);
    let mut c = t0();
    let big = B2_MAX_ANGULAR_CORRECTION + t0();
    if j.m_enable_limit && turns {
        let (lo, hi) = (j.m_lower_angle, j.m_upper_angle);
        if hi - lo < 2.0 * B2_ANGULAR_SLOP {
            c = (angle - lo).min(big).max(-big);
        } else if angle <= lo {
            c = (angle - lo + B2_ANGULAR_SLOP).min(t0()).max(-big);
        } else if angle >= hi {
            c = (angle - hi - B2_ANGULAR_SLOP).min(big).max(t0());
        }
    }
    let mut mid = r.pos.clone();
    if turns {
        mid[r.ka].a = mid[r.ka].a + r.ia * c / (r.ia + r.ib);
        mid[r.kb].a = mid[r.kb].a - r.ib * c / (r.ia + r.ib);
    }
    // the arms are those after the turn
    r.qa = B2Rot { s: mid[r.ka].a.sin(), c: mid[r.ka].a.cos() };
    r.qb = B2Rot { s: mid[r.kb].a.sin(), c: mid[r.kb].a.cos() };
    j.m_local_anchor_a = r.la();
    j.m_local_anchor_b = r.lb();
    r.point_response();
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    opposite(&r, r.ra, false, &mid, &after);
    ensure("the anchors are brought together", eqv(add(d, shift(&r, r.ra, &mid, &after)), zero2()));
    ensure("solved exactly when the errors are within tolerance", iff(b_of(ok), and(&[le(len, B2_LINEAR_SLOP), le(c.abs(), B2_ANGULAR_SLOP)])));
    ensure("a satisfied joint is left alone", implies(and(&[eq(len, 0.0), eq(c, 0.0)]), unmoved(&r.pos, &after)));
}
fn weld_position() {
    let (len, d) = gap();
    let r = rig(vec2("ra"), vec2("rb"), d, true);
    let mut j = weld(&r);
    r.point_response();
    let m = r.ma + r.mb;
    let turns = !known_eq(r.ia + r.ib, 0.0);
    if turns {
        lemma("the welded frame responds", gt(m * (m * (r.ia + r.ib) + r.ia * r.ib * len2(sub(r.ra, r.rb))), 0.0));
    }
    domain_checks(false);
    j.init_velocity_constraints(&r.data, &prepared(&r, flag("moved since")), &mut v0(3));
    domain_checks(true);
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    let soft = !known_eq(j.m_stiffness, 0.0);
    let c = r.pos[r.kb].a - r.pos[r.ka].a - j.m_reference_angle;
    opposite(&r, r.ra, !soft, &r.pos, &after);
    ensure("the anchors are brought together", eqv(add(d, shift(&r, r.ra, &r.pos, &after)), zero2()));
    if soft {
        ensure("a soft angle does not count as an error", iff(b_of(ok), le(len, B2_LINEAR_SLOP)));
    } else {
        if turns {
            ensure("the angle is restored", eq(c + moved(&r.pos, &after, r.kb).1 - moved(&r.pos, &after, r.ka).1, 0.0));
        }
        ensure("solved exactly when the errors are within tolerance", iff(b_of(ok), and(&[le(len, B2_LINEAR_SLOP), le(c.abs(), B2_ANGULAR_SLOP)])));
    }
    ensure("a satisfied joint is left alone", implies(and(&[eq(len, 0.0), or(&[b_of(soft), eq(c, 0.0)])]), unmoved(&r.pos, &after)));
}
/// how far a translation is out of its range
fn outside(t: f32, lo: f32, hi: f32) -> (bool, f32) {
    if hi - lo < 2.0 * B2_LINEAR_SLOP {
        (true, t - lo)
    } else if t <= lo {
        (true, (t - lo).min(t0()))
    } else if t >= hi {
        (true, (t - hi).max(t0()))
    } else {
        (false, t0())
    }
}
fn prismatic_position() {
    let n = unit("axis");
    let (ra, rb) = (framed(n, "ra"), framed(n, "rb"));
    let (t, s) = (var("t"), var("s"));
    let d = add(scale(t, n), scale(s, perp(n)));
    let arm = add(d, ra);
    let r = rig(ra, rb, d, true);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let m = r.ma + r.mb;
    let turns = !known_eq(r.ia + r.ib, 0.0);
    let i = if turns { r.ia + r.ib } else { 1.0 + t0() };
    let (s1, s2) = (cross(arm, perp(n)), cross(rb, perp(n)));
    let (a1, a2) = (cross(arm, n), cross(rb, n));
    lemma("the line constraint responds", gt(m * i + r.ia * r.ib * (s1 - s2) * (s1 - s2), 0.0));
    lemma("the locked axis responds", gt(m * (m * i + r.ia * r.ib * ((s1 - s2) * (s1 - s2) + (a1 - a2) * (a1 - a2))), 0.0));
    let mut j = prismatic(&r, n);
    domain_checks(false);
    j.init_velocity_constraints(&r.data, &prepared(&r, flag("moved since")), &mut v0(3));
    domain_checks(true);
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    let (active, c2) = if j.m_enable_limit { outside(t, j.m_lower_translation, j.m_upper_translation) } else { (false, t0()) };
    let c = r.pos[r.kb].a - r.pos[r.ka].a - j.m_reference_angle;
    opposite(&r, arm, true, &r.pos, &after);
    let sh = shift(&r, arm, &r.pos, &after);
    ensure("the sideways error is removed", eq(s + dot(sh, perp(n)), 0.0));
    if turns {
        ensure("the angle is restored", eq(c + moved(&r.pos, &after, r.kb).1 - moved(&r.pos, &after, r.ka).1, 0.0));
    }
    if active {
        ensure("the translation is brought back into range", eq(c2 + dot(sh, n), 0.0));
    } else {
        let ca = moved(&r.pos, &after, r.ka).0;
        let cb = moved(&r.pos, &after, r.kb).0;
        ensure("no push along the axis while in range", and(&[eq(dot(ca, n), 0.0), eq(dot(cb, n), 0.0)]));
    }
    ensure("solved exactly when the errors are within tolerance", iff(b_of(ok), and(&[le(s.abs(), B2_LINEAR_SLOP), le(c2.abs(), B2_LINEAR_SLOP), le(c.abs(), B2_ANGULAR_SLOP)])));
    ensure("a satisfied joint is left alone", implies(and(&[eq(s, 0.0), eq(c2, 0.0), eq(c, 0.0)]), unmoved(&r.pos, &after)));
}
fn wheel_position() {
    let n = unit("axis");
    let (ra, rb) = (framed(n, "ra"), framed(n, "rb"));
    let (t, s) = (var("t"), var("s"));
    let d = add(scale(t, n), scale(s, perp(n)));
    let arm = add(d, ra);
    let r = rig(ra, rb, d, true);
    line_response(&r, arm, n);
    line_response(&r, arm, perp(n));
    let mut j = wheel(&r, n);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    let c = if j.m_enable_limit { outside(t, j.m_lower_translation, j.m_upper_translation).1 } else { t0() };
    if c == 0.0 {
        opposite(&r, arm, false, &r.pos, &after);
        let sh = shift(&r, arm, &r.pos, &after);
        ensure("the sideways error is removed", eq(s + dot(sh, perp(n)), 0.0));
        ensure("no push along the axis while in range", eq(dot(moved(&r.pos, &after, r.kb).0, n), 0.0));
        ensure("solved exactly when the errors are within tolerance", iff(b_of(ok), le(s.abs(), B2_LINEAR_SLOP)));
        ensure("a satisfied joint is left alone", implies(eq(s, 0.0), unmoved(&r.pos, &after)));
    } else {
        // range first
        let k = line_k(&r, arm, n);
        let p = -c / k;
        let mut mid = r.pos.clone();
        mid[r.ka].c = sub(mid[r.ka].c, scale(r.ma * p, n));
        mid[r.ka].a = mid[r.ka].a - r.ia * p * cross(arm, n);
        mid[r.kb].c = add(mid[r.kb].c, scale(r.mb * p, n));
        mid[r.kb].a = mid[r.kb].a + r.ib * p * cross(rb, n);
        let q = |k: usize| B2Rot { s: mid[k].a.sin(), c: mid[k].a.cos() };
        let (qa, qb) = (q(r.ka), q(r.kb));
        let ra2 = rotv(qa, back(r.qa, ra));
        let rb2 = rotv(qb, back(r.qb, rb));
        let d2 = sub(add(mid[r.kb].c, rb2), add(mid[r.ka].c, ra2));
        let side = rotv(qa, perp(back(r.qa, n)));
        momentum(&r, &r.pos, &after);
        let off = moved(&mid, &after, r.kb).0;
        let offa = moved(&mid, &after, r.ka).0;
        ensure("the range is restored by a push along the axis, the rest is sideways", and(&[eq(cross(off, side), 0.0), eq(cross(offa, side), 0.0)]));
        let s2 = dot(d2, side);
        let k2 = line_k(&r, arm, perp(n));
        ensure("the sideways error is pushed back", and(&[eq(k2 * dot(off, side), -(r.mb * s2)), eq(k2 * dot(offa, side), r.ma * s2)]));
        ensure("solved exactly when the errors are within tolerance", iff(b_of(ok), le(s2.abs().max(c.abs()), B2_LINEAR_SLOP)));
    }
}
fn distance_position() {
    let n = unit("axis");
    let len = pos("len");
    assume(gt(len, B2_LINEAR_SLOP));
    let r = rig(framed(n, "ra"), framed(n, "rb"), scale(len, n), true);
    line_response(&r, r.ra, n);
    let mut j = distance(&r);
    j.init_velocity_constraints(&r.data, &r.pos, &mut v0(3));
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    let (lo, hi) = (j.m_min_length, j.m_max_length);
    let c = if len < lo { len - lo } else if len > hi { len - hi } else { t0() };
    if known_eq(c, 0.0) {
        ensure("a satisfied joint is left alone", unmoved(&r.pos, &after));
        ensure("a satisfied joint is solved", b_of(ok));
        return;
    }
    opposite(&r, r.ra, false, &r.pos, &after);
    let cb = moved(&r.pos, &after, r.kb).0;
    let ca = moved(&r.pos, &after, r.ka).0;
    ensure("pushes along the line of the anchors", and(&[eq(cross(cb, n), 0.0), eq(cross(ca, n), 0.0)]));
    if known_eq(lo, hi) || known_eq(j.m_stiffness, 0.0) {
        ensure("the length is brought back into range", eq(c + dot(shift(&r, r.ra, &r.pos, &after), n), 0.0));
    }
    ensure("never pushed the wrong way", le(c * (dot(cb, n) - dot(ca, n)), 0.0));
    ensure("solved exactly when the error is within tolerance", iff(b_of(ok), lt(c.abs(), B2_LINEAR_SLOP)));
}
/// Anchors that have moved since the joint was prepared: the line is the current one.
fn distance_later() {
    let n = unit("axis");
    let len = pos("len");
    assume(gt(len, B2_LINEAR_SLOP));
    let r = rig(framed(n, "ra"), framed(n, "rb"), scale(len, n), true);
    let mut j = distance(&r);
    let mut old = r.pos.clone();
    for k in 0..3 {
        old[k].c = add(old[k].c, vec2(&format!("moved{}", k)));
    }
    domain_checks(false);
    j.init_velocity_constraints(&r.data, &old, &mut v0(3));
    domain_checks(true);
    let mut after = r.pos.clone();
    let ok = j.solve_position_constraints(&r.data, &mut after);
    opposite(&r, r.ra, false, &r.pos, &after);
    let cb = moved(&r.pos, &after, r.kb).0;
    let ca = moved(&r.pos, &after, r.ka).0;
    ensure("pushes along the line of the anchors", and(&[eq(cross(cb, n), 0.0), eq(cross(ca, n), 0.0)]));
    let (lo, hi) = (j.m_min_length, j.m_max_length);
    ensure("solved exactly when the error is within tolerance", iff(b_of(ok), and(&[gt(len, lo - B2_LINEAR_SLOP), lt(len, hi + B2_LINEAR_SLOP)])));
}
fn pulley_position() {
    let mut p = pulley(true);
    domain_checks(false);
    p.j.init_velocity_constraints(&p.r.data, &prepared(&p.r, flag("moved since")), &mut v0(3));
    domain_checks(true);
    let r = &p.r;
    let mut after = r.pos.clone();
    let ok = p.j.solve_position_constraints(&r.data, &mut after);
    let len = |k: usize, arm: B2vec2, g: B2vec2| len2(sub(add(r.pos[k].c, arm), g)).sqrt();
    let (la, lb) = (len(r.ka, r.ra, p.j.get_ground_anchor_a()), len(r.kb, r.rb, p.j.get_ground_anchor_b()));
    let c = p.j.m_constant - la - p.j.m_ratio * lb;
    let ((ca, aa), (cb, ab)) = (moved(&r.pos, &after, r.ka), moved(&r.pos, &after, r.kb));
    ensure("bodies turn only by the pushes at their anchors", and(&[eq(r.ma * aa, r.ia * cross(r.ra, ca)), eq(r.mb * ab, r.ib * cross(r.rb, cb))]));
    ensure("each body is pushed along its own rope", and(&[eq(cross(ca, p.ua), 0.0), eq(cross(cb, p.ub), 0.0)]));
    if !p.ua.is_zero() && !p.ub.is_zero() {
        ensure("the second push is ratio times the first", eq(r.ma * dot(cb, p.ub), p.j.m_ratio * r.mb * dot(ca, p.ua)));
        let grow = |x: B2vec2, w: f32, arm: B2vec2, u: B2vec2| dot(add(x, sxv(w, arm)), u);
        ensure("the rope length is restored", eq(c - grow(ca, aa, r.ra, p.ua) - p.j.m_ratio * grow(cb, ab, r.rb, p.ub), 0.0));
    }
    ensure("solved exactly when the error is within tolerance", iff(b_of(ok), lt(c.abs(), B2_LINEAR_SLOP)));
    ensure("a satisfied joint is left alone", implies(eq(c, 0.0), unmoved(&r.pos, &after)));
}
fn gear_position() {
    let mut g = gear(true, false);
    g.j.init_velocity_constraints(&g.data, &g.pos, &mut v0(5));
    // any constant
    g.j.m_constant = var("constant");
    let mut after = g.pos.clone();
    g.j.solve_position_constraints(&g.data, &mut after);
    let coord = |s: &Side, reference: f32| {
        if s.u.is_zero() {
            g.pos[s.k].a - g.pos[s.g].a - reference
        } else {
            dot(sub(add(g.pos[s.k].c, s.r), add(g.pos[s.g].c, s.rg)), s.u)
        }
    };
    let c = coord(&g.s[0], g.j.m_reference_angle_a) + g.j.m_ratio * coord(&g.s[1], g.j.m_reference_angle_b) - g.j.m_constant;
    let dv = |k: usize| moved(&g.pos, &after, k);
    let rate = |s: &Side| dot(sub(dv(s.k).0, dv(s.g).0), s.u) + s.jw * dv(s.k).1 - s.jg * dv(s.g).1;
    if g.k > 0.0 {
        ensure("the geared coordinates get back into ratio", eq(c + rate(&g.s[0]) + g.j.m_ratio * rate(&g.s[1]), 0.0));
    }
    // one push, shared in ratio, opposite on the frames
    let q = [1.0 + t0(), g.j.m_ratio];
    for (s, f) in g.s.iter().zip(q.iter()) {
        let l = if g.k > 0.0 { -c / g.k * *f } else { t0() };
        ensure("bodies move only by the push along their joint, in ratio, opposite on the frames", and(&[
            eqv(dv(s.k).0, scale(s.m.0 * l, s.u)), eq(dv(s.k).1, s.m.1 * l * s.jw),
            eqv(dv(s.g).0, scale(-s.mg.0 * l, s.u)), eq(dv(s.g).1, -s.mg.1 * l * s.jg)]));
    }
    ensure("other bodies are untouched", and(&[eqv(dv(4).0, zero2()), eq(dv(4).1, 0.0)]));
    ensure("a satisfied joint is left alone", implies(eq(c, 0.0), unmoved(&g.pos, &after)));
}
fn soft_position() {
    let r = rig(vec2("ra"), vec2("rb"), vec2("d"), true);
    let mut after = r.pos.clone();
    let ok = match choose("joint", 3) {
        0 => friction(&r).solve_position_constraints(&r.data, &mut after),
        1 => motor(&r).solve_position_constraints(&r.data, &mut after),
        _ => mouse(&r).solve_position_constraints(&r.data, &mut after),
    };
    ensure("soft joints move nothing", unmoved(&r.pos, &after));
    ensure("soft joints are always solved", b_of(ok));
}
contracts! {
    selection_bodies,
    revolute_position, weld_position, prismatic_position, wheel_position,
    distance_position, distance_later, pulley_position, gear_position, soft_position,
}
