mod common;
use common::*;

fn sweep(n: &str) -> B2Sweep {
    B2Sweep { local_center: vec2(&format!("{}.lc", n)), c0: vec2(&format!("{}.c0", n)), c: vec2(&format!("{}.c", n)), a0: var(&format!("{}.a0", n)), a: var(&format!("{}.a", n)), alpha0: var_hint(&format!("{}.alpha0", n), 0.0, 0.9) }
}
fn any_xf() -> B2Transform {
    B2Transform { p: vec2("junk.p"), q: B2Rot { s: var("junk.s"), c: var("junk.c") } }
}
/// Pose of the sweep at fraction beta: centre and angle.
fn centre(x: B2Transform, s: B2Sweep) -> B2vec2 {
    apply(x, s.local_center)
}
fn interpolation() {
    let s = sweep("s");
    let beta = var_hint("beta", 0.0, 1.0);
    let mut x = any_xf();
    s.get_transform(&mut x, beta);
    let c = add(s.c0, scale(beta, sub(s.c, s.c0)));
    let a = s.a0 + beta * (s.a - s.a0);
    ensure("centre moves on the straight line", eqv(centre(x, s), c));
    ensure("angle moves linearly", and(&[eq(x.q.s, a.sin()), eq(x.q.c, a.cos())]));
    let mut x0 = any_xf();
    s.get_transform(&mut x0, 0.0);
    ensure("start pose", and(&[eqv(centre(x0, s), s.c0), eq(x0.q.s, s.a0.sin()), eq(x0.q.c, s.a0.cos())]));
    let mut x1 = any_xf();
    s.get_transform(&mut x1, 1.0);
    ensure("end pose", and(&[eqv(centre(x1, s), s.c), eq(x1.q.s, s.a.sin()), eq(x1.q.c, s.a.cos())]));
}
fn advance() {
    let s = sweep("s");
    let alpha = var_hint("alpha", 0.0, 1.0);
    assume(and(&[le(0.0, s.alpha0), lt(s.alpha0, 1.0), le(s.alpha0, alpha), lt(alpha, 1.0)]));
    let mut t = s;
    t.advance(alpha);
    ensure("end pose kept", and(&[eqv(t.c, s.c), eq(t.a, s.a), eqv(t.local_center, s.local_center)]));
    ensure("start time moved", eq(t.alpha0, alpha));
    // absolute time u in [alpha, 1]: same pose before and after
    let u = var_hint("u", 0.0, 1.0);
    let (b0, b1) = ((u - s.alpha0) / (1.0 - s.alpha0), (u - alpha) / (1.0 - alpha));
    let (mut x, mut y) = (any_xf(), any_xf());
    s.get_transform(&mut x, b0);
    t.get_transform(&mut y, b1);
    let ax = s.a0 + b0 * (s.a - s.a0);
    let ay = t.a0 + b1 * (t.a - t.a0);
    ensure("same angle at every later time", eq(ax, ay));
    ensure("same rotation at every later time", and(&[eq(x.q.s, y.q.s), eq(x.q.c, y.q.c)]));
    ensure("same position at every later time", eqv(x.p, y.p));
    let mut z = any_xf();
    t.get_transform(&mut z, 0.0);
    let mut w = any_xf();
    s.get_transform(&mut w, (alpha - s.alpha0) / (1.0 - s.alpha0));
    ensure("new start lies on the old motion", and(&[eqv(z.p, w.p), eq(z.q.s, w.q.s), eq(z.q.c, w.q.c)]));
}
fn advance_to_end() {
    let s = sweep("s");
    assume(and(&[le(0.0, s.alpha0), lt(s.alpha0, 1.0)]));
    let mut t = s;
    t.advance(1.0);
    ensure("advance to the end", and(&[eqv(t.c0, s.c), eq(t.a0, s.a), eqv(t.c, s.c), eq(t.a, s.a), eq(t.alpha0, 1.0)]));
}
fn normalise() {
    let s = sweep("s");
    let mut t = s;
    t.normalize();
    let d = s.a0 - t.a0;
    ensure("both angles change alike", eq(d, s.a - t.a));
    let turn = 2.0 * box2d_rs::b2_common::B2_PI;
    let k = f32::floor(s.a0 / turn);
    ensure("by a whole number of turns", eq(d, turn * k));
    ensure("start angle within one turn", and(&[ge(t.a0, 0.0), lt(t.a0, turn)]));
    ensure("nothing else changes", and(&[eqv(t.c0, s.c0), eqv(t.c, s.c), eqv(t.local_center, s.local_center), eq(t.alpha0, s.alpha0)]));
}
contracts! { interpolation, advance, advance_to_end, normalise }
