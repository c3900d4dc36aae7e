#![allow(dead_code)]
pub use box2d_rs::b2_math::*;
pub use symrt::*;

pub fn vec2(n: &str) -> B2vec2 {
    B2vec2::new(var(&format!("{}.x", n)), var(&format!("{}.y", n)))
}
pub fn vec3(n: &str) -> B2Vec3 {
    B2Vec3::new(var(&format!("{}.x", n)), var(&format!("{}.y", n)), var(&format!("{}.z", n)))
}
/// A proper rotation: sine and cosine of some angle.
pub fn rot(n: &str) -> B2Rot {
    let a = var_hint(&format!("{}.angle", n), -4.0, 4.0);
    B2Rot { s: a.sin(), c: a.cos() }
}
pub fn xform(n: &str) -> B2Transform {
    B2Transform { p: vec2(&format!("{}.p", n)), q: rot(&format!("{}.q", n)) }
}
pub fn unit(n: &str) -> B2vec2 {
    let q = rot(n);
    B2vec2::new(q.c, q.s)
}
pub fn eqv(a: B2vec2, b: B2vec2) -> B {
    and(&[eq(a.x, b.x), eq(a.y, b.y)])
}
pub fn eqv3(a: B2Vec3, b: B2Vec3) -> B {
    and(&[eq(a.x, b.x), eq(a.y, b.y), eq(a.z, b.z)])
}
pub fn t() -> B {
    B::from(true)
}
pub fn zero2() -> B2vec2 {
    B2vec2::new(0.0, 0.0)
}
// reference operations, written out so that contracts do not rest on the functions they verify
pub fn dot(a: B2vec2, b: B2vec2) -> f32 {
    a.x * b.x + a.y * b.y
}
pub fn cross(a: B2vec2, b: B2vec2) -> f32 {
    a.x * b.y - a.y * b.x
}
/// s x v
pub fn sxv(s: f32, v: B2vec2) -> B2vec2 {
    B2vec2 { x: -s * v.y, y: s * v.x }
}
pub fn add(a: B2vec2, b: B2vec2) -> B2vec2 {
    B2vec2 { x: a.x + b.x, y: a.y + b.y }
}
pub fn sub(a: B2vec2, b: B2vec2) -> B2vec2 {
    B2vec2 { x: a.x - b.x, y: a.y - b.y }
}
pub fn scale(s: f32, a: B2vec2) -> B2vec2 {
    B2vec2 { x: s * a.x, y: s * a.y }
}
pub fn rotv(q: B2Rot, v: B2vec2) -> B2vec2 {
    B2vec2 { x: q.c * v.x - q.s * v.y, y: q.s * v.x + q.c * v.y }
}
pub fn apply(x: B2Transform, v: B2vec2) -> B2vec2 {
    add(rotv(x.q, v), x.p)
}
pub fn len2(a: B2vec2) -> f32 {
    a.x * a.x + a.y * a.y
}

/// The contract that callers of the selection functions use (term-level min / max / abs) holds for their bodies.
pub fn selection_bodies() {
    summaries(false);
    let (a, b) = (var("a"), var("b"));
    let m = b2_min(a, b);
    ensure("min is a lower bound", and(&[le(m, a), le(m, b)]));
    ensure("min is one of its arguments", or(&[eq(m, a), eq(m, b)]));
    let m = b2_max(a, b);
    ensure("max is an upper bound", and(&[ge(m, a), ge(m, b)]));
    ensure("max is one of its arguments", or(&[eq(m, a), eq(m, b)]));
    let m = b2_abs(a);
    ensure("abs is non-negative", ge(m, 0.0));
    ensure("abs keeps magnitude", eq(m * m, a * a));
}
pub fn b_of(b: bool) -> B {
    B::from(b)
}
pub fn is_unit(v: B2vec2) -> B {
    eq(len2(v), 1.0)
}
/// p1 + f (p2 - p1)
pub fn along(p1: B2vec2, p2: B2vec2, f: f32) -> B2vec2 {
    add(p1, scale(f, sub(p2, p1)))
}
