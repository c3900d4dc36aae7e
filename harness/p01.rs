mod common;
use common::*;

fn vec2_ops() {
    let (a, b) = (vec2("a"), vec2("b"));
    let s = var("s");
    ensure("dot", eq(b2_dot(a, b), a.x * b.x + a.y * b.y));
    ensure("cross", eq(b2_cross(a, b), a.x * b.y - a.y * b.x));
    ensure("vector x scalar", eqv(b2_cross_vec_by_scalar(a, s), B2vec2 { x: s * a.y, y: -s * a.x }));
    ensure("scalar x vector", eqv(b2_cross_scalar_by_vec(s, a), B2vec2 { x: -s * a.y, y: s * a.x }));
    ensure("sum", eqv(a + b, add(a, b)));
    ensure("difference", eqv(a - b, sub(a, b)));
    ensure("scaling", eqv(s * a, scale(s, a)));
    ensure("negation", eqv(-a, scale(-1.0, a)));
    let mut c = a;
    c += b;
    ensure("add-assign", eqv(c, add(a, b)));
    let mut c = a;
    c -= b;
    ensure("sub-assign", eqv(c, sub(a, b)));
    let mut c = a;
    c *= s;
    ensure("mul-assign", eqv(c, scale(s, a)));
    ensure("skew", eq(dot(a.skew(), b), cross(a, b)));
    ensure("length squared", eq(a.length_squared(), len2(a)));
    let l = a.length();
    ensure("length", and(&[ge(l, 0.0), eq(l * l, len2(a))]));
    let d = b2_distance_vec2(a, b);
    ensure("distance", and(&[ge(d, 0.0), eq(d * d, len2(sub(a, b)))]));
    ensure("distance squared", eq(b2_distance_vec2_squared(a, b), len2(sub(a, b))));
    let n = B2vec2::new(s, l);
    ensure("new", and(&[eq(n.x, s), eq(n.y, l)]));
    let mut z = a;
    z.set_zero();
    ensure("set_zero", eqv(z, zero2()));
    ensure("zero", eqv(B2vec2::zero(), zero2()));
    z.set(s, a.y);
    ensure("set", and(&[eq(z.x, s), eq(z.y, a.y)]));
    ensure("get", and(&[eq(a.get(0), a.x), eq(a.get(1), a.y)]));
    let mut w = a;
    w.set_by_index(0, s);
    ensure("set component 0", and(&[eq(w.x, s), eq(w.y, a.y)]));
    let mut w = a;
    w.set_by_index(1, s);
    ensure("set component 1", and(&[eq(w.x, a.x), eq(w.y, s)]));
}
fn vec2_equality() {
    let (a, b) = (vec2("a"), vec2("b"));
    let e = is_equal(a, b);
    ensure("is_equal", iff(B::from(e), eqv(a, b)));
    ensure("not_equal", B::from(not_equal(a, b) != e));
}
fn normalise() {
    let a = vec2("a");
    let mut n = a;
    let l = n.normalize();
    let len = a.length();
    if len < B2_EPS_HERE {
        ensure("short vector kept", and(&[eq(l, 0.0), eqv(n, a)]));
    } else {
        ensure("returns length", eq(l, len));
        ensure("unit length", eq(len2(n), 1.0));
        ensure("same direction", and(&[eq(cross(n, a), 0.0), gt(dot(n, a), 0.0)]));
    }
}
const B2_EPS_HERE: f32 = box2d_rs::b2_common::B2_EPSILON;

fn selection() {
    let (a, b) = (vec2("a"), vec2("b"));
    let r = b2_abs_vec2(a);
    ensure("abs vector", and(&[ge(r.x, 0.0), ge(r.y, 0.0), eq(r.x * r.x, a.x * a.x), eq(r.y * r.y, a.y * a.y)]));
    let m = b2_min_vec2(a, b);
    ensure("min vector below", and(&[le(m.x, a.x), le(m.x, b.x), le(m.y, a.y), le(m.y, b.y)]));
    ensure("min vector attained", and(&[or(&[eq(m.x, a.x), eq(m.x, b.x)]), or(&[eq(m.y, a.y), eq(m.y, b.y)])]));
    let m = b2_max_vec2(a, b);
    ensure("max vector above", and(&[ge(m.x, a.x), ge(m.x, b.x), ge(m.y, a.y), ge(m.y, b.y)]));
    ensure("max vector attained", and(&[or(&[eq(m.x, a.x), eq(m.x, b.x)]), or(&[eq(m.y, a.y), eq(m.y, b.y)])]));
    let (mut p, mut q) = (a, b);
    b2_swap(&mut p, &mut q);
    ensure("swap", and(&[eqv(p, b), eqv(q, a)]));
    let c = B2Mat22 { ex: a, ey: b };
    let m = b2_abs_mat22(c);
    ensure("abs matrix", and(&[eqv(m.ex, b2_abs_vec2(a)), eqv(m.ey, b2_abs_vec2(b))]));
}
fn clamping() {
    let (a, lo, hi) = (vec2("a"), vec2("lo"), vec2("hi"));
    assume(and(&[le(lo.x, hi.x), le(lo.y, hi.y)]));
    let c = b2_clamp(a.x, lo.x, hi.x);
    ensure("clamp in range", and(&[le(lo.x, c), le(c, hi.x)]));
    ensure("clamp keeps values in range", implies(and(&[le(lo.x, a.x), le(a.x, hi.x)]), eq(c, a.x)));
    ensure("clamp low", implies(lt(a.x, lo.x), eq(c, lo.x)));
    ensure("clamp high", implies(gt(a.x, hi.x), eq(c, hi.x)));
    let v = b2_clamp_vec2(a, lo, hi);
    ensure("clamp vector in range", and(&[le(lo.x, v.x), le(v.x, hi.x), le(lo.y, v.y), le(v.y, hi.y)]));
    ensure("clamp vector keeps x", implies(and(&[le(lo.x, a.x), le(a.x, hi.x)]), eq(v.x, a.x)));
    ensure("clamp vector keeps y", implies(and(&[le(lo.y, a.y), le(a.y, hi.y)]), eq(v.y, a.y)));
    ensure("clamp vector is clamp per component", and(&[eq(v.x, b2_clamp(a.x, lo.x, hi.x)), eq(v.y, b2_clamp(a.y, lo.y, hi.y))]));
}
fn clamp_bodies() {
    summaries(false);
    let (a, lo, hi) = (var("a"), var("lo"), var("hi"));
    assume(le(lo, hi));
    let c = b2_clamp(a, lo, hi);
    ensure("clamp body", or(&[and(&[lt(a, lo), eq(c, lo)]), and(&[gt(a, hi), eq(c, hi)]), and(&[le(lo, a), le(a, hi), eq(c, a)])]));
}
fn vec3_ops() {
    let (a, b) = (vec3("a"), vec3("b"));
    let s = var("s");
    ensure("dot3", eq(b2_dot_vec3(a, b), a.x * b.x + a.y * b.y + a.z * b.z));
    let c = b2_cross_vec3(a, b);
    ensure("cross3", eqv3(c, B2Vec3 { x: a.y * b.z - a.z * b.y, y: a.z * b.x - a.x * b.z, z: a.x * b.y - a.y * b.x }));
    ensure("sum3", eqv3(a + b, B2Vec3 { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z }));
    ensure("difference3", eqv3(a - b, B2Vec3 { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z }));
    ensure("scaling3", eqv3(s * a, B2Vec3 { x: s * a.x, y: s * a.y, z: s * a.z }));
    ensure("negation3", eqv3(-a, B2Vec3 { x: -a.x, y: -a.y, z: -a.z }));
    let mut c = a;
    c += b;
    ensure("add-assign3", eqv3(c, a + b));
    let mut c = a;
    c -= b;
    ensure("sub-assign3", eqv3(c, a - b));
    let mut c = a;
    c *= s;
    ensure("mul-assign3", eqv3(c, s * a));
    let mut z = a;
    z.set_zero();
    ensure("set_zero3", eqv3(z, B2Vec3 { x: 0.0, y: 0.0, z: 0.0 }));
    ensure("zero3", eqv3(B2Vec3::zero(), z));
    z.set(a.z, a.x, b.y);
    ensure("set3", and(&[eq(z.x, a.z), eq(z.y, a.x), eq(z.z, b.y)]));
}
fn rotations() {
    let a = var("a");
    let b = var("b");
    let (q, r) = (B2Rot::new(a), B2Rot::new(b));
    let v = vec2("v");
    let w = vec2("w");
    ensure("rotation from angle", and(&[eq(q.s, a.sin()), eq(q.c, a.cos())]));
    let mut q2 = r;
    q2.set(a);
    ensure("set rotation", and(&[eq(q2.s, a.sin()), eq(q2.c, a.cos())]));
    q2.set_identity();
    ensure("identity rotation", and(&[eq(q2.s, 0.0), eq(q2.c, 1.0)]));
    let qv = b2_mul_rot_by_vec2(q, v);
    ensure("rotate", eqv(qv, rotv(q, v)));
    ensure("rotation keeps dot products", eq(dot(qv, b2_mul_rot_by_vec2(q, w)), dot(v, w)));
    ensure("rotation keeps orientation", eq(cross(qv, b2_mul_rot_by_vec2(q, w)), cross(v, w)));
    ensure("inverse rotation", eqv(b2_mul_t_rot_by_vec2(q, qv), v));
    ensure("inverse rotation, other order", eqv(b2_mul_rot_by_vec2(q, b2_mul_t_rot_by_vec2(q, v)), v));
    let p = b2_mul_rot(q, r);
    ensure("product of rotations", eqv(rotv(p, v), rotv(q, rotv(r, v))));
    let p = b2_mul_t_rot(q, r);
    ensure("product with inverse rotation", eqv(rotv(q, rotv(p, v)), rotv(r, v)));
    ensure("axes", and(&[eqv(q.get_xaxis(), rotv(q, B2vec2 { x: 1.0, y: 0.0 })), eqv(q.get_yaxis(), rotv(q, B2vec2 { x: 0.0, y: 1.0 }))]));
    ensure("angle", eq(q.get_angle(), f32::atan2(q.s, q.c)));
}
fn transforms() {
    let (a, b) = (xform("A"), xform("B"));
    let v = vec2("v");
    let av = b2_mul_transform_by_vec2(a, v);
    ensure("apply transform", eqv(av, apply(a, v)));
    ensure("inverse after transform", eqv(b2_mul_t_transform_by_vec2(a, av), v));
    ensure("transform after inverse", eqv(b2_mul_transform_by_vec2(a, b2_mul_t_transform_by_vec2(a, v)), v));
    ensure("product of transforms", eqv(apply(b2_mul_transform(a, b), v), apply(a, apply(b, v))));
    ensure("product with inverse transform", eqv(apply(a, apply(b2_mul_t_transform(a, b), v)), apply(b, v)));
    let mut x = a;
    x.set_identity();
    ensure("identity transform", eqv(apply(x, v), v));
    let ang = var("ang");
    x.set(b.p, ang);
    ensure("set transform", and(&[eqv(x.p, b.p), eq(x.q.s, ang.sin()), eq(x.q.c, ang.cos())]));
    let y = B2Transform::new(a.p, b.q);
    ensure("new transform", and(&[eqv(y.p, a.p), eq(y.q.s, b.q.s), eq(y.q.c, b.q.c)]));
}
fn mat22() {
    let mut m = B2Mat22::new(vec2("ex"), vec2("ey"));
    let b = vec2("b");
    let det = m.ex.x * m.ey.y - m.ey.x * m.ex.y;
    let mul = |m: B2Mat22, v: B2vec2| B2vec2 { x: m.ex.x * v.x + m.ey.x * v.y, y: m.ex.y * v.x + m.ey.y * v.y };
    ensure("new matrix", and(&[eqv(m.ex, vec2("ex")), eqv(m.ey, vec2("ey"))]));
    ensure("matrix times vector", eqv(b2_mul(m, b), mul(m, b)));
    ensure("transposed matrix times vector", eqv(b2_mul_t(m, b), B2vec2 { x: dot(m.ex, b), y: dot(m.ey, b) }));
    let x = m.solve(b);
    let inv = m.get_inverse();
    if det != 0.0 {
        ensure("solve", eqv(mul(m, x), b));
        ensure("inverse", eqv(mul(m, mul(inv, b)), b));
        ensure("inverse on the left", eqv(mul(inv, mul(m, b)), b));
    } else {
        ensure("singular solve is zero", eqv(x, zero2()));
        ensure("singular inverse is zero", and(&[eqv(inv.ex, zero2()), eqv(inv.ey, zero2())]));
    }
    ensure("solve leaves the matrix", and(&[eqv(m.ex, vec2("ex")), eqv(m.ey, vec2("ey"))]));
    let n = B2Mat22 { ex: vec2("nx"), ey: vec2("ny") };
    let p = m + n;
    ensure("matrix sum", and(&[eqv(p.ex, add(m.ex, n.ex)), eqv(p.ey, add(m.ey, n.ey))]));
    ensure("matrix product", eqv(mul(b2_mul_mat22(m, n), b), mul(m, mul(n, b))));
    let mt = B2Mat22 { ex: B2vec2 { x: m.ex.x, y: m.ey.x }, ey: B2vec2 { x: m.ex.y, y: m.ey.y } };
    ensure("transposed matrix product", eqv(mul(b2_mul_t_mat22(m, n), b), mul(mt, mul(n, b))));
    let s = B2Mat22::new_scalars(b.x, b.y, n.ex.x, n.ex.y);
    ensure("matrix from scalars", and(&[eq(s.ex.x, b.x), eq(s.ey.x, b.y), eq(s.ex.y, n.ex.x), eq(s.ey.y, n.ex.y)]));
    let mut s = m;
    s.set(n.ex, n.ey);
    ensure("set matrix", and(&[eqv(s.ex, n.ex), eqv(s.ey, n.ey)]));
    s.set_identity();
    ensure("identity matrix", eqv(mul(s, b), b));
    s.set_zero();
    ensure("zero matrix", and(&[eqv(s.ex, zero2()), eqv(s.ey, zero2())]));
    let z = B2Mat22::zero();
    ensure("zero constructor", and(&[eqv(z.ex, zero2()), eqv(z.ey, zero2())]));
}
fn mul33(m: B2Mat33, v: B2Vec3) -> B2Vec3 {
    B2Vec3 { x: m.ex.x * v.x + m.ey.x * v.y + m.ez.x * v.z, y: m.ex.y * v.x + m.ey.y * v.y + m.ez.y * v.z, z: m.ex.z * v.x + m.ey.z * v.y + m.ez.z * v.z }
}
fn det33(m: B2Mat33) -> f32 {
    m.ex.x * (m.ey.y * m.ez.z - m.ez.y * m.ey.z) - m.ey.x * (m.ex.y * m.ez.z - m.ez.y * m.ex.z) + m.ez.x * (m.ex.y * m.ey.z - m.ey.y * m.ex.z)
}
fn mat33() {
    let m = B2Mat33::new(vec3("ex"), vec3("ey"), vec3("ez"));
    let b = vec3("b");
    let b2 = B2vec2 { x: b.x, y: b.y };
    ensure("matrix3 times vector", eqv3(b2_mul_mat33(m, b), mul33(m, b)));
    let top = B2vec2 { x: m.ex.x * b.x + m.ey.x * b.y, y: m.ex.y * b.x + m.ey.y * b.y };
    ensure("upper block times vector", eqv(b2_mul22(m, b2), top));
    let x = m.solve33(b);
    if det33(m) != 0.0 {
        ensure("solve33", eqv3(mul33(m, x), b));
    } else {
        ensure("singular solve33 is zero", eqv3(x, B2Vec3 { x: 0.0, y: 0.0, z: 0.0 }));
    }
}
fn mat33_upper() {
    let m = B2Mat33::new(vec3("ex"), vec3("ey"), vec3("ez"));
    let b = vec2("b");
    let x = m.solve22(b);
    let mut i = B2Mat33::new(vec3("ix"), vec3("iy"), vec3("iz"));
    m.get_inverse22(&mut i);
    let mul = |m: B2Mat33, v: B2vec2| B2vec2 { x: m.ex.x * v.x + m.ey.x * v.y, y: m.ex.y * v.x + m.ey.y * v.y };
    if m.ex.x * m.ey.y - m.ey.x * m.ex.y != 0.0 {
        ensure("solve22", eqv(mul(m, x), b));
        ensure("inverse22", eqv(mul(m, mul(i, b)), b));
    } else {
        ensure("singular solve22 is zero", eqv(x, zero2()));
        ensure("singular inverse22 is zero", eqv(mul(i, b), zero2()));
    }
    ensure("inverse22 clears the third row and column", and(&[eq(i.ex.z, 0.0), eq(i.ey.z, 0.0), eq(i.ez.x, 0.0), eq(i.ez.y, 0.0), eq(i.ez.z, 0.0)]));
}
fn mat33_sym_inverse() {
    let (a, b, c, d, e, f) = (var("a"), var("b"), var("c"), var("d"), var("e"), var("f"));
    let m = B2Mat33 { ex: B2Vec3 { x: a, y: b, z: c }, ey: B2Vec3 { x: b, y: d, z: e }, ez: B2Vec3 { x: c, y: e, z: f } };
    let mut i = B2Mat33::new(vec3("ix"), vec3("iy"), vec3("iz"));
    m.get_sym_inverse33(&mut i);
    let v = vec3("v");
    if det33(m) != 0.0 {
        ensure("symmetric inverse33", eqv3(mul33(m, mul33(i, v)), v));
    } else {
        ensure("singular inverse33 is zero", eqv3(mul33(i, v), B2Vec3 { x: 0.0, y: 0.0, z: 0.0 }));
    }
    let mut z = m;
    z.set_zero();
    ensure("set_zero33", eqv3(mul33(z, v), B2Vec3 { x: 0.0, y: 0.0, z: 0.0 }));
    ensure("zero33", eqv3(mul33(B2Mat33::zero(), v), B2Vec3 { x: 0.0, y: 0.0, z: 0.0 }));
}
/// The smallest power of two above v.
fn next_of(v: u32) -> u64 {
    1u64 << (32 - v.leading_zeros())
}
fn next_is_right(v: u32) -> bool {
    b2_next_power_of_two(v) as u64 == next_of(v)
}
fn power_is_right(v: u32) -> bool {
    b2_is_power_of_two(v) == (v as u64 * 2 == next_of(v))
}
/// Every value of a range is tried, in parallel, the powers of two being known on the way.
fn every(lo: u64, hi: u64, next: bool) -> bool {
    let n = 8;
    let part = move |k: u64| {
        let (mut v, end) = ((lo + (hi - lo) * k / n) as u32, (lo + (hi - lo) * (k + 1) / n - 1) as u32);
        let mut above = next_of(v);
        let mut good = true;
        loop {
            if v as u64 >= above {
                above *= 2;
            }
            good &= if next { b2_next_power_of_two(v) as u64 == above } else { b2_is_power_of_two(v) == (v as u64 * 2 == above) };
            if v == end {
                return good;
            }
            v += 1;
        }
    };
    let parts: Vec<_> = (0..n).map(|k| std::thread::spawn(move || part(k))).collect();
    parts.into_iter().all(|t| t.join().unwrap_or(false))
}
fn size_is_right(v: u32) -> bool {
    let x = v as i32;
    x == i32::MIN || b2_abs_i32(x) == if x < 0 { -x } else { x }
}
fn integers() {
    let (all, half) = (1u64 << 32, 1u64 << 31);
    if symbolic() {
        ensure("next power of two", b_of(every(0, half, true)));
        ensure("is a power of two", b_of(every(0, all, false)));
        ensure("absolute value of an integer", b_of((0..1 << 20).all(|x| size_is_right(x) && size_is_right(x.wrapping_neg())) && size_is_right(i32::MAX as u32) && size_is_right(i32::MIN as u32 + 1)));
    } else {
        let v = match choose("kind", 3) {
            0 => choose("small", 300) as u32,
            1 => (1u32 << choose("bit", 31)).wrapping_add(choose("offset", 3) as u32).wrapping_sub(1),
            _ => ((choose("high half", 1 << 15) << 16) + choose("low half", 1 << 16)) as u32,
        };
        ensure("next power of two", b_of(v as u64 >= half || next_is_right(v)));
        ensure("is a power of two", b_of(power_is_right(v) && power_is_right(v.wrapping_neg())));
        ensure("absolute value of an integer", b_of(size_is_right(v) && size_is_right(v.wrapping_neg())));
    }
}
contracts! { common::selection_bodies, vec2_ops, vec2_equality, normalise, selection, clamping, clamp_bodies, vec3_ops, rotations, transforms, mat22, mat33, mat33_upper, mat33_sym_inverse, integers }
