mod common;
mod phys;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_settings::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use common::*;

fn out0() -> B2rayCastOutput {
    B2rayCastOutput { normal: vec2("on"), fraction: var("of") }
}
fn ray() -> B2rayCastInput {
    B2rayCastInput { p1: vec2("p1"), p2: vec2("p2"), max_fraction: nonneg("max_fraction") }
}
fn circle_of() -> B2circleShape {
    let mut c = B2circleShape::default();
    c.m_p = vec2("c");
    c.base.m_radius = nonneg("r");
    c
}
fn circle_point() {
    let c = circle_of();
    let x = xform("x");
    let q = vec2("q");
    let inside = le(len2(sub(apply(x, c.m_p), q)), c.base.m_radius * c.base.m_radius);
    ensure("circle: reported inside exactly when within the radius", iff(b_of(c.test_point(x, q)), inside));
}
fn circle_ray() {
    let c = circle_of();
    // the pose enters only through the centre
    let x = xform("x");
    let centre = vec2("w");
    if symbolic() {
        assume(eqv(centre, apply(x, c.m_p)));
    }
    let r = c.base.m_radius;
    assume(ge(r, box2d_rs::b2_common::B2_EPSILON));
    let i = ray();
    let d = sub(i.p2, i.p1);
    assume(ge(len2(d), box2d_rs::b2_common::B2_EPSILON));
    let mut o = out0();
    let old = o;
    let t = var("t");
    let w = apply(x, c.m_p);
    let dist2 = |t: f32| len2(sub(along(i.p1, i.p2, t), w));
    if c.ray_cast(&mut o, &i, x, 0) {
        let f = o.fraction;
        ensure("circle: hit within the range", and(&[ge(f, 0.0), le(f, i.max_fraction)]));
        ensure("circle: hit on the boundary", eq(dist2(f), r * r));
        ensure("circle: nothing before the hit", implies(and(&[ge(t, 0.0), lt(t, f)]), gt(dist2(t), r * r)));
        ensure("circle: normal points from the centre to the hit", eqv(scale(r, o.normal), sub(along(i.p1, i.p2, f), w)));
    } else {
        ensure("circle: no hit for a ray from outside means no contact in range", implies(and(&[gt(dist2(0.0), r * r), ge(t, 0.0), le(t, i.max_fraction)]), ge(dist2(t), r * r)));
        ensure("circle: no hit leaves the output alone", and(&[eqv(o.normal, old.normal), eq(o.fraction, old.fraction)]));
    }
}
/// Convex polygon, counter-clockwise, with unit outward normals: n_i = perp(e_i) / |e_i|.
fn polygon_of(n: usize) -> B2polygonShape {
    let mut s = B2polygonShape::default();
    s.m_count = n;
    s.m_centroid = vec2("c");
    s.base.m_radius = nonneg("r");
    for i in 0..n {
        s.m_vertices[i] = vec2(&format!("v{}", i));
    }
    for i in 0..n {
        let e = sub(s.m_vertices[(i + 1) % n], s.m_vertices[i]);
        assume(gt(len2(e), 0.0));
        let l = len2(e).sqrt();
        s.m_normals[i] = B2vec2 { x: e.y / l, y: -e.x / l };
    }
    for i in n..B2_MAX_POLYGON_VERTICES {
        s.m_vertices[i] = vec2(&format!("junk{}", i));
        s.m_normals[i] = vec2(&format!("junkn{}", i));
    }
    s
}
fn left_of_all(s: &B2polygonShape, q: B2vec2) -> B {
    let n = s.m_count;
    and(&(0..n).map(|i| ge(cross(sub(s.m_vertices[(i + 1) % n], s.m_vertices[i]), sub(q, s.m_vertices[i])), 0.0)).collect::<Vec<_>>())
}
fn polygon_point() {
    let n = 3 + choose("vertices - 3", B2_MAX_POLYGON_VERTICES - 2);
    let s = polygon_of(n);
    let x = xform("x");
    let q = vec2("q");
    let r = s.test_point(x, apply(x, q));
    if r {
        ensure("polygon: reported inside is left of every edge", left_of_all(&s, q));
    } else {
        ensure("polygon: reported outside is right of some edge", not(left_of_all(&s, q)));
    }
}
/// The ray in the polygon's frame is arbitrary; the world ray is its image, so every pose is covered.
fn polygon_ray_n(n: usize) {
    let mut s = B2polygonShape::default();
    s.m_count = n;
    s.m_centroid = vec2("c");
    s.base.m_radius = nonneg("r");
    // Half planes n_i . (q - v_i) <= 0 with unit normals; nothing else about the polygon is used.
    // Normals are given by their angle to the ray, vertices by their coordinates in the frame of the normal.
    let x = xform("x");
    let p1 = vec2("p1");
    let u = unit("dir");
    let p2 = add(p1, scale(nonneg("length"), u));
    for i in 0..n {
        let k = unit(&format!("n{}", i));
        let nn = B2vec2 { x: u.x * k.x - u.y * k.y, y: u.y * k.x + u.x * k.y };
        s.m_normals[i] = nn;
        s.m_vertices[i] = add(p1, add(scale(var(&format!("off{}", i)), nn), scale(var(&format!("shift{}", i)), B2vec2 { x: -nn.y, y: nn.x })));
    }
    let m = nonneg("max_fraction");
    let i = B2rayCastInput { p1: apply(x, p1), p2: apply(x, p2), max_fraction: m };
    let d = sub(p2, p1);
    let mut o = out0();
    let old = o;
    let t = var("t");
    let behind = |k: usize, t: f32| dot(s.m_normals[k], sub(add(p1, scale(t, d)), s.m_vertices[k]));
    let inside = |t: f32| and(&(0..n).map(|k| le(behind(k, t), 0.0)).collect::<Vec<_>>());
    if s.ray_cast(&mut o, &i, x, 0) {
        let f = o.fraction;
        ensure("polygon: hit within the range", and(&[ge(f, 0.0), le(f, m)]));
        ensure("polygon: hit lies in the polygon", inside(f));
        let k = (0..n).find(|k| symbolic() && { let w = rotv(x.q, s.m_normals[*k]); let a = o.normal; known_eq(a.x, w.x) && known_eq(a.y, w.y) });
        match k {
            Some(k) => {
                ensure("polygon: hit on the side whose normal is reported", eq(behind(k, f), 0.0));
                ensure("polygon: normal faces the ray", lt(dot(s.m_normals[k], d), 0.0));
                ensure("polygon: nothing before the hit", implies(and(&[ge(t, 0.0), lt(t, f)]), gt(behind(k, t), 0.0)));
            }
            None => {
                let ok = or(&(0..n).map(|k| and(&[eqv(o.normal, rotv(x.q, s.m_normals[k])), eq(behind(k, f), 0.0), lt(dot(s.m_normals[k], d), 0.0)])).collect::<Vec<_>>());
                ensure("polygon: hit on the side whose normal is reported", ok);
                ensure("polygon: nothing before the hit", implies(and(&[ge(t, 0.0), lt(t, f)]), not(inside(t))));
            }
        }
    } else {
        let from_outside = not(inside(0.0));
        ensure("polygon: no hit for a ray from outside means no contact in range", implies(and(&[from_outside, ge(t, 0.0), le(t, m)]), not(inside(t))));
        ensure("polygon: no hit leaves the output alone", and(&[eqv(o.normal, old.normal), eq(o.fraction, old.fraction)]));
    }
}
fn polygon_ray3() {
    prune(true);
    polygon_ray_n(3);
}
fn polygon_ray4() {
    prune(true);
    polygon_ray_n(4);
}
fn edge_ray_of(one_sided: bool, via_chain: bool) {
    let (v1, v2) = (vec2("v1"), vec2("v2"));
    let x = xform("x");
    let (p1, p2) = (vec2("p1"), vec2("p2"));
    let m = nonneg("max_fraction");
    let i = B2rayCastInput { p1: apply(x, p1), p2: apply(x, p2), max_fraction: m };
    let mut o = out0();
    let old = o;
    let e = sub(v2, v1);
    let d = sub(p2, p1);
    let eps = box2d_rs::b2_common::B2_EPSILON;
    assume(ge(len2(e), eps * eps));
    let hit = if via_chain {
        let mut s = B2chainShape::default();
        let k = choose("child", 3);
        s.m_vertices = (0..4).map(|j| if j == k { v1 } else if j == k + 1 { v2 } else { vec2(&format!("o{}", j)) }).collect();
        s.m_prev_vertex = vec2("pv");
        s.m_next_vertex = vec2("nv");
        s.base.m_radius = nonneg("r");
        s.ray_cast(&mut o, &i, x, k)
    } else {
        let mut s = B2edgeShape::default();
        s.m_vertex1 = v1;
        s.m_vertex2 = v2;
        s.m_vertex0 = vec2("v0");
        s.m_vertex3 = vec2("v3");
        s.m_one_sided = one_sided;
        s.base.m_radius = nonneg("r");
        s.ray_cast(&mut o, &i, x, 0)
    };
    // the right-hand side of v1 -> v2 is the front
    let front = |q: B2vec2| cross(e, sub(q, v1));
    let at = |t: f32| add(p1, scale(t, d));
    if hit {
        let f = o.fraction;
        let h = at(f);
        ensure("edge: hit within the range", and(&[ge(f, 0.0), le(f, m)]));
        ensure("edge: hit on the line of the edge", eq(front(h), 0.0));
        ensure("edge: hit between the end points", and(&[ge(dot(sub(h, v1), e), 0.0), le(dot(sub(h, v1), e), len2(e))]));
        let l = len2(e).sqrt();
        let nf = rotv(x.q, B2vec2 { x: e.y / l, y: -e.x / l });
        ensure("edge: normal is perpendicular, unit, and faces the ray origin", or(&[and(&[ge(0.0, front(p1)), eqv(o.normal, nf)]), and(&[gt(front(p1), 0.0), eqv(o.normal, scale(-1.0, nf))])]));
        if one_sided {
            ensure("edge: one-sided edges are hit from the front only", le(front(p1), 0.0));
        }
    } else {
        let t = var("t");
        let s = var("s");
        let meet = and(&[ge(t, 0.0), le(t, m), ge(s, 0.0), le(s, 1.0), eqv(at(t), add(v1, scale(s, e)))]);
        let crossing = ne(cross(e, d), 0.0);
        let side = if one_sided { le(front(p1), 0.0) } else { b_of(true) };
        ensure("edge: no hit means the ray does not cross the edge in range", implies(and(&[side, crossing]), not(meet)));
        ensure("edge: no hit leaves the output alone", and(&[eqv(o.normal, old.normal), eq(o.fraction, old.fraction)]));
    }
}
fn edge_ray() {
    edge_ray_of(false, false);
}
fn edge_ray_one_sided() {
    edge_ray_of(true, false);
}
fn chain_ray() {
    edge_ray_of(false, true);
}
fn lines_have_no_inside() {
    let x = xform("x");
    let q = vec2("q");
    let mut e = B2edgeShape::default();
    e.m_vertex1 = vec2("v1");
    e.m_vertex2 = vec2("v2");
    ensure("edge contains no point", b_of(!e.test_point(x, q)));
    let mut s = B2chainShape::default();
    s.m_vertices = (0..3).map(|i| vec2(&format!("v{}", i))).collect();
    ensure("chain contains no point", b_of(!s.test_point(x, q)));
}
/// A fixture is its shape where its body is.
fn on_a_body() {
    let w = phys::world();
    let b = phys::body_of(&w, "b", phys::B2bodyType::B2DynamicBody);
    let f = phys::fixture_on(&b, "f");
    let x = b.borrow().m_xf;
    let (c, r) = {
        let f = f.borrow();
        let s = f.get_shape();
        let c = match s.as_derived() {
            box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived::AsCircle(c) => c.m_p,
            _ => abort_path(),
        };
        (c, s.get_base().m_radius)
    };
    let q = vec2("q");
    let inside = le(len2(sub(apply(x, c), q)), r * r);
    ensure("fixture: a point is inside exactly when it is inside the shape in the pose of the body", iff(b_of(f.borrow().test_point(q)), inside));
}
contracts! { circle_point, circle_ray, polygon_point, polygon_ray3, polygon_ray4, edge_ray, edge_ray_one_sided, chain_ray, lines_have_no_inside, on_a_body }
