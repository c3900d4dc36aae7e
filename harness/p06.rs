mod common;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_settings::*;
use box2d_rs::b2_shape::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use common::*;

fn junk() -> B2AABB {
    B2AABB { lower_bound: vec2("junk.lo"), upper_bound: vec2("junk.hi") }
}
fn inside(p: B2vec2, b: B2AABB) -> B {
    and(&[le(b.lower_bound.x, p.x), le(p.x, b.upper_bound.x), le(b.lower_bound.y, p.y), le(p.y, b.upper_bound.y)])
}
/// The box contains the disc of radius r around each core point, and every side touches one of the discs.
/// Boxes are convex, so the hull of the discs (the shape with its skin) is then contained as well.
fn encloses(b: B2AABB, pts: &[B2vec2], r: f32) {
    let u = vec2("skin");
    assume(le(len2(u), 1.0));
    assume(and(&[le(u.x, 1.0), le(-1.0, u.x), le(u.y, 1.0), le(-1.0, u.y)]));
    for p in pts {
        ensure("every skin point of the shape is in the box", inside(add(*p, scale(r, u)), b));
    }
    let any = |f: &dyn Fn(B2vec2) -> B| or(&pts.iter().map(|p| f(*p)).collect::<Vec<_>>());
    ensure("left side touches the shape", any(&|p| eq(b.lower_bound.x, p.x - r)));
    ensure("right side touches the shape", any(&|p| eq(b.upper_bound.x, p.x + r)));
    ensure("lower side touches the shape", any(&|p| eq(b.lower_bound.y, p.y - r)));
    ensure("upper side touches the shape", any(&|p| eq(b.upper_bound.y, p.y + r)));
}
fn circle() {
    let mut c = B2circleShape::default();
    c.m_p = vec2("c");
    c.base.m_radius = nonneg("r");
    let x = xform("x");
    let mut b = junk();
    c.compute_aabb(&mut b, x, 0);
    encloses(b, &[apply(x, c.m_p)], c.base.m_radius);
}
fn edge() {
    let mut e = B2edgeShape::default();
    e.m_vertex1 = vec2("v1");
    e.m_vertex2 = vec2("v2");
    e.m_vertex0 = vec2("v0");
    e.m_vertex3 = vec2("v3");
    e.m_one_sided = flag("one-sided");
    e.base.m_radius = nonneg("r");
    let x = xform("x");
    let mut b = junk();
    e.compute_aabb(&mut b, x, 0);
    encloses(b, &[apply(x, e.m_vertex1), apply(x, e.m_vertex2)], e.base.m_radius);
}
fn polygon() {
    let n = 3 + choose("vertices - 3", B2_MAX_POLYGON_VERTICES - 2);
    let mut s = B2polygonShape::default();
    s.m_count = n;
    for i in 0..B2_MAX_POLYGON_VERTICES {
        s.m_vertices[i] = vec2(&format!("v{}", i));
        s.m_normals[i] = vec2(&format!("n{}", i));
    }
    s.m_centroid = vec2("c");
    s.base.m_radius = nonneg("r");
    let x = xform("x");
    let mut b = junk();
    s.compute_aabb(&mut b, x, 0);
    let pts: Vec<B2vec2> = (0..n).map(|i| apply(x, s.m_vertices[i])).collect();
    encloses(b, &pts, s.base.m_radius);
}
fn chain() {
    let n = 2 + choose("vertices - 2", 4);
    let mut s = B2chainShape::default();
    s.m_vertices = (0..n).map(|i| vec2(&format!("v{}", i))).collect();
    s.m_prev_vertex = vec2("pv");
    s.m_next_vertex = vec2("nv");
    s.base.m_radius = nonneg("r");
    let k = choose("child", 5);
    if k >= n - 1 {
        abort_path();
    }
    let x = xform("x");
    let mut b = junk();
    s.compute_aabb(&mut b, x, k);
    encloses(b, &[apply(x, s.m_vertices[k]), apply(x, s.m_vertices[k + 1])], s.base.m_radius);
}
/// Boxes are convex: what holds for two points holds for the segment between them.
fn convexity() {
    let b = junk();
    let (p, q) = (vec2("p"), vec2("q"));
    let l = var_hint("l", 0.0, 1.0);
    assume(and(&[inside(p, b), inside(q, b), le(0.0, l), le(l, 1.0)]));
    ensure("segments between contained points are contained", inside(add(p, scale(l, sub(q, p))), b));
}
contracts! { circle, edge, polygon, chain, convexity, selection_bodies }
