mod common;
mod phys;
use box2d_rs::b2_common::*;
use box2d_rs::b2_settings::*;
use box2d_rs::b2_shape::*;
use box2d_rs::private::collision::b2_polygon_shape as polygon;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use common::*;

fn dirty() -> B2polygonShape {
    let mut s = B2polygonShape::default();
    s.m_count = 5;
    for i in 0..B2_MAX_POLYGON_VERTICES {
        s.m_vertices[i] = vec2(&format!("junk{}", i));
        s.m_normals[i] = vec2(&format!("junk n{}", i));
    }
    s.m_centroid = vec2("junk c");
    s
}
/// Corners counter-clockwise about the origin, with the outward normal of the side that starts there.
fn is_box(s: &B2polygonShape, hx: f32, hy: f32, c: B2vec2, q: B2Rot) {
    ensure("a box has four corners", b_of(s.m_count == 4));
    let x = B2Transform { p: c, q };
    let corners = [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)];
    let sides = [(0.0, -1.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.0)];
    for i in 0..4 {
        ensure("corners of the box", eqv(s.m_vertices[i], apply(x, B2vec2::new(corners[i].0 * hx, corners[i].1 * hy))));
        ensure("normals of the box", eqv(s.m_normals[i], rotv(q, B2vec2::new(sides[i].0, sides[i].1))));
    }
    ensure("centroid of the box", eqv(s.m_centroid, c));
}
fn boxes() {
    let (hx, hy) = (pos("hx"), pos("hy"));
    let mut s = dirty();
    s.set_as_box(hx, hy);
    is_box(&s, hx, hy, zero2(), B2Rot { s: 0.0, c: 1.0 });
    let mut s = dirty();
    let a = var_hint("angle", -4.0, 4.0);
    s.set_as_box_angle(hx, hy, vec2("centre"), a);
    is_box(&s, hx, hy, vec2("centre"), B2Rot { s: a.sin(), c: a.cos() });
    ensure("new polygons have the usual skin", eq(B2polygonShape::default().base.m_radius, B2_POLYGON_RADIUS));
}
fn weld() -> f32 {
    0.5 * B2_LINEAR_SLOP * (0.5 * B2_LINEAR_SLOP)
}
fn apart(p: B2vec2, q: B2vec2) {
    let d = len2(sub(p, q));
    assume(ge(d, weld()));
    lemma("corners that are kept are far enough apart to normalise", gt(d, B2_EPSILON * B2_EPSILON));
    lemma("corners that are kept are far enough apart to measure", and(&[ge(d.sqrt(), B2_EPSILON), gt(d.sqrt(), 0.0)]));
}
fn any_centroid(vs: &[B2vec2]) -> B2vec2 {
    ensure("centroid of at least three corners", b_of(vs.len() >= 3));
    vec2("centroid")
}
/// The hull of the given points; `kept` are those that are not merged into an earlier one.
fn hull_of(ps: &[B2vec2], kept: &[usize]) {
    let n = kept.len();
    // not all on one line
    let mut some = vec![];
    for a in 0..n {
        for b in 0..a {
            for c in 0..b {
                some.push(ne(cross(sub(ps[kept[b]], ps[kept[a]]), sub(ps[kept[c]], ps[kept[a]])), 0.0));
            }
        }
    }
    assume(or(&some));
    if symbolic() {
        hook::set::<fn(&[B2vec2]) -> B2vec2>("compute_centroid", any_centroid);
    }
    let mut s = dirty();
    s.set(ps);
    hook::clear();
    let m = s.m_count;
    ensure("number of corners", b_of(m >= 3 && m <= n));
    let v = &s.m_vertices;
    for i in 0..m {
        let k = (i + 1) % m;
        let e = sub(v[k], v[i]);
        ensure("corners are given points", or(&kept.iter().map(|j| eqv(v[i], ps[*j])).collect::<Vec<_>>()));
        for j in kept {
            ensure("no point lies outside a side", ge(cross(e, sub(ps[*j], v[i])), 0.0));
        }
        ensure("the outline turns left at every corner", gt(cross(e, sub(v[(i + 2) % m], v[i])), 0.0));
        ensure("normals point outward", and(&[eq(dot(s.m_normals[i], e), 0.0), gt(cross(s.m_normals[i], e), 0.0), eq(len2(s.m_normals[i]), 1.0)]));
    }
    if symbolic() {
        ensure("centroid of the outline", eqv(s.m_centroid, vec2("centroid")));
    }
}
fn hull3() {
    let ps: Vec<B2vec2> = (0..3).map(|i| vec2(&format!("p{}", i))).collect();
    for i in 0..3 {
        for j in 0..i {
            apart(ps[i], ps[j]);
        }
    }
    hull_of(&ps, &[0, 1, 2]);
}
/// Four points, no three on a line: every way the triples can turn.
fn hull4() {
    let ps: Vec<B2vec2> = (0..4).map(|i| vec2(&format!("p{}", i))).collect();
    for i in 0..4 {
        for j in 0..i {
            apart(ps[i], ps[j]);
        }
    }
    for (a, b, c) in [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)] {
        let t = cross(sub(ps[b], ps[a]), sub(ps[c], ps[a]));
        assume(if flag(&format!("{}{}{} turn left", a, b, c)) { gt(t, 0.0) } else { lt(t, 0.0) });
    }
    hull_of(&ps, &[0, 1, 2, 3]);
}
/// Three of four points on a line.
fn hull_flat() {
    let o = vec2("o");
    let u = match choose("direction", 4) {
        k @ 0..=1 => {
            let u = unit("u");
            assume(if k == 0 { gt(u.x, 0.0) } else { lt(u.x, 0.0) });
            u
        }
        2 => B2vec2::new(0.0, 1.0),
        _ => B2vec2::new(0.0, -1.0),
    };
    let far = 0.5 * B2_LINEAR_SLOP;
    let (s1, s2) = (far + nonneg("s1"), far + nonneg("s2"));
    let h = if flag("other side") { -far - nonneg("h") } else { far + nonneg("h") };
    let line = [o, add(o, scale(s1, u)), add(o, scale(s1 + s2, u))];
    let rest = add(o, add(scale(var("x"), u), scale(h, B2vec2::new(-u.y, u.x))));
    let (k, order) = (choose("who is off the line", 4), choose("order", 3));
    let mut on = vec![line[order], line[(order + 1) % 3], line[(order + 2) % 3]];
    on.insert(k, rest);
    for i in 0..4 {
        for j in 0..i {
            apart(on[i], on[j]);
        }
    }
    hull_of(&on, &[0, 1, 2, 3]);
}
/// One of four points is close to an earlier one and is merged into it.
fn welding() {
    let (i, j) = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)][choose("close pair", 6)];
    let mut ps: Vec<B2vec2> = (0..4).map(|i| vec2(&format!("p{}", i))).collect();
    ps[j] = add(ps[i], scale(var_hint("off", 0.0, 0.002), unit("dir")));
    assume(lt(len2(sub(ps[j], ps[i])), weld()));
    let kept: Vec<usize> = (0..4).filter(|k| *k != j).collect();
    for a in 0..3 {
        for b in 0..a {
            apart(ps[kept[a]], ps[kept[b]]);
        }
    }
    // which earlier point it is close to first does not matter
    for k in 0..i {
        assume(ge(len2(sub(ps[j], ps[k])), weld()));
    }
    hull_of(&ps, &kept);
}
/// Corners seen from side `e`: heights above it are not negative, and the fan of triangles has no negative area.
fn centroids() {
    let n = 3 + choose("corners - 3", B2_MAX_POLYGON_VERTICES - 2);
    let e = choose("side", n);
    let (u, o) = (unit("u"), vec2("o"));
    let h: Vec<f32> = (0..n).map(|i| if i == e || i == (e + 1) % n { 0.0 } else { nonneg(&format!("h{}", i)) }).collect();
    let vs: Vec<B2vec2> = (0..n).map(|i| add(o, add(scale(var(&format!("t{}", i)), u), scale(h[i], B2vec2::new(-u.y, u.x))))).collect();
    let (mut a2, mut c) = (0.0, zero2());
    let mut area = 0.0;
    for i in 0..n {
        let (p, q) = (vs[i], vs[(i + 1) % n]);
        let k = cross(p, q);
        a2 += k;
        c = add(c, scale(k, add(p, q)));
    }
    for i in 1..n - 1 {
        let f = cross(sub(vs[i], vs[0]), sub(vs[i + 1], vs[0]));
        assume(ge(f, 0.0));
        area += f;
        lemma("weighted heights", ge(f * (h[0] + h[i] + h[i + 1]), 0.0));
    }
    if !symbolic() && !(area > 0.01) {
        assume(b_of(false));
    }
    assume(gt(area, 2.0 * B2_EPSILON));
    let r = polygon::compute_centroid(&vs);
    ensure("centroid of the area", eqv(scale(3.0 * a2, r), c));
    ensure("the centroid lies inside", ge(area * dot(B2vec2::new(-u.y, u.x), sub(r, o)), 0.0));
}
fn validity() {
    let n = 3 + choose("corners - 3", 2);
    let mut s = B2polygonShape::default();
    s.m_count = n;
    for i in 0..n {
        s.m_vertices[i] = vec2(&format!("v{}", i));
    }
    let v = s.m_vertices;
    let ok = s.validate();
    let mut all = vec![];
    for i in 0..n {
        for j in 0..n {
            all.push(ge(cross(sub(v[(i + 1) % n], v[i]), sub(v[j], v[i])), 0.0));
        }
    }
    ensure("validation tells convex outlines", iff(b_of(ok), and(&all)));
}
fn edges() {
    let (v0, v1, v2, v3) = (vec2("v0"), vec2("v1"), vec2("v2"), vec2("v3"));
    let mut e = B2edgeShape::default();
    ensure("new edges are two-sided with the usual skin", and(&[b_of(!e.m_one_sided && e.base.m_type == B2ShapeType::EEdge), eq(e.base.m_radius, B2_POLYGON_RADIUS)]));
    e.set_one_sided(v0, v1, v2, v3);
    ensure("a one-sided edge keeps its four points", and(&[b_of(e.m_one_sided), eqv(e.m_vertex0, v0), eqv(e.m_vertex1, v1), eqv(e.m_vertex2, v2), eqv(e.m_vertex3, v3)]));
    let (w1, w2) = (vec2("w1"), vec2("w2"));
    e.set_two_sided(w1, w2);
    ensure("a two-sided edge keeps its two points", and(&[b_of(!e.m_one_sided), eqv(e.m_vertex1, w1), eqv(e.m_vertex2, w2)]));
    ensure("an edge has one child", b_of(e.get_child_count() == 1 && B2polygonShape::default().get_child_count() == 1));
}
fn spaced(n: usize) -> Vec<B2vec2> {
    let vs: Vec<B2vec2> = (0..n).map(|i| vec2(&format!("v{}", i))).collect();
    for i in 1..n {
        assume(gt(len2(sub(vs[i], vs[i - 1])), B2_LINEAR_SLOP * B2_LINEAR_SLOP));
    }
    vs
}
/// Each child is the segment between neighbours, with what lies before and after it.
fn children(c: &B2chainShape, all: &[B2vec2], before: B2vec2, after: B2vec2) {
    let n = all.len() - 1;
    ensure("one child per segment", b_of(c.get_child_count() == n));
    for i in 0..n {
        let mut e = B2edgeShape::default();
        e.set_two_sided(vec2("junk1"), vec2("junk2"));
        e.base.m_radius = 7.0;
        c.get_child_edge(&mut e, i);
        ensure("end points of the segment", and(&[eqv(e.m_vertex1, all[i]), eqv(e.m_vertex2, all[i + 1])]));
        ensure("neighbour before the segment", eqv(e.m_vertex0, if i == 0 { before } else { all[i - 1] }));
        ensure("neighbour after the segment", eqv(e.m_vertex3, if i + 1 == n { after } else { all[i + 2] }));
        ensure("segments of chains are one-sided edges", and(&[b_of(e.m_one_sided && e.base.m_type == B2ShapeType::EEdge), eq(e.base.m_radius, c.base.m_radius)]));
    }
}
fn chains() {
    let n = 2 + choose("vertices - 2", 5);
    let vs = spaced(n);
    let mut c = B2chainShape::default();
    ensure("new chains are empty with the usual skin", and(&[b_of(c.m_vertices.len() == 0), eq(c.base.m_radius, B2_POLYGON_RADIUS)]));
    c.base.m_radius = nonneg("skin");
    let (before, after) = (vec2("before"), vec2("after"));
    c.create_chain(&vs, before, after);
    ensure("the chain keeps its vertices", and(&vs.iter().enumerate().map(|(i, v)| and(&[b_of(c.m_vertices.len() == n), eqv(c.m_vertices[i], *v)])).collect::<Vec<_>>()));
    children(&c, &vs, before, after);
    c.clear();
    ensure("clearing empties the chain", b_of(c.m_vertices.len() == 0));
}
fn loops() {
    let n = 3 + choose("vertices - 3", 4);
    let vs = spaced(n);
    let mut c = B2chainShape::default();
    c.base.m_radius = nonneg("skin");
    c.create_loop(&vs);
    let mut all = vs.clone();
    all.push(vs[0]);
    children(&c, &all, vs[n - 1], vs[1]);
}
/// A copy of a shape has everything the shape has.
fn copies() {
    let s = phys::shape_of(choose("kind", 4), "s");
    let s = s.borrow();
    if flag("boxed") {
        phys::equal_shapes(&*s, &*s.clone_box());
    } else {
        phys::equal_shapes(&*s, &*s.clone_rc());
    }
    let n = match s.get_type() {
        B2ShapeType::EChain => None,
        _ => Some(1),
    };
    if let Some(n) = n {
        ensure("a simple shape is its only child", b_of(s.get_child_count() == n));
    }
}
contracts! { selection_bodies, boxes, hull3, hull4, hull_flat, welding, centroids, validity, edges, chains, loops, copies }
