mod common;
mod phys;
use box2d_rs::private::collision::b2_collide_edge as ce;
use box2d_rs::private::collision::b2_collide_polygon as cp;
use common::selection_bodies;
use phys::*;
use std::cell::Cell;

pub fn back(q: B2Rot, v: B2vec2) -> B2vec2 {
    B2vec2 { x: q.c * v.x + q.s * v.y, y: -q.s * v.x + q.c * v.y }
}
/// the local point whose image is w
fn local(x: B2Transform, w: B2vec2) -> B2vec2 {
    back(x.q, sub(w, x.p))
}
/// 90 degrees to the left
fn left(n: B2vec2) -> B2vec2 {
    B2vec2 { x: -n.y, y: n.x }
}
/// A manifold with left-over contents.
fn stale() -> B2manifold {
    let mut m = B2manifold::default();
    m.local_normal = vec2("old.n");
    m.local_point = vec2("old.p");
    m.point_count = choose("old count", 3);
    m
}
fn midway(m: &B2manifold, xa: B2Transform, ra: f32, xb: B2Transform, rb: f32, n: B2vec2, i: usize, on_a: B2vec2, on_b: B2vec2, separation: f32) {
    let mut w = B2worldManifold::default();
    w.initialize(m, xa, ra, xb, rb);
    ensure("world normal points from the first to the second shape", eqv(w.normal, n));
    ensure("contact point is midway between the surfaces", eqv(scale(t2(), w.points[i]), add(on_a, on_b)));
    ensure("reported separation", eq(w.separations[i], separation));
}
fn t2() -> f32 {
    2.0
}
fn circles() {
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let (u, len) = (unit("dir"), nonneg("len"));
    let ca = vec2("ca");
    let cb = add(ca, scale(len, u));
    let (a, b) = (circle(local(xa, ca), ra), circle(local(xb, cb), rb));
    let mut m = stale();
    b2_collide_circles(&mut m, &a, &xa, &b, &xb);
    let touching = le(len, ra + rb);
    ensure("circles touch exactly when closer than the radii", iff(b_of(m.point_count == 1), touching));
    ensure("circles have at most one point", b_of(m.point_count <= 1));
    if m.point_count == 1 {
        if len > B2_EPSILON {
            midway(&m, xa, ra, xb, rb, u, 0, add(ca, scale(ra, u)), sub(cb, scale(rb, u)), len - ra - rb);
        } else {
            let mut w = B2worldManifold::default();
            w.initialize(&m, xa, ra, xb, rb);
            ensure("coincident circles still get a unit normal", is_unit(w.normal));
            ensure("separation is not positive", implies(eq(len, 0.0), le(w.separations[0], 0.0)));
        }
        ensure("point key of a circle contact", b_of(m.points[0].id.cf == Default::default()));
    }
}
/// Everything an edge and a circle can do; the edge in its own frame, the circle relative to the edge.
fn edge_circle() {
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let (t, len) = (unit("dir"), pos("len"));
    assume(ge(len, B2_EPSILON));
    let n = B2vec2 { x: t.y, y: -t.x };
    let mut e = B2edgeShape::default();
    let v1 = vec2("v1");
    e.m_vertex1 = v1;
    e.m_vertex2 = add(v1, scale(len, t));
    e.base.m_radius = ra;
    e.m_one_sided = flag("one sided");
    let (t0, t3) = (unit("dir0"), unit("dir3"));
    e.m_vertex0 = sub(v1, scale(pos("len0"), t0));
    e.m_vertex3 = add(e.m_vertex2, scale(pos("len3"), t3));
    let (x, h) = (var("x"), var("h"));
    let q = add(v1, add(scale(x, t), scale(h, n)));
    let w = apply(xa, q);
    let b = circle(local(xb, w), rb);
    domain_checks(false);
    let mut m = stale();
    b2_collide_edge_and_circle(&mut m, &e, &xa, &b, &xb);
    domain_checks(true);
    let r = ra + rb;
    let got = m.point_count == 1;
    ensure("at most one point for a circle", b_of(m.point_count <= 1));
    let one = e.m_one_sided;
    let at = |p: B2vec2| apply(xa, p);
    if one && h < 0.0 {
        ensure("one-sided edges do not collide from behind", b_of(!got));
    } else if x <= 0.0 || x >= len {
        let first = x <= 0.0;
        let corner = if first { v1 } else { e.m_vertex2 };
        let d = sub(q, corner);
        let near = le(len2(d), r * r);
        if one {
            // the neighbouring edge takes over where the circle is beside it
            let beside = if first { dot(sub(v1, e.m_vertex0), sub(v1, q)) > 0.0 } else { dot(sub(e.m_vertex3, e.m_vertex2), sub(q, e.m_vertex2)) > 0.0 };
            ensure("corner contact of a one-sided edge", iff(b_of(got), if beside { b_of(false) } else { near }));
        } else {
            ensure("corner contact exactly when closer than the radii", iff(b_of(got), near));
        }
        if got {
            ensure("corner and circle describe the contact", and(&[eqv(m.local_point, corner), eqv(m.points[0].local_point, b.m_p), b_of(matches!(m.manifold_type, B2manifoldType::ECircles))]));
            let cf = m.points[0].id.cf;
            ensure("corner key", b_of(cf.index_a == if first { 0 } else { 1 } && cf.type_a == B2contactFeatureType::EVertex as u8 && cf.type_b == B2contactFeatureType::EVertex as u8 && cf.index_b == 0));
        }
    } else {
        let near = le(h.abs(), r);
        ensure("side contact exactly when closer than the radii", iff(b_of(got), near));
        if got {
            let n = if h < 0.0 { scale(-1.0, n) } else { n };
            let s = h.abs();
            let wn = rotv(xa.q, n);
            let foot = at(add(v1, scale(x, t)));
            midway(&m, xa, ra, xb, rb, wn, 0, add(foot, scale(ra, wn)), sub(w, scale(rb, wn)), s - r);
            ensure("separation of a circle contact is not positive", le(s - r, 0.0));
            let cf = m.points[0].id.cf;
            ensure("side key", b_of(cf.index_a == 0 && cf.type_a == B2contactFeatureType::EFace as u8 && cf.type_b == B2contactFeatureType::EVertex as u8 && cf.index_b == 0));
        }
    }
}
/// The polygon is given around the face k with the largest separation from the circle's centre (ties left out);
/// its neighbours turn by less than half a turn, further faces are arbitrary.
fn polygon_circle_of(n: usize) {
    let k = choose("face", n);
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let c = vec2("c");
    let nn = unit("n");
    let t = left(nn);
    let (s, w, len) = (var("s"), var("w"), pos("len"));
    let turn = |k: B2vec2| B2vec2 { x: nn.x * k.x - nn.y * k.y, y: nn.y * k.x + nn.x * k.y };
    let (th1, th2) = (unit("th1"), unit("th2"));
    assume(gt(th1.y, 0.0));
    assume(gt(th2.y, 0.0));
    let np = turn(B2vec2 { x: th1.x, y: -th1.y });
    let nx = turn(th2);
    let mut p = B2polygonShape::default();
    p.m_count = n;
    p.base.m_radius = ra;
    p.m_centroid = vec2("centroid");
    let v = sub(c, add(scale(s, nn), scale(w, t)));
    for i in 0..B2_MAX_POLYGON_VERTICES {
        let m = unit(&format!("n{}", i));
        p.m_normals[i] = m;
        p.m_vertices[i] = sub(c, add(scale(var(&format!("s{}", i)), m), scale(var(&format!("w{}", i)), left(m))));
    }
    let (prev, next) = ((k + n - 1) % n, (k + 1) % n);
    p.m_vertices[k] = v;
    p.m_normals[k] = nn;
    p.m_vertices[next] = add(v, scale(len, t));
    p.m_normals[next] = nx;
    p.m_vertices[prev] = sub(v, scale(pos("len prev"), left(np)));
    p.m_normals[prev] = np;
    let sep = |i: usize| dot(p.m_normals[i], sub(c, p.m_vertices[i]));
    for i in 0..n {
        if i != k {
            assume(gt(s, sep(i)));
        }
    }
    let world = apply(xa, c);
    let b = circle(local(xb, world), rb);
    domain_checks(false);
    let mut m = stale();
    b2_collide_polygon_and_circle(&mut m, &p, &xa, &b, &xb);
    domain_checks(true);
    let r = ra + rb;
    let got = m.point_count == 1;
    ensure("at most one point for a circle", b_of(m.point_count <= 1));
    // a point of the polygon, relative to the circle's centre
    let (px, py) = (var("px"), var("py"));
    let point = add(c, add(scale(px, nn), scale(py, t)));
    let behind = |i: usize| le(dot(p.m_normals[i], sub(point, p.m_vertices[i])), 0.0);
    let wn = rotv(xa.q, nn);
    let face = |m: &B2manifold| {
        midway(m, xa, ra, xb, rb, wn, 0, add(sub(world, scale(s, wn)), scale(ra, wn)), sub(world, scale(rb, wn)), s - r);
    };
    if s < B2_EPSILON {
        // centre inside
        if s <= r {
            ensure("a centre inside always touches", b_of(got));
            if got {
                face(&m);
            }
        }
    } else if w <= 0.0 || w >= len {
        let corner = if w <= 0.0 { v } else { p.m_vertices[next] };
        let d = sub(c, corner);
        let near = le(len2(d), r * r);
        // which neighbour's region ends at the corner
        let other = if w <= 0.0 { prev } else { next };
        let side = left(p.m_normals[other]);
        let facing = if w <= 0.0 { dot(d, side) } else { -dot(d, side) };
        if got {
            ensure("corner contact only when closer than the radii", near);
            let l = len2(d).sqrt();
            let u = scale(1.0 / l, rotv(xa.q, d));
            let wc = apply(xa, corner);
            midway(&m, xa, ra, xb, rb, u, 0, add(wc, scale(ra, u)), sub(world, scale(rb, u)), l - r);
            ensure("separation of a circle contact is not positive", le(l - r, 0.0));
        } else if s <= r {
            lemma("the centre lies in the corner's region", ge(facing, 0.0));
            ensure("no corner contact only when farther than the radii", not(near));
            ensure("the corner is the closest point", implies(and(&[behind(k), behind(other)]), ge(px * px + py * py, len2(d))));
        } else {
            ensure("a face farther than the radii separates", implies(behind(k), gt(px * px + py * py, r * r)));
        }
    } else {
        ensure("side contact exactly when closer than the radii", iff(b_of(got), le(s, r)));
        if got {
            face(&m);
            ensure("separation of a circle contact is not positive", le(s - r, 0.0));
        } else {
            ensure("a face farther than the radii separates", implies(behind(k), gt(px * px + py * py, r * r)));
        }
    }
    if got {
        ensure("key and point of a polygon-circle contact", and(&[b_of(m.points[0].id.cf == Default::default()), eqv(m.points[0].local_point, b.m_p)]));
    }
}
fn polygon_circle_3() {
    polygon_circle_of(3);
}
fn polygon_circle_4() {
    polygon_circle_of(4);
}
fn id(n: &str) -> B2contactId {
    let mut i = B2contactId::default();
    let c = |s: &str| choose(&format!("{}.{}", n, s), 2) as u8;
    i.cf.index_a = c("ia");
    i.cf.index_b = c("ib");
    i
}
fn clipping() {
    let n = vec2("n");
    let off = var("off");
    let mut v = <[B2clipVertex; 2]>::default();
    v[0].v = vec2("v0");
    v[1].v = vec2("v1");
    for i in 0..2 {
        v[i].id.cf.index_a = 7;
        v[i].id.cf.index_b = 3 + i as u8;
        v[i].id.cf.type_a = B2contactFeatureType::EFace as u8;
        v[i].id.cf.type_b = B2contactFeatureType::EVertex as u8;
    }
    let mut o = <[B2clipVertex; 2]>::default();
    let k = b2_clip_segment_to_line(&mut o, v, n, off, 5);
    let d = |p: B2vec2| dot(n, p) - off;
    let (d0, d1) = (d(v[0].v), d(v[1].v));
    let same_id = |i: usize, j: usize| b_of(o[i].id.cf == v[j].id.cf);
    let cut = |i: usize| {
        ensure("cut point lies on the plane", eq(d(o[i].v), 0.0));
        ensure("cut point lies on the segment", and(&[eq(cross(sub(o[i].v, v[0].v), sub(v[1].v, v[0].v)), 0.0), eq((d0 - d1) * dot(sub(o[i].v, v[0].v), sub(v[1].v, v[0].v)), d0 * len2(sub(v[1].v, v[0].v)))]));
        let c = o[i].id.cf;
        ensure("cut point is keyed by the clipping vertex", b_of(c.index_a == 5 && c.index_b == 3 && c.type_a == B2contactFeatureType::EVertex as u8 && c.type_b == B2contactFeatureType::EFace as u8));
    };
    if d0 <= 0.0 && d1 <= 0.0 {
        ensure("a segment behind the plane is kept", and(&[b_of(k == 2), eqv(o[0].v, v[0].v), eqv(o[1].v, v[1].v), same_id(0, 0), same_id(1, 1)]));
    } else if d0 > 0.0 && d1 > 0.0 {
        ensure("a segment in front of the plane is dropped", b_of(k == 0));
    } else {
        let kept = if d0 <= 0.0 { 0 } else { 1 };
        let dk = if d0 <= 0.0 { d0 } else { d1 };
        ensure("the end behind the plane is kept", and(&[eqv(o[0].v, v[kept].v), same_id(0, kept)]));
        if dk < 0.0 {
            ensure("a crossing segment is cut", b_of(k == 2));
            if k == 2 {
                cut(1);
            }
        } else {
            ensure("a segment that only touches the plane leaves one point", b_of(k == 1));
        }
    }
}
fn point_states() {
    let (mut a, mut b) = (B2manifold::default(), B2manifold::default());
    // which fields of which keys agree
    let part = choose("distinguishing part", 4);
    let key = |x: usize| {
        let mut i = B2contactId::default();
        match part {
            0 => i.cf.index_a = x as u8,
            1 => i.cf.index_b = x as u8,
            2 => i.cf.type_a = x as u8,
            _ => i.cf.type_b = x as u8,
        }
        i
    };
    a.point_count = choose("old points", 3);
    b.point_count = choose("new points", 3);
    let keys: Vec<usize> = (0..4).map(|i| choose(&format!("key{}", i), 2 + i.min(1))).collect();
    for i in 0..2 {
        a.points[i].id = key(keys[i]);
        b.points[i].id = key(keys[2 + i]);
    }
    let (mut s1, mut s2) = ([B2pointState::B2AddState; 2], [B2pointState::B2RemoveState; 2]);
    b2_get_point_states(&mut s1, &mut s2, &a, &b);
    for i in 0..2 {
        let (ka, kb) = (keys[i], keys[2 + i]);
        let in_b = (0..b.point_count).any(|j| keys[2 + j] == ka);
        let in_a = (0..a.point_count).any(|j| keys[j] == kb);
        let w1 = if i >= a.point_count { B2pointState::B2NullState } else if in_b { B2pointState::B2PersistState } else { B2pointState::B2RemoveState };
        let w2 = if i >= b.point_count { B2pointState::B2NullState } else if in_a { B2pointState::B2PersistState } else { B2pointState::B2AddState };
        ensure("old point persists or is removed", b_of(s1[i] == w1));
        ensure("new point persists or is added", b_of(s2[i] == w2));
    }
}
/// World form of a face manifold with up to two points.
fn world_manifold() {
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let on_b = flag("face of the second shape");
    let (x1, x2, r1, r2) = if on_b { (xb, xa, rb, ra) } else { (xa, xb, ra, rb) };
    let n = unit("n");
    let plane = vec2("plane");
    let mut m = B2manifold::default();
    m.manifold_type = if on_b { B2manifoldType::EFaceB } else { B2manifoldType::EFaceA };
    m.local_normal = back(x1.q, n);
    m.local_point = local(x1, plane);
    m.point_count = choose("points", 3);
    let seps = [var("sep0"), var("sep1")];
    let q: Vec<B2vec2> = (0..2).map(|i| add(plane, add(scale(seps[i], n), scale(var(&format!("along{}", i)), left(n))))).collect();
    for i in 0..2 {
        m.points[i].local_point = local(x2, q[i]);
    }
    let mut w = B2worldManifold::default();
    w.normal = vec2("old.n");
    w.initialize(&m, xa, ra, xb, rb);
    if m.point_count == 0 {
        ensure("nothing to do without points", eqv(w.normal, vec2("old.n")));
        return;
    }
    ensure("world normal of a face manifold", eqv(w.normal, if on_b { scale(-1.0, n) } else { n }));
    for i in 0..m.point_count {
        let surf1 = add(sub(q[i], scale(seps[i], n)), scale(r1, n));
        let surf2 = sub(q[i], scale(r2, n));
        ensure("face contact point is midway between the surfaces", eqv(scale(t2(), w.points[i]), add(surf1, surf2)));
        ensure("face separation", eq(w.separations[i], seps[i] - r1 - r2));
    }
}
// ---- two polygons
fn blank(n: usize, tag: &str) -> B2polygonShape {
    let mut p = B2polygonShape::default();
    p.m_count = n;
    p.base.m_radius = nonneg(&format!("{}.r", tag));
    p.m_centroid = vec2(&format!("{}.centroid", tag));
    for i in 0..B2_MAX_POLYGON_VERTICES {
        p.m_normals[i] = unit(&format!("{}.n{}", tag, i));
        p.m_vertices[i] = vec2(&format!("{}.v{}", tag, i));
    }
    p
}
/// smallest distance of a vertex of b in front of face i of a
fn face_gap(a: &B2polygonShape, xa: B2Transform, i: usize, b: &B2polygonShape, xb: B2Transform) -> f32 {
    let n = rotv(xa.q, a.m_normals[i]);
    let v = apply(xa, a.m_vertices[i]);
    let mut m = dot(n, sub(apply(xb, b.m_vertices[0]), v));
    for j in 1..b.m_count {
        m = m.min(dot(n, sub(apply(xb, b.m_vertices[j]), v)));
    }
    m
}
fn same_poly(a: &B2polygonShape, b: &B2polygonShape) -> B {
    let mut c = vec![b_of(a.m_count == b.m_count), eq(a.base.m_radius, b.base.m_radius)];
    for i in 0..a.m_count.min(b.m_count) {
        c.push(eqv(a.m_vertices[i], b.m_vertices[i]));
        c.push(eqv(a.m_normals[i], b.m_normals[i]));
    }
    and(&c)
}
fn same_xf(a: B2Transform, b: B2Transform) -> B {
    and(&[eqv(a.p, b.p), eq(a.q.s, b.q.s), eq(a.q.c, b.q.c)])
}
/// The largest separation over the faces of one polygon: contract of the search, checked for its body.
fn max_separation_of(n: usize, m: usize) {
    let (a, b) = (blank(n, "a"), blank(m, "b"));
    let (xa, xb) = (xform("xa"), xform("xb"));
    let mut e = 99;
    let s = cp::b2_find_max_separation(&mut e, a, xa, b, xb);
    ensure("the best face is a face", b_of(e < n));
    if e >= n {
        return;
    }
    let gap = |i: usize, j: usize| dot(rotv(xa.q, a.m_normals[i]), sub(apply(xb, b.m_vertices[j]), apply(xa, a.m_vertices[i])));
    // values within the range of numbers
    for i in 0..n {
        for j in 0..m {
            assume(and(&[lt(gap(i, j), B2_MAX_FLOAT), gt(gap(i, j), -B2_MAX_FLOAT)]));
        }
    }
    ensure("no vertex is nearer to the best face", and(&(0..m).map(|j| le(s, gap(e, j))).collect::<Vec<_>>()));
    ensure("some vertex is as near", or(&(0..m).map(|j| eq(s, gap(e, j))).collect::<Vec<_>>()));
    for i in 0..n {
        ensure("no other face separates more", or(&(0..m).map(|j| le(gap(i, j), s)).collect::<Vec<_>>()));
    }
}
fn max_separation() {
    match choose("sides", 3) {
        0 => max_separation_of(3, 3),
        1 => max_separation_of(2, 4),
        _ => max_separation_of(4, 2),
    }
}
/// The facing edge: contract of the search, checked for its body.
fn incident_edge() {
    let n = 3 + choose("sides - 3", B2_MAX_POLYGON_VERTICES - 2);
    let (a, b) = (blank(3, "a"), blank(n, "b"));
    let (xa, xb) = (xform("xa"), xform("xb"));
    let e = choose("reference", 3);
    let mut c = <[B2clipVertex; 2]>::default();
    cp::b2_find_incident_edge(&mut c, a, xa, e, b, xb);
    let f = c[0].id.cf.index_b as usize;
    ensure("the facing edge is an edge", b_of(f < n && c[1].id.cf.index_b as usize == (f + 1) % n));
    if f >= n {
        return;
    }
    ensure("ends of the facing edge", and(&[eqv(c[0].v, apply(xb, b.m_vertices[f])), eqv(c[1].v, apply(xb, b.m_vertices[(f + 1) % n]))]));
    let facing = |i: usize| dot(rotv(xa.q, a.m_normals[e]), rotv(xb.q, b.m_normals[i]));
    for i in 0..n {
        ensure("the facing edge faces most", le(facing(f), facing(i)));
    }
    for k in 0..2 {
        let cf = c[k].id.cf;
        ensure("keys of the facing edge", b_of(cf.index_a as usize == e && cf.type_a == B2contactFeatureType::EFace as u8 && cf.type_b == B2contactFeatureType::EVertex as u8));
    }
}
thread_local! {
    static PAIR: Cell<Option<(B2polygonShape, B2Transform, B2polygonShape, B2Transform)>> = Cell::new(None);
    static GAPS: Cell<(f32, f32)> = Cell::new((0.0, 0.0));
    static FACES: Cell<(usize, usize, usize)> = Cell::new((0, 0, 0));
}
fn best_of(edge: &mut usize, p: B2polygonShape, x: B2Transform, q: B2polygonShape, y: B2Transform) -> f32 {
    let (a, xa, b, xb) = PAIR.with(|c| c.get()).unwrap();
    let first = known_eq(p.base.m_radius, a.base.m_radius);
    ensure("both searches see the two shapes in their poses", if first { and(&[same_poly(&p, &a), same_xf(x, xa), same_poly(&q, &b), same_xf(y, xb)]) } else { and(&[same_poly(&p, &b), same_xf(x, xb), same_poly(&q, &a), same_xf(y, xa)]) });
    let (ea, eb, _) = FACES.with(|f| f.get());
    *edge = if first { ea } else { eb };
    let (ga, gb) = GAPS.with(|g| g.get());
    if first { ga } else { gb }
}
fn facing_of(c: &mut [B2clipVertex; 2], p: B2polygonShape, x: B2Transform, e: usize, q: B2polygonShape, y: B2Transform) {
    let (a, xa, b, xb) = PAIR.with(|c| c.get()).unwrap();
    let (ea, eb, f) = FACES.with(|f| f.get());
    let first = known_eq(p.base.m_radius, a.base.m_radius);
    ensure("the facing edge is searched for the reference face", if first { and(&[same_poly(&p, &a), same_xf(x, xa), same_poly(&q, &b), same_xf(y, xb), b_of(e == ea)]) } else { and(&[same_poly(&p, &b), same_xf(x, xb), same_poly(&q, &a), same_xf(y, xa), b_of(e == eb)]) });
    for k in 0..2 {
        let i = (f + k) % q.m_count;
        c[k].v = apply(y, q.m_vertices[i]);
        c[k].id.cf.index_a = e as u8;
        c[k].id.cf.index_b = i as u8;
        c[k].id.cf.type_a = B2contactFeatureType::EFace as u8;
        c[k].id.cf.type_b = B2contactFeatureType::EVertex as u8;
    }
}
/// An end of a clipped segment: along the face, in front of the face, which end it was, at which side plane it was cut.
type End = (f32, f32, usize, Option<usize>);
/// A segment and its part between the side planes lo and hi, if that has any length; kept ends come before cut ones.
/// All segments, given by where they cross the planes.
fn segment(lo: f32, hi: f32) -> ([(f32, f32); 2], Option<[End; 2]>) {
    segment_of(lo, hi, 7)
}
fn segment_of(lo: f32, hi: f32, kinds: usize) -> ([(f32, f32); 2], Option<[End; 2]>) {
    let (a, b) = ((nonneg("in a"), var("in y")), (nonneg("in b"), var("in z")));
    let (c, d) = ((lo, var("cut y")), (hi, var("cut z")));
    let (g, h) = (pos("out g"), pos("out h"));
    // continues past p, coming from q
    let past = |p: (f32, f32), q: (f32, f32), g: f32| (p.0 + g * (p.0 - q.0), p.1 + g * (p.1 - q.1));
    let inside = |x: (f32, f32)| {
        assume(le(x.0, hi - lo));
        x
    };
    let swap = flag("swapped");
    let order = |p: (f32, f32), q: (f32, f32)| if swap { [q, p] } else { [p, q] };
    let (i0, i1) = if swap { (1, 0) } else { (0, 1) };
    match choose("segment", kinds) {
        0 => {
            let (p, q) = ((lo + inside(a).0, a.1), (lo + inside(b).0, b.1));
            (order(p, q), Some(if swap { [(q.0, q.1, 0, None), (p.0, p.1, 1, None)] } else { [(p.0, p.1, 0, None), (q.0, q.1, 1, None)] }))
        }
        1 => {
            // from inside out through the first plane
            assume(gt(a.0, 0.0));
            let p = (lo + inside(a).0, a.1);
            (order(p, past(c, p, g)), Some([(p.0, p.1, i0, None), (c.0, c.1, i1, Some(0))]))
        }
        2 => {
            assume(gt(a.0, 0.0));
            let p = (hi - inside(a).0, a.1);
            (order(p, past(d, p, g)), Some([(p.0, p.1, i0, None), (d.0, d.1, i1, Some(1))]))
        }
        3 => (order(past(c, d, g), past(d, c, h)), Some([(c.0, c.1, i0, Some(0)), (d.0, d.1, i1, Some(1))])),
        4 => (order((lo - g, a.1), (lo - h, b.1)), None),
        5 => (order((hi + g, a.1), (hi + h, b.1)), None),
        // touching a plane from outside
        _ => (if flag("second plane") { order(d, (hi + g, a.1)) } else { order(c, (lo - g, a.1)) }, None),
    }
}
fn polygons() {
    let (xa, xb) = (xform("xa"), xform("xb"));
    let n = if symbolic() && flag("most sides") { B2_MAX_POLYGON_VERTICES } else { 3 };
    let (mut a, mut b) = (blank(n, "a"), blank(n, "b"));
    let case = choose("face of the first, face of the second, separated by the first, by the second", 4);
    let on_b = case == 1;
    let (e, f) = if flag("last face") { (n - 1, 0) } else { (0, n - 1) };
    // reference face along t with outward normal nn, facing edge relative to it (world coordinates)
    let nn = unit("nn");
    let t = left(nn);
    let len = pos("len");
    assume(ge(len, B2_EPSILON));
    let v = vec2("v");
    let r = a.base.m_radius + b.base.m_radius;
    let (p, ends) = segment(-r, len + r);
    let at = |(x, y): (f32, f32)| add(v, add(scale(x, t), scale(y, nn)));
    if !symbolic() {
        a = true_polygon("a", n);
        b = true_polygon("b", n);
    } else {
        let (p1, x1, p2, x2) = if on_b { (&mut b, xb, &mut a, xa) } else { (&mut a, xa, &mut b, xb) };
        p1.m_vertices[e] = local(x1, v);
        p1.m_vertices[(e + 1) % n] = local(x1, add(v, scale(len, t)));
        p1.m_normals[e] = back(x1.q, nn);
        p2.m_vertices[f] = local(x2, at(p[0]));
        p2.m_vertices[(f + 1) % n] = local(x2, at(p[1]));
    }
    // separations over the faces of each polygon
    let (ga, gb);
    if symbolic() {
        PAIR.with(|c| c.set(Some((a, xa, b, xb))));
        FACES.with(|c| c.set((e, e, f)));
        let (d, s) = (nonneg("da"), nonneg("db"));
        match case {
            0 => {
                ga = r - d;
                gb = ga - s;
            }
            1 => {
                gb = r - d;
                ga = gb - B2_LINEAR_SLOP - s;
            }
            2 => {
                ga = r + pos("dc");
                gb = var("gap b");
            }
            _ => {
                ga = var("gap a");
                gb = r + pos("dc");
            }
        }
        GAPS.with(|c| c.set((ga, gb)));
        hook::set::<fn(&mut usize, B2polygonShape, B2Transform, B2polygonShape, B2Transform) -> f32>("b2_find_max_separation", best_of);
        hook::set::<fn(&mut [B2clipVertex; 2], B2polygonShape, B2Transform, usize, B2polygonShape, B2Transform)>("b2_find_incident_edge", facing_of);
    } else {
        let gap = |a: &B2polygonShape, xa, b: &B2polygonShape, xb| (1..n).fold(face_gap(a, xa, 0, b, xb), |m, i| m.max(face_gap(a, xa, i, b, xb)));
        ga = gap(&a, xa, &b, xb);
        gb = gap(&b, xb, &a, xa);
    }
    if !symbolic() {
        // the reference face belongs to the polygon with the larger separation, up to a tolerance
        match case {
            0 => assume(and(&[le(ga, r), le(gb, ga)])),
            1 => assume(and(&[le(gb, r), gt(gb, ga + B2_LINEAR_SLOP)])),
            2 => assume(gt(ga, r)),
            _ => assume(gt(gb, r)),
        }
    }
    let mut m = B2manifold::default();
    m.point_count = 1;
    domain_checks(false);
    b2_collide_polygons(&mut m, &a, &xa, &b, &xb);
    domain_checks(true);
    hook::clear();
    if case > 1 {
        ensure("no points when a face separates by more than the radii", b_of(m.point_count == 0));
        return;
    }
    ensure("at most two points", b_of(m.point_count <= 2));
    if !symbolic() {
        return observed(&m, &a, xa, &b, xb);
    }
    match ends {
        None => ensure("no points where the facing edge misses the face", b_of(m.point_count == 0)),
        Some(ends) => {
            let kept: Vec<_> = ends.iter().filter(|q| q.1 <= r).collect();
            ensure("exactly the clipped ends within the radii are reported", b_of(m.point_count == kept.len()));
            if m.point_count != kept.len() || kept.len() == 0 {
                return;
            }
            ensure("the reference face belongs to the polygon with the larger separation", b_of(matches!(m.manifold_type, B2manifoldType::EFaceB) == on_b && !matches!(m.manifold_type, B2manifoldType::ECircles)));
            let (x1, x2) = if on_b { (xb, xa) } else { (xa, xb) };
            ensure("reference face", and(&[eqv(rotv(x1.q, m.local_normal), nn), eq(dot(sub(apply(x1, m.local_point), v), nn), 0.0)]));
            for (i, q) in kept.iter().enumerate() {
                ensure("reported points are the clipped ends of the facing edge", eqv(apply(x2, m.points[i].local_point), at((q.0, q.1))));
                // keys: (reference index, kind), (incident index, kind)
                let cf = m.points[i].id.cf;
                let (ri, rt, ii, it) = if on_b { (cf.index_b, cf.type_b, cf.index_a, cf.type_a) } else { (cf.index_a, cf.type_a, cf.index_b, cf.type_b) };
                match q.3 {
                    None => ensure("key of an uncut end", b_of(ri as usize == e && rt == B2contactFeatureType::EFace as u8 && ii as usize == (f + q.2) % n && it == B2contactFeatureType::EVertex as u8)),
                    Some(s) => ensure("key of a cut end", b_of(ri as usize == (e + s) % n && rt == B2contactFeatureType::EVertex as u8 && it == B2contactFeatureType::EFace as u8)),
                }
            }
        }
    }
}
/// What is left to see without the callee contracts: replays run this on the whole code.
fn observed(m: &B2manifold, a: &B2polygonShape, xa: B2Transform, b: &B2polygonShape, xb: B2Transform) {
    let on_b = matches!(m.manifold_type, B2manifoldType::EFaceB);
    let (p1, x1, p2, x2) = if on_b { (b, xb, a, xa) } else { (a, xa, b, xb) };
    if m.point_count == 0 {
        return;
    }
    let n = p1.m_count;
    let r = a.base.m_radius + b.base.m_radius;
    let face = |i: usize| and(&[eqv(p1.m_normals[i], m.local_normal), eq(dot(sub(m.local_point, p1.m_vertices[i]), m.local_normal), 0.0)]);
    ensure("reference face", or(&(0..n).map(face).collect::<Vec<_>>()));
    for k in 0..m.point_count {
        let q = m.points[k].local_point;
        let w = apply(x2, q);
        ensure("reported points lie within the radii of the face", le(dot(rotv(x1.q, m.local_normal), sub(w, apply(x1, m.local_point))), r));
        let on = |i: usize| {
            let (s, e) = (p2.m_vertices[i], p2.m_vertices[(i + 1) % p2.m_count]);
            and(&[eq(cross(sub(q, s), sub(e, s)), 0.0), ge(dot(sub(q, s), sub(e, s)), 0.0), le(dot(sub(q, s), sub(e, s)), len2(sub(e, s)))])
        };
        ensure("reported points lie on an edge", or(&(0..p2.m_count).map(on).collect::<Vec<_>>()));
    }
}
/// A real convex polygon, for runs on numbers.
fn true_polygon(tag: &str, n: usize) -> B2polygonShape {
    let mut p = blank(n, tag);
    let c = vec2(&format!("{}.at", tag));
    let mut sum = zero2();
    for i in 0..n {
        p.m_vertices[i] = add(c, vec2(&format!("{}.v{}", tag, i)));
        sum = add(sum, p.m_vertices[i]);
    }
    p.m_centroid = scale(1.0 / n as f32, sum);
    for i in 0..n {
        let e = sub(p.m_vertices[(i + 1) % n], p.m_vertices[i]);
        assume(gt(len2(e), 0.001));
        assume(gt(cross(e, sub(p.m_vertices[(i + 2) % n], p.m_vertices[i])), 0.001));
        let l = len2(e).sqrt();
        p.m_normals[i] = B2vec2 { x: e.y / l, y: -e.x / l };
    }
    p
}
// ---- edge and polygon
fn temp(n: usize) -> ce::B2tempPolygon {
    let b = blank(n, "b");
    ce::B2tempPolygon { vertices: b.m_vertices, normals: b.m_normals, count: n }
}
fn axis_searches() {
    let n = 3 + choose("sides - 3", 2);
    let t = temp(n);
    let (v1, v2, nn) = (vec2("v1"), vec2("v2"), vec2("nn"));
    if flag("edge") {
        let a = ce::b2_compute_edge_separation(t, v1, nn);
        let d = |i: usize| dot(nn, sub(t.vertices[i], v1));
        ensure("edge axis", b_of(a.axis_type == ce::B2ePAxisType::EEdgeA && (a.index == 0 || a.index == 1)));
        let g = |i: usize| if a.index == 0 { d(i) } else { -d(i) };
        ensure("edge axis direction", eqv(a.normal, if a.index == 0 { nn } else { scale(-1.0, nn) }));
        ensure("no vertex is nearer to the edge", and(&(0..n).map(|i| le(a.separation, g(i))).collect::<Vec<_>>()));
        ensure("some vertex is as near to the edge", or(&(0..n).map(|i| eq(a.separation, g(i))).collect::<Vec<_>>()));
        ensure("the other side of the edge separates no more", or(&(0..n).map(|i| le(-g(i), a.separation)).collect::<Vec<_>>()));
    } else {
        let a = ce::b2_compute_polygon_separation(t, v1, v2);
        let k = a.index as usize;
        ensure("polygon axis", b_of(a.axis_type == ce::B2ePAxisType::EEdgeB && a.index >= 0 && k < n));
        if a.index < 0 || k >= n {
            return;
        }
        let d = |i: usize| dot(t.normals[i], sub(v1, t.vertices[i])).min(dot(t.normals[i], sub(v2, t.vertices[i])));
        ensure("polygon axis direction", eqv(a.normal, scale(-1.0, t.normals[k])));
        ensure("separation of the best polygon face", eq(a.separation, d(k)));
        for i in 0..n {
            ensure("no other polygon face separates more", le(d(i), a.separation));
        }
    }
}
thread_local! {
    static EP: Cell<Option<(ce::B2tempPolygon, B2vec2, B2vec2, ce::B2epaxis, ce::B2epaxis)>> = Cell::new(None);
}
fn same_temp(a: &ce::B2tempPolygon, b: &ce::B2tempPolygon) -> B {
    let mut c = vec![b_of(a.count == b.count)];
    for i in 0..a.count.min(b.count) {
        c.push(eqv(a.vertices[i], b.vertices[i]));
        c.push(eqv(a.normals[i], b.normals[i]));
    }
    and(&c)
}
fn edge_axis(p: ce::B2tempPolygon, v1: B2vec2, n1: B2vec2) -> ce::B2epaxis {
    let (t, w1, w2, a, _) = EP.with(|c| c.get()).unwrap();
    ensure("the edge search sees the polygon in the edge's frame", same_temp(&p, &t));
    ensure("the edge search sees the edge", and(&[eqv(v1, w1), is_unit(n1), eq(dot(n1, sub(w2, w1)), 0.0), gt(cross(n1, sub(w2, w1)), 0.0)]));
    let mut a = a;
    a.normal = if a.index == 0 { n1 } else { B2vec2 { x: -n1.x, y: -n1.y } };
    a
}
fn polygon_axis(p: ce::B2tempPolygon, v1: B2vec2, v2: B2vec2) -> ce::B2epaxis {
    let (t, w1, w2, _, a) = EP.with(|c| c.get()).unwrap();
    ensure("the polygon search sees the polygon and the edge in the edge's frame", and(&[same_temp(&p, &t), eqv(v1, w1), eqv(v2, w2)]));
    a
}
/// one_sided: 0 no, 1 yes
fn edge_polygon_of(one_sided: bool) {
    let (xa, xb) = (xform("xa"), xform("xb"));
    let n = 3;
    let case = if one_sided { choose("edge, polygon face at a convex joint, at a concave joint", 3) * 2 % 5 } else { choose("edge, polygon face, separated by the edge, by the polygon", 4) };
    // cases 0 (edge), 4 -> by the edge although the polygon's face separates more
    let face = case == if one_sided { 2 } else { 1 };
    let snap = one_sided && case == 4;
    let f = if one_sided { 2 } else { choose("polygon edge", n) };
    let mut e = B2edgeShape::default();
    e.base.m_radius = nonneg("a.r");
    e.m_one_sided = one_sided;
    let mut b = blank(n, "b");
    let r = e.base.m_radius + b.base.m_radius;
    let len = pos("len");
    assume(ge(len, B2_EPSILON));
    let nn = unit("nn"); // reference normal, in the edge's frame
    let behind = choose("edge normal", 2);
    let t = if !face && behind == 0 { left(nn) } else if !face { scale(-1.0, left(nn)) } else { left(nn) };
    let v = vec2("v");
    let at = |(x, y): (f32, f32)| add(v, add(scale(x, t), scale(y, nn)));
    let (p, ends) = segment_of(t0(), len, if one_sided { 1 } else { 7 });
    let end = add(v, scale(len, t));
    let to_b = |q: B2vec2| local(xb, apply(xa, q));
    let dir_b = |q: B2vec2| back(xb.q, rotv(xa.q, q));
    let (w1, w2) = if face { (at(p[1]), at(p[0])) } else { (v, end) };
    e.m_vertex1 = w1;
    e.m_vertex2 = w2;
    let (m0, m3) = (unit("dir0"), unit("dir3"));
    e.m_vertex0 = sub(w1, scale(pos("len0"), m0));
    e.m_vertex3 = add(w2, scale(pos("len3"), m3));
    assume(and(&[ge(pos("len0"), B2_EPSILON), ge(pos("len3"), B2_EPSILON)]));
    let et = if face {
        let l = len2(sub(w2, w1)).sqrt();
        assume(ge(l, B2_EPSILON));
        scale(1.0 / l, sub(w2, w1))
    } else {
        t
    };
    let en = B2vec2 { x: et.y, y: -et.x };
    if !symbolic() {
        b = true_polygon("b", n);
    } else if face {
        b.m_vertices[f] = to_b(v);
        b.m_vertices[(f + 1) % n] = to_b(end);
        b.m_normals[f] = dir_b(nn);
    } else {
        b.m_vertices[f] = to_b(at(p[0]));
        b.m_vertices[(f + 1) % n] = to_b(at(p[1]));
        // normals by how much they face the edge's normal
        let low = var("facing");
        for i in 0..n {
            let k = if i == f { low } else { low + pos(&format!("facing {}", i)) };
            b.m_normals[i] = dir_b(add(scale(k, nn), scale(var(&format!("turn {}", i)), left(nn))));
        }
    }
    // the side of the polygon's centre
    let front = var("front");
    if symbolic() {
        b.m_centroid = to_b(add(w1, add(scale(var("side"), et), scale(front, en))));
    }
    let (ge_, gp);
    if symbolic() {
        let (d, s) = (nonneg("da"), nonneg("db"));
        match case {
            0 => {
                ge_ = r - d;
                gp = ge_ - s;
            }
            _ if one_sided || case == 1 => {
                gp = r - d;
                ge_ = gp - 0.03 * d - 0.01 - s;
            }
            2 => {
                ge_ = r + pos("dc");
                gp = var("gap");
            }
            _ => {
                ge_ = var("gap");
                gp = r + pos("dc");
            }
        }
        let mut q = ce::B2tempPolygon::default();
        q.count = n;
        for i in 0..n {
            q.vertices[i] = local(xa, apply(xb, b.m_vertices[i]));
            q.normals[i] = back(xa.q, rotv(xb.q, b.m_normals[i]));
        }
        let a1 = ce::B2epaxis { normal: zero2(), axis_type: ce::B2ePAxisType::EEdgeA, index: behind as i32, separation: ge_ };
        let best = if snap { 1 } else { f };
        let a2 = ce::B2epaxis { normal: scale(-1.0, q.normals[best]), axis_type: ce::B2ePAxisType::EEdgeB, index: best as i32, separation: gp };
        EP.with(|c| c.set(Some((q, w1, w2, a1, a2))));
        hook::set::<fn(ce::B2tempPolygon, B2vec2, B2vec2) -> ce::B2epaxis>("b2_compute_edge_separation", edge_axis);
        hook::set::<fn(ce::B2tempPolygon, B2vec2, B2vec2) -> ce::B2epaxis>("b2_compute_polygon_separation", polygon_axis);
    } else {
        let d = |i: usize| dot(en, sub(local(xa, apply(xb, b.m_vertices[i])), w1));
        let (lo, hi) = (1..n).fold((d(0), d(0)), |(l, h), i| (l.min(d(i)), h.max(d(i))));
        ge_ = lo.max(-hi);
        let face = |i: usize| {
            let nn = rotv(xb.q, b.m_normals[i]);
            dot(nn, sub(apply(xa, w1), apply(xb, b.m_vertices[i]))).min(dot(nn, sub(apply(xa, w2), apply(xb, b.m_vertices[i]))))
        };
        gp = (1..n).fold(face(0), |m, i| m.max(face(i)));
        match case {
            2 if !one_sided => assume(gt(ge_, r)),
            3 => assume(gt(gp, r)),
            _ => assume(and(&[le(ge_, r), le(gp, r)])),
        }
    }
    // direction from the edge to the polygon, and the joint on that side
    let axis = if face { scale(-1.0, nn) } else if snap { scale(-1.0, back(xa.q, rotv(xb.q, b.m_normals[1]))) } else { nn };
    let mut off = t0();
    if one_sided && symbolic() {
        let first = (!face && !snap) || dot(axis, et) <= 0.0;
        let (bend, o) = if first { (cross(m0, et), cross(axis, B2vec2 { x: m0.y, y: -m0.x })) } else { (cross(et, m3), cross(B2vec2 { x: m3.y, y: -m3.x }, axis)) };
        off = o;
        assume(if face { ge(bend, 0.0) } else if snap { lt(bend, 0.0) } else { b_of(true) });
        if !face && !snap && !(bend >= 0.0) {
            off = t0();
        }
    }
    let mut m = B2manifold::default();
    m.point_count = 1;
    domain_checks(false);
    b2_collide_edge_and_polygon(&mut m, &e, &xa, &b, &xb);
    domain_checks(true);
    hook::clear();
    if case > 1 && !one_sided {
        ensure("no points when a face separates by more than the radii", b_of(m.point_count == 0));
        return;
    }
    ensure("at most two points", b_of(m.point_count <= 2));
    if !symbolic() {
        return observed_edge(&m, &e, xa, &b, xb, r);
    }
    if one_sided {
        if front < 0.0 {
            ensure("one-sided edges do not collide from behind", b_of(m.point_count == 0));
            return;
        }
        if !snap && off > 0.1 {
            ensure("directions beyond the neighbour's normal are left to the neighbour", b_of(m.point_count == 0));
            return;
        }
    }
    match ends {
        None => ensure("no points where the facing edge misses the face", b_of(m.point_count == 0)),
        Some(ends) => {
            let kept: Vec<_> = ends.iter().filter(|q| q.1 <= r).collect();
            ensure("exactly the clipped ends within the radii are reported", b_of(m.point_count == kept.len()));
            if m.point_count != kept.len() || kept.len() == 0 {
                return;
            }
            ensure("the reference face has the larger separation", b_of(matches!(m.manifold_type, B2manifoldType::EFaceB) == face && !matches!(m.manifold_type, B2manifoldType::ECircles)));
            if face {
                ensure("reference face of the polygon", and(&[eqv(m.local_normal, b.m_normals[f]), eq(dot(sub(m.local_point, b.m_vertices[f]), b.m_normals[f]), 0.0)]));
            } else {
                ensure("reference face of the edge", and(&[eqv(m.local_normal, nn), eq(dot(sub(m.local_point, v), nn), 0.0)]));
            }
            for (i, q) in kept.iter().enumerate() {
                let w = apply(xa, at((q.0, q.1)));
                ensure("reported points are the clipped ends of the facing edge", eqv(apply(if face { xa } else { xb }, m.points[i].local_point), w));
                let cf = m.points[i].id.cf;
                // the reference shape is always the first in the key
                let fv = B2contactFeatureType::EFace as u8;
                let vv = B2contactFeatureType::EVertex as u8;
                match (face, q.3) {
                    (false, None) => ensure("key of an uncut end", b_of(cf.index_a == 0 && cf.type_a == fv && cf.index_b as usize == (f + q.2) % n && cf.type_b == vv)),
                    (false, Some(s)) => ensure("key of a cut end", b_of(cf.index_a as usize == s && cf.type_a == vv && cf.type_b == fv)),
                    (true, None) => ensure("key of an uncut end of the edge", b_of(cf.index_a as usize == f && cf.type_a == fv && cf.index_b as usize == 1 - q.2 && cf.type_b == vv)),
                    (true, Some(_)) => {}
                }
            }
        }
    }
}
fn t0() -> f32 {
    0.0
}
fn observed_edge(m: &B2manifold, e: &B2edgeShape, xa: B2Transform, b: &B2polygonShape, xb: B2Transform, r: f32) {
    if m.point_count == 0 {
        return;
    }
    let n = b.m_count;
    ensure("reported normal is unit", is_unit(m.local_normal));
    let on_b = matches!(m.manifold_type, B2manifoldType::EFaceB);
    let (x1, x2) = if on_b { (xb, xa) } else { (xa, xb) };
    if on_b {
        ensure("reference face", or(&(0..n).map(|i| and(&[eqv(b.m_normals[i], m.local_normal), eq(dot(sub(m.local_point, b.m_vertices[i]), m.local_normal), 0.0)])).collect::<Vec<_>>()));
    } else {
        ensure("reference face", and(&[eq(dot(m.local_normal, sub(e.m_vertex2, e.m_vertex1)), 0.0), eq(dot(m.local_normal, sub(m.local_point, e.m_vertex1)), 0.0)]));
    }
    for k in 0..m.point_count {
        let q = m.points[k].local_point;
        ensure("reported points lie within the radii of the face", le(dot(rotv(x1.q, m.local_normal), sub(apply(x2, q), apply(x1, m.local_point))), r));
        let on = |s: B2vec2, e: B2vec2| and(&[eq(cross(sub(q, s), sub(e, s)), 0.0), ge(dot(sub(q, s), sub(e, s)), 0.0), le(dot(sub(q, s), sub(e, s)), len2(sub(e, s)))]);
        ensure("reported points lie on an edge", if on_b { on(e.m_vertex1, e.m_vertex2) } else { or(&(0..n).map(|i| on(b.m_vertices[i], b.m_vertices[(i + 1) % n])).collect::<Vec<_>>()) });
    }
}
fn edge_polygon() {
    edge_polygon_of(false);
}
fn edge_polygon_one_sided() {
    edge_polygon_of(true);
}
// ---- which collision routine a pair of fixtures gets, and with which shapes

#[derive(Clone, Default)]
struct Seen {
    routine: i32,
    a: Vec<B2vec2>,
    b: Vec<B2vec2>,
    one_sided: bool,
    xa: B2Transform,
    xb: B2Transform,
    calls: i32,
}
thread_local! { static SEEN: RefCell<Seen> = RefCell::new(Seen::default()); }
fn saw(routine: i32, m: &mut B2manifold, a: Vec<B2vec2>, one_sided: bool, xa: &B2Transform, b: Vec<B2vec2>, xb: &B2Transform) {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        *s = Seen { routine, a, b, one_sided, xa: *xa, xb: *xb, calls: s.calls + 1 };
    });
    m.point_count = 1;
    m.local_point = vec2("result");
}
fn of_circle(c: &B2circleShape) -> Vec<B2vec2> {
    vec![c.m_p, B2vec2 { x: c.base.m_radius, y: 0.0 }]
}
fn of_polygon(p: &B2polygonShape) -> Vec<B2vec2> {
    let mut v = vec![p.m_centroid, B2vec2 { x: p.base.m_radius, y: 0.0 }];
    for i in 0..p.m_count {
        v.push(p.m_vertices[i]);
        v.push(p.m_normals[i]);
    }
    v
}
fn of_edge(e: &B2edgeShape) -> Vec<B2vec2> {
    vec![e.m_vertex1, e.m_vertex2, e.m_vertex0, e.m_vertex3, B2vec2 { x: e.base.m_radius, y: 0.0 }]
}
fn saw_circles(m: &mut B2manifold, a: &B2circleShape, xa: &B2Transform, b: &B2circleShape, xb: &B2Transform) {
    saw(1, m, of_circle(a), false, xa, of_circle(b), xb)
}
fn saw_polygon_circle(m: &mut B2manifold, a: &B2polygonShape, xa: &B2Transform, b: &B2circleShape, xb: &B2Transform) {
    saw(2, m, of_polygon(a), false, xa, of_circle(b), xb)
}
fn saw_polygons(m: &mut B2manifold, a: &B2polygonShape, xa: &B2Transform, b: &B2polygonShape, xb: &B2Transform) {
    saw(3, m, of_polygon(a), false, xa, of_polygon(b), xb)
}
fn saw_edge_circle(m: &mut B2manifold, a: &B2edgeShape, xa: &B2Transform, b: &B2circleShape, xb: &B2Transform) {
    saw(4, m, of_edge(a), a.m_one_sided, xa, of_circle(b), xb)
}
fn saw_edge_polygon(m: &mut B2manifold, a: &B2edgeShape, xa: &B2Transform, b: &B2polygonShape, xb: &B2Transform) {
    saw(5, m, of_edge(a), a.m_one_sided, xa, of_polygon(b), xb)
}
fn square(c: B2vec2, r: f32) -> B2polygonShape {
    let mut p = B2polygonShape::default();
    let h: f32 = 1.0;
    p.set_as_box_angle(h, h, c, 0.0);
    p.base.m_radius = r;
    p
}
/// 0 circle, 1 edge, 2 polygon, 3 chain; with the description of the child that collides
fn solid(b: &Body, n: &str, kind: usize, child: usize) -> (FixturePtr<D>, Vec<B2vec2>, bool) {
    b.borrow_mut().m_flags.remove(BodyFlags::E_ENABLED_FLAG);
    let f = |s: &str| format!("{}.{}", n, s);
    let mut fd = B2fixtureDef::default();
    let (shape, d, one): (ShapeDefPtr, Vec<B2vec2>, bool) = match kind {
        0 => {
            let s = circle(vec2(&f("centre")), nonneg(&f("radius")));
            (Rc::new(RefCell::new(s)), of_circle(&s), false)
        }
        1 => {
            let mut s = B2edgeShape::default();
            if flag(&f("one sided")) {
                s.set_one_sided(vec2(&f("v0")), vec2(&f("v1")), vec2(&f("v2")), vec2(&f("v3")));
            } else {
                s.set_two_sided(vec2(&f("v1")), vec2(&f("v2")));
            }
            (Rc::new(RefCell::new(s)), of_edge(&s), s.m_one_sided)
        }
        2 => {
            let s = square(vec2(&f("centre")), nonneg(&f("radius")));
            (Rc::new(RefCell::new(s)), of_polygon(&s), false)
        }
        _ => {
            let mut s = B2chainShape::default();
            let v: Vec<B2vec2> = (0..5).map(|i| vec2(&f(&format!("v{}", i)))).collect();
            s.m_vertices = v[1..4].to_vec();
            s.m_prev_vertex = v[0];
            s.m_next_vertex = v[4];
            s.base.m_radius = nonneg(&f("radius"));
            let e = vec![v[child + 1], v[child + 2], v[child], v[child + 3], B2vec2 { x: s.base.m_radius, y: 0.0 }];
            (Rc::new(RefCell::new(s)), e, true)
        }
    };
    fd.shape = Some(shape);
    let fx = B2body::create_fixture(b.clone(), &fd);
    (fx, d, one)
}
fn all_eq(a: &[B2vec2], b: &[B2vec2]) -> B {
    if a.len() != b.len() {
        return b_of(false);
    }
    and(&a.iter().zip(b).map(|(x, y)| eqv(*x, *y)).collect::<Vec<_>>())
}
/// What the routine for these two shapes says, called directly.
fn direct(fa: &FixturePtr<D>, ia: usize, xa: &B2Transform, fb: &FixturePtr<D>, xb: &B2Transform) -> B2manifold {
    let (sa, sb) = (fa.borrow().get_shape(), fb.borrow().get_shape());
    let mut m = B2manifold::default();
    let mut e = B2edgeShape::default();
    if let Some(c) = sa.as_chain() {
        c.get_child_edge(&mut e, ia);
    } else if let Some(x) = sa.as_edge() {
        e = *x;
    }
    match (sa.get_type(), sb.get_type()) {
        (B2ShapeType::ECircle, _) => b2_collide_circles(&mut m, sa.as_circle().unwrap(), xa, sb.as_circle().unwrap(), xb),
        (B2ShapeType::EPolygon, B2ShapeType::ECircle) => b2_collide_polygon_and_circle(&mut m, sa.as_polygon().unwrap(), xa, sb.as_circle().unwrap(), xb),
        (B2ShapeType::EPolygon, _) => b2_collide_polygons(&mut m, sa.as_polygon().unwrap(), xa, sb.as_polygon().unwrap(), xb),
        (_, B2ShapeType::ECircle) => b2_collide_edge_and_circle(&mut m, &e, xa, sb.as_circle().unwrap(), xb),
        _ => b2_collide_edge_and_polygon(&mut m, &e, xa, sb.as_polygon().unwrap(), xb),
    }
    m
}
fn dispatch() {
    domain_checks(false);
    // first kind, second kind, routine, whether the two are taken in the given order
    let table = [(0, 0, 1, true), (2, 0, 2, true), (0, 2, 2, false), (2, 2, 3, true), (1, 0, 4, true), (0, 1, 4, false), (3, 0, 4, true), (0, 3, 4, false), (1, 2, 5, true), (2, 1, 5, false), (3, 2, 5, true), (2, 3, 5, false)];
    let (k1, k2, routine, order) = table[choose("pair", table.len())];
    let child = if k1 == 3 || k2 == 3 { choose("child", 2) } else { 0 };
    let w = world();
    let (b1, b2) = (body_of(&w, "b1", B2bodyType::B2StaticBody), body_of(&w, "b2", B2bodyType::B2StaticBody));
    let (f1, d1, o1) = solid(&b1, "f1", k1, child);
    let (f2, d2, o2) = solid(&b2, "f2", k2, child);
    let (i1, i2) = (if k1 == 3 { child } else { 0 }, if k2 == 3 { child } else { 0 });
    let manager = w.borrow().m_contact_manager.clone();
    let manager = manager.borrow();
    let c = B2contact::create(&manager, f1.clone(), i1 as i32, f2.clone(), i2 as i32);
    let (fa, ia, da, oa, fb, ib, db) = if order { (f1, i1, d1, o1, f2, i2, d2) } else { (f2, i2, d2, o2, f1, i1, d1) };
    {
        let c = c.borrow();
        let c = c.get_base();
        ensure("fixtures of a contact in the order of their routine", b_of(Rc::ptr_eq(&c.get_fixture_a(), &fa) && Rc::ptr_eq(&c.get_fixture_b(), &fb)));
        ensure("children of a contact in the same order", b_of(c.get_child_index_a() == ia as i32 && c.get_child_index_b() == ib as i32));
        ensure("new contact has no points and is enabled", b_of(c.get_manifold().point_count == 0 && c.is_enabled() && !c.is_touching()));
    }
    let (xa, xb) = (xform("xa"), xform("xb"));
    let mut m = stale();
    if symbolic() {
        SEEN.with(|s| *s.borrow_mut() = Seen::default());
        hook::set::<fn(&mut B2manifold, &B2circleShape, &B2Transform, &B2circleShape, &B2Transform)>("b2_collide_circles", saw_circles);
        hook::set::<fn(&mut B2manifold, &B2polygonShape, &B2Transform, &B2circleShape, &B2Transform)>("b2_collide_polygon_and_circle", saw_polygon_circle);
        hook::set::<fn(&mut B2manifold, &B2polygonShape, &B2Transform, &B2polygonShape, &B2Transform)>("b2_collide_polygons", saw_polygons);
        hook::set::<fn(&mut B2manifold, &B2edgeShape, &B2Transform, &B2circleShape, &B2Transform)>("b2_collide_edge_and_circle", saw_edge_circle);
        hook::set::<fn(&mut B2manifold, &B2edgeShape, &B2Transform, &B2polygonShape, &B2Transform)>("b2_collide_edge_and_polygon", saw_edge_polygon);
        c.borrow().evaluate(&mut m, &xa, &xb);
        let s = SEEN.with(|s| s.borrow().clone());
        hook::clear();
        ensure("the routine for the two shapes runs once", b_of(s.calls == 1 && s.routine == routine));
        ensure("routine gets the first shape", and(&[all_eq(&s.a, &da), b_of(s.one_sided == oa)]));
        ensure("routine gets the second shape", all_eq(&s.b, &db));
        ensure("routine gets the transforms", and(&[same_xf(s.xa, xa), same_xf(s.xb, xb)]));
        ensure("result of the routine is reported", and(&[b_of(m.point_count == 1), eqv(m.local_point, vec2("result"))]));
    } else {
        c.borrow().evaluate(&mut m, &xa, &xb);
        let d = direct(&fa, ia, &xa, &fb, &xb);
        ensure("the routine for the two shapes runs once", b_of(m.point_count == d.point_count));
        for i in 0..m.point_count.min(d.point_count) {
            ensure("result of the routine is reported", and(&[eqv(m.local_point, d.local_point), eqv(m.local_normal, d.local_normal), eqv(m.points[i].local_point, d.points[i].local_point), b_of(m.points[i].id.cf == d.points[i].id.cf)]));
        }
    }
}

contracts! {
    selection_bodies,
    circles, edge_circle, polygon_circle_3, polygon_circle_4, clipping, point_states, world_manifold,
    max_separation, incident_edge, polygons, axis_searches, edge_polygon, edge_polygon_one_sided, dispatch,
}
