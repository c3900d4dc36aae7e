mod common;
mod overlap;
mod phys;
use box2d_rs::b2_distance::*;
use box2d_rs::private::collision::b2_distance as cd;
use common::selection_bodies;
use overlap::overlap;
use phys::*;

fn back(q: B2Rot, v: B2vec2) -> B2vec2 {
    B2vec2 { x: q.c * v.x + q.s * v.y, y: -q.s * v.x + q.c * v.y }
}
fn local(x: B2Transform, w: B2vec2) -> B2vec2 {
    back(x.q, sub(w, x.p))
}
fn proxy(v: &[B2vec2], r: f32) -> B2distanceProxy {
    let mut p = B2distanceProxy::default();
    p.set_vertices(v, r);
    p
}
/// The support function, for every number of vertices a shape can have.
fn support() {
    let n = 1 + choose("vertices - 1", B2_MAX_POLYGON_VERTICES);
    let v: Vec<B2vec2> = (0..n).map(|i| vec2(&format!("v{}", i))).collect();
    let p = proxy(&v, nonneg("r"));
    ensure("vertices as given", b_of(p.get_vertex_count() == n));
    let d = vec2("d");
    if flag("vertex") {
        let s = p.get_support_vertex(d);
        for i in 0..n {
            ensure("support vertex is farthest", ge(dot(s, d), dot(v[i], d)));
        }
        ensure("support vertex is a vertex", or(&v.iter().map(|x| eqv(*x, s)).collect::<Vec<_>>()));
    } else {
        let k = p.get_support(d);
        ensure("support index is valid", b_of(k < n));
        for i in 0..n {
            ensure("support is farthest", ge(dot(p.get_vertex(k), d), dot(v[i], d)));
            ensure("vertex by index", eqv(p.get_vertex(i), v[i]));
        }
    }
}
fn shapes() {
    let mut p = proxy(&[vec2("old")], nonneg("old r"));
    let r = nonneg("r");
    let (shape, want): (Rc<dyn B2shapeDynTrait>, Vec<B2vec2>);
    let mut child = 0;
    match choose("shape", 4) {
        0 => {
            let c = circle(vec2("centre"), r);
            want = vec![vec2("centre")];
            shape = Rc::new(c);
        }
        1 => {
            let mut e = edge(vec2("v1"), vec2("v2"));
            e.base.m_radius = r;
            want = vec![vec2("v1"), vec2("v2")];
            shape = Rc::new(e);
        }
        2 => {
            let mut s = B2polygonShape::default();
            s.m_count = 3 + choose("sides - 3", B2_MAX_POLYGON_VERTICES - 2);
            for i in 0..B2_MAX_POLYGON_VERTICES {
                s.m_vertices[i] = vec2(&format!("v{}", i));
            }
            s.base.m_radius = r;
            want = s.m_vertices[..s.m_count].to_vec();
            shape = Rc::new(s);
        }
        _ => {
            let mut s = B2chainShape::default();
            s.m_vertices = (0..4).map(|i| vec2(&format!("v{}", i))).collect();
            s.base.m_radius = r;
            child = choose("child", 3);
            want = vec![s.m_vertices[child], s.m_vertices[child + 1]];
            shape = Rc::new(s);
        }
    }
    p.set_shape(shape, child);
    ensure("proxy has the shape's radius", eq(p.m_radius, r));
    ensure("proxy has the shape's corners", b_of(p.get_vertex_count() == want.len()));
    for i in 0..want.len() {
        if i < p.get_vertex_count() {
            ensure("proxy corner", eqv(p.get_vertex(i), want[i]));
        }
    }
}
/// A vertex pair of the simplex, its place given.
fn pair(n: usize, w: B2vec2) -> cd::B2simplexVertex {
    let mut v = cd::B2simplexVertex::default();
    v.w_a = vec2(&format!("wa{}", n));
    v.w_b = add(v.w_a, w);
    v.w = w;
    v.a = var(&format!("olda{}", n));
    v.index_a = n;
    v.index_b = n + 3;
    v
}
/// What the search on two or three pairs must deliver.
fn solved(s: &cd::B2simplex, o: &cd::B2simplex, first: usize) {
    ensure("some pairs are kept", b_of(s.m_count >= 1 && s.m_count <= o.m_count));
    let mut p = zero2();
    let mut total: f32 = 0.0;
    for k in 0..s.m_count {
        let v = s.m_v[k];
        ensure("a kept pair is one of the given ones", b_of(v.index_a < o.m_count && v.index_b == v.index_a + 3));
        let u = o.m_v[v.index_a % 3];
        ensure("kept pairs are unchanged", and(&[eqv(v.w, u.w), eqv(v.w_a, u.w_a), eqv(v.w_b, u.w_b)]));
        for j in 0..k {
            ensure("kept pairs are different", b_of(s.m_v[j].index_a != v.index_a));
        }
        // an inner weight is checked in the frame of the opposite side
        if s.m_count < 3 || first == (v.index_a + 1) % 3 || !symbolic() {
            ensure("weights are not negative", ge(v.a, 0.0));
        }
        p = add(p, scale(v.a, v.w));
        total = total + v.a;
    }
    ensure("weights add up to one", eq(total, 1.0));
    for j in 0..o.m_count {
        let label = if o.m_count == 2 { "no point of the segment is nearer" } else { "no point of the triangle is nearer" };
        if s.m_count == 3 {
            ensure("origin inside the triangle", eqv(p, zero2()));
        } else {
            ensure(label, ge(dot(o.m_v[j].w, p), dot(p, p)));
        }
    }
}
fn segment() {
    let mut s = cd::B2simplex::default();
    s.m_count = 2;
    s.m_v[0] = pair(0, vec2("w0"));
    s.m_v[1] = pair(1, vec2("w1"));
    s.m_v[2] = pair(2, vec2("w2"));
    let o = s;
    cd::b2_simplex_solve2(&mut s);
    solved(&s, &o, 0);
}
/// Three points in a frame along two of them; every outcome is checked in the frame of the pair it keeps.
fn triangle_of(first: usize) {
    let mut s = cd::B2simplex::default();
    s.m_count = 3;
    let t = unit("t");
    let n = tangent(t);
    let (x, y, h, k, len) = (var("x"), var("y"), var("h"), var("k"), nonneg("len"));
    let at = |x: f32, h: f32| add(scale(x, t), scale(h, n));
    for (i, w) in [at(x, h), at(x + len, h), at(y, k)].iter().enumerate() {
        let j = (first + i) % 3;
        s.m_v[j] = pair(j, *w);
    }
    let o = s;
    cd::b2_simplex_solve3(&mut s);
    let frame = if s.m_count == 2 {
        let (i, j) = (s.m_v[0].index_a, s.m_v[1].index_a);
        if (i + 1) % 3 == j { i } else { j }
    } else {
        0
    };
    if s.m_count == 3 || frame == first || !symbolic() {
        solved(&s, &o, first);
    }
}
fn triangle_12() {
    triangle_of(0);
}
fn triangle_23() {
    triangle_of(1);
}
fn triangle_31() {
    triangle_of(2);
}
/// Vertex pairs of a simplex by index.
const PATTERNS: [&[(usize, usize)]; 10] = [
    &[(0, 0)],
    &[(0, 0), (0, 1)],
    &[(0, 0), (1, 0)],
    &[(0, 0), (1, 1)],
    &[(0, 0), (0, 1), (0, 2)],
    &[(0, 0), (1, 0), (2, 0)],
    &[(0, 0), (0, 1), (1, 1)],
    &[(0, 0), (1, 0), (1, 1)],
    &[(0, 0), (0, 1), (1, 0)],
    &[(0, 0), (1, 1), (2, 2)],
];
/// Which pairs a search may keep.
const KEPT: [&[&[usize]]; 3] = [&[&[0]], &[&[0], &[1], &[0, 1], &[1, 0]], &[&[0], &[1], &[2], &[0, 1], &[0, 2], &[2, 1], &[1, 0], &[0, 1, 2]]];
#[derive(Clone, Default)]
struct Plan {
    start: cd::B2simplex,
    kept: Vec<usize>,
    weights: Vec<f32>,
    va: Vec<B2vec2>,
    vb: Vec<B2vec2>,
    support: (usize, usize),
    asked: (usize, usize),
    reads: usize,
    solves: usize,
}
thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }
fn plan<T>(f: impl FnOnce(&mut Plan) -> T) -> T {
    PLAN.with(|p| f(&mut p.borrow_mut()))
}
/// Any simplex that a cache or an iteration can leave.
fn any_start(s: &mut cd::B2simplex, _: &B2simplexCache, _: &B2distanceProxy, _: B2Transform, _: &B2distanceProxy, _: B2Transform) {
    plan(|p| p.reads += 1);
    *s = plan(|p| p.start);
}
/// The loop invariant: every pair names a corner of each shape and holds their places and difference.
fn consistent(s: &cd::B2simplex) {
    ensure("a simplex has one to three pairs", b_of(s.m_count >= 1 && s.m_count <= 3));
    plan(|p| {
        for k in 0..s.m_count {
            let v = s.m_v[k];
            let ok = v.index_a < p.va.len() && v.index_b < p.vb.len();
            ensure("simplex indices are valid", b_of(ok));
            if ok {
                ensure("simplex pairs hold the places of their corners", and(&[eqv(v.w_a, p.va[v.index_a]), eqv(v.w_b, p.vb[v.index_b]), eqv(v.w, sub(v.w_b, v.w_a))]));
            }
            for j in 0..k {
                ensure("simplex pairs differ", b_of((v.index_a, v.index_b) != (s.m_v[j].index_a, s.m_v[j].index_b)));
            }
        }
    });
}
/// Contract of the searches on two and three pairs.
fn reduce(s: &mut cd::B2simplex, count: usize) {
    ensure("the search for the right number of pairs", b_of(s.m_count == count));
    consistent(s);
    if plan(|p| p.asked != (0, 0)) {
        // the next iteration starts from a state of the same kind
        ensure("an iteration adds the new pair", b_of(plan(|p| s.m_count == p.kept.len() + 1)));
        abort_path();
    }
    let o = *s;
    plan(|p| {
        p.solves += 1;
        for (k, i) in p.kept.iter().enumerate() {
            s.m_v[k] = o.m_v[*i];
            s.m_v[k].a = p.weights[k];
        }
        s.m_count = p.kept.len();
    });
}
fn reduce2(s: &mut cd::B2simplex) {
    reduce(s, 2)
}
fn reduce3(s: &mut cd::B2simplex) {
    reduce(s, 3)
}
/// Contract of the support function.
fn farthest(p: &B2distanceProxy, d: B2vec2) -> usize {
    let k = plan(|q| {
        if p.m_vertices.len() == q.va.len() {
            q.asked.0 += 1;
            q.support.0
        } else {
            q.asked.1 += 1;
            q.support.1
        }
    });
    for v in &p.m_vertices {
        assume(le(dot(*v, d), dot(p.m_vertices[k], d)));
    }
    k
}
fn distance_of(radii: bool) {
    domain_checks(false);
    let pattern = PATTERNS[choose("pattern", PATTERNS.len())];
    let count = pattern.len();
    let kept: Vec<usize> = { let l = KEPT[count - 1]; l[choose("kept", l.len())].to_vec() };
    let n = unit("n");
    let t = tangent(n);
    // the closest point of the simplex is dist * n
    let dist = if kept.len() == 3 { 0.0 } else { nonneg("dist") };
    let at = |x: f32, h: f32| add(scale(h, n), scale(x, t));
    let mut w = vec![zero2(); count];
    let mut weights = vec![];
    match kept.len() {
        1 => {
            w[kept[0]] = at(0.0, dist);
            weights.push(1.0);
        }
        2 => {
            let (s0, s1) = (pos("s0"), pos("s1"));
            assume(ge(s0 + s1, B2_EPSILON));
            w[kept[0]] = at(s0, dist);
            w[kept[1]] = at(-s1, dist);
            weights = vec![s1 / (s0 + s1), s0 / (s0 + s1)];
        }
        _ => {
            let (a0, a1, a2) = (pos("a0"), pos("a1"), pos("a2"));
            let all = a0 + a1 + a2;
            w[0] = vec2("w0");
            w[1] = vec2("w1");
            w[2] = scale(-1.0 / a2, add(scale(a0, w[0]), scale(a1, w[1])));
            weights = vec![a0 / all, a1 / all, a2 / all];
        }
    }
    for i in 0..count {
        if !kept.contains(&i) {
            w[i] = at(var(&format!("x{}", i)), dist + nonneg(&format!("g{}", i)));
        }
    }
    // corners with these differences
    let (mut va, mut vb): (Vec<Option<B2vec2>>, Vec<Option<B2vec2>>) = (vec![None; 3], vec![None; 3]);
    for (k, (i, j)) in pattern.iter().enumerate() {
        match (va[*i], vb[*j]) {
            (Some(a), None) => vb[*j] = Some(add(a, w[k])),
            (None, Some(b)) => va[*i] = Some(sub(b, w[k])),
            _ => {
                let a = vec2(&format!("a{}", i));
                va[*i] = Some(a);
                vb[*j] = Some(add(a, w[k]));
            }
        }
    }
    let mut va: Vec<B2vec2> = va.into_iter().flatten().collect();
    let mut vb: Vec<B2vec2> = vb.into_iter().flatten().collect();
    va.push(vec2("a.other"));
    vb.push(vec2("b.other"));
    if va.len() == vb.len() {
        vb.push(vec2("b.another"));
    }
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let input = B2distanceInput {
        proxy_a: proxy(&va.iter().map(|v| local(xa, *v)).collect::<Vec<_>>(), ra),
        proxy_b: proxy(&vb.iter().map(|v| local(xb, *v)).collect::<Vec<_>>(), rb),
        transform_a: xa,
        transform_b: xb,
        use_radii: radii,
    };
    let mut start = cd::B2simplex::default();
    start.m_count = count;
    for k in 0..3 {
        start.m_v[k] = pair(k, vec2("junk"));
    }
    for (k, (i, j)) in pattern.iter().enumerate() {
        start.m_v[k] = cd::B2simplexVertex { w_a: va[*i], w_b: vb[*j], w: sub(vb[*j], va[*i]), a: var(&format!("old{}", k)), index_a: *i, index_b: *j };
    }
    // the support is a pair of the simplex, or another one
    let mut supports = pattern.to_vec();
    supports.push((va.len() - 1, 0));
    supports.push((0, vb.len() - 1));
    let support = supports[choose("support", supports.len())];
    PLAN.with(|p| *p.borrow_mut() = Plan { start, kept: kept.clone(), weights: weights.clone(), va: va.clone(), vb: vb.clone(), support, ..Default::default() });
    hook::set::<fn(&mut cd::B2simplex, &B2simplexCache, &B2distanceProxy, B2Transform, &B2distanceProxy, B2Transform)>("read_cache", any_start);
    hook::set::<fn(&mut cd::B2simplex)>("b2_simplex_solve2", reduce2);
    hook::set::<fn(&mut cd::B2simplex)>("b2_simplex_solve3", reduce3);
    hook::set::<fn(&B2distanceProxy, B2vec2) -> usize>("get_support", farthest);
    let mut out = B2distanceOutput::default();
    let mut cache = B2simplexCache::default();
    b2_distance_fn(&mut out, &mut cache, &input);
    hook::clear();
    let (asked, reads, solves) = plan(|p| (p.asked, p.reads, p.solves));
    ensure("search starts from the cache once and reduces each simplex once", b_of(reads == 1 && solves == (count > 1) as usize));
    let (mut pa, mut pb) = (zero2(), zero2());
    for (k, i) in kept.iter().enumerate() {
        pa = add(pa, scale(weights[k], va[pattern[*i].0]));
        pb = add(pb, scale(weights[k], vb[pattern[*i].1]));
    }
    if !radii {
        ensure("first point belongs to the first shape", eqv(out.point_a, pa));
        ensure("second point belongs to the second shape", eqv(out.point_b, pb));
        ensure("distance of the points", eq(out.distance, dist));
    } else if dist > ra + rb && dist > B2_EPSILON {
        ensure("first point is moved to the skin", eqv(out.point_a, add(pa, scale(ra, n))));
        ensure("second point is moved to the skin", eqv(out.point_b, sub(pb, scale(rb, n))));
        ensure("distance of the skins", eq(out.distance, dist - ra - rb));
    } else {
        ensure("overlapping skins have distance zero", eq(out.distance, 0.0));
        ensure("overlapping skins meet midway", and(&[eqv(scale(2.0, out.point_a), add(pa, pb)), eqv(out.point_a, out.point_b)]));
    }
    if asked == (0, 0) {
        ensure("the search ends early only when the shapes meet", lt(dist, B2_EPSILON));
    } else {
        ensure("one support point of each shape", b_of(asked == (1, 1)));
        for i in 0..if radii { 0 } else { va.len() } {
            for j in 0..vb.len() {
                ensure("no pair of points is closer", or(&[eq(dist, 0.0), ge(dot(n, sub(vb[j], va[i])), dist)]));
            }
        }
    }
    ensure("cache remembers the pairs", b_of(cache.count as usize == kept.len() && kept.iter().enumerate().all(|(k, i)| (cache.index_a[k] as usize, cache.index_b[k] as usize) == pattern[*i])));
}
/// What a whole search delivers.
fn searched(radii: bool) {
    let nb = |n: &str| -> Vec<B2vec2> { (0..1 + choose(n, 5)).map(|i| vec2(&format!("{}{}", n, i))).collect() };
    let (va, vb) = (nb("a"), nb("b"));
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let input = B2distanceInput { proxy_a: proxy(&va, ra), proxy_b: proxy(&vb, rb), transform_a: xa, transform_b: xb, use_radii: false };
    let mut o = B2distanceOutput::default();
    let mut cache = B2simplexCache::default();
    b2_distance_fn(&mut o, &mut cache, &input);
    let inside = |p: B2vec2, v: &[B2vec2], x: B2Transform| {
        for k in 0..24 {
            let a: f32 = 0.2618 * k as f32;
            let d = B2vec2 { x: a.cos(), y: a.sin() };
            ensure("reported point belongs to its shape", or(&v.iter().map(|v| ge(dot(apply(x, *v), d), dot(p, d))).collect::<Vec<_>>()));
        }
    };
    inside(o.point_a, &va, xa);
    inside(o.point_b, &vb, xb);
    let d = sub(o.point_b, o.point_a);
    ensure("distance of the points", eq(o.distance * o.distance, len2(d)));
    if o.distance > 0.01 {
        for v in &va {
            for w in &vb {
                ensure("no pair of points is closer", ge(dot(scale(1.0 / o.distance, d), sub(apply(xb, *w), apply(xa, *v))), o.distance));
            }
        }
    }
    ensure("cached pairs name corners", b_of(cache.count >= 1 && cache.count <= 3 && (0..cache.count as usize).all(|k| (cache.index_a[k] as usize) < va.len() && (cache.index_b[k] as usize) < vb.len())));
    let mut o2 = B2distanceOutput::default();
    b2_distance_fn(&mut o2, &mut cache, &input);
    ensure("a search from the cache finds the same distance", eq(o2.distance, o.distance));
    if radii {
        let mut r = B2distanceOutput::default();
        b2_distance_fn(&mut r, &mut B2simplexCache::default(), &B2distanceInput { use_radii: true, ..input });
        if o.distance > ra + rb && o.distance > 0.01 {
            let n = scale(1.0 / o.distance, d);
            ensure("distance of the skins", eq(r.distance, o.distance - ra - rb));
            ensure("first point is moved to the skin", eqv(r.point_a, add(o.point_a, scale(ra, n))));
            ensure("second point is moved to the skin", eqv(r.point_b, sub(o.point_b, scale(rb, n))));
        } else if o.distance < ra + rb {
            ensure("overlapping skins have distance zero", eq(r.distance, 0.0));
            ensure("overlapping skins meet midway", and(&[eqv(scale(2.0, r.point_a), add(o.point_a, o.point_b)), eqv(r.point_a, r.point_b)]));
        }
    }
}
fn distance() {
    if symbolic() {
        distance_of(false)
    } else {
        searched(false)
    }
}
fn distance_of_skins() {
    if symbolic() {
        distance_of(true)
    } else {
        searched(true)
    }
}
/// Reading the cache gives a simplex of the described kind, or the first pair when it does not fit any more.
fn reading() {
    let (va, vb): (Vec<B2vec2>, Vec<B2vec2>) = ((0..3).map(|i| vec2(&format!("a{}", i))).collect(), (0..4).map(|i| vec2(&format!("b{}", i))).collect());
    let (xa, xb) = (xform("xa"), xform("xb"));
    let (pa, pb) = (proxy(&va.iter().map(|v| local(xa, *v)).collect::<Vec<_>>(), nonneg("ra")), proxy(&vb.iter().map(|v| local(xb, *v)).collect::<Vec<_>>(), nonneg("rb")));
    let mut c = B2simplexCache::default();
    let k = choose("pattern", PATTERNS.len() + 1);
    let pattern: &[(usize, usize)] = if k == 0 { &[] } else { PATTERNS[k - 1] };
    c.count = pattern.len() as u16;
    for (k, (i, j)) in pattern.iter().enumerate() {
        c.index_a[k] = *i as u8;
        c.index_b[k] = *j as u8;
    }
    c.metric = var("metric");
    let mut s = cd::B2simplex::default();
    for k in 0..3 {
        s.m_v[k] = pair(k, vec2("junk"));
    }
    s.read_cache(&c, &pa, xa, &pb, xb);
    PLAN.with(|p| *p.borrow_mut() = Plan { va: va.clone(), vb: vb.clone(), ..Default::default() });
    consistent(&s);
    let is = |p: &[(usize, usize)]| s.m_count == p.len() && p.iter().enumerate().all(|(k, x)| (s.m_v[k].index_a, s.m_v[k].index_b) == *x);
    ensure("the cached pairs or the first pair", b_of(is(pattern) || is(&[(0, 0)])));
    if is(pattern) && pattern.len() > 1 {
        let m = s.get_metric();
        ensure("a cached simplex is used only if its size still fits", and(&[ge(m, 0.5 * c.metric), le(m, 2.0 * c.metric), ge(m, B2_EPSILON)]));
        let mut d = B2simplexCache::default();
        s.write_cache(&mut d);
        ensure("cache written as read", and(&[b_of(d.count == c.count && d.index_a == c.index_a && d.index_b == c.index_b), eq(d.metric, m)]));
        let w = |k: usize| sub(vb[pattern[k].1], va[pattern[k].0]);
        ensure("size of a simplex", if pattern.len() == 2 { and(&[eq(m * m, len2(sub(w(1), w(0)))), ge(m, 0.0)]) } else { eq(m, cross(sub(w(1), w(0)), sub(w(2), w(0)))) });
    }
}
contracts! { selection_bodies, support, shapes, segment, triangle_12, triangle_23, triangle_31, distance, distance_of_skins, reading, overlap, }
