mod common;
mod phys;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_time_of_impact::*;
use box2d_rs::private::collision::b2_distance as cd;
use box2d_rs::private::collision::b2_time_of_impact as ti;
use common::selection_bodies;
use phys::*;

fn back(q: B2Rot, v: B2vec2) -> B2vec2 {
    B2vec2 { x: q.c * v.x + q.s * v.y, y: -q.s * v.x + q.c * v.y }
}
fn proxy(v: &[B2vec2], r: f32) -> B2distanceProxy {
    let mut p = B2distanceProxy::default();
    p.set_vertices(v, r);
    p
}
fn sweep(n: &str) -> B2Sweep {
    let f = |s: &str| format!("{}.{}", n, s);
    B2Sweep { local_center: vec2(&f("lc")), c0: vec2(&f("c0")), c: vec2(&f("c")), a0: var_hint(&f("a0"), -3.0, 3.0), a: var_hint(&f("a"), -3.0, 3.0), alpha0: 0.0 }
}
fn pose(s: &B2Sweep, t: f32) -> B2Transform {
    let mut x = B2Transform::default();
    s.get_transform(&mut x, t);
    x
}
/// The separation of the two shapes along an axis, at any time of the motion.
fn separation() {
    domain_checks(false);
    let (sa, sb) = (sweep("a"), sweep("b"));
    let (t1, t) = (var_hint("t1", 0.0, 1.0), var_hint("t", 0.0, 1.0));
    let (xa1, xb1, xa, xb) = (pose(&sa, t1), pose(&sb, t1), pose(&sa, t), pose(&sb, t));
    let mut va: Vec<B2vec2> = (0..2).map(|i| vec2(&format!("a{}", i))).collect();
    let mut vb: Vec<B2vec2> = (0..2).map(|i| vec2(&format!("b{}", i))).collect();
    let mut cache = B2simplexCache::default();
    // one pair, an edge of the second shape, an edge of the first
    let kind = choose("kind", 3);
    let both = kind == 2 && flag("two corners of the second");
    let (len, u) = (pos("len"), unit("u"));
    assume(ge(len, B2_EPSILON));
    cache.count = if kind == 0 { 1 } else { 2 };
    match kind {
        0 => {
            // the two points are apart by len * u at the start
            vb[0] = back(xb1.q, sub(add(apply(xa1, va[0]), scale(len, u)), xb1.p));
        }
        1 => {
            vb[1] = add(vb[0], scale(len, u));
            cache.index_b[1] = 1;
        }
        _ => {
            va[1] = add(va[0], scale(len, u));
            cache.index_a[1] = 1;
            cache.index_b[1] = both as u8;
        }
    }
    let (pa, pb) = (proxy(&va, nonneg("ra")), proxy(&vb, nonneg("rb")));
    let mut s: f32 = var("junk");
    let f = ti::B2separationFunction::initialize(&cache, &pa, &sa, &pb, &sb, t1, &mut s);
    // the axis in the world, from the first shape to the second
    let axis = |xa: B2Transform, xb: B2Transform| match kind {
        0 => f.m_axis,
        1 => scale(-1.0, rotv(xb.q, f.m_axis)),
        _ => rotv(xa.q, f.m_axis),
    };
    ensure("axis is unit", is_unit(f.m_axis));
    match kind {
        0 => ensure("axis joins the points", eqv(f.m_axis, u)),
        _ => ensure("axis is normal to the edge", eq(dot(f.m_axis, u), 0.0)),
    }
    let n1 = axis(xa1, xb1);
    ensure("initial separation along the axis", eq(s, dot(n1, sub(apply(xb1, vb[0]), apply(xa1, va[0])))));
    ensure("initial separation is not negative", ge(s, 0.0));
    let n = axis(xa, xb);
    let (mut ia, mut ib) = (5, 5);
    let m = f.find_min_separation(&mut ia, &mut ib, t);
    let gap = |i: usize, j: usize| dot(n, sub(apply(xb, vb[j]), apply(xa, va[i])));
    let used = |i: i32, edge: bool| if edge { i == -1 } else { i >= 0 && i < 2 };
    ensure("deepest corners are named", b_of(used(ia, kind == 2) && used(ib, kind == 1)));
    let (i, j) = (ia.max(0) as usize, ib.max(0) as usize);
    ensure("deepest separation is that of the named corners", eq(m, gap(i, j)));
    ensure("separation at a time is that of the named corners", eq(f.evaluate(ia, ib, t), m));
    for i in 0..2 {
        for j in 0..2 {
            ensure("no corners are deeper", ge(gap(i, j), m));
            let (i2, j2) = (if kind == 2 { -1 } else { i as i32 }, if kind == 1 { -1 } else { j as i32 });
            ensure("separation of any corners", eq(f.evaluate(i2, j2, t), gap(i, j)));
        }
    }
}

// ---- the search for the time

#[derive(Clone, Default)]
struct Log {
    distances: i32,
    mins: i32,
    evals: i32,
    outer: i32,
    inner: i32,
    root: i32,
    t1: f32,
    t2: f32,
    last_t: f32,
    last_s: f32,
    last_min: f32,
    last_distance: f32,
    separated_at: f32,
}
thread_local! { static LOG: RefCell<Log> = RefCell::new(Log::default()); }
fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
fn input() -> B2toiinput {
    B2toiinput { proxy_a: proxy(&[vec2("a0")], nonneg("ra")), proxy_b: proxy(&[vec2("b0")], nonneg("rb")), sweep_a: sweep("a"), sweep_b: sweep("b"), t_max: pos("t_max") }
}
fn target_of(n: &B2toiinput) -> f32 {
    b2_max(B2_LINEAR_SLOP, n.proxy_a.m_radius + n.proxy_b.m_radius - 3.0 * B2_LINEAR_SLOP)
}
fn normalized(mut s: B2Sweep) -> B2Sweep {
    s.normalize();
    s
}
fn any_distance(o: &mut B2distanceOutput, c: &mut B2simplexCache, i: &B2distanceInput) {
    let k = log(|l| {
        l.distances += 1;
        l.inner = 0;
        l.distances
    });
    if k > 2 {
        // two rounds reach every kind of state
        abort_path();
    }
    let t1 = log(|l| if k == 1 { 0.0 } else { l.t2 });
    log(|l| l.t1 = t1);
    let n = input();
    ensure("distance is asked for the cores", b_of(!i.use_radii && i.proxy_a.get_vertex_count() == 1 && i.proxy_b.get_vertex_count() == 1));
    ensure("distance is asked for the two shapes", and(&[eqv(i.proxy_a.get_vertex(0), vec2("a0")), eqv(i.proxy_b.get_vertex(0), vec2("b0"))]));
    ensure("distance is asked at the time reached", and(&[same_xf(i.transform_a, pose(&normalized(n.sweep_a), t1)), same_xf(i.transform_b, pose(&normalized(n.sweep_b), t1))]));
    o.distance = nonneg(&format!("distance{}", k));
    log(|l| l.last_distance = o.distance);
    c.count = 1;
}
fn any_min(f: &ti::B2separationFunction, ia: &mut i32, ib: &mut i32, t: f32) -> f32 {
    let n = input();
    ensure("separation of the normalised motions", and(&[same_sweep(f.m_sweep_a, normalized(n.sweep_a)), same_sweep(f.m_sweep_b, normalized(n.sweep_b))]));
    let (k, inner) = log(|l| {
        l.mins += 1;
        l.inner += 1;
        l.root = 0;
        l.t2 = t;
        (l.mins, l.inner)
    });
    if inner == 1 {
        ensure("the end of the motion is looked at first", eq(t, n.t_max));
    }
    if inner > 2 {
        abort_path();
    }
    if inner > 1 {
        let (t1, end) = (log(|l| l.t1), n.t_max);
        stand_in("next time looked at lies in the motion", t, t1 + nonneg(&format!("gap{}", k)), &|v| and(&[ge(v, t1), le(v, end)]));
    }
    *ia = 100 + k;
    *ib = 200 + k;
    let s = var(&format!("min{}", k));
    if inner > 1 {
        // not above the separation of any corners at the same time
        let (lt_, ls) = log(|l| (l.last_t, l.last_s));
        assume(implies(eq(t, lt_), le(s, ls)));
    }
    log(|l| l.last_min = s);
    s
}
fn any_separation(_: &ti::B2separationFunction, ia: i32, ib: i32, t: f32) -> f32 {
    let (mins, root, t1, t2) = log(|l| (l.mins, l.root, l.t1, l.t2));
    ensure("separation of the deepest corners", b_of(ia == 100 + mins && ib == 200 + mins));
    if root == 0 {
        ensure("initial separation at the time reached", eq(t, t1));
    } else {
        ensure("root is looked for inside the bracket", and(&[ge(t, t1), le(t, t2)]));
    }
    if root > 2 {
        // one bisection and one secant step from any bracket
        abort_path();
    }
    let k = log(|l| {
        l.evals += 1;
        l.root += 1;
        l.evals
    });
    let target = target_of(&input());
    let tol = 0.25 * B2_LINEAR_SLOP;
    let s = match choose(&format!("sep{} side", k), 3) {
        0 => target + tol + nonneg(&format!("sep{} above", k)),
        1 => target - tol - nonneg(&format!("sep{} below", k)),
        _ => {
            let d = var(&format!("sep{}", k));
            assume(and(&[lt(d, tol), gt(d, -tol)]));
            target + d
        }
    };
    log(|l| {
        l.last_t = t;
        l.last_s = s;
    });
    s
}
fn impact() {
    domain_checks(false);
    if !symbolic() {
        return moved();
    }
    let n = input();
    LOG.with(|l| *l.borrow_mut() = Log::default());
    hook::set::<fn(&mut B2distanceOutput, &mut B2simplexCache, &B2distanceInput)>("b2_distance_fn", any_distance);
    hook::set::<fn(&ti::B2separationFunction, &mut i32, &mut i32, f32) -> f32>("find_min_separation", any_min);
    hook::set::<fn(&ti::B2separationFunction, i32, i32, f32) -> f32>("evaluate", any_separation);
    let mut o = B2toioutput { state: B2toioutputState::EUnknown, t: var("junk") };
    b2_time_of_impact(&mut o, &n);
    hook::clear();
    let l = log(|l| l.clone());
    let target = target_of(&n);
    let tolerance = 0.25 * B2_LINEAR_SLOP;
    ensure("time of impact lies in the motion", and(&[ge(o.t, 0.0), le(o.t, n.t_max)]));
    match o.state {
        B2toioutputState::EOverlapped => ensure("overlap is reported at time zero", and(&[eq(o.t, 0.0), le(l.last_distance, 0.0)])),
        B2toioutputState::ESeparated => ensure("separated shapes get the end of the motion", and(&[eq(o.t, n.t_max), eq(l.t2, n.t_max), gt(l.last_min, target + tolerance)])),
        B2toioutputState::ETouching => {
            ensure("touching at the time reached", eq(o.t, l.t1));
            ensure("touching shapes are at the target distance", or(&[and(&[b_of(l.inner == 0), lt(l.last_distance, target + tolerance), gt(l.last_distance, 0.0)]), and(&[eq(l.last_t, o.t), le(l.last_s, target + tolerance), ge(l.last_s, target - tolerance)])]));
        }
        B2toioutputState::EFailed => ensure("a failed search reports the time reached", eq(o.t, l.t1)),
        _ => ensure("the search ends with an answer", b_of(false)),
    }
}
fn apart(i: &B2toiinput, t: f32) -> f32 {
    let d = B2distanceInput { proxy_a: i.proxy_a.clone(), proxy_b: i.proxy_b.clone(), transform_a: pose(&i.sweep_a, t), transform_b: pose(&i.sweep_b, t), use_radii: false };
    let mut o = B2distanceOutput::default();
    b2_distance_fn(&mut o, &mut B2simplexCache::default(), &d);
    o.distance
}
/// What a whole search delivers for moving polygons.
fn moved() {
    let nb = |n: &str| -> Vec<B2vec2> { (0..1 + choose(n, 4)).map(|i| vec2(&format!("{}{}", n, i))).collect() };
    let n = B2toiinput { proxy_a: proxy(&nb("va"), nonneg("ra")), proxy_b: proxy(&nb("vb"), nonneg("rb")), sweep_a: sweep("a"), sweep_b: sweep("b"), t_max: var_hint("t_max", 0.3, 1.0) };
    let mut o = B2toioutput::default();
    b2_time_of_impact(&mut o, &n);
    let target = target_of(&n);
    ensure("time of impact lies in the motion", and(&[ge(o.t, 0.0), le(o.t, n.t_max)]));
    let slack = B2_LINEAR_SLOP;
    match o.state {
        B2toioutputState::EOverlapped => ensure("overlap is reported at time zero", eq(o.t, 0.0)),
        B2toioutputState::ESeparated => {
            ensure("separated shapes get the end of the motion", eq(o.t, n.t_max));
            ensure("separated shapes are apart at the end", gt(apart(&n, o.t), target));
        }
        B2toioutputState::ETouching => {
            let d = apart(&n, o.t);
            ensure("touching shapes are at the target distance", le(d, target + slack));
            if apart(&n, 0.0) > target + slack {
                ensure("touching shapes were apart before", ge(d, target - slack));
            }
        }
        _ => (),
    }
}

// ---- shape casts

#[derive(Clone, Default)]
struct Cast {
    calls: (usize, usize),
    closest: usize,
    seen: cd::B2simplex,
    inside: bool,
    points: Vec<(f32, B2vec2)>,
    thick: (bool, bool),
    /// this many steps are taken before the search may end
    deep: usize,
}
thread_local! { static CAST: RefCell<Cast> = RefCell::new(Cast::default()); }
fn cast_log<T>(f: impl FnOnce(&mut Cast) -> T) -> T {
    CAST.with(|c| f(&mut c.borrow_mut()))
}
/// A radius of a cast shape: thicker than the usual skin or not.
fn skin(name: &str) -> f32 {
    let thick = if symbolic() { cast_log(|c| if name == "ra" { c.thick.0 } else { c.thick.1 }) } else { true };
    if !symbolic() {
        return nonneg(name);
    }
    let r = if thick { B2_POLYGON_RADIUS + pos(name) } else { B2_POLYGON_RADIUS - nonneg(name) };
    assume(ge(r, 0.0));
    r
}
fn sigma() -> f32 {
    let (ra, rb) = (b2_max(skin("ra"), B2_POLYGON_RADIUS), b2_max(skin("rb"), B2_POLYGON_RADIUS));
    b2_max(B2_POLYGON_RADIUS, ra + rb - B2_POLYGON_RADIUS)
}
/// The closest point the search has after k steps: still too far, or near enough.
fn closest(k: usize) -> (f32, B2vec2) {
    if let Some(x) = cast_log(|c| c.points.get(k).copied()) {
        return x;
    }
    let x = new_closest(k);
    cast_log(|c| c.points.push(x));
    x
}
fn new_closest(k: usize) -> (f32, B2vec2) {
    let u = unit(&format!("u{}", k));
    if k < cast_log(|c| c.deep) {
        return (sigma() + 0.5 * B2_LINEAR_SLOP + pos(&format!("len{}", k)), u);
    }
    match choose(&format!("closest {}", k), 3) {
        0 => (sigma() + 0.5 * B2_LINEAR_SLOP + pos(&format!("len{}", k)), u),
        1 => {
            let d = pos(&format!("len{}", k));
            assume(and(&[ge(d, B2_EPSILON), le(d, sigma() + 0.5 * B2_LINEAR_SLOP)]));
            (d, u)
        }
        _ => (0.0, u),
    }
}
fn farthest(p: &B2distanceProxy, d: B2vec2) -> usize {
    let first = p.m_vertices.len() == 4;
    let k = cast_log(|c| {
        let n = if first { &mut c.calls.0 } else { &mut c.calls.1 };
        *n += 1;
        *n
    });
    if k > 1 + 2.max(cast_log(|c| c.deep)) {
        // two steps, and three from three pairs, meet every kind of state
        abort_path();
    }
    let (x, s) = if first { (xform("xa"), -1.0) } else { (xform("xb"), 1.0) };
    if k == 1 {
        ensure("first support along the translation", eqv(rotv(x.q, d), scale(s, translation())));
    } else {
        let (len, u) = closest(k - 2);
        ensure("support in the direction of the closest point", eqv(rotv(x.q, d), scale(s * len, u)));
    }
    k - 1
}
fn translation() -> B2vec2 {
    vec2("r")
}
fn any_reduction(s: &mut cd::B2simplex) {
    let o = *s;
    let k = cast_log(|c| c.closest);
    let kinds = if o.m_count == 2 { 3 } else { 5 };
    let both = o.m_count == 2 && k + 1 < cast_log(|c| c.deep);
    let kept: &[usize] = if both { &[0, 1] } else { [&[0][..], &[1][..], &[0, 1][..], &[2, 0][..], &[0, 1, 2][..]][choose(&format!("kept {}", k), kinds)] };
    for (i, j) in kept.iter().enumerate() {
        s.m_v[i] = o.m_v[*j];
        s.m_v[i].a = nonneg(&format!("weight {} {}", k, i));
    }
    s.m_count = kept.len();
    cast_log(|c| c.inside = kept.len() == 3);
}
fn any_closest(s: &cd::B2simplex) -> B2vec2 {
    let k = cast_log(|c| {
        c.closest += 1;
        c.seen = *s;
        c.closest
    });
    let (len, u) = closest(k);
    scale(len, u)
}
fn cast_of(deep: usize) {
    domain_checks(false);
    if !symbolic() {
        return cast_along();
    }
    let (xa, xb) = (xform("xa"), xform("xb"));
    let mut wa: Vec<B2vec2> = vec![];
    let mut wb: Vec<B2vec2> = (0..5).map(|i| vec2(&format!("b{}", i))).collect();
    let u: Vec<B2vec2> = (0..4).map(|i| unit(&format!("u{}", i))).collect();
    // first pair apart by the first closest point, then along and across each direction
    cast_log(|c| *c = Cast { deep, thick: (deep > 0 || flag("first is thick"), deep > 0 || flag("second is thick")), ..Default::default() });
    let (len0, _) = closest(0);
    wa.push(add(wb[0], scale(len0, u[0])));
    for k in 0..3 {
        wa.push(add(wb[k + 1], framed(u[k], &format!("p{}", k))));
    }
    let r = translation();
    let to = |x: B2Transform, w: &[B2vec2]| w.iter().map(|w| back(x.q, sub(*w, x.p))).collect::<Vec<_>>();
    let (ra, rb) = (skin("ra"), skin("rb"));
    let n = B2shapeCastInput { proxy_a: proxy(&to(xa, &wa), ra), proxy_b: proxy(&to(xb, &wb), rb), transform_a: xa, transform_b: xb, translation_b: r };
    hook::set::<fn(&B2distanceProxy, B2vec2) -> usize>("get_support", farthest);
    hook::set::<fn(&mut cd::B2simplex)>("b2_simplex_solve2", any_reduction);
    hook::set::<fn(&mut cd::B2simplex)>("b2_simplex_solve3", any_reduction);
    hook::set::<fn(&cd::B2simplex) -> B2vec2>("get_closest_point", any_closest);
    let mut o = B2shapeCastOutput::default();
    o.lambda = var("junk");
    let hit = b2_shape_cast(&mut o, n);
    hook::clear();
    let c = cast_log(|c| c.clone());
    let steps = c.calls.0 - 1;
    if deep == 0 {
        ensure("cast fraction is between zero and one", and(&[ge(o.lambda, 0.0), le(o.lambda, 1.0)]));
    }
    // along one of the directions tried, the shapes are still apart just before the fraction
    let apart = |m: f32| {
        or(&(0..steps).map(|k| {
            // by the contract of the support function no two corners are closer along u_k than pair k + 1
            gt(dot(u[k], sub(wa[k + 1], wb[k + 1])) - m * dot(u[k], r), sigma())
        }).collect::<Vec<_>>())
    };
    let m = var("m");
    if hit {
        let (len, _) = closest(c.closest);
        ensure("a hit takes at least one step", b_of(steps >= 1));
        ensure("a hit means the shapes are near at the fraction", le(len, sigma() + 0.5 * B2_LINEAR_SLOP));
        if len > 0.0 {
            ensure("normal of the hit", eqv(o.normal, scale(-1.0, u[c.closest])));
        }
        let mut p = zero2();
        for k in 0..c.seen.m_count {
            p = add(p, scale(if c.seen.m_count == 1 { 1.0 } else { c.seen.m_v[k].a }, wa[c.seen.m_v[k].index_b]));
        }
        ensure("hit point lies on the skin of the first shape", eqv(o.point, add(p, scale(b2_max(ra, B2_POLYGON_RADIUS), o.normal))));
        for k in 0..c.seen.m_count {
            let v = c.seen.m_v[k];
            ensure("pairs of the search are places at the fraction", eqv(v.w, sub(sub(wa[v.index_b], wb[v.index_a]), scale(o.lambda, r))));
        }
        ensure("the shapes are apart before the fraction", implies(and(&[ge(m, 0.0), lt(m, o.lambda)]), apart(m)));
    } else {
        ensure("no hit leaves the whole motion", eq(o.lambda, 1.0));
        if !(c.inside || steps == 0) {
            ensure("no hit means the shapes stay apart", implies(and(&[ge(m, 0.0), le(m, 1.0)]), apart(m)));
        }
    }
}
/// What a whole cast delivers for polygons.
fn cast_along() {
    let nb = |n: &str| -> Vec<B2vec2> { (0..1 + choose(n, 4)).map(|i| vec2(&format!("{}{}", n, i))).collect() };
    let (ra, rb) = (nonneg("ra"), nonneg("rb"));
    let (pa, pb) = (proxy(&nb("a"), ra), proxy(&nb("b"), rb));
    let (xa, xb) = (xform("xa"), xform("xb"));
    let r = scale(3.0, translation());
    let mut o = B2shapeCastOutput::default();
    let hit = b2_shape_cast(&mut o, B2shapeCastInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: xa, transform_b: xb, translation_b: r });
    ensure("cast fraction is between zero and one", and(&[ge(o.lambda, 0.0), le(o.lambda, 1.0)]));
    let gap = |m: f32| {
        let mut x = xb;
        x.p = add(x.p, scale(m, r));
        let mut d = B2distanceOutput::default();
        b2_distance_fn(&mut d, &mut B2simplexCache::default(), &B2distanceInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: xa, transform_b: x, use_radii: false });
        d.distance
    };
    let s = sigma();
    let slack = B2_LINEAR_SLOP;
    if hit {
        ensure("normal of the hit", is_unit(o.normal));
        let mut d = B2distanceOutput::default();
        b2_distance_fn(&mut d, &mut B2simplexCache::default(), &B2distanceInput { proxy_a: pa.clone(), proxy_b: proxy(&[o.point], 0.0), transform_a: xa, transform_b: B2Transform { p: zero2(), q: B2Rot { s: 0.0, c: 1.0 } }, use_radii: false });
        if o.iterations < 20 {
            ensure("hit point lies on the skin of the first shape", le(d.distance, b2_max(ra, B2_POLYGON_RADIUS) + slack));
        }
        if o.iterations < 20 {
            ensure("a hit means the shapes are near at the fraction", le(gap(o.lambda), s + slack));
        }
        for k in 0..if o.lambda > 0.01 { 8 } else { 0 } {
            ensure("the shapes are apart before the fraction", ge(gap(o.lambda * 0.124 * k as f32), s - slack));
        }
    } else if gap(0.0) > s + slack {
        for k in 0..9 {
            ensure("no hit means the shapes stay apart", ge(gap(0.125 * k as f32), s - slack));
        }
    }
}
fn cast() {
    cast_of(0);
}
fn cast_deep() {
    cast_of(3);
}
contracts! { selection_bodies, separation, impact, cast, cast_deep, }
