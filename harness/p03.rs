mod common;
use box2d_rs::b2_collision::*;
use common::*;

fn any_box(n: &str) -> B2AABB {
    B2AABB { lower_bound: vec2(&format!("{}.lo", n)), upper_bound: vec2(&format!("{}.hi", n)) }
}
fn valid(b: B2AABB) -> B {
    and(&[le(b.lower_bound.x, b.upper_bound.x), le(b.lower_bound.y, b.upper_bound.y)])
}
fn valid_box(n: &str) -> B2AABB {
    let b = any_box(n);
    assume(valid(b));
    b
}
fn inside(p: B2vec2, b: B2AABB) -> B {
    and(&[le(b.lower_bound.x, p.x), le(p.x, b.upper_bound.x), le(b.lower_bound.y, p.y), le(p.y, b.upper_bound.y)])
}
fn pmax(a: f32, b: f32) -> f32 {
    sel(lt(a, b), b, a)
}
fn overlap() {
    let (a, b) = (valid_box("a"), valid_box("b"));
    let q = vec2("q");
    if b2_test_overlap(a, b) {
        let w = B2vec2 { x: pmax(a.lower_bound.x, b.lower_bound.x), y: pmax(a.lower_bound.y, b.lower_bound.y) };
        ensure("reported overlap: there is a shared point", and(&[inside(w, a), inside(w, b)]));
    } else {
        ensure("no overlap reported: no point is shared", not(and(&[inside(q, a), inside(q, b)])));
    }
}
fn union_ok(u: B2AABB, a: B2AABB, b: B2AABB) {
    let c = any_box("c");
    let q = vec2("q");
    ensure("union contains both", implies(or(&[inside(q, a), inside(q, b)]), inside(q, u)));
    let holds = |x: B2AABB, y: B2AABB| and(&[inside(y.lower_bound, x), inside(y.upper_bound, x)]);
    ensure("union is the smallest", implies(and(&[holds(c, a), holds(c, b)]), holds(c, u)));
}
fn combine() {
    let (a, b) = (valid_box("a"), valid_box("b"));
    let mut u = a;
    u.combine(b);
    union_ok(u, a, b);
}
fn combine_two() {
    let (a, b) = (valid_box("a"), valid_box("b"));
    let mut u = any_box("junk");
    u.combine_two(a, b);
    union_ok(u, a, b);
}
fn contains() {
    let (a, b) = (valid_box("a"), valid_box("b"));
    let q = vec2("q");
    if a.contains(&b) {
        ensure("contained box: all its points are inside", implies(inside(q, b), inside(q, a)));
    } else {
        ensure("not contained: some corner is outside", not(and(&[inside(b.lower_bound, a), inside(b.upper_bound, a)])));
    }
}
fn measures() {
    let a = valid_box("a");
    let (c, e) = (a.get_center(), a.get_extents());
    ensure("centre plus and minus extents are the corners", and(&[eqv(add(c, e), a.upper_bound), eqv(sub(c, e), a.lower_bound)]));
    ensure("perimeter is the sum of the sides", eq(a.get_perimeter(), 4.0 * e.x + 4.0 * e.y));
    let b = any_box("b");
    ensure("validity means ordered bounds", iff(b_of(b.is_valid()), valid(b)));
}
fn ray() {
    prune(true);
    let b = valid_box("b");
    let (p1, mut p2) = (vec2("p1"), vec2("p2"));
    // rays along an axis, and all others
    let level = [flag("along y"), flag("along x")];
    if level[0] {
        p2.x = p1.x;
    }
    if level[1] {
        p2.y = p1.y;
    }
    let m = nonneg("max_fraction");
    let d = sub(p2, p1);
    let eps = box2d_rs::b2_common::B2_EPSILON;
    for (v, l) in [(d.x, level[0]), (d.y, level[1])] {
        if !l {
            assume(or(&[ge(v, eps), le(v, -eps)]));
        }
    }
    let input = B2rayCastInput { p1, p2, max_fraction: m };
    let mut out = B2rayCastOutput { normal: vec2("on"), fraction: var("of") };
    let old = out;
    let t = var("t");
    let at = |t: f32| add(p1, scale(t, d));
    if b.ray_cast(&mut out, &input) {
        let f = out.fraction;
        let h = at(f);
        let n = out.normal;
        ensure("hit within the range", and(&[ge(f, 0.0), le(f, m)]));
        ensure("hit point lies in the box", inside(h, b));
        ensure("nothing of the box before the hit", implies(and(&[ge(t, 0.0), lt(t, f)]), not(inside(at(t), b))));
        ensure("normal is an axis unit vector", or(&[and(&[eq(n.x, 0.0), eq(n.y * n.y, 1.0)]), and(&[eq(n.y, 0.0), eq(n.x * n.x, 1.0)])]));
        let thick = and(&[lt(b.lower_bound.x, b.upper_bound.x), lt(b.lower_bound.y, b.upper_bound.y)]);
        ensure("normal faces the ray", implies(thick, lt(dot(n, d), 0.0)));
        ensure(
            "hit point lies on the side of the normal",
            and(&[
                implies(eq(n.x, 1.0), eq(h.x, b.upper_bound.x)),
                implies(eq(n.x, -1.0), eq(h.x, b.lower_bound.x)),
                implies(eq(n.y, 1.0), eq(h.y, b.upper_bound.y)),
                implies(eq(n.y, -1.0), eq(h.y, b.lower_bound.y)),
            ]),
        );
    } else {
        ensure("no hit: a ray from outside does not reach the box in range", implies(and(&[not(inside(p1, b)), ge(t, 0.0), le(t, m)]), not(inside(at(t), b))));
        ensure("no hit leaves the output alone", and(&[eqv(out.normal, old.normal), eq(out.fraction, old.fraction)]));
    }
}
contracts! { overlap, combine, combine_two, contains, measures, ray, selection_bodies }
