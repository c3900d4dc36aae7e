//! Whether two shapes overlap, by the contract of the distance query.
use crate::phys::*;
use box2d_rs::b2_distance::*;

fn any_distance(o: &mut B2distanceOutput, c: &mut B2simplexCache, i: &B2distanceInput) {
    let d = nonneg("distance");
    o.distance = d;
    ensure("overlap test asks about the skins, from scratch", b_of(i.use_radii && c.count == 0));
    ensure("overlap test asks about the two shapes in their poses", and(&[
        same_xf(i.transform_a, xform("xa")), same_xf(i.transform_b, xform("xb")),
        b_of(i.proxy_a.get_vertex_count() == 1 && i.proxy_b.get_vertex_count() == 2),
        eqv(i.proxy_a.get_vertex(0), vec2("a")), eq(i.proxy_a.m_radius, nonneg("ra")),
        eqv(i.proxy_b.get_vertex(0), vec2("b1")), eqv(i.proxy_b.get_vertex(1), vec2("b2")),
    ]));
}
pub fn overlap() {
    let a: Rc<dyn B2shapeDynTrait> = Rc::new(circle(vec2("a"), nonneg("ra")));
    let mut s = B2chainShape::default();
    s.m_vertices = vec![vec2("b0"), vec2("b1"), vec2("b2")];
    s.base.m_radius = nonneg("rb");
    let b: Rc<dyn B2shapeDynTrait> = Rc::new(s);
    let (xa, xb) = (xform("xa"), xform("xb"));
    if symbolic() {
        hook::set::<fn(&mut B2distanceOutput, &mut B2simplexCache, &B2distanceInput)>("b2_distance_fn", any_distance);
        let r = b2_test_overlap_shapes(a, 0, b, 1, xa, xb);
        hook::clear();
        let d = nonneg("distance");
        ensure("shapes at a distance do not overlap", implies(b_of(r), lt(d, 0.0001)));
        ensure("shapes at distance zero overlap", implies(eq(d, 0.0), b_of(r)));
    } else {
        let r = b2_test_overlap_shapes(a, 0, b, 1, xa, xb);
        let (p, q, c) = (apply(xb, vec2("b1")), apply(xb, vec2("b2")), apply(xa, vec2("a")));
        let e = sub(q, p);
        assume(gt(len2(e), 0.01));
        let f = (dot(sub(c, p), e) / len2(e)).max(0.0).min(1.0);
        let d = len2(sub(c, add(p, scale(f, e)))).sqrt() - nonneg("ra") - nonneg("rb");
        ensure("shapes at a distance do not overlap", implies(b_of(r), lt(d, 0.0001)));
        ensure("shapes at distance zero overlap", implies(lt(d, -0.001), b_of(r)));
    }
}
