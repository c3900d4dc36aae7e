mod audit;
mod common;
mod phys;
use audit::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use common::selection_bodies;

/// A shape that follows only the contract of a shape: a box for each child and, for the one ray of
/// the harness, a hit or none; the point of a hit lies in the box.
#[derive(Clone)]
struct Child {
    aabb: B2AABB,
    hit: bool,
    fraction: f32,
    normal: B2vec2,
}
#[derive(Clone)]
struct Ray {
    p1: B2vec2,
    d: B2vec2,
}
#[derive(Clone)]
struct AnyShape {
    base: B2Shape,
    body: B2Transform,
    ray: Ray,
    child: Vec<Child>,
}
impl ToDerivedShape for AnyShape {
    fn as_derived(&self) -> ShapeAsDerived {
        panic!()
    }
    fn as_circle(&self) -> Option<&B2circleShape> {
        None
    }
    fn as_edge(&self) -> Option<&B2edgeShape> {
        None
    }
    fn as_polygon(&self) -> Option<&B2polygonShape> {
        None
    }
    fn as_chain(&self) -> Option<&B2chainShape> {
        None
    }
}
impl B2shapeDynTrait for AnyShape {
    fn get_base(&self) -> &B2Shape {
        &self.base
    }
    fn get_type(&self) -> B2ShapeType {
        B2ShapeType::ECircle
    }
    fn clone_box(&self) -> Box<dyn B2shapeDynTrait> {
        Box::new(self.clone())
    }
    fn clone_rc(&self) -> ShapePtr {
        Rc::new(self.clone())
    }
    fn get_child_count(&self) -> usize {
        self.child.len()
    }
    fn test_point(&self, _: B2Transform, _: B2vec2) -> bool {
        panic!()
    }
    fn ray_cast(&self, o: &mut B2rayCastOutput, i: &B2rayCastInput, xf: B2Transform, k: usize) -> bool {
        ensure("shapes are asked about the ray, where they are", and(&[eqv(i.p1, self.ray.p1), eqv(i.p2, add(self.ray.p1, self.ray.d)), same_xf(xf, self.body)]));
        let c = &self.child[k];
        if !c.hit || c.fraction > i.max_fraction {
            return false;
        }
        o.fraction = c.fraction;
        o.normal = c.normal;
        true
    }
    fn compute_aabb(&self, a: &mut B2AABB, _: B2Transform, k: usize) {
        *a = self.child[k].aabb;
    }
    fn compute_mass(&self, m: &mut B2massData, _: f32) {
        *m = B2massData::default();
    }
}
struct Scene {
    w: World,
    /// fixture, child
    all: Vec<(FixturePtr<D>, Child)>,
    _b: Vec<Body>,
}
fn point_on(r: &Ray, f: f32) -> B2vec2 {
    add(r.p1, scale(f, r.d))
}
fn within(p: B2vec2, b: B2AABB) -> B {
    and(&[le(b.lower_bound.x, p.x), le(b.lower_bound.y, p.y), le(p.x, b.upper_bound.x), le(p.y, b.upper_bound.y)])
}
fn overlap(a: B2AABB, b: B2AABB) -> B {
    and(&[le(a.lower_bound.x, b.upper_bound.x), le(a.lower_bound.y, b.upper_bound.y), le(b.lower_bound.x, a.upper_bound.x), le(b.lower_bound.y, a.upper_bound.y)])
}
fn any_overlap(a: B2AABB, b: B2AABB) -> bool {
    sel(overlap(a, b), 1.0, 0.0) > 0.5
}
/// Up to two children in all: none, one, two of one fixture, of two fixtures of a body, of two bodies.
fn scene(r: &Ray, rays: bool) -> Scene {
    let layout: &[(usize, usize)] = [&[][..], &[(0, 1)], &[(0, 2)], &[(0, 1), (0, 1)], &[(0, 1), (1, 1)]][choose("layout", 5)];
    scene_of(r, layout, |k| rays && flag(&format!("c{}.hit", k)), rays)
}
fn scene_of(r: &Ray, layout: &[(usize, usize)], is_hit: impl Fn(usize) -> bool, rays: bool) -> Scene {
    let w = world();
    let b: Vec<Body> = (0..2).map(|i| body_of(&w, &format!("b{}", i), B2bodyType::B2StaticBody)).collect();
    let mut all = vec![];
    let mut n = 0;
    for (owner, children) in layout {
        let body = b[*owner].borrow().m_xf;
        let mut child = vec![];
        for _ in 0..*children {
            let s = |x: &str| format!("c{}.{}", n, x);
            let hit = is_hit(n);
            let fraction = var_hint(&s("fraction"), 0.0, 1.0);
            assume(ge(fraction, 0.0));
            let at = if rays { point_on(r, fraction) } else { vec2(&s("at")) };
            let (l, h) = (B2vec2::new(nonneg(&s("l")), nonneg(&s("b"))), B2vec2::new(nonneg(&s("r")), nonneg(&s("t"))));
            child.push(Child { aabb: B2AABB { lower_bound: sub(at, l), upper_bound: add(at, h) }, hit, fraction, normal: unit(&s("normal")) });
            n += 1;
        }
        let mut fd = B2fixtureDef::<D>::default();
        fd.shape = Some(Rc::new(RefCell::new(AnyShape { base: B2Shape { m_type: B2ShapeType::ECircle, m_radius: 0.0 }, body, ray: r.clone(), child: child.clone() })));
        let f = B2body::create_fixture(b[*owner].clone(), &fd);
        for c in child {
            all.push((f.clone(), c));
        }
    }
    Scene { w, all, _b: b }
}
fn stored(s: &Scene, k: usize) -> B2AABB {
    let f = &s.all[k].0;
    let i = s.all[..k].iter().filter(|x| Rc::ptr_eq(&x.0, f)).count();
    let id = f.borrow().m_proxies[i].borrow().proxy_id;
    phase(&s.w).borrow().get_fat_aabb(id)
}
/// Neither the state of the body nor the role of the fixture matters to a query.
fn whoever(s: &Scene) {
    let f = &s.all[0].0;
    let b = f.borrow().get_body();
    match choose("who", 7) {
        0 => f.borrow_mut().m_is_sensor = true,
        1 => f.borrow_mut().m_filter = B2filter { category_bits: 0, mask_bits: 0, group_index: -1 },
        2 => b.borrow_mut().m_type = B2bodyType::B2KinematicBody,
        3 => b.borrow_mut().m_type = B2bodyType::B2DynamicBody,
        4 => b.borrow_mut().m_flags.insert(BodyFlags::E_BULLET_FLAG | BodyFlags::E_AWAKE_FLAG),
        5 => {
            b.borrow_mut().m_type = B2bodyType::B2DynamicBody;
            b.borrow_mut().m_flags.remove(BodyFlags::E_AWAKE_FLAG);
        }
        _ => {
            b.borrow_mut().m_type = B2bodyType::B2DynamicBody;
            b.borrow_mut().m_flags.insert(BodyFlags::E_AWAKE_FLAG);
            f.borrow_mut().m_density = 0.0;
        }
    }
}
fn areas_anyone() {
    let s = scene_of(&Ray { p1: zero2(), d: zero2() }, &[(0, 1)], |_| false, false);
    whoever(&s);
    areas_of(s);
}
fn rays_anyone() {
    let r = Ray { p1: vec2("p1"), d: B2vec2::new(pos("dx"), 0.0) };
    assume(ge(r.d.x, B2_EPSILON));
    let s = scene_of(&r, &[(0, 1)], |_| true, true);
    whoever(&s);
    cast(&r, s, 4);
}
fn areas() {
    areas_of(scene(&Ray { p1: zero2(), d: zero2() }, false));
}
fn areas_of(s: Scene) {
    let l = vec2("low");
    let area = B2AABB { lower_bound: l, upper_bound: add(l, B2vec2::new(nonneg("w"), nonneg("h"))) };
    if symbolic() {
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    let stop = choose("stop at", 3);
    let mut seen: Vec<FixturePtr<D>> = vec![];
    s.w.borrow().query_aabb(
        |f: FixturePtr<D>| {
            ensure("a query ends when told", b_of(stop == 0 || seen.len() < stop));
            seen.push(f);
            seen.len() != stop
        },
        area,
    );
    let ended = stop > 0 && seen.len() >= stop;
    let mut expect = vec![];
    for k in 0..s.all.len() {
        let inside = any_overlap(stored(&s, k), area);
        if inside {
            expect.push(addr(&s.all[k].0));
            if !ended {
                ensure("every fixture whose box overlaps the area is offered", b_of(seen.iter().any(|f| Rc::ptr_eq(f, &s.all[k].0))));
            }
        }
    }
    ensure("only fixtures whose boxes overlap are offered", b_of(seen.iter().all(|f| expect.contains(&addr(f)))));
    ensure("a fixture is offered once for each child", b_of(if ended { seen.len() == stop } else { seen.len() == expect.len() }));
}
fn rays() {
    let p1 = vec2("p1");
    let side = |s: &str| match choose(s, 3) {
        0 => 0.0,
        1 => pos(s),
        _ => -pos(s),
    };
    let d = B2vec2::new(side("dx"), side("dy"));
    let l2 = dot(d, d);
    assume(gt(l2, 0.0));
    assume(ge(l2.sqrt(), B2_EPSILON));
    lemma("rays have a length", gt(l2.sqrt(), 0.0));
    let r = Ray { p1, d };
    let s = scene(&r, true);
    cast(&r, s, 4);
}
/// Three children of which one is crossed but not hit: what was clipped stays clipped.
fn rays_passing_one() {
    let r = Ray { p1: vec2("p1"), d: B2vec2::new(pos("dx"), 0.0) };
    assume(ge(r.d.x, B2_EPSILON));
    let miss = choose("miss", 3);
    let layout: &[(usize, usize)] = [&[(0, 3)][..], &[(0, 1), (1, 2)]][choose("owners", 2)];
    let s = scene_of(&r, layout, |k| k != miss, true);
    cast(&r, s, 1);
}
fn cast(r: &Ray, s: Scene, answers: usize) {
    let (p1, d) = (r.p1, r.d);
    let l2 = dot(d, d);
    let u = scale(1.0 / l2.sqrt(), B2vec2::new(-d.y, d.x));
    let mag = |x: f32| sel(lt(x, 0.0), -x, x);
    if symbolic() {
        let bp = phase(&s.w);
        let bp = bp.borrow();
        for k in 0..s.all.len() {
            let p = point_on(r, s.all[k].1.fraction);
            let own = s.all[..k].iter().filter(|x| Rc::ptr_eq(&x.0, &s.all[k].0)).count();
            let leaf = s.all[k].0.borrow().m_proxies[own].borrow().proxy_id;
            let mut on_path = vec![leaf];
            while bp.m_tree.m_root != on_path[on_path.len() - 1] && on_path.len() < 4 {
                on_path.push(bp.m_tree.m_nodes[on_path[on_path.len() - 1] as usize].parent);
            }
            for id in on_path {
                let b = bp.m_tree.m_nodes[id as usize].aabb;
                let c = scale(0.5, add(b.lower_bound, b.upper_bound));
                let h = scale(0.5, sub(b.upper_bound, b.lower_bound));
                let (ux, uy) = (mag(u.x), mag(u.y));
                let e = sub(p, c);
                lemma("a hit lies in the boxes above it", within(p, b));
                lemma("offset of a point within a box", and(&[le(mag(e.x), h.x), le(mag(e.y), h.y)]));
                lemma("distance of a box that the ray crosses", le(mag(dot(u, e)), ux * h.x + uy * h.y));
                lemma("distance of the ray", eq(dot(u, e), dot(u, sub(p1, c))));
            }
        }
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    let mut told: Vec<usize> = vec![];
    let (mut max, mut least) = (1.0, 1.0);
    let mut ended = false;
    s.w.borrow().ray_cast(
        |f: FixturePtr<D>, point: B2vec2, normal: B2vec2, fraction: f32| {
            ensure("a ray cast ends on zero", b_of(!ended));
            // which child is it: same fixture, same fraction
            let k = (0..s.all.len()).find(|k| Rc::ptr_eq(&s.all[*k].0, &f) && !told.contains(k) && s.all[*k].1.hit && known_eq(s.all[*k].1.fraction, fraction));
            ensure("only hits of a fixture are reported, with their fraction", b_of(k.is_some()));
            let k = match k {
                Some(k) => k,
                None => return 0.0,
            };
            told.push(k);
            ensure("the reported normal is that of the hit", eqv(normal, s.all[k].1.normal));
            ensure("the reported point is on the ray at the fraction", eqv(point, point_on(r, fraction)));
            ensure("no hit beyond the clipped length is reported", le(fraction, max));
            match if answers == 1 { 2 } else { choose(&format!("answer {}", told.len()), answers) } {
                0 => -1.0,
                1 => {
                    ended = true;
                    0.0
                }
                2 => {
                    max = pos(&format!("clip {}", told.len()));
                    least = sel(lt(max, least), max, least);
                    max
                }
                _ => {
                    if symbolic() {
                        assume(gt(fraction, 0.0));
                    } else if !(fraction > 0.0) {
                        abort_path();
                    }
                    max = fraction;
                    least = sel(lt(max, least), max, least);
                    max
                }
            }
        },
        p1,
        add(p1, d),
    );
    for k in 0..s.all.len() {
        if s.all[k].1.hit && !told.contains(&k) && !ended {
            ensure("no hit within the clipped length is missed", not(le(s.all[k].1.fraction, least)));
        }
    }
}
contracts! { selection_bodies, areas, areas_anyone, rays, rays_passing_one, rays_anyone }
