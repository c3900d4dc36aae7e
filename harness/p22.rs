mod audit;
mod common;
mod overlap;
mod phys;
use audit::*;
use common::selection_bodies;
use overlap::overlap;
use std::cell::Cell;

thread_local! {
    static OVERLAP: Cell<Option<bool>> = Cell::new(None);
    static ASKED: RefCell<Option<(usize, usize, B2Transform, B2Transform)>> = RefCell::new(None);
}
fn shapes_overlap(a: ShapePtr, ia: usize, b: ShapePtr, ib: usize, xa: B2Transform, xb: B2Transform) -> bool {
    let (pa, pb, ya, yb) = ASKED.with(|o| o.borrow().unwrap());
    ensure("sensors are tested where they are", and(&[b_of((addr(&a), addr(&b), ia, ib) == (pa, pb, 0, 0)), same_xf(xa, ya), same_xf(xb, yb)]));
    OVERLAP.with(|o| o.get()).unwrap()
}
/// Whether two sensors touch: any answer.
fn sensors_touch(fa: &FixturePtr<D>, fb: &FixturePtr<D>) -> bool {
    if symbolic() {
        let t = flag("sensors overlap");
        OVERLAP.with(|o| o.set(Some(t)));
        let at = |f: &FixturePtr<D>| f.borrow().get_body().borrow().m_xf;
        ASKED.with(|o| *o.borrow_mut() = Some((addr(&fa.borrow().get_shape()), addr(&fb.borrow().get_shape()), at(fa), at(fb))));
        hook::set::<fn(ShapePtr, usize, ShapePtr, usize, B2Transform, B2Transform) -> bool>("b2_test_overlap_shapes", shapes_overlap);
        t
    } else {
        let (ba, bb) = (fa.borrow().get_body(), fb.borrow().get_body());
        let (xa, xb) = (ba.borrow().m_xf, bb.borrow().m_xf);
        b2_test_overlap_shapes(fa.borrow().get_shape(), 0, fb.borrow().get_shape(), 0, xa, xb)
    }
}
fn same_point(a: &B2manifoldPoint, b: &B2manifoldPoint) -> B {
    and(&[eqv(a.local_point, b.local_point), b_of(a.id.cf == b.id.cf)])
}
fn feature(k: usize) -> B2contactFeature {
    // differ in one place each
    [B2contactFeature { index_a: 1, index_b: 2, type_a: 0, type_b: 1 }, B2contactFeature { index_a: 3, index_b: 2, type_a: 0, type_b: 1 }, B2contactFeature { index_a: 1, index_b: 4, type_a: 0, type_b: 1 }, B2contactFeature { index_a: 1, index_b: 2, type_a: 1, type_b: 1 }, B2contactFeature { index_a: 1, index_b: 2, type_a: 0, type_b: 0 }][k]
}
fn awake(b: &Body) -> bool {
    b.borrow().is_awake()
}
fn set_awake_flag(b: &Body, on: bool) {
    b.borrow_mut().m_flags.set(BodyFlags::E_AWAKE_FLAG, on);
}
/// One update of one contact: any manifold before, any after.
fn update() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", B2bodyType::B2DynamicBody), body_of(&w, "b", [B2bodyType::B2DynamicBody, B2bodyType::B2StaticBody][choose("second body", 2)]));
    if a.borrow().is_fixed_rotation() || b.borrow().is_fixed_rotation() {
        abort_path();
    }
    let still = flag("asleep");
    for x in [&a, &b] {
        set_awake_flag(x, !still && x.borrow().m_type != B2bodyType::B2StaticBody);
    }
    let (fa, fb) = (fixture_on(&a, "fa"), fixture_on(&b, "fb"));
    let sensors = choose("sensors", 4);
    fa.borrow_mut().m_is_sensor = sensors & 1 != 0;
    fb.borrow_mut().m_is_sensor = sensors & 2 != 0;
    let (n0, n1) = (choose("points before", 3), choose("points after", 3));
    let mut old = any_manifold("old", n0, B2manifoldType::EFaceA);
    let mut new = any_manifold("new", n1, B2manifoldType::EFaceB);
    let other = if sensors == 0 && n0 * n1 > 0 { choose("other feature", 4) + 1 } else { 1 };
    old.points[0].id.cf = feature(0);
    old.points[1].id.cf = feature(other);
    // each new point continues the first, the second or no old point, not both the same
    let (k0, k1) = if sensors == 0 && n1 > 0 { [(0, 1), (1, 0), (2, 0), (0, 2), (1, 2), (2, 1), (2, 3)][choose("continued", 7)] } else { (0, 1) };
    let id = |k: usize| if k == 0 { feature(0) } else if k == 1 { feature(other) } else { feature((other + k - 2) % 4 + 1) };
    new.points[0].id.cf = id(k0);
    new.points[1].id.cf = id(k1);
    let c = any_contact(&fa, &fb, new);
    c.borrow_mut().get_base_mut().m_manifold = old;
    let was = flag("was touching");
    {
        let mut c = c.borrow_mut();
        c.get_base_mut().m_flags.set(ContactFlags::E_TOUCHING_FLAG, was);
        c.get_base_mut().m_flags.set(ContactFlags::E_ENABLED_FLAG, flag("was enabled"));
        c.get_base_mut().m_flags.set(ContactFlags::E_FILTER_FLAG, true);
    }
    let ear = Rc::new(RefCell::new(Ear::default()));
    let off = flag("listener disables");
    ear.borrow_mut().off = off;
    let heard = flag("listener");
    let listener: Option<B2contactListenerPtr<D>> = if heard { Some(ear.clone()) } else { None };
    let touch = if sensors != 0 { sensors_touch(&fa, &fb) } else { n1 > 0 };
    let (sa, sb) = (snap(&a.borrow()), snap(&b.borrow()));
    let (aa, ab) = (awake(&a), awake(&b));
    B2contact::update(&mut *c.borrow_mut(), listener);
    let g = c.borrow();
    let g = g.get_base();
    ensure("touching is what the shapes say", b_of(g.is_touching() == touch));
    let mut want = vec![];
    if heard {
        if touch && !was {
            want.push("begin");
        }
        if was && !touch {
            want.push("end");
        }
        if touch && sensors == 0 {
            want.push("pre");
        }
    }
    ensure("begin when touching starts, end when it stops, pre-solve for touching solids", b_of(ear.borrow().heard.iter().map(|x| x.0).collect::<Vec<_>>() == want));
    ensure("a contact is enabled again unless the listener disables it", b_of(g.is_enabled() == !(off && want.contains(&"pre"))));
    ensure("other flags stay", b_of(flagged(&c)));
    let m = &g.m_manifold;
    if sensors != 0 {
        ensure("sensors have no contact points", b_of(m.point_count == 0));
    } else {
        ensure("the contact points are those of the shapes", b_of(m.point_count == n1 && matches!(m.manifold_type, B2manifoldType::EFaceB)));
        ensure("the manifold is that of the shapes", and(&[eqv(m.local_normal, new.local_normal), eqv(m.local_point, new.local_point)]));
        for i in 0..n1.min(m.point_count) {
            ensure("points are those of the shapes", same_point(&m.points[i], &new.points[i]));
            let k = [k0, k1][i];
            let (p, q) = if k < n0 { (old.points[k].normal_impulse, old.points[k].tangent_impulse) } else { (0.0, 0.0) };
            ensure("a continued point keeps its impulses, a new one has none", and(&[eq(m.points[i].normal_impulse, p), eq(m.points[i].tangent_impulse, q)]));
        }
    }
    if let Some(o) = &ear.borrow().old {
        ensure("pre-solve is shown the manifold before", and(&[b_of(o.point_count == n0 && matches!(o.manifold_type, B2manifoldType::EFaceA)), eqv(o.local_normal, old.local_normal), same_point(&o.points[0], &old.points[0]), eq(o.points[0].normal_impulse, old.points[0].normal_impulse)]));
    }
    let woken = sensors == 0 && touch != was;
    ensure("solids that start or stop touching wake up", b_of(awake(&a) == (aa || woken) && awake(&b) == (ab || (woken && b.borrow().m_type == B2bodyType::B2DynamicBody))));
    let (ta, tb) = (snap(&a.borrow()), snap(&b.borrow()));
    ensure("bodies do not move", and(&[same_xf(sa.xf, ta.xf), same_xf(sb.xf, tb.xf), same_vel(&sa, &ta), same_vel(&sb, &tb), same_loads(&sa, &ta), same_loads(&sb, &tb)]));
}
/// Fixtures of four bodies with up to four contacts.
fn full_world(chain: bool) -> (World, [Body; 3], [FixturePtr<D>; 4]) {
    let w = quiet_world();
    let b = ["a", "b", "c"].map(|n| body_of(&w, n, B2bodyType::B2DynamicBody));
    for x in &b {
        if x.borrow().is_fixed_rotation() {
            abort_path();
        }
    }
    let f = [fixture_in(&b[0], "fa", 1 + chain as usize), fixture_in(&b[0], "fa2", 1), fixture_in(&b[1], "fb", 1), fixture_in(&b[2], "fc", 1)];
    (w, b, f)
}
fn mixed(c: &ContactPtr<D>, a: &FixturePtr<D>, b: &FixturePtr<D>) -> [B; 3] {
    let c = c.borrow();
    let c = c.get_base();
    let (a, b) = (a.borrow(), b.borrow());
    let f = c.get_friction();
    [and(&[ge(f, 0.0), eq(f * f, a.m_friction * b.m_friction)]), eq(c.get_restitution(), sel(gt(a.m_restitution, b.m_restitution), a.m_restitution, b.m_restitution)), eq(c.get_restitution_threshold(), sel(lt(a.m_restitution_threshold, b.m_restitution_threshold), a.m_restitution_threshold, b.m_restitution_threshold))]
}
fn creation() {
    let (w, b, f) = full_world(true);
    let hears = listen(&w);
    let pair = |i: usize, ci: usize, j: usize, swap: bool| {
        let (p, q) = (proxy(&f[i], ci), proxy(&f[j], 0));
        let m = manager(&w);
        let mut m = m.borrow_mut();
        if swap {
            m.add_pair(q, p)
        } else {
            m.add_pair(p, q)
        }
    };
    // (fixture, child, other fixture); child 1 only for the chain
    let all = [(0, 0, 2), (0, 1, 2), (1, 0, 2), (1, 0, 3), (3, 0, 2)];
    let (k, l) = (choose("first", 5), choose("second", 5));
    let (x, y) = (all[k], all[l]);
    pair(x.0, x.1, x.2, flag("swap first"));
    pair(y.0, y.1, y.2, flag("swap second"));
    let cs = contacts(&w);
    let distinct = if k == l { 1 } else { 2 };
    ensure("one contact for each pair of children", b_of(cs.len() == distinct));
    audit(&w, &[&b[0], &b[1], &b[2]], &[]);
    for c in &cs {
        let (ca, cb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
        let (ia, ib) = (c.borrow().get_base().get_child_index_a() as usize, c.borrow().get_base().get_child_index_b() as usize);
        let known = [x, y].iter().any(|p| (Rc::ptr_eq(&ca, &f[p.0]) && Rc::ptr_eq(&cb, &f[p.2]) && (ia, ib) == (p.1, 0)) || (Rc::ptr_eq(&cb, &f[p.0]) && Rc::ptr_eq(&ca, &f[p.2]) && (ib, ia) == (p.1, 0)));
        ensure("contacts are those of the pairs found", b_of(known));
        let g = c.borrow();
        let g = g.get_base();
        ensure("a new contact is enabled and not yet touching", b_of(g.is_enabled() && !g.is_touching() && !flagged(c) && g.m_manifold.point_count == 0 && g.m_toi_count == 0));
        let m = mixed(c, &ca, &cb);
        ensure("friction is the geometric mean", m[0]);
        ensure("restitution is the larger one", m[1]);
        ensure("the restitution threshold is the smaller one", m[2]);
        ensure("no belt to begin with", eq(g.m_tangent_speed, 0.0));
    }
    ensure("creating a contact is no event", b_of(hears.borrow().heard.is_empty()));
}
fn overrides() {
    let (w, _, f) = full_world(false);
    meet(&w, &f[0], &f[2]);
    let c = contacts(&w)[0].clone();
    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
    let (x, y, z, s) = (nonneg("friction"), nonneg("restitution"), nonneg("threshold"), var("belt"));
    {
        let mut c = c.borrow_mut();
        let g = c.get_base_mut();
        g.set_friction(x);
        g.set_restitution(y);
        g.set_restitution_threshold(z);
        g.set_tangent_speed(s);
        ensure("overrides stay", and(&[eq(g.get_friction(), x), eq(g.get_restitution(), y), eq(g.get_restitution_threshold(), z), eq(g.get_tangent_speed(), s)]));
    }
    c.borrow_mut().get_base_mut().reset_friction();
    ensure("resetting friction leaves the rest", and(&[eq(c.borrow().get_base().get_restitution(), y), eq(c.borrow().get_base().get_restitution_threshold(), z)]));
    c.borrow_mut().get_base_mut().reset_restitution();
    ensure("resetting restitution leaves the threshold", eq(c.borrow().get_base().get_restitution_threshold(), z));
    c.borrow_mut().get_base_mut().reset_restitution_threshold();
    let m = mixed(&c, &fa, &fb);
    ensure("a reset friction is the geometric mean", m[0]);
    ensure("a reset restitution is the larger one", m[1]);
    ensure("a reset restitution threshold is the smaller one", m[2]);
}
/// Changing a fixture is not noticed by its contacts until they are reset; a sensor made solid or the other way round wakes its body.
fn materials() {
    let (w, bs, f) = full_world(false);
    meet(&w, &f[0], &f[2]);
    let c = contacts(&w)[0].clone();
    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
    let now = |c: &ContactPtr<D>| {
        let c = c.borrow();
        let g = c.get_base();
        (g.get_friction(), g.get_restitution(), g.get_restitution_threshold())
    };
    let of = |f: &FixturePtr<D>| {
        let f = f.borrow();
        (f.get_friction(), f.get_restitution(), f.get_restitution_threshold(), f.get_density(), f.is_sensor())
    };
    let (first, other) = (now(&c), of(&fb));
    let density = of(&fa).3;
    let (x, y, z) = (nonneg("friction"), nonneg("restitution"), nonneg("threshold"));
    let sensor = flag("was a sensor");
    let mine = fa.borrow().get_body();
    for (k, b) in bs.iter().enumerate() {
        set_awake_flag(b, flag(&format!("body{} awake", k)));
    }
    let were: Vec<bool> = bs.iter().map(awake).collect();
    fa.borrow_mut().m_is_sensor = sensor;
    fa.borrow_mut().set_friction(x);
    fa.borrow_mut().set_restitution(y);
    fa.borrow_mut().set_restitution_threshold(z);
    let will = flag("becomes a sensor");
    ensure("setting materials wakes nobody", b_of(bs.iter().map(awake).collect::<Vec<_>>() == were));
    fa.borrow_mut().set_sensor(will);
    let m = of(&fa);
    ensure("fixture settings read back", and(&[eq(m.0, x), eq(m.1, y), eq(m.2, z), eq(m.3, density), b_of(m.4 == will)]));
    let n = of(&fb);
    ensure("other fixtures keep theirs", and(&[eq(n.0, other.0), eq(n.1, other.1), eq(n.2, other.2), eq(n.3, other.3), b_of(n.4 == other.4)]));
    let l = now(&c);
    ensure("contacts that exist keep their mix", and(&[eq(l.0, first.0), eq(l.1, first.1), eq(l.2, first.2)]));
    for (b, was) in bs.iter().zip(&were) {
        let woken = sensor != will && Rc::ptr_eq(b, &mine) && b.borrow().get_type() != B2bodyType::B2StaticBody;
        ensure("only becoming or ceasing to be a sensor wakes, and only the body itself", b_of(awake(b) == (*was || woken)));
    }
    c.borrow_mut().get_base_mut().reset_friction();
    c.borrow_mut().get_base_mut().reset_restitution();
    c.borrow_mut().get_base_mut().reset_restitution_threshold();
    let v = mixed(&c, &fa, &fb);
    ensure("a reset takes the new values", and(&v));
}
/// The contact points of a contact in the world are those of its manifold in the present poses of its bodies.
fn in_the_world() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", B2bodyType::B2DynamicBody), body_of(&w, "b", B2bodyType::B2DynamicBody));
    let (fa, fb) = (fixture_on(&a, "x"), fixture_on(&b, "y"));
    let (points, mt) = (choose("points", 3), manifold_type("manifold"));
    if matches!(mt, B2manifoldType::ECircles) && points == 2 {
        abort_path();
    }
    let m = any_manifold("m", points, mt);
    let c = any_contact(&fa, &fb, m);
    let mut got = B2worldManifold::default();
    let mut want = B2worldManifold::default();
    c.borrow().get_base().get_world_manifold(&mut got);
    let (ra, rb) = (fa.borrow().get_shape().get_base().m_radius, fb.borrow().get_shape().get_base().m_radius);
    want.initialize(&m, a.borrow().m_xf, ra, b.borrow().m_xf, rb);
    ensure("the normal of a contact is that of its manifold", eqv(got.normal, want.normal));
    for i in 0..points {
        ensure("the points of a contact are those of its manifold", and(&[eqv(got.points[i], want.points[i]), eq(got.separations[i], want.separations[i])]));
    }
    let read = *c.borrow().get_base().get_manifold();
    ensure("the manifold of a contact can be read", and(&[b_of(read.point_count == points), eqv(read.local_normal, m.local_normal), eqv(read.local_point, m.local_point)]));
}
fn destruction() {
    let (w, b, f) = full_world(false);
    let ends = [(0, 2), (1, 2), (3, 0)];
    for (i, j) in ends {
        meet(&w, &f[i], &f[j]);
    }
    let touch: Vec<bool> = (0..3).map(|i| flag(&format!("touching {}", i))).collect();
    for c in contacts(&w) {
        let k = (0..3).find(|k| between(&c, &f[ends[*k].0], &f[ends[*k].1])).unwrap();
        c.borrow_mut().get_base_mut().m_flags.set(ContactFlags::E_TOUCHING_FLAG, touch[k]);
    }
    // sensors end like any other
    if touch == [true, true, true] && flag("sensors") {
        f[0].borrow_mut().m_is_sensor = true;
        f[2].borrow_mut().m_is_sensor = true;
    }
    let listener = flag("listener");
    let ear = if listener { listen(&w) } else { manager(&w).borrow_mut().m_contact_listener = None; Rc::new(RefCell::new(Ear::default())) };
    let k = choose("which", 3);
    let gone = |l: &[usize]| {
        let cs = contacts(&w);
        let left = (0..3).filter(|i| cs.iter().any(|c| between(c, &f[ends[*i].0], &f[ends[*i].1]))).collect::<Vec<_>>();
        ensure("exactly the contacts concerned are gone", b_of(cs.len() == 3 - l.len() && left.iter().all(|i| !l.contains(i))));
        let h = ear.borrow().heard.clone();
        let want = l.iter().filter(|i| touch[**i] && listener).count();
        ensure("contacts that touched end", b_of(h.len() == want && h.iter().all(|e| e.0 == "end")));
    };
    match choose("by", 4) {
        0 => {
            let c = contacts(&w).into_iter().find(|c| between(c, &f[ends[k].0], &f[ends[k].1])).unwrap();
            manager(&w).borrow_mut().destroy(c);
            gone(&[k]);
            audit(&w, &[&b[0], &b[1], &b[2]], &[]);
        }
        1 => {
            let i = choose("fixture", 4);
            let owner = f[i].borrow().get_body();
            B2body::destroy_fixture(owner, f[i].clone());
            gone(&(0..3).filter(|k| ends[*k].0 == i || ends[*k].1 == i).collect::<Vec<_>>());
            audit(&w, &[&b[0], &b[1], &b[2]], &[]);
        }
        2 => {
            B2body::set_enabled(b[k].clone(), false);
            gone([&[0, 1, 2][..], &[0, 1], &[2]][k]);
            audit(&w, &[&b[0], &b[1], &b[2]], &[]);
        }
        _ => {
            w.borrow_mut().destroy_body(b[k].clone());
            gone([&[0, 1, 2][..], &[0, 1], &[2]][k]);
            let rest: Vec<&Body> = (0..3).filter(|i| *i != k).map(|i| &b[i]).collect();
            audit(&w, &rest, &[]);
        }
    }
}
thread_local! { static BOXES: RefCell<Vec<bool>> = RefCell::new(vec![]); }
/// The whole narrow phase of a step for two contacts.
fn narrow_phase() {
    let w = quiet_world();
    let b = [body_of(&w, "a", body_type("a")), body_of(&w, "b", body_type("b")), body_of(&w, "c", B2bodyType::B2DynamicBody)];
    if (0..2).all(|i| b[i].borrow().m_type != B2bodyType::B2DynamicBody) || b.iter().any(|x| x.borrow().is_fixed_rotation()) {
        abort_path();
    }
    let f = [fixture_in(&b[0], "fa", 1), fixture_in(&b[1], "fb", 1), fixture_in(&b[2], "fc", 1)];
    meet(&w, &f[0], &f[1]);
    let ear = listen(&w);
    let up: Vec<bool> = (0..2).map(|i| flag(&format!("awake {}", i))).collect();
    for i in 0..2 {
        set_awake_flag(&b[i], up[i] && b[i].borrow().m_type != B2bodyType::B2StaticBody);
    }
    let was = flag("was touching");
    let c = contacts(&w)[0].clone();
    c.borrow_mut().get_base_mut().m_flags.set(ContactFlags::E_TOUCHING_FLAG, was);
    let active = (0..2).any(|i| awake(&b[i]));
    let (c, apart, touch) = if symbolic() {
        let n = choose("points", 2);
        let o = any_contact(&f[0], &f[1], any_manifold("m", n, B2manifoldType::ECircles));
        swap_in(&w, &c, &o);
        let apart = flag("boxes apart");
        BOXES.with(|b| *b.borrow_mut() = vec![!apart]);
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", |_, _| BOXES.with(|b| b.borrow()[0]));
        (o, apart, n > 0)
    } else {
        let (pa, pb) = (f[0].borrow().m_proxies[0].borrow().proxy_id, f[1].borrow().m_proxies[0].borrow().proxy_id);
        let apart = !phase(&w).borrow().test_overlap(pa, pb);
        let mut m = B2manifold::default();
        let (xa, xb) = (b[0].borrow().m_xf, b[1].borrow().m_xf);
        // the contact may have swapped the fixtures
        let first = Rc::ptr_eq(&c.borrow().get_base().get_fixture_a(), &f[0]);
        if first {
            c.borrow().evaluate(&mut m, &xa, &xb);
        } else {
            c.borrow().evaluate(&mut m, &xb, &xa);
        }
        (c, apart, m.point_count > 0)
    };
    B2contactManager::collide(manager(&w));
    let kept = contacts(&w).len() == 1;
    ensure("an active contact is dropped exactly when the boxes part", b_of(kept == !(active && apart)));
    let want = if !active {
        vec![]
    } else if apart {
        if was { vec!["end"] } else { vec![] }
    } else {
        match (was, touch) {
            (false, true) => vec!["begin", "pre"],
            (true, true) => vec!["pre"],
            (true, false) => vec!["end"],
            _ => vec![],
        }
    };
    ensure("events of one narrow phase", b_of(ear.borrow().heard.iter().map(|e| e.0).collect::<Vec<_>>() == want));
    if kept {
        ensure("touching after the narrow phase", b_of(c.borrow().get_base().is_touching() == if active { touch } else { was }));
    }
    if !symbolic() {
        audit(&w, &[&b[0], &b[1], &b[2]], &[]);
    }
}
/// Only touching, enabled contacts between solids take part in the solution of a step.
fn pushing() {
    domain_checks(false);
    let w = B2world::<D>::new(zero2());
    let (a, b) = (body_of(&w, "a", B2bodyType::B2DynamicBody), body_of(&w, "b", B2bodyType::B2DynamicBody));
    for x in [&a, &b] {
        let mut m = x.borrow_mut();
        if m.m_flags.contains(BodyFlags::E_FIXED_ROTATION_FLAG) {
            abort_path();
        }
        m.m_flags.remove(BodyFlags::E_AUTO_SLEEP_FLAG);
        m.m_force = zero2();
        m.m_torque = 0.0;
        m.m_linear_damping = 0.0;
        m.m_angular_damping = 0.0;
        m.m_linear_velocity = zero2();
        m.m_angular_velocity = 0.0;
    }
    let sleeps = flag("second asleep");
    set_awake_flag(&b, !sleeps);
    let (fa, fb) = (fixture_on(&a, "fa"), fixture_on(&b, "fb"));
    let sensors = choose("sensors", 4);
    fa.borrow_mut().m_is_sensor = sensors & 1 != 0;
    fb.borrow_mut().m_is_sensor = sensors & 2 != 0;
    let (touch, on) = (flag("touching"), flag("enabled"));
    // no corrections: the pushes themselves are P13 and P14
    let mut m = any_manifold("m", 1, B2manifoldType::EFaceA);
    m.points[0].normal_impulse = pos("impulse");
    let c = any_contact(&fa, &fb, m);
    {
        let mut c = c.borrow_mut();
        c.get_base_mut().m_flags.set(ContactFlags::E_TOUCHING_FLAG, touch);
        c.get_base_mut().m_flags.set(ContactFlags::E_ENABLED_FLAG, on);
    }
    let edge = |o: &Body| Rc::new(RefCell::new(B2contactEdge { contact: Rc::downgrade(&c), other: Rc::downgrade(o), prev: None, next: None }));
    let (ea, eb) = (edge(&b), edge(&a));
    c.borrow_mut().get_base_mut().m_node_a = Some(ea.clone());
    c.borrow_mut().get_base_mut().m_node_b = Some(eb.clone());
    a.borrow_mut().m_contact_list.push_front(ea);
    b.borrow_mut().m_contact_list.push_front(eb);
    manager(&w).borrow_mut().m_contact_list.push_front(c.clone());
    manager(&w).borrow_mut().m_contact_count += 1;
    let ear = listen(&w);
    let h = pos("dt");
    let step = B2timeStep { dt: h, inv_dt: 1.0 / h, dt_ratio: 1.0, velocity_iterations: 0, position_iterations: 0, warm_starting: true };
    let acts = touch && on && sensors == 0;
    w.borrow_mut().solve(step);
    ensure("exactly acting contacts are solved", b_of(ear.borrow().heard.iter().map(|e| e.0).collect::<Vec<_>>() == if acts { vec!["post"] } else { vec![] }));
    ensure("an acting contact wakes the other body", b_of(awake(&b) == (!sleeps || acts)));
    if !acts {
        let (ta, tb) = (snap(&a.borrow()), snap(&b.borrow()));
        ensure("other contacts do not push", and(&[eqv(ta.v, zero2()), eqv(tb.v, zero2()), eq(ta.w, 0.0), eq(tb.w, 0.0)]));
    }
}
/// Post-solve: every contact of the island once, with the impulses of its own points.
#[derive(Default)]
struct After(Vec<(usize, i32, [f32; 2], [f32; 2])>);
impl B2contactListener<D> for After {
    fn begin_contact(&mut self, _: &mut dyn B2contactDynTrait<D>) {}
    fn end_contact(&mut self, _: &mut dyn B2contactDynTrait<D>) {}
    fn pre_solve(&mut self, _: &mut dyn B2contactDynTrait<D>, _: &B2manifold) {}
    fn post_solve(&mut self, c: &mut dyn B2contactDynTrait<D>, i: &B2contactImpulse) {
        self.0.push((addr(&c.get_base().m_fixture_a), i.count, i.normal_impulses, i.tangent_impulses));
    }
}
fn told_after() {
    let w = quiet_world();
    let b: Vec<Body> = (0..3).map(|i| body_of(&w, &format!("b{}", i), B2bodyType::B2KinematicBody)).collect();
    let f: Vec<FixturePtr<D>> = (0..3).map(|i| fixture_on(&b[i], &format!("f{}", i))).collect();
    let n = [1 + choose("points", 2), 1 + choose("more points", 2)];
    let ear = Rc::new(RefCell::new(After::default()));
    let mut island = B2island::<D>::new(3, 2, 0, if flag("listener") { Some(ear.clone()) } else { None });
    let heard = island.m_listener.is_some();
    let mut cons = vec![];
    for k in 0..2 {
        let c = any_contact(&f[k], &f[k + 1], any_manifold(&format!("m{}", k), n[k], B2manifoldType::EFaceA));
        island.add_contact(c);
        let mut v = B2contactVelocityConstraint::default();
        v.point_count = n[k] as i32;
        v.contact_index = k as i32;
        for j in 0..n[k] {
            v.points[j].normal_impulse = nonneg(&format!("normal {} {}", k, j));
            v.points[j].tangent_impulse = var(&format!("tangent {} {}", k, j));
        }
        cons.push(v);
    }
    island.report(&cons);
    let e = ear.borrow();
    ensure("each solved contact is reported once", b_of(e.0.iter().map(|x| x.0).collect::<Vec<_>>() == if heard { vec![addr(&f[0]), addr(&f[1])] } else { vec![] }));
    for (k, x) in e.0.iter().enumerate() {
        ensure("with its points", b_of(x.1 == n[k] as i32));
        for j in 0..n[k] {
            ensure("with its impulses", and(&[eq(x.2[j], nonneg(&format!("normal {} {}", k, j))), eq(x.3[j], var(&format!("tangent {} {}", k, j)))]));
        }
    }
}
contracts! { materials, in_the_world, told_after, selection_bodies, update, creation, overrides, destruction, narrow_phase, pushing, overlap }
