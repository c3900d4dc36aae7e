mod audit;
mod common;
mod phys;
use audit::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use common::selection_bodies;

/// What the world ought to contain.
struct Model {
    w: World,
    b: Vec<Body>,
    f: Vec<Vec<FixturePtr<D>>>,
    j: Vec<(B2jointPtr<D>, usize, usize)>,
    c: Vec<(FixturePtr<D>, FixturePtr<D>)>,
    bye: Rc<RefCell<Bye>>,
    spare: usize,
}
#[derive(Default)]
struct Bye {
    joints: Vec<usize>,
    fixtures: Vec<usize>,
}
impl B2destructionListener<D> for Bye {
    fn say_goodbye_joint(&mut self, j: B2jointPtr<D>) {
        self.joints.push(addr(&j));
    }
    fn say_goodbye_fixture(&mut self, f: FixturePtr<D>) {
        self.fixtures.push(addr(&f));
    }
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
impl Model {
    fn new() -> Model {
        let w = quiet_world();
        let bye = Rc::new(RefCell::new(Bye::default()));
        w.borrow_mut().set_destruction_listener(bye.clone());
        let mut m = Model { w, b: vec![], f: vec![], j: vec![], c: vec![], bye, spare: 0 };
        // three bodies: two fixtures (one of two parts), one fixture, none
        for _ in 0..3 {
            m.add_body();
        }
        m.add_fixture(0, 1);
        m.add_fixture(0, 2);
        m.add_fixture(1, 1);
        m.meet((0, 0), (1, 0));
        m.meet((0, 1), (1, 0));
        m.add_joint(0, 1, false);
        m.add_joint(1, 2, true);
        m.add_joint(1, 0, true);
        m
    }
    fn add_body(&mut self) {
        self.spare += 1;
        let b = body_of(&self.w, &format!("b{}", self.spare), B2bodyType::B2DynamicBody);
        if b.borrow().is_fixed_rotation() {
            abort_path();
        }
        self.b.push(b);
        self.f.push(vec![]);
    }
    fn add_fixture(&mut self, i: usize, parts: usize) {
        self.spare += 1;
        let f = fixture_in(&self.b[i], &format!("f{}", self.spare), parts);
        self.f[i].push(f);
    }
    fn add_joint(&mut self, i: usize, k: usize, collide: bool) {
        let j = tie(&self.w, &self.b[i], &self.b[k], collide);
        self.j.push((j, i, k));
    }
    fn meet(&mut self, x: (usize, usize), y: (usize, usize)) {
        let (fx, fy) = (self.f[x.0][x.1].clone(), self.f[y.0][y.1].clone());
        meet(&self.w, &fx, &fy);
        self.c.push((fx, fy));
    }
    fn lose(&mut self, gone: &[FixturePtr<D>]) {
        self.c.retain(|(x, y)| !gone.iter().any(|g| Rc::ptr_eq(g, x) || Rc::ptr_eq(g, y)));
    }
    fn check(&self) {
        let js: Vec<B2jointPtr<D>> = self.j.iter().map(|x| x.0.clone()).collect();
        audit(&self.w, &self.b.iter().collect::<Vec<_>>(), &js);
        for (b, want) in self.b.iter().zip(&self.f) {
            let got = fixtures(b);
            ensure("a body has exactly its fixtures", b_of(sorted(got.iter().map(addr).collect()) == sorted(want.iter().map(addr).collect())));
        }
        let cs = contacts(&self.w);
        ensure("exactly the contacts concerned are gone", b_of(cs.len() == self.c.len() && self.c.iter().all(|(x, y)| cs.iter().any(|c| between(c, x, y)))));
        for (j, i, k) in &self.j {
            let j = j.borrow();
            ensure("a joint keeps its bodies", b_of(addr(&j.get_base().m_body_a) == addr(&self.b[*i]) && addr(&j.get_base().m_body_b) == addr(&self.b[*k])));
        }
    }
    fn change(&mut self, n: &str) {
        self.bye.borrow_mut().joints.clear();
        self.bye.borrow_mut().fixtures.clear();
        let which = choose(n, 9);
        let pick = |s: &str, k: usize| choose(&format!("{} {}", n, s), k);
        let (mut gone_j, mut gone_f) = (vec![], vec![]);
        match which {
            0 => self.add_body(),
            1 => {
                let k = pick("body", self.b.len());
                self.w.borrow_mut().destroy_body(self.b[k].clone());
                gone_j = self.j.iter().filter(|j| j.1 == k || j.2 == k).map(|j| addr(&j.0)).collect();
                gone_f = self.f[k].iter().map(addr).collect();
                self.j.retain(|j| j.1 != k && j.2 != k);
                for j in self.j.iter_mut() {
                    j.1 -= (j.1 > k) as usize;
                    j.2 -= (j.2 > k) as usize;
                }
                let g = self.f.remove(k);
                self.lose(&g);
                let b = self.b.remove(k);
                ensure("a destroyed body is left with nothing", b_of(b.borrow().m_fixture_count == 0 && fixtures(&b).is_empty() && contact_edges(&b).is_empty() && joint_edges(&b).is_empty()));
            }
            2 => {
                let k = pick("body", self.b.len());
                let parts = 1 + pick("parts", 2);
                self.add_fixture(k, parts);
            }
            3 => {
                let k = pick("body", 2).min(self.b.len() - 1);
                if !self.f[k].is_empty() {
                    let i = pick("fixture", self.f[k].len());
                    let f = self.f[k].remove(i);
                    B2body::destroy_fixture(self.b[k].clone(), f.clone());
                    self.lose(&[f.clone()]);
                    ensure("a destroyed fixture belongs to no body", b_of(f.borrow().m_body.is_none() && f.borrow().m_proxy_count == 0));
                }
            }
            4 => {
                if self.b.len() > 1 {
                    let k = pick("body", self.b.len());
                    let o = (k + 1) % self.b.len();
                    self.add_joint(k, o, true);
                }
            }
            5 => {
                if !self.j.is_empty() {
                    let k = pick("joint", self.j.len());
                    let j = self.j.remove(k);
                    self.w.borrow_mut().destroy_joint(j.0);
                    ensure("the bodies of a destroyed joint wake up", b_of(self.b[j.1].borrow().is_awake() && self.b[j.2].borrow().is_awake()));
                }
            }
            6 => {
                let k = pick("body", self.b.len());
                B2body::set_enabled(self.b[k].clone(), false);
                let g = self.f[k].clone();
                self.lose(&g);
            }
            7 => {
                let k = pick("body", self.b.len());
                let off = pick("again", 2) == 0;
                if off {
                    B2body::set_enabled(self.b[k].clone(), false);
                    let g = self.f[k].clone();
                    self.lose(&g);
                }
                B2body::set_enabled(self.b[k].clone(), true);
                let b = self.b[k].borrow();
                let bp = phase(&self.w);
                let bp = bp.borrow();
                for f in &self.f[k] {
                    let f = f.borrow();
                    for i in 0..f.m_proxy_count as usize {
                        let p = f.m_proxies[i].borrow();
                        let mut want = B2AABB::default();
                        f.m_shape.as_ref().unwrap().compute_aabb(&mut want, b.m_xf, i);
                        ensure("an enabled body's boxes are where it is", and(&[eqv(p.aabb.lower_bound, want.lower_bound), eqv(p.aabb.upper_bound, want.upper_bound)]));
                        let fat = bp.get_fat_aabb(p.proxy_id);
                        ensure("the broad phase knows an enabled body's boxes", and(&[le(fat.lower_bound.x, want.lower_bound.x), le(fat.lower_bound.y, want.lower_bound.y), ge(fat.upper_bound.x, want.upper_bound.x), ge(fat.upper_bound.y, want.upper_bound.y)]));
                    }
                }
            }
            _ => {
                let k = pick("body", self.b.len());
                B2body::set_type(self.b[k].clone(), B2bodyType::B2KinematicBody);
                let g = self.f[k].clone();
                self.lose(&g);
            }
        }
        let bye = self.bye.borrow();
        ensure("the destruction listener hears of exactly the joints lost with a body", b_of(sorted(bye.joints.clone()) == sorted(gone_j)));
        ensure("the destruction listener hears of exactly the fixtures lost with a body", b_of(sorted(bye.fixtures.clone()) == sorted(gone_f)));
    }
}
fn histories() {
    let mut m = Model::new();
    m.check();
    m.change("first");
    m.check();
    m.change("second");
    m.check();
}
/// Without a listener everything goes as well; new bodies and fixtures get what their definition says.
fn unheard() {
    let mut m = Model::new();
    m.w.borrow_mut().m_destruction_listener = None;
    let k = choose("body", 3);
    m.w.borrow_mut().destroy_body(m.b[k].clone());
    let rest: Vec<Body> = (0..3).filter(|i| *i != k).map(|i| m.b[i].clone()).collect();
    m.j.retain(|j| j.1 != k && j.2 != k);
    audit(&m.w, &rest.iter().collect::<Vec<_>>(), &m.j.iter().map(|j| j.0.clone()).collect::<Vec<_>>());
}
fn fixture_data() {
    let w = quiet_world();
    let b = body_of(&w, "b", body_type("b"));
    let mut fd = B2fixtureDef::<D>::default();
    let at = vec2("at");
    fd.shape = Some(Rc::new(RefCell::new(circle(at, nonneg("radius")))));
    fd.friction = nonneg("friction");
    fd.restitution = nonneg("restitution");
    fd.restitution_threshold = nonneg("threshold");
    fd.is_sensor = flag("sensor");
    fd.user_data = Some(42);
    fd.filter = B2filter { category_bits: 2, mask_bits: 3, group_index: -4 };
    let f = B2body::create_fixture(b.clone(), &fd);
    let f = f.borrow();
    ensure("a fixture is as defined", and(&[eq(f.get_friction(), fd.friction), eq(f.get_restitution(), fd.restitution), eq(f.get_restitution_threshold(), fd.restitution_threshold), eq(f.get_density(), fd.density), b_of(f.is_sensor() == fd.is_sensor)]));
    ensure("a fixture has its user data and filter", b_of(f.get_user_data() == Some(42) && f.get_filter_data().category_bits == 2 && f.get_filter_data().mask_bits == 3 && f.get_filter_data().group_index == -4));
    let s = f.get_shape();
    ensure("a fixture copies its shape", and(&[b_of(s.get_type() == B2ShapeType::ECircle), eq(s.get_base().m_radius, nonneg("radius"))]));
    let mut box_ = B2AABB::default();
    s.compute_aabb(&mut box_, b.borrow().m_xf, 0);
    let a = f.get_aabb(0);
    ensure("a new fixture's box is where it is", and(&[eqv(a.lower_bound, box_.lower_bound), eqv(a.upper_bound, box_.upper_bound)]));
}
fn forces() {
    let w = quiet_world();
    let auto = flag("automatic");
    w.borrow_mut().set_auto_clear_forces(auto);
    ensure("the setting is kept", b_of(w.borrow().get_auto_clear_forces() == auto));
    let b: Vec<Body> = ["x", "y"].iter().map(|n| body_of(&w, n, body_type(n))).collect();
    for x in &b {
        x.borrow_mut().m_flags.remove(BodyFlags::E_AWAKE_FLAG);
    }
    let s: Vec<Snap> = b.iter().map(|x| snap(&x.borrow())).collect();
    let by_step = flag("step");
    if by_step {
        w.borrow_mut().step(nonneg("dt"), 1, 1);
        ensure("a step leaves the world unlocked", b_of(!w.borrow().is_locked()));
    } else {
        w.borrow_mut().clear_forces();
    }
    for (x, s) in b.iter().zip(&s) {
        let t = snap(&x.borrow());
        if auto || !by_step {
            ensure("forces are cleared", and(&[eqv(t.force, zero2()), eq(t.torque, 0.0)]));
        } else {
            ensure("forces persist", same_loads(s, &t));
        }
        ensure("nothing else changes", and(&[same_vel(s, &t), same_xf(s.xf, t.xf), same_mass(s, &t)]));
    }
}
fn shifting() {
    let w = quiet_world();
    let b: Vec<Body> = ["x", "y"].iter().map(|n| body_of(&w, n, body_type(n))).collect();
    if b.iter().any(|x| x.borrow().is_fixed_rotation()) {
        abort_path();
    }
    let f = fixture_in(&b[0], "f", 1 + choose("parts", 2));
    let p = vec2("shift");
    let kind = choose("joint", 3);
    let j = match kind {
        0 => tie(&w, &b[0], &b[1], true),
        1 => {
            let mut d = B2mouseJointDef::<D>::default();
            d.base.body_a = Some(b[0].clone());
            d.base.body_b = Some(b[1].clone());
            d.target = vec2("target");
            w.borrow_mut().create_joint(&B2JointDefEnum::MouseJoint(d))
        }
        _ => {
            let mut d = B2pulleyJointDef::<D>::default();
            d.base.body_a = Some(b[0].clone());
            d.base.body_b = Some(b[1].clone());
            d.ground_anchor_a = vec2("ground a");
            d.ground_anchor_b = vec2("ground b");
            d.local_anchor_a = vec2("anchor a");
            d.local_anchor_b = vec2("anchor b");
            d.length_a = pos("length a");
            d.length_b = pos("length b");
            d.ratio = pos("ratio");
            w.borrow_mut().create_joint(&B2JointDefEnum::PulleyJoint(d))
        }
    };
    let anchors = |j: &B2jointPtr<D>| (j.borrow().get_anchor_a(), j.borrow().get_anchor_b());
    let boxes = || -> Vec<B2AABB> { (0..f.borrow().m_proxy_count as usize).map(|i| phase(&w).borrow().get_fat_aabb(f.borrow().m_proxies[i].borrow().proxy_id)).collect() };
    let (s, a, q): (Vec<Snap>, _, _) = (b.iter().map(|x| snap(&x.borrow())).collect(), anchors(&j), boxes());
    w.borrow().shift_origin(p);
    for (x, s) in b.iter().zip(&s) {
        let t = snap(&x.borrow());
        ensure("every body is shifted", and(&[eqv(t.xf.p, sub(s.xf.p, p)), eqv(t.sweep.c, sub(s.sweep.c, p)), eqv(t.sweep.c0, sub(s.sweep.c0, p))]));
        ensure("nothing else of a body changes", and(&[same_vel(s, &t), same_mass(s, &t), same_loads(s, &t), eq(t.sweep.a, s.sweep.a), eq(t.sweep.a0, s.sweep.a0), eqv(t.sweep.local_center, s.sweep.local_center), eq(t.xf.q.s, s.xf.q.s), eq(t.xf.q.c, s.xf.q.c)]));
    }
    let a2 = anchors(&j);
    ensure("joint anchors are shifted", and(&[eqv(a2.0, sub(a.0, p)), eqv(a2.1, sub(a.1, p))]));
    match j.borrow().as_derived() {
        JointAsDerived::EPulleyJoint(x) => {
            ensure("ground anchors are shifted", and(&[eqv(x.get_ground_anchor_a(), sub(vec2("ground a"), p)), eqv(x.get_ground_anchor_b(), sub(vec2("ground b"), p))]));
            ensure("rope lengths stay", and(&[eq(x.get_length_a(), pos("length a")), eq(x.get_length_b(), pos("length b"))]));
        }
        JointAsDerived::EMouseJoint(x) => ensure("the target is shifted", eqv(x.get_target(), sub(vec2("target"), p))),
        _ => (),
    }
    for (x, y) in q.iter().zip(&boxes()) {
        ensure("every stored box is shifted", and(&[eqv(y.lower_bound, sub(x.lower_bound, p)), eqv(y.upper_bound, sub(x.upper_bound, p))]));
    }
}
/// Whatever brings two bodies together is noticed by the next step.
fn discovery() {
    let w = B2world::<D>::new(zero2());
    let mk = |x: f32| {
        let mut d = B2bodyDef::<D>::default();
        d.body_type = B2bodyType::B2DynamicBody;
        d.position = B2vec2::new(x, 0.0);
        B2world::create_body(w.clone(), &d)
    };
    let fix = |b: &Body| {
        let mut fd = B2fixtureDef::<D>::default();
        fd.shape = Some(Rc::new(RefCell::new(circle(zero2(), 1.0))));
        B2body::create_fixture(b.clone(), &fd)
    };
    let near = flag("near");
    let x = if near { 1.5 } else { 9.0 };
    let (a, b) = (mk(0.0), mk(x));
    let f = fix(&a);
    let mut g = None;
    let step = || w.borrow_mut().step(0.0, 1, 1);
    match choose("how", 6) {
        0 => {
            step();
            fix(&b);
        }
        1 => {
            g = Some(fix(&b));
            B2body::set_enabled(b.clone(), false);
            step();
            ensure("disabled bodies do not collide", b_of(contacts(&w).is_empty()));
            B2body::set_enabled(b.clone(), true);
        }
        2 => {
            g = Some(fix(&b));
            b.borrow_mut().set_transform(B2vec2::new(-20.0, 3.0), 0.0);
            step();
            ensure("bodies far away do not collide", b_of(contacts(&w).is_empty()));
            b.borrow_mut().set_transform(B2vec2::new(x, 0.0), 1.0);
        }
        3 => {
            g = Some(fix(&b));
            B2body::set_type(a.clone(), B2bodyType::B2StaticBody);
            B2body::set_type(b.clone(), B2bodyType::B2StaticBody);
            step();
            ensure("static bodies do not collide", b_of(contacts(&w).is_empty()));
            B2body::set_type(b.clone(), B2bodyType::B2DynamicBody);
            // a step that moves the bodies looks for pairs
            w.borrow_mut().m_new_contacts = true;
        }
        4 => {
            g = Some(fix(&b));
            f.borrow_mut().set_filter_data(B2filter { category_bits: 0, mask_bits: 0, group_index: 0 });
            step();
            ensure("filtered fixtures do not collide", b_of(contacts(&w).is_empty()));
            f.borrow_mut().set_filter_data(B2filter::default());
            w.borrow_mut().m_new_contacts = true;
        }
        _ => {
            g = Some(fix(&b));
            B2body::destroy_fixture(a.clone(), f.clone());
            step();
            ensure("destroyed fixtures do not collide", b_of(contacts(&w).is_empty()));
            fix(&a);
        }
    }
    let _ = g;
    step();
    ensure("the next step sees who is near", b_of(contacts(&w).len() == near as usize));
    audit(&w, &[&a, &b], &[]);
}
contracts! { selection_bodies, histories, unheard, fixture_data, forces, shifting, discovery }
