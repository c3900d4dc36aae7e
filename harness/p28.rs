mod audit;
mod common;
mod phys;
use audit::*;
use box2d_rs::b2_time_of_impact::*;
use common::selection_bodies;

/// What the callees of the continuous phase were asked for, and when.
#[derive(Default)]
struct Log {
    toi: Vec<(usize, usize, B2Sweep, B2Sweep, f32, bool, f32)>,
    seen: Vec<(usize, Seen, Seen)>,
    solved: Vec<Solved>,
    moved: Vec<i32>,
    boxes: Vec<B2AABB>,
}
/// Where a contact was examined: the pose used, and angle of the body at that time.
#[derive(Clone, Copy)]
struct Seen {
    xf: B2Transform,
    angle: f32,
}
struct Solved {
    bodies: Vec<usize>,
    snaps: Vec<Snap>,
    contacts: Vec<usize>,
    ends: (i32, i32),
    step: B2timeStep,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
    static FIXED: RefCell<Option<f32>> = RefCell::new(None);
}
fn log<T>(f: impl FnOnce(&mut Log) -> T) -> T {
    LOG.with(|l| f(&mut l.borrow_mut()))
}
/// Time of impact (P12): touching at some time within the motion, or one of the other answers.
fn impact(o: &mut B2toioutput, i: &B2toiinput) {
    let k = |r: f32| (1..9usize).find(|k| r == *k as f32).unwrap_or(0);
    let (a, b) = (k(i.proxy_a.m_radius), k(i.proxy_b.m_radius));
    let point = |n: usize, v: &Vec<B2vec2>| if v.len() == 1 { eqv(v[0], vec2(&format!("f{}.centre", n))) } else { b_of(false) };
    ensure("impact is sought between the two shapes", and(&[point(a, &i.proxy_a.m_vertices), point(b, &i.proxy_b.m_vertices)]));
    ensure("over the rest of the step", eq(i.t_max, 1.0));
    let n = log(|l| l.toi.len());
    let fixed = FIXED.with(|f| *f.borrow());
    let (hit, t) = match fixed {
        Some(t) => (true, t),
        None => {
            let s = choose(&format!("impact {}", n), 4);
            o.state = [B2toioutputState::ETouching, B2toioutputState::ESeparated, B2toioutputState::EOverlapped, B2toioutputState::EFailed][s].clone();
            let t = var_hint(&format!("t{}", n), 0.0, 1.0);
            assume(and(&[ge(t, 0.0), le(t, 1.0)]));
            (s == 0, t)
        }
    };
    if hit {
        o.state = B2toioutputState::ETouching;
    }
    o.t = t;
    log(|l| l.toi.push((a, b, i.sweep_a, i.sweep_b, i.sweep_a.alpha0, hit, t)));
}
/// The sub-step (P20, P14, P13): new motion for the bodies that can move.
fn solve(island: &mut B2island<D>, step: &B2timeStep, a: i32, b: i32) {
    let s = Solved { bodies: island.m_bodies.iter().map(addr).collect(), snaps: island.m_bodies.iter().map(|b| snap(&b.borrow())).collect(), contacts: island.m_contacts.iter().map(addr).collect(), ends: (a, b), step: *step };
    for (i, b) in island.m_bodies.iter().enumerate() {
        let mut b = b.borrow_mut();
        if b.m_type != B2bodyType::B2StaticBody {
            let n = format!("after{}.{}", log(|l| l.solved.len()), i);
            b.m_sweep.c = vec2(&n);
            b.m_linear_velocity = vec2(&format!("{}.v", n));
            b.synchronize_transform();
        }
    }
    log(|l| l.solved.push(s));
}
type Tree = B2dynamicTree<FixtureProxyPtr<D>>;
fn shift(_: &mut Tree, id: i32, b: B2AABB, _: B2vec2) -> bool {
    log(|l| {
        l.moved.push(id);
        l.boxes.push(b);
    });
    true
}
/// A contact whose narrow phase gives as many points as wanted and says where it looked.
struct Probe {
    base: B2contact<D>,
    id: usize,
    result: B2manifold,
}
impl B2contactDynTrait<D> for Probe {
    fn get_base<'a>(&'a self) -> &'a B2contact<D> {
        &self.base
    }
    fn get_base_mut<'a>(&'a mut self) -> &'a mut B2contact<D> {
        &mut self.base
    }
    fn evaluate(&self, m: &mut B2manifold, a: &B2Transform, b: &B2Transform) {
        let at = |x: &B2Transform, f: &FixturePtr<D>| Seen { xf: *x, angle: f.borrow().get_body().borrow().m_sweep.a };
        let (a, b) = (at(a, &self.base.m_fixture_a), at(b, &self.base.m_fixture_b));
        log(|l| l.seen.push((self.id, a, b)));
        *m = self.result;
    }
}
/// Disables the contacts it is told to.
#[derive(Default)]
struct Veto(Vec<usize>);
impl B2contactListener<D> for Veto {
    fn begin_contact(&mut self, _: &mut dyn B2contactDynTrait<D>) {}
    fn end_contact(&mut self, _: &mut dyn B2contactDynTrait<D>) {}
    fn pre_solve(&mut self, c: &mut dyn B2contactDynTrait<D>, _: &B2manifold) {
        let k = addr(&c.get_base().m_fixture_a) ^ addr(&c.get_base().m_fixture_b);
        if self.0.contains(&k) {
            c.get_base_mut().set_enabled(false);
        }
    }
    fn post_solve(&mut self, _: &mut dyn B2contactDynTrait<D>, _: &B2contactImpulse) {}
}
fn scene() -> World {
    LOG.with(|l| *l.borrow_mut() = Log::default());
    FIXED.with(|l| *l.borrow_mut() = None);
    hook::set::<fn(&mut Tree, i32)>("insert_leaf", |_, _| ());
    hook::set::<fn(&mut Tree, i32)>("remove_leaf", |_, _| ());
    hook::set::<fn(&mut Tree, i32, B2AABB, B2vec2) -> bool>("move_proxy", shift);
    hook::set::<fn(&mut B2toioutput, &B2toiinput)>("b2_time_of_impact", impact);
    hook::set::<fn(&mut B2island<D>, &B2timeStep, i32, i32)>("solve_toi", solve);
    world()
}
struct Part {
    b: Body,
    f: FixturePtr<D>,
    k: usize,
}
/// A body with one round fixture, somewhere in its motion.
fn part(w: &World, k: usize, ty: B2bodyType, bullet: bool, awake: bool) -> Part {
    let b = body_of(w, &format!("b{}", k), ty);
    if b.borrow().is_fixed_rotation() {
        abort_path();
    }
    let mut fd = B2fixtureDef::default();
    fd.shape = Some(Rc::new(RefCell::new(circle(vec2(&format!("f{}.centre", k)), k as f32))));
    let f = B2body::create_fixture(b.clone(), &fd);
    let mut m = b.borrow_mut();
    m.m_flags.set(BodyFlags::E_BULLET_FLAG, bullet);
    m.m_flags.set(BodyFlags::E_AWAKE_FLAG, awake && ty != B2bodyType::B2StaticBody);
    drop(m);
    Part { b, f, k }
}
/// Replaces the contacts of the world, in their order, by ones with the given number of points.
fn probe(w: &World, points: &[usize]) -> Vec<ContactPtr<D>> {
    let m = manager(w);
    let old = contacts(w);
    let mut new = vec![];
    for (i, c) in old.iter().enumerate() {
        let c = c.borrow();
        let g = c.get_base();
        let mut man = B2manifold::default();
        man.point_count = points[i];
        let mut base = B2contact::new(g.get_fixture_a(), 0, g.get_fixture_b(), 0);
        base.m_node_a = g.m_node_a.clone();
        base.m_node_b = g.m_node_b.clone();
        let p: ContactPtr<D> = Rc::new(RefCell::new(Probe { base, id: i, result: man }));
        for n in [&g.m_node_a, &g.m_node_b] {
            n.as_ref().unwrap().borrow_mut().contact = Rc::downgrade(&p);
        }
        new.push(p);
    }
    let mut m = m.borrow_mut();
    m.m_contact_list.clear();
    for p in new.iter().rev() {
        m.m_contact_list.push_front(p.clone());
    }
    new
}
fn has(c: &ContactPtr<D>, f: ContactFlags) -> bool {
    c.borrow().get_base().m_flags.contains(f)
}
fn set(c: &ContactPtr<D>, f: ContactFlags, on: bool) {
    c.borrow_mut().get_base_mut().m_flags.set(f, on);
}
/// Part of the motion of a sweep that lies after the given time.
fn rest(s: &B2Sweep, t: f32) -> B2Sweep {
    let k = (t - s.alpha0) / (1.0 - s.alpha0);
    let mut r = *s;
    r.c0 = along(s.c0, s.c, k);
    r.a0 = s.a0 + k * (s.a - s.a0);
    r.alpha0 = t;
    r
}
fn same_place(x: &Seen, s: &B2Sweep, t: f32) -> B {
    let r = rest(s, t);
    and(&[eqv(apply(x.xf, s.local_center), r.c0), eq(x.angle, r.a0), eq(x.xf.q.s, x.angle.sin()), eq(x.xf.q.c, x.angle.cos())])
}
/// The motion is that of before: same end, and same start or a later one on the way.
fn same_motion(s: &Snap, t: &Snap, alpha: f32) -> B {
    let r = rest(&s.sweep, alpha);
    and(&[same_xf(s.xf, t.xf), same_vel(s, t), same_sweep(r, t.sweep)])
}
fn at_event(s: &Snap, t: &Snap, alpha: f32) -> B {
    let r = rest(&s.sweep, alpha);
    and(&[eqv(t.sweep.c, r.c0), eq(t.sweep.a, r.a0), eqv(t.sweep.c0, r.c0), eq(t.sweep.a0, r.a0), eq(t.sweep.alpha0, alpha), eqv(t.sweep.local_center, s.sweep.local_center), eqv(apply(t.xf, t.sweep.local_center), t.sweep.c), eq(t.xf.q.s, t.sweep.a.sin()), eq(t.xf.q.c, t.sweep.a.cos()), same_vel(s, t)])
}
fn kind(n: &str) -> (B2bodyType, bool) {
    [(B2bodyType::B2StaticBody, false), (B2bodyType::B2KinematicBody, false), (B2bodyType::B2DynamicBody, false), (B2bodyType::B2DynamicBody, true)][choose(n, 4)]
}
fn whole(n: i32) -> B2timeStep {
    let dt = pos("dt");
    B2timeStep { dt, inv_dt: 1.0 / dt, dt_ratio: nonneg("dt_ratio"), velocity_iterations: n, position_iterations: 3, warm_starting: true }
}
fn sub_step(s: &Solved, whole: &B2timeStep, alpha: f32) {
    ensure("the rest of the step is simulated", and(&[eq(s.step.dt, (1.0 - alpha) * whole.dt), eq(s.step.inv_dt * s.step.dt, 1.0), eq(s.step.dt_ratio, 1.0)]));
    ensure("without stored impulses, with the passes asked for", b_of(!s.step.warm_starting && s.step.velocity_iterations == whole.velocity_iterations && s.step.position_iterations > 0));
}
fn clean(w: &World) {
    let none = bodies(w).iter().all(|b| !b.borrow().m_flags.contains(BodyFlags::E_ISLAND_FLAG)) && contacts(w).iter().all(|c| !has(c, ContactFlags::E_ISLAND_FLAG));
    ensure("no marks are left", b_of(none));
    ensure("moved shapes are looked at for new contacts", b_of(phase(w).borrow().m_move_count == 0));
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}
fn proxies(p: &[&Part]) -> Vec<usize> {
    sorted(p.iter().filter(|p| p.b.borrow().m_type == B2bodyType::B2DynamicBody).map(|p| p.f.borrow().m_proxies[0].borrow().proxy_id as usize).collect())
}
fn moved() -> Vec<usize> {
    sorted(log(|l| l.moved.iter().map(|x| *x as usize).collect()))
}
/// One contact: which pairs are watched, and what an impact does.
fn one_pair() {
    let w = scene();
    let (ka, kb) = (kind("first"), kind("second"));
    if ka.0 != B2bodyType::B2DynamicBody && kb.0 != B2bodyType::B2DynamicBody {
        abort_path();
    }
    let sleep = choose("asleep", 4);
    let (x, y) = (part(&w, 1, ka.0, ka.1, sleep & 1 == 0), part(&w, 2, kb.0, kb.1, sleep & 2 == 0));
    meet(&w, &x.f, &y.f);
    let odd = choose("special", 6);
    let n = if odd == 5 { 0 } else { 1 };
    let c = probe(&w, &[n])[0].clone();
    x.f.borrow_mut().m_is_sensor = odd == 1;
    y.f.borrow_mut().m_is_sensor = odd == 2;
    let fresh = flag("new step");
    let st = whole(2);
    let mut cached = None;
    let count = if odd == 3 { 9 } else { choose("events so far", 2) * 8 };
    {
        let mut c = c.borrow_mut();
        let g = c.get_base_mut();
        g.set_enabled(odd != 0);
        g.m_toi_count = count as i32;
        // leftovers of the step before
        if fresh {
            g.m_toi = var_hint("old toi", 0.0, 1.0);
            g.m_flags.set(ContactFlags::E_TOI_FLAG, flag("old result"));
        }
    }
    let vetoed = odd == 4;
    if vetoed {
        w.borrow_mut().set_contact_listener(Rc::new(RefCell::new(Veto(vec![addr(&x.f) ^ addr(&y.f)]))));
    }
    for (p, n) in [(&x, "alpha x"), (&y, "alpha y")] {
        let a = var_hint(n, 0.0, 0.9);
        assume(and(&[ge(a, 0.0), lt(a, 1.0)]));
        p.b.borrow_mut().m_sweep.alpha0 = a;
    }
    let active = |p: &Part| p.b.borrow().is_awake() && p.b.borrow().m_type != B2bodyType::B2StaticBody;
    let solid = |k: (B2bodyType, bool)| k.1 || k.0 != B2bodyType::B2DynamicBody;
    let watched = odd != 0 && odd != 1 && odd != 2 && (fresh || count <= 8) && (active(&x) || active(&y)) && (solid(ka) || solid(kb));
    let (mut sx, mut sy) = (snap(&x.b.borrow()), snap(&y.b.borrow()));
    if fresh {
        sx.sweep.alpha0 = 0.0;
        sy.sweep.alpha0 = 0.0;
    } else if watched && flag("known") {
        // an impact found before lies ahead of both
        let t = var_hint("known toi", 0.0, 1.0);
        assume(and(&[ge(t, sx.sweep.alpha0), ge(t, sy.sweep.alpha0), le(t, 1.0)]));
        c.borrow_mut().get_base_mut().m_toi = t;
        set(&c, ContactFlags::E_TOI_FLAG, true);
        cached = Some(t);
    }
    {
        let mut w = w.borrow_mut();
        w.m_step_complete = fresh;
        w.m_sub_stepping = true;
        w.m_new_contacts = false;
        w.solve_toi(st);
    }
    let asked = log(|l| l.toi.len());
    let (tx, ty) = (snap(&x.b.borrow()), snap(&y.b.borrow()));
    let done = w.borrow().m_step_complete;
    let ran = log(|l| l.solved.len());
    if !watched {
        ensure("pairs that are not watched are left alone", and(&[b_of(asked == 0 && ran == 0 && log(|l| l.seen.len()) == 0 && done), same_motion(&sx, &tx, sx.sweep.alpha0), same_motion(&sy, &ty, sy.sweep.alpha0)]));
        return;
    }
    let first = if sx.sweep.alpha0 < sy.sweep.alpha0 { sy.sweep.alpha0 } else { sx.sweep.alpha0 };
    // where both motions stand when the impact is known
    let (from_x, from_y, alpha) = match cached {
        Some(t) => {
            ensure("a known impact is not sought again", b_of(asked == 0));
            (sx.sweep.alpha0, sy.sweep.alpha0, t)
        }
        None => {
            ensure("the impact is sought once", b_of(asked == 1));
            if asked != 1 {
                return;
            }
            let (a, b, ma, mb, _, hit, t) = log(|l| l.toi[0]);
            ensure("between the two bodies", b_of((a, b) == (1, 2)));
            ensure("over their motion from the later start", and(&[same_sweep(ma, rest(&sx.sweep, first)), same_sweep(mb, rest(&sy.sweep, first))]));
            (first, first, if hit { first + (1.0 - first) * t } else { 1.0 })
        }
    };
    let base = if fresh { 0 } else { count as i32 };
    // an impact at the very end is none
    if !(alpha < 1.0) || alpha > 1.0 - 10.0 * B2_EPSILON {
        ensure("without impact the motion stays", and(&[b_of(done && ran == 0), same_motion(&sx, &tx, from_x), same_motion(&sy, &ty, from_y)]));
        return;
    }
    let seen = log(|l| l.seen.clone());
    ensure("the shapes are examined at the impact", b_of(seen.len() == 1));
    if seen.len() != 1 {
        return;
    }
    ensure("first body where it is at the impact", same_place(&seen[0].1, &sx.sweep, alpha));
    ensure("second body where it is at the impact", same_place(&seen[0].2, &sy.sweep, alpha));
    ensure("impacts are counted", b_of(c.borrow().get_base().m_toi_count == base + 1));
    if n == 0 || vetoed {
        ensure("an impact without touch changes no motion", and(&[b_of(done && ran == 0), same_motion(&sx, &tx, from_x), same_motion(&sy, &ty, from_y)]));
        ensure("and is not tried again", b_of(!c.borrow().get_base().is_enabled()));
        ensure("marks", b_of(!has(&c, ContactFlags::E_ISLAND_FLAG)));
        return;
    }
    ensure("the impact is solved", b_of(ran == 1 && !done));
    if ran != 1 {
        return;
    }
    log(|l| {
        let s = &l.solved[0];
        ensure("for the two bodies and their contact", b_of(s.contacts == vec![addr(&c)] && sorted(s.bodies.clone()) == sorted(vec![addr(&x.b), addr(&y.b)])));
        ensure("which are told apart", b_of([s.ends.0, s.ends.1].iter().all(|i| *i >= 0 && (*i as usize) < s.bodies.len()) && s.bodies[s.ends.0 as usize] == addr(&x.b) && s.bodies[s.ends.1 as usize] == addr(&y.b)));
        for (p, q) in s.bodies.iter().zip(&s.snaps) {
            let o = if *p == addr(&x.b) { &sx } else { &sy };
            ensure("a body is stopped where it is at the impact", at_event(o, q, alpha));
            ensure("a body that is hit wakes up", b_of(o.ty == B2bodyType::B2StaticBody || q.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0));
        }
        sub_step(s, &st, alpha);
    });
    ensure("the impact is sought anew next time", b_of(!has(&c, ContactFlags::E_TOI_FLAG)));
    ensure("the broad phase follows the bodies", b_of(moved() == proxies(&[&x, &y])));
    clean(&w);
}
/// Two pairs: the earlier impact comes first and the other pair waits.
fn earliest() {
    let w = scene();
    let ty = B2bodyType::B2StaticBody;
    let x = part(&w, 1, B2bodyType::B2DynamicBody, false, true);
    let y = part(&w, 2, ty, false, true);
    let z = part(&w, 3, ty, false, true);
    let shared = flag("same body");
    let u = part(&w, 4, B2bodyType::B2DynamicBody, false, true);
    let o = if shared { &x } else { &u };
    meet(&w, &x.f, &y.f);
    meet(&w, &z.f, &o.f);
    let c = probe(&w, &[1, 1]);
    let st = whole(1);
    {
        let mut w = w.borrow_mut();
        w.m_sub_stepping = true;
        w.m_new_contacts = false;
        w.solve_toi(st);
    }
    let toi = log(|l| l.toi.clone());
    ensure("each impact is sought once", b_of(toi.len() == 2));
    if toi.len() != 2 {
        return;
    }
    let time = |a: usize| toi.iter().find(|t| t.0 == a || t.1 == a).map_or(1.0, |t| if t.5 { t.6 } else { 1.0 });
    let (tx, tz) = (time(2), time(3));
    let late = 1.0 - 10.0 * B2_EPSILON;
    let ran = log(|l| l.solved.len());
    if tx > late && tz > late {
        ensure("nothing happens without impact", b_of(ran == 0 && w.borrow().m_step_complete));
        return;
    }
    ensure("one impact is solved", b_of(ran == 1 && !w.borrow().m_step_complete));
    if ran != 1 {
        return;
    }
    log(|l| {
        let s = &l.solved[0];
        let ends = [s.bodies[s.ends.0 as usize], s.bodies[s.ends.1 as usize]];
        let pick_x = ends.contains(&addr(&y.b));
        let (t, other) = if pick_x { (tx, tz) } else { (tz, tx) };
        ensure("the earliest impact is solved first", le(t, other));
        let b = if pick_x { vec![addr(&x.b), addr(&y.b)] } else { vec![addr(&o.b), addr(&z.b)] };
        sub_step(s, &st, t);
        // the other pair may join only through a shared body
        let two = s.bodies.len() == 2;
        ensure("only bodies of this impact take part", b_of(b.iter().all(|x| ends.contains(x)) && (two || (shared && s.bodies.len() == 3))));
        ensure("only contacts of this impact take part", b_of(s.contacts.len() == s.bodies.len() - 1));
    });
    clean(&w);
    // what stays known is later than what has happened
    for k in &c {
        if has(k, ContactFlags::E_TOI_FLAG) {
            let g = k.borrow();
            let g = g.get_base();
            ensure("known impacts lie ahead", and(&[ge(g.m_toi, tx.min(tz)), b_of(!shared)]));
        }
    }
    let _ = u.k;
}
/// Other contacts of the two bodies at an impact.
fn neighbours() {
    let w = scene();
    let ka = flag("bullet");
    let x = part(&w, 1, B2bodyType::B2DynamicBody, ka, true);
    let y = part(&w, 2, if flag("second is a bullet") { B2bodyType::B2DynamicBody } else { B2bodyType::B2StaticBody }, true, true);
    let kz = kind("third");
    let z = part(&w, 3, kz.0, kz.1, flag("third awake"));
    // the third touches the first or the second
    let on_x = flag("touches the first");
    let (host, host_bullet, host_moves) = if on_x { (&x, ka, true) } else { (&y, true, y.b.borrow().m_type == B2bodyType::B2DynamicBody) };
    if !host_moves && kz.0 != B2bodyType::B2DynamicBody {
        abort_path();
    }
    if flag("order") {
        meet(&w, &host.f, &z.f);
    } else {
        meet(&w, &z.f, &host.f);
    }
    meet(&w, &x.f, &y.f);
    let odd = choose("special", 4);
    let n = if odd == 3 { 0 } else { 1 };
    let cs = probe(&w, &[1, n]);
    let (c, d) = (cs[0].clone(), cs[1].clone());
    if odd == 1 {
        z.f.borrow_mut().m_is_sensor = true;
    }
    if odd == 2 {
        w.borrow_mut().set_contact_listener(Rc::new(RefCell::new(Veto(vec![addr(&host.f) ^ addr(&z.f)]))));
    }
    let t = var_hint("t", 0.1, 0.9);
    assume(and(&[ge(t, 0.0), le(t, 1.0 - 10.0 * B2_EPSILON)]));
    let later = var_hint("later", 0.9, 1.0);
    assume(and(&[gt(later, t), le(later, 1.0)]));
    for (p, a) in [(&c, t), (&d, later)] {
        p.borrow_mut().get_base_mut().m_toi = a;
        set(p, ContactFlags::E_TOI_FLAG, true);
    }
    for (p, n) in [(&x, "alpha x"), (&y, "alpha y"), (&z, "alpha z")] {
        let a = var_hint(n, 0.0, 0.1);
        assume(and(&[ge(a, 0.0), le(a, t)]));
        p.b.borrow_mut().m_sweep.alpha0 = a;
    }
    let st = whole(1);
    let s0: Vec<Snap> = [&x, &y, &z].iter().map(|p| snap(&p.b.borrow())).collect();
    {
        let mut w = w.borrow_mut();
        w.m_step_complete = false;
        w.m_sub_stepping = true;
        w.m_new_contacts = false;
        w.solve_toi(st);
    }
    let joins = host_moves && (kz.0 != B2bodyType::B2DynamicBody || host_bullet || kz.1) && odd == 0;
    let ran = log(|l| l.solved.len());
    ensure("the impact is solved", b_of(ran == 1));
    if ran != 1 {
        return;
    }
    let mut parts = vec![&x, &y];
    if joins {
        parts.push(&z);
    }
    log(|l| {
        let s = &l.solved[0];
        ensure("the third body takes part exactly when it is touched and may be", b_of(sorted(s.bodies.clone()) == sorted(parts.iter().map(|p| addr(&p.b)).collect())));
        let want = if joins { vec![addr(&c), addr(&d)] } else { vec![addr(&c)] };
        ensure("and so does its contact", b_of(sorted(s.contacts.clone()) == sorted(want)));
        for (p, q) in s.bodies.iter().zip(&s.snaps) {
            let k = parts.iter().position(|x| addr(&x.b) == *p).unwrap();
            ensure("bodies are where they are at the impact", at_event(&s0[k], q, t));
            ensure("bodies that take part are awake", b_of(q.ty == B2bodyType::B2StaticBody || q.flags & BodyFlags::E_AWAKE_FLAG.bits() != 0));
        }
        ensure("the pair in question is told apart", b_of(s.bodies[s.ends.0 as usize] == addr(&x.b) && s.bodies[s.ends.1 as usize] == addr(&y.b)));
        for e in &l.seen {
            if e.0 == 1 {
                let third_first = Rc::ptr_eq(&d.borrow().get_base().m_fixture_a, &z.f);
                let (a, b) = if third_first { (&e.2, &e.1) } else { (&e.1, &e.2) };
                ensure("neighbours are examined at the impact", and(&[same_place(a, &s0[if on_x { 0 } else { 1 }].sweep, t), same_place(b, &s0[2].sweep, t)]));
            }
        }
    });
    if !joins {
        let tz = snap(&z.b.borrow());
        ensure("a body that takes no part keeps its motion", same_motion(&s0[2], &tz, s0[2].sweep.alpha0));
    }
    ensure("impacts of bodies that moved are sought anew", b_of(!has(&c, ContactFlags::E_TOI_FLAG) && (!(host_moves || (joins && kz.0 == B2bodyType::B2DynamicBody)) || !has(&d, ContactFlags::E_TOI_FLAG))));
    ensure("other known impacts stay known", b_of(host_moves || has(&d, ContactFlags::E_TOI_FLAG)));
    ensure("the broad phase follows the bodies", b_of(moved() == proxies(&parts)));
    clean(&w);
}
/// Two contacts of the same two bodies.
fn twice() {
    let w = scene();
    let x = part(&w, 1, B2bodyType::B2DynamicBody, false, true);
    let y = part(&w, 2, [B2bodyType::B2StaticBody, B2bodyType::B2KinematicBody][choose("second", 2)], false, true);
    let mut fd = B2fixtureDef::default();
    fd.shape = Some(Rc::new(RefCell::new(circle(vec2("f3.centre"), 3.0))));
    let g = B2body::create_fixture(y.b.clone(), &fd);
    meet(&w, &x.f, &g);
    meet(&w, &x.f, &y.f);
    let n = choose("points", 2);
    let cs = probe(&w, &[1, n]);
    let t = var_hint("t", 0.1, 0.9);
    assume(and(&[ge(t, 0.0), le(t, 1.0 - 10.0 * B2_EPSILON)]));
    for (c, a) in [(&cs[0], t), (&cs[1], 1.0)] {
        c.borrow_mut().get_base_mut().m_toi = a;
        set(c, ContactFlags::E_TOI_FLAG, true);
    }
    let s0: Vec<Snap> = [&x, &y].iter().map(|p| snap(&p.b.borrow())).collect();
    {
        let mut w = w.borrow_mut();
        w.m_step_complete = false;
        w.m_sub_stepping = true;
        w.m_new_contacts = false;
        w.solve_toi(whole(1));
    }
    log(|l| {
        ensure("the impact is solved", b_of(l.solved.len() == 1));
        if l.solved.len() != 1 {
            return;
        }
        let s = &l.solved[0];
        ensure("each body takes part once", b_of(sorted(s.bodies.clone()) == sorted(vec![addr(&x.b), addr(&y.b)])));
        ensure("with each touching contact", b_of(s.contacts.len() == 1 + n));
        for (p, q) in s.bodies.iter().zip(&s.snaps) {
            let k = (*p == addr(&y.b)) as usize;
            ensure("bodies are where they are at the impact", at_event(&s0[k], q, t));
        }
    });
    clean(&w);
}
/// Without sub-stepping all impacts of the step are dealt with, and their number is bounded.
fn to_the_end() {
    let w = scene();
    let x = part(&w, 1, B2bodyType::B2DynamicBody, false, true);
    let y = part(&w, 2, B2bodyType::B2StaticBody, false, true);
    meet(&w, &x.f, &y.f);
    let c = probe(&w, &[1])[0].clone();
    FIXED.with(|f| *f.borrow_mut() = Some(0.25));
    w.borrow_mut().m_sub_stepping = false;
    w.borrow_mut().m_new_contacts = false;
    w.borrow_mut().solve_toi(whole(1));
    ensure("the step is complete", b_of(w.borrow().m_step_complete));
    log(|l| {
        let n = l.solved.len();
        ensure("impacts per step are bounded", b_of(n > 1 && n as i32 <= B2_MAX_SUB_STEPS as i32 + 1 && c.borrow().get_base().m_toi_count == n as i32));
        let mut left = 1.0;
        for s in &l.solved {
            left = left * 0.75;
            ensure("each impact leaves the rest of the step", eq(s.step.dt, left * pos("dt")));
        }
    });
    clean(&w);
}
/// The box of a moving shape covers where it starts and where it ends.
fn swept_box() {
    let w = scene();
    let awake = flag("awake");
    let p = part(&w, 1, [B2bodyType::B2DynamicBody, B2bodyType::B2KinematicBody][choose("type", 2)], false, awake);
    p.b.borrow_mut().synchronize_fixtures_by_world(&w.borrow());
    let b = log(|l| l.boxes.clone());
    let id = p.f.borrow().m_proxies[0].borrow().proxy_id;
    ensure("the proxy of the shape is moved", b_of(log(|l| l.moved.clone()) == vec![id]));
    if b.len() != 1 {
        return;
    }
    let s = snap(&p.b.borrow()).sweep;
    let at = |a: f32, c: B2vec2| add(c, rotv(B2Rot { s: a.sin(), c: a.cos() }, sub(vec2("f1.centre"), s.local_center)));
    let covers = |m: B2vec2| and(&[le(b[0].lower_bound.x, m.x - 1.0), le(b[0].lower_bound.y, m.y - 1.0), ge(b[0].upper_bound.x, m.x + 1.0), ge(b[0].upper_bound.y, m.y + 1.0)]);
    ensure("the end is covered", covers(at(s.a, s.c)));
    if awake {
        ensure("the start is covered", covers(at(s.a0, s.c0)));
    }
    let kept = p.f.borrow().m_proxies[0].borrow().aabb;
    ensure("the shape's box is that box", and(&[eqv(kept.lower_bound, b[0].lower_bound), eqv(kept.upper_bound, b[0].upper_bound)]));
}
/// A step that has been interrupted is resumed, not begun again; continuous collision can be switched off.
fn resumed() {
    let w = scene();
    let x = part(&w, 1, B2bodyType::B2DynamicBody, false, true);
    let y = part(&w, 2, B2bodyType::B2StaticBody, false, true);
    meet(&w, &x.f, &y.f);
    let c = probe(&w, &[1])[0].clone();
    let on = flag("continuous");
    w.borrow_mut().set_continuous_physics(on);
    w.borrow_mut().set_sub_stepping(true);
    w.borrow_mut().m_step_complete = false;
    w.borrow_mut().m_new_contacts = false;
    // no proxies overlap test here: the contact is kept by a sleeping pair
    let t = var_hint("t", 0.1, 0.9);
    assume(and(&[ge(t, 0.0), le(t, 1.0 - 10.0 * B2_EPSILON)]));
    c.borrow_mut().get_base_mut().m_toi = t;
    set(&c, ContactFlags::E_TOI_FLAG, true);
    x.b.borrow_mut().m_flags.set(BodyFlags::E_AWAKE_FLAG, false);
    let s = snap(&x.b.borrow());
    let none = flag("no time");
    let h = if none { 0.0 } else { pos("dt") };
    w.borrow_mut().step(h, 1, 1);
    let ran = log(|l| l.solved.len());
    let e = snap(&x.b.borrow());
    if on && !none {
        ensure("the rest of the step goes on", b_of(ran == 1));
        log(|l| {
            if let Some(d) = l.solved.get(0) {
                let k = d.bodies.iter().position(|b| *b == addr(&x.b)).unwrap();
                ensure("from where it was", at_event(&s, &d.snaps[k], t));
                ensure("for the rest", eq(d.step.dt, (1.0 - t) * h));
            }
        });
    } else {
        ensure("nothing moves", and(&[b_of(ran == 0), same_motion(&s, &e, s.sweep.alpha0)]));
    }
    ensure("the state is kept", b_of(!w.borrow().m_step_complete));
}
contracts! { one_pair, earliest, neighbours, twice, to_the_end, swept_box, resumed, selection_bodies }
