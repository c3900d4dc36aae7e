#![allow(dead_code)]
//! What must hold of the lists, counts and proxies of a world between any two calls.
pub use crate::phys::*;
pub use box2d_rs::b2_broad_phase::*;
pub use box2d_rs::b2_contact::*;
pub use box2d_rs::b2_dynamic_tree::*;
pub use box2d_rs::b2_world_callbacks::*;
pub use box2d_rs::b2rs_double_linked_list::*;
pub use box2d_rs::b2rs_linked_list::*;

pub fn addr<T: ?Sized>(p: &Rc<T>) -> usize {
    Rc::as_ptr(p) as *const () as usize
}
/// Elements of a doubly linked list, links in both directions checked.
pub fn linked<T: DoubleLinkedListNode<T> + ?Sized>(what: &str, l: &DoubleLinkedList<T>) -> Vec<Rc<RefCell<T>>> {
    let mut v: Vec<Rc<RefCell<T>>> = vec![];
    let mut fine = true;
    for n in l.iter() {
        let prev = n.borrow().get_prev().map(|p| p.upgrade().map(|p| addr(&p)));
        fine &= match (v.last(), prev) {
            (None, None) => true,
            (Some(l), Some(Some(p))) => addr(l) == p,
            _ => false,
        };
        let again = v.iter().any(|x| addr(x) == addr(&n));
        fine &= !again;
        if again {
            break;
        }
        v.push(n);
    }
    ensure(&format!("the list of {} is linked both ways", what), b_of(fine));
    v
}
pub fn manager(w: &World) -> B2contactManagerPtr<D> {
    w.borrow().m_contact_manager.clone()
}
pub fn phase(w: &World) -> B2broadPhasePtr<FixtureProxyPtr<D>> {
    manager(w).borrow().m_broad_phase.clone()
}
pub fn contacts(w: &World) -> Vec<ContactPtr<D>> {
    linked("contacts", &manager(w).borrow().m_contact_list)
}
pub fn bodies(w: &World) -> Vec<Body> {
    linked("bodies", &w.borrow().m_body_list)
}
pub fn joints_of(w: &World) -> Vec<B2jointPtr<D>> {
    linked("joints", &w.borrow().m_joint_list)
}
pub fn fixtures(b: &Body) -> Vec<FixturePtr<D>> {
    let mut v: Vec<FixturePtr<D>> = vec![];
    for f in b.borrow().m_fixture_list.iter() {
        let again = v.iter().any(|x| Rc::ptr_eq(x, &f));
        ensure("a fixture is listed once", b_of(!again));
        if again {
            break;
        }
        v.push(f);
    }
    v
}
pub fn contact_edges(b: &Body) -> Vec<ContactEdgePtr<D>> {
    linked("contacts of a body", &b.borrow().m_contact_list)
}
pub fn joint_edges(b: &Body) -> Vec<Rc<RefCell<B2jointEdge<D>>>> {
    linked("joints of a body", &b.borrow().m_joint_list)
}
/// Bodies, fixtures, joints and contacts of the world are exactly those given, and everything else agrees with them.
pub fn audit(w: &World, want_bodies: &[&Body], want_joints: &[B2jointPtr<D>]) {
    let bs = bodies(w);
    let (lb, lj, lc) = (w.borrow().get_body_list(), w.borrow().get_joint_list(), w.borrow().get_contact_list());
    let shown = (linked("bodies", &lb).iter().map(addr).collect::<Vec<_>>(), linked("joints", &lj).iter().map(addr).collect::<Vec<_>>(), linked("contacts", &lc).iter().map(addr).collect::<Vec<_>>());
    let kept = (bs.iter().map(addr).collect::<Vec<_>>(), joints_of(w).iter().map(addr).collect::<Vec<_>>(), contacts(w).iter().map(addr).collect::<Vec<_>>());
    ensure("the lists handed out are those of the world", b_of(shown == kept));
    let same = |a: &[usize], b: &[usize]| {
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        a.sort();
        b.sort();
        a == b
    };
    let ids: Vec<usize> = bs.iter().map(addr).collect();
    ensure("the world lists exactly its bodies", b_of(same(&ids, &want_bodies.iter().map(|b| addr(b)).collect::<Vec<_>>())));
    ensure("the world counts its bodies", b_of(w.borrow().get_body_count() as usize == bs.len()));
    let js = joints_of(w);
    ensure("the world lists exactly its joints", b_of(same(&js.iter().map(addr).collect::<Vec<_>>(), &want_joints.iter().map(addr).collect::<Vec<_>>())));
    ensure("the world counts its joints", b_of(w.borrow().get_joint_count() as usize == js.len()));
    let cs = contacts(w);
    ensure("the world counts its contacts", b_of(manager(w).borrow().m_contact_count == cs.len() && w.borrow().get_contact_count() as usize == cs.len()));
    // edges
    let (mut ce, mut je) = (0, 0);
    for b in &bs {
        for e in contact_edges(b) {
            let e = e.borrow();
            ce += 1;
            let c = e.contact.upgrade();
            let fine = match c {
                None => false,
                Some(c) => {
                    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
                    let (ba, bb) = (fa.borrow().get_body(), fb.borrow().get_body());
                    let other = e.other.upgrade().map(|o| addr(&o));
                    cs.iter().any(|x| addr(x) == addr(&c)) && ((addr(&ba) == addr(b) && other == Some(addr(&bb))) || (addr(&bb) == addr(b) && other == Some(addr(&ba))))
                }
            };
            ensure("the contacts of a body are contacts of the world with that body", b_of(fine));
        }
        for e in joint_edges(b) {
            let e = e.borrow();
            je += 1;
            let fine = match e.joint.upgrade() {
                None => false,
                Some(j) => {
                    let j2 = j.borrow();
                    let base = j2.get_base();
                    let other = e.other.upgrade().map(|o| addr(&o));
                    let (ba, bb) = (&base.m_body_a, &base.m_body_b);
                    js.iter().any(|x| addr(x) == addr(&j)) && ((addr(ba) == addr(b) && other == Some(addr(bb))) || (addr(bb) == addr(b) && other == Some(addr(ba))))
                }
            };
            ensure("the joints of a body are joints of the world with that body", b_of(fine));
        }
    }
    ensure("each contact is in the lists of its two bodies", b_of(ce == 2 * cs.len()));
    ensure("each joint is in the lists of its two bodies", b_of(je == 2 * js.len()));
    for c in &cs {
        let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
        for f in [&fa, &fb] {
            let b = f.borrow().m_body.as_ref().and_then(|b| b.upgrade());
            let fine = b.map_or(false, |b| ids.contains(&addr(&b)) && fixtures(&b).iter().any(|x| Rc::ptr_eq(x, f)) && contact_edges(&b).iter().any(|e| e.borrow().contact.upgrade().map(|x| addr(&x)) == Some(addr(c))));
            ensure("contacts are between fixtures that exist", b_of(fine));
        }
    }
    // fixtures and proxies
    let bp = phase(w);
    let bp = bp.borrow();
    let mut live = vec![];
    for b in &bs {
        let fs = fixtures(b);
        ensure("a body counts its fixtures", b_of(b.borrow().m_fixture_count as usize == fs.len()));
        for f in fs {
            let f2 = f.borrow();
            ensure("a fixture knows its body", b_of(f2.m_body.as_ref().and_then(|x| x.upgrade()).map(|x| addr(&x)) == Some(addr(b))));
            let n = f2.m_shape.as_ref().unwrap().get_child_count();
            let on = b.borrow().is_enabled();
            ensure("fixtures of enabled bodies have a proxy for each child, others none", b_of(f2.m_proxy_count as usize == if on { n } else { 0 } && f2.m_proxies.len() == n));
            for i in 0..f2.m_proxy_count as usize {
                let p = &f2.m_proxies[i];
                let id = p.borrow().proxy_id;
                let known = id >= 0 && !live.contains(&id) && bp.get_user_data(id).map_or(false, |d| Rc::ptr_eq(&d, p)) && bp.m_tree.m_nodes[id as usize].height == 0;
                ensure("each proxy is its own leaf of the broad phase", b_of(known));
                ensure("a proxy knows its fixture and child", b_of(p.borrow().child_index as usize == i && p.borrow().fixture.as_ref().and_then(|x| x.upgrade()).map(|x| addr(&x)) == Some(addr(&f))));
                live.push(id);
            }
        }
    }
    ensure("the world counts its proxies", b_of(bp.get_proxy_count() as usize == live.len() && w.borrow().get_proxy_count() as usize == live.len()));
    let leaves = bp.m_tree.m_nodes.iter().filter(|n| n.height == 0).count();
    ensure("the broad phase holds no other proxies", b_of(leaves == live.len()));
    let gone = (0..bp.m_move_count as usize).all(|i| bp.m_move_buffer[i] == E_NULL_PROXY || live.contains(&bp.m_move_buffer[i]));
    ensure("only live proxies wait for the next update", b_of(gone));
}
type Tree = B2dynamicTree<FixtureProxyPtr<D>>;
/// A world in whose tree the shape of the tree plays no part (P04 is about it): a leaf is allocated, then in no particular place.
pub fn quiet_world() -> World {
    if symbolic() {
        hook::set::<fn(&mut Tree, i32)>("insert_leaf", |_, _| ());
        hook::set::<fn(&mut Tree, i32)>("remove_leaf", |_, _| ());
    }
    world()
}
/// A circle fixture with proxies; a chain of two when `parts` is 2.
pub fn fixture_in(b: &Body, n: &str, parts: usize) -> FixturePtr<D> {
    let mut fd = B2fixtureDef::default();
    let at = vec2(&format!("{}.at", n));
    if parts == 1 {
        fd.shape = Some(Rc::new(RefCell::new(circle(at, nonneg(&format!("{}.radius", n))))));
    } else {
        let mut c = B2chainShape::default();
        c.m_vertices = vec![at, add(at, B2vec2::new(1.0, 0.0)), add(at, B2vec2::new(2.0, 0.0))];
        c.m_prev_vertex = add(at, B2vec2::new(-1.0, 0.0));
        c.m_next_vertex = add(at, B2vec2::new(3.0, 0.0));
        fd.shape = Some(Rc::new(RefCell::new(c)));
    }
    fd.friction = nonneg(&format!("{}.friction", n));
    fd.restitution = nonneg(&format!("{}.restitution", n));
    fd.restitution_threshold = nonneg(&format!("{}.threshold", n));
    B2body::create_fixture(b.clone(), &fd)
}
pub fn proxy(f: &FixturePtr<D>, i: usize) -> Option<FixtureProxyPtr<D>> {
    Some(f.borrow().m_proxies[i].clone())
}
pub fn meet(w: &World, a: &FixturePtr<D>, b: &FixturePtr<D>) {
    let m = manager(w);
    let mut m = m.borrow_mut();
    m.add_pair(proxy(a, 0), proxy(b, 0));
}
pub fn between(c: &ContactPtr<D>, a: &FixturePtr<D>, b: &FixturePtr<D>) -> bool {
    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
    (Rc::ptr_eq(&fa, a) && Rc::ptr_eq(&fb, b)) || (Rc::ptr_eq(&fa, b) && Rc::ptr_eq(&fb, a))
}
/// A real joint through the world, of the simplest kind.
pub fn tie(w: &World, a: &Body, b: &Body, collide: bool) -> B2jointPtr<D> {
    let mut d = box2d_rs::joints::b2_friction_joint::B2frictionJointDef::<D>::default();
    d.base.body_a = Some(a.clone());
    d.base.body_b = Some(b.clone());
    d.base.collide_connected = collide;
    w.borrow_mut().create_joint(&B2JointDefEnum::FrictionJoint(d))
}
pub fn flagged(c: &ContactPtr<D>) -> bool {
    c.borrow().get_base().m_flags.contains(ContactFlags::E_FILTER_FLAG)
}
/// A user filter with a fixed answer.
pub struct Answer(pub bool);
impl B2contactFilter<D> for Answer {
    fn should_collide(&self, _: FixturePtr<D>, _: FixturePtr<D>) -> bool {
        self.0
    }
}
/// Writes down what it hears: kind of event and address of the contact's first fixture.
#[derive(Default)]
pub struct Ear {
    pub heard: Vec<(&'static str, usize)>,
    pub old: Option<B2manifold>,
    pub off: bool,
}
fn who(c: &dyn B2contactDynTrait<D>) -> usize {
    addr(&c.get_base().m_fixture_a)
}
impl B2contactListener<D> for Ear {
    fn begin_contact(&mut self, c: &mut dyn B2contactDynTrait<D>) {
        ensure("begin is told of a touching contact", b_of(c.get_base().is_touching()));
        self.heard.push(("begin", who(c)));
    }
    fn end_contact(&mut self, c: &mut dyn B2contactDynTrait<D>) {
        self.heard.push(("end", who(c)));
    }
    fn pre_solve(&mut self, c: &mut dyn B2contactDynTrait<D>, old: &B2manifold) {
        self.heard.push(("pre", who(c)));
        self.old = Some(*old);
        if self.off {
            c.get_base_mut().set_enabled(false);
        }
    }
    fn post_solve(&mut self, c: &mut dyn B2contactDynTrait<D>, _: &B2contactImpulse) {
        self.heard.push(("post", who(c)));
    }
}
pub fn listen(w: &World) -> Rc<RefCell<Ear>> {
    let e = Rc::new(RefCell::new(Ear::default()));
    w.borrow_mut().set_contact_listener(e.clone());
    e
}
/// Replaces a contact by one whose narrow phase is any.
pub fn swap_in(w: &World, c: &ContactPtr<D>, o: &ContactPtr<D>) {
    let (na, nb) = (c.borrow().get_base().m_node_a.clone(), c.borrow().get_base().m_node_b.clone());
    for n in [&na, &nb] {
        n.as_ref().unwrap().borrow_mut().contact = Rc::downgrade(o);
    }
    o.borrow_mut().get_base_mut().m_node_a = na;
    o.borrow_mut().get_base_mut().m_node_b = nb;
    let f = ContactFlags::from_bits_truncate(c.borrow().get_base().m_flags.bits());
    o.borrow_mut().get_base_mut().m_flags = f;
    let (fa, fb) = (c.borrow().get_base().get_fixture_a(), c.borrow().get_base().get_fixture_b());
    o.borrow_mut().get_base_mut().m_fixture_a = fa;
    o.borrow_mut().get_base_mut().m_fixture_b = fb;
    let m = manager(w);
    m.borrow_mut().m_contact_list.clear();
    m.borrow_mut().m_contact_list.push_front(o.clone());
}
