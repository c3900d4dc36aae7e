mod audit;
mod common;
mod phys;
use audit::*;
use common::selection_bodies;

fn filters() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", B2bodyType::B2DynamicBody), body_of(&w, "b", B2bodyType::B2StaticBody));
    let (fa, fb) = (fixture_on(&a, "fa"), fixture_on(&b, "fb"));
    let bits = |n: &str| [0u16, 1, 2, 0x8000, 0xffff, 6][choose(n, 6)];
    let (ga, gb) = [(0, 0), (0, 3), (-2, 0), (3, 3), (-2, -2), (3, -3), (2, 3), (-1, -2), (i16::MIN, i16::MIN), (i16::MAX, i16::MAX)][choose("groups", 10)];
    let x = B2filter { category_bits: bits("category a"), mask_bits: bits("mask a"), group_index: ga };
    let y = B2filter { category_bits: bits("category b"), mask_bits: bits("mask b"), group_index: gb };
    fa.borrow_mut().m_filter = x;
    fb.borrow_mut().m_filter = y;
    let want = if ga == gb && ga != 0 { ga > 0 } else { (0..16).any(|k| x.category_bits >> k & y.mask_bits >> k & 1 == 1) && (0..16).any(|k| y.category_bits >> k & x.mask_bits >> k & 1 == 1) };
    let filter = B2contactFilterDefault {};
    let got = B2contactFilter::<D>::should_collide(&filter, fa.clone(), fb.clone());
    ensure("groups come first, then categories in masks", b_of(got == want));
    ensure("the filter is symmetric", b_of(B2contactFilter::<D>::should_collide(&filter, fb, fa) == want));
    let d = B2filter::default();
    ensure("by default everything collides", b_of(d.group_index == 0 && d.mask_bits == 0xffff && d.category_bits == 1));
}
/// Two bodies and what connects them: no joint, one that lets them collide, one that does not, both, or one to a third body.
fn connected(w: &World, a: &Body, b: &Body) -> bool {
    let third = body_of(w, "third", B2bodyType::B2DynamicBody);
    let swap = flag("second body first");
    let (x, y) = if swap { (b, a) } else { (a, b) };
    match choose("joints", 6) {
        0 => true,
        1 => {
            tie(w, x, y, true);
            true
        }
        2 => {
            tie(w, x, y, false);
            false
        }
        3 => {
            tie(w, x, y, false);
            tie(w, x, y, true);
            false
        }
        4 => {
            tie(w, x, y, true);
            tie(w, x, y, false);
            false
        }
        _ => {
            tie(w, x, &third, false);
            tie(w, &third, y, false);
            true
        }
    }
}
fn dynamic(b: &Body) -> bool {
    b.borrow().m_type == B2bodyType::B2DynamicBody
}
fn bodies_collide() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", body_type("a")), body_of(&w, "b", body_type("b")));
    let free = connected(&w, &a, &b);
    let want = free && (dynamic(&a) || dynamic(&b));
    ensure("bodies collide if one is dynamic and no joint forbids it", b_of(a.borrow().should_collide(b.clone()) == want && b.borrow().should_collide(a.clone()) == want));
}
fn pairs() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", body_type("a")), body_of(&w, "b", body_type("b")));
    let answer = choose("filter", 3);
    if answer < 2 {
        w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(Answer(answer == 1))));
    } else {
        manager(&w).borrow_mut().m_contact_filter = None;
    }
    let free = connected(&w, &a, &b);
    let one = flag("same body");
    let fa = fixture_in(&a, "fa", 1);
    let fb = fixture_in(if one { &a } else { &b }, "fb", 1);
    let want = !one && free && (dynamic(&a) || dynamic(&b)) && answer != 0;
    let (x, y) = if flag("swap") { (&fb, &fa) } else { (&fa, &fb) };
    meet(&w, x, y);
    let cs = contacts(&w);
    ensure("a pair becomes a contact exactly when it may collide", b_of(cs.len() == want as usize));
    if want && cs.len() == 1 {
        ensure("the contact is that of the pair", b_of(between(&cs[0], &fa, &fb)));
    }
}
/// A world with two bodies in contact and a third one in contact with the first.
fn touching_world() -> (World, [Body; 3], [FixturePtr<D>; 4]) {
    let w = quiet_world();
    let b = ["a", "b", "c"].map(|n| body_of(&w, n, B2bodyType::B2DynamicBody));
    let f = [fixture_in(&b[0], "fa", 1), fixture_in(&b[0], "fa2", 2), fixture_in(&b[1], "fb", 1), fixture_in(&b[2], "fc", 1)];
    meet(&w, &f[0], &f[2]);
    meet(&w, &f[1], &f[2]);
    meet(&w, &f[3], &f[0]);
    phase(&w).borrow_mut().m_move_count = 0;
    phase(&w).borrow_mut().m_tree.m_nodes.iter_mut().for_each(|n| n.moved = false);
    (w, b, f)
}
fn waiting(w: &World, f: &FixturePtr<D>) -> bool {
    let bp = phase(w);
    let bp = bp.borrow();
    let ids: Vec<i32> = f.borrow().m_proxies.iter().map(|p| p.borrow().proxy_id).collect();
    let n = ids.iter().filter(|id| (0..bp.m_move_count as usize).any(|i| bp.m_move_buffer[i] == **id)).count();
    ensure("all parts of a fixture are considered", b_of(n == 0 || n == ids.len()));
    n > 0
}
fn changes() {
    let (w, b, f) = touching_world();
    let cs = contacts(&w);
    ensure("three contacts to begin with", b_of(cs.len() == 3 && cs.iter().all(|c| !flagged(c))));
    let of = |i: usize, j: usize| cs.iter().find(|c| between(c, &f[i], &f[j])).unwrap();
    match choose("change", 5) {
        0 => {
            let k = choose("fixture", 4);
            let x = B2filter { category_bits: 4, mask_bits: 9, group_index: -3 };
            f[k].borrow_mut().set_filter_data(x);
            let y = f[k].borrow().get_filter_data();
            ensure("filter data is stored", b_of(y.category_bits == 4 && y.mask_bits == 9 && y.group_index == -3));
            for c in &cs {
                let mine = (0..4).any(|j| between(c, &f[k], &f[j]));
                ensure("changed filter data is considered for the fixture's contacts", b_of(flagged(c) == mine));
            }
            ensure("changed filter data may create new contacts", b_of((0..4).all(|i| waiting(&w, &f[i]) == (i == k))));
        }
        1 => {
            let keep = flag("collide connected");
            let (x, y) = if flag("swap") { (&b[1], &b[0]) } else { (&b[0], &b[1]) };
            tie(&w, x, y, keep);
            ensure("a joint is considered for the contacts of its bodies", b_of(flagged(of(0, 2)) != keep && flagged(of(1, 2)) != keep));
            ensure("a joint concerns no other contacts", b_of(!flagged(of(3, 0))));
        }
        2 => {
            let keep = flag("collide connected");
            let (x, y) = if flag("swap") { (&b[1], &b[0]) } else { (&b[0], &b[1]) };
            let j = tie(&w, x, y, keep);
            for c in &cs {
                c.borrow_mut().get_base_mut().m_flags.remove(ContactFlags::E_FILTER_FLAG);
            }
            w.borrow_mut().destroy_joint(j);
            ensure("the end of a joint is considered for the contacts of its bodies", b_of(flagged(of(0, 2)) != keep && flagged(of(1, 2)) != keep));
            ensure("a joint concerns no other contacts", b_of(!flagged(of(3, 0))));
            ensure("without the joint the bodies may collide", b_of(b[0].borrow().should_collide(b[1].clone())));
        }
        3 => {
            let ty = [B2bodyType::B2StaticBody, B2bodyType::B2KinematicBody][choose("type", 2)];
            B2body::set_type(b[0].clone(), ty);
            ensure("a changed body type is considered for all its contacts", b_of(contacts(&w).is_empty() && contact_edges(&b[0]).is_empty() && contact_edges(&b[1]).is_empty() && contact_edges(&b[2]).is_empty()));
            ensure("a changed body type may create new contacts", b_of(waiting(&w, &f[0]) && waiting(&w, &f[1])));
        }
        _ => {
            f[2].borrow_mut().refilter();
            ensure("refiltering considers the fixture's contacts", b_of(flagged(of(0, 2)) && flagged(of(1, 2)) && !flagged(of(3, 0))));
            ensure("refiltering may create new contacts", b_of((0..4).all(|i| waiting(&w, &f[i]) == (i == 2))));
        }
    }
}
/// Flagged contacts are filtered at the next step.
fn reconsidered() {
    let w = quiet_world();
    let (a, b) = (body_of(&w, "a", B2bodyType::B2DynamicBody), body_of(&w, "b", body_type("b")));
    // the boxes overlap
    let (fa, fb) = (fixture_in(&a, "fa", 1), fixture_in(&b, "fb", 1));
    let answer = choose("filter", 3);
    meet(&w, &fa, &fb);
    let c = contacts(&w)[0].clone();
    if answer < 2 {
        w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(Answer(answer == 1))));
    } else {
        manager(&w).borrow_mut().m_contact_filter = None;
    }
    let mark = flag("flagged");
    let free = connected(&w, &a, &b);
    let awake = flag("awake");
    for x in [&a, &b] {
        x.borrow_mut().m_flags.set(BodyFlags::E_AWAKE_FLAG, awake);
    }
    c.borrow_mut().get_base_mut().m_flags.set(ContactFlags::E_FILTER_FLAG, mark);
    if symbolic() {
        // stays in the broad phase; the narrow phase plays no part
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", |_, _| true);
        let o = any_contact(&fa, &fb, any_manifold("m", 1, B2manifoldType::ECircles));
        swap_in(&w, &c, &o);
        B2contactManager::collide(manager(&w));
        judge(&w, &o, mark, free && answer != 0);
    } else {
        let keep = phase(&w).borrow().test_overlap(0, 1);
        assume(b_of(keep || !awake));
        B2contactManager::collide(manager(&w));
        judge(&w, &c, mark, free && answer != 0);
    }
}
fn judge(w: &World, c: &ContactPtr<D>, mark: bool, may: bool) {
    let kept = contacts(w).len() == 1;
    ensure("a contact under review is destroyed exactly when it may not collide", b_of(kept == (!mark || may)));
    if kept {
        ensure("a contact that passes is no longer under review", b_of(!flagged(c)));
    }
}
contracts! { selection_bodies, filters, bodies_collide, pairs, changes, reconsidered }
