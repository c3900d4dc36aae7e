mod common;
use box2d_rs::b2_broad_phase::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_dynamic_tree::*;
use box2d_rs::private::collision::b2_broad_phase as private;
use common::*;
use std::cell::RefCell;

type Phase = B2broadPhase<i32>;
type Tree = B2dynamicTree<i32>;

fn abox(n: &str) -> B2AABB {
    let l = vec2(&format!("{}.low", n));
    B2AABB { lower_bound: l, upper_bound: add(l, B2vec2::new(nonneg(&format!("{}.w", n)), nonneg(&format!("{}.h", n)))) }
}
fn overlap(a: B2AABB, b: B2AABB) -> B {
    and(&[
        le(a.lower_bound.x, b.upper_bound.x),
        le(a.lower_bound.y, b.upper_bound.y),
        le(b.lower_bound.x, a.upper_bound.x),
        le(b.lower_bound.y, a.upper_bound.y),
    ])
}
fn any_overlap(a: B2AABB, b: B2AABB) -> bool {
    sel(overlap(a, b), 1.0, 0.0) > 0.5
}
struct Heard(Vec<(i32, i32)>);
impl AddPairTrait<i32> for Heard {
    fn add_pair(&mut self, a: Option<i32>, b: Option<i32>) {
        ensure("reported proxies have their data", b_of(a.is_some() && b.is_some()));
        self.0.push((a.unwrap_or(-9), b.unwrap_or(-9)));
    }
}
/// A broad phase with `n` live proxies (data 100 + id) in a tree of any of the shapes, one destroyed one, and the given buffer.
fn phase(n: usize, buffer: &[i32], moved: &[bool]) -> Phase {
    // details of storage are varied on the smaller ones
    let vary = n == 2 && !buffer.is_empty();
    let pick = |label: &str, k: usize| if vary { choose(label, k) } else { 0 };
    let mut p = Phase::new();
    let mut t = Tree::new();
    t.m_nodes.clear();
    let leaf = |t: &mut Tree, i: usize| t.m_nodes.push(B2treeNode { aabb: abox(&format!("b{}", i)), user_data: Some(100 + i as i32), parent: -1, child1: -1, child2: -1, height: 0, moved: moved[i] });
    for i in 0..n {
        leaf(&mut t, i);
    }
    let mut top = if n > 0 { 0 } else { B2_NULL_NODE };
    for i in 1..n {
        // everything below a box that contains all: exact boxes are the business of the tree
        let id = t.m_nodes.len() as i32;
        let (a, b) = if pick(&format!("side {}", i), 2) == 1 { (top, i as i32) } else { (i as i32, top) };
        let (x, y) = (t.m_nodes[a as usize].aabb, t.m_nodes[b as usize].aabb);
        let mut u = B2AABB::default();
        u.combine_two(x, y);
        t.m_nodes.push(B2treeNode { aabb: u, user_data: None, parent: -1, child1: a, child2: b, height: 1 + t.m_nodes[a as usize].height.max(t.m_nodes[b as usize].height), moved: false });
        t.m_nodes[a as usize].parent = id;
        t.m_nodes[b as usize].parent = id;
        top = id;
    }
    t.m_root = top;
    t.m_node_count = t.m_nodes.len() as i32;
    t.m_free_list = t.m_node_count;
    t.m_nodes.push(B2treeNode { aabb: abox("gone"), user_data: Some(77), parent: -1, child1: -1, child2: -1, height: -1, moved: true });
    t.m_node_capacity = t.m_nodes.len() as i32;
    p.m_tree = t;
    p.m_proxy_count = n as i32;
    p.m_move_buffer = buffer.to_vec();
    p.m_move_count = buffer.len() as i32;
    p.m_move_buffer.resize(buffer.len() + pick("spare", 2), 0);
    p.m_move_capacity = p.m_move_buffer.len() as i32;
    let cap = [2, 3, 16][pick("pair capacity", 3)];
    p.pairs.m_pair_buffer = vec![B2pair { proxy_id_a: 5, proxy_id_b: 6 }; cap];
    p.pairs.m_pair_capacity = cap as i32;
    p.pairs.m_pair_count = pick("old pairs", 2) as i32;
    p
}
fn updates() {
    let n = 1 + choose("proxies", 3);
    // how each proxy came into the buffer: not, put in (marked), touched (not marked)
    let how: Vec<usize> = (0..n).map(|i| choose(&format!("buffered {}", i), 3)).collect();
    let mut buffer: Vec<i32> = (0..n as i32).filter(|i| how[*i as usize] > 0).collect();
    if flag("back to front") {
        buffer.reverse();
    }
    if flag("with a destroyed one") {
        buffer.insert(buffer.len() / 2, E_NULL_PROXY);
    }
    let marks: Vec<bool> = how.iter().map(|h| *h == 1).collect();
    let mut p = phase(n, &buffer, &marks);
    let boxes: Vec<B2AABB> = (0..n).map(|i| p.m_tree.m_nodes[i].aabb).collect();
    let mut heard = Heard(vec![]);
    if symbolic() {
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    p.update_pairs(&mut heard);
    hook::clear();
    let mut known = 0;
    for i in 0..n {
        for j in i + 1..n {
            let times = heard.0.iter().filter(|x| **x == (100 + i as i32, 100 + j as i32)).count();
            known += times;
            let one = how[i] > 0 || how[j] > 0;
            let plain = how[i] != 2 && how[j] != 2;
            if times == 0 {
                ensure("every new overlapping pair is reported", not(and(&[b_of(one), overlap(boxes[i], boxes[j])])));
            } else {
                ensure("only new overlapping pairs are reported", and(&[b_of(one), overlap(boxes[i], boxes[j])]));
                ensure("a pair is reported once", b_of(times == 1 || !plain));
            }
        }
    }
    ensure("pairs are of two live proxies in order", b_of(known == heard.0.len()));
    ensure("the buffer is used up", b_of(p.m_move_count == 0));
    ensure("no mark is left", b_of((0..n as i32).all(|i| !p.m_tree.was_moved(i))));
    ensure("updating keeps the proxies", b_of(p.get_proxy_count() == n as i32 && (0..n as i32).all(|i| p.get_user_data(i) == Some(100 + i))));
    for i in 0..n {
        let (a, b) = (p.get_fat_aabb(i as i32), boxes[i]);
        ensure("updating keeps the boxes", and(&[eqv(a.lower_bound, b.lower_bound), eqv(a.upper_bound, b.upper_bound)]));
    }
    // a second update has nothing to report
    let mut again = Heard(vec![]);
    p.update_pairs(&mut again);
    ensure("nothing is new after an update", b_of(again.0.is_empty()));
}
/// What one proxy found by the query adds to the pairs.
fn gathers() {
    let cap = [2, 3, 4, 16][choose("capacity", 4)];
    let count = [0, 1, cap - 1, cap][choose("count", 4)];
    let old: Vec<B2pair> = (0..cap).map(|i| B2pair { proxy_id_a: i as i32, proxy_id_b: 50 + i as i32 }).collect();
    let mut ps = B2broadPhasePairs { m_pair_buffer: old.clone(), m_pair_capacity: cap as i32, m_pair_count: count as i32 };
    let (q, other) = [(3, 3), (3, 4), (4, 3), (0, 1000), (1000, 0)][choose("ids", 5)];
    let moved = flag("moved");
    let go = private::b2_broad_phase_query_callback(&mut ps, q, other, moved);
    ensure("gathering goes on", b_of(go));
    let want = q != other && !(moved && other > q);
    ensure("one pair at most is added", b_of(ps.m_pair_count == (count + want as usize) as i32));
    ensure("the pair buffer holds what it says", b_of(ps.m_pair_buffer.len() as i32 >= ps.m_pair_count && ps.m_pair_capacity as usize == ps.m_pair_buffer.len()));
    let x = |a: &B2pair| (a.proxy_id_a, a.proxy_id_b);
    ensure("earlier pairs stay", b_of((0..count).all(|i| x(&ps.m_pair_buffer[i]) == x(&old[i]))));
    if want {
        ensure("the new pair is in order", b_of(x(&ps.m_pair_buffer[count]) == (q.min(other), q.max(other))));
    }
}
thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn stub_create(t: &mut Tree, _b: B2AABB, d: &i32) -> i32 {
    let _ = t;
    LOG.with(|l| l.borrow_mut().push(format!("create {}", d)));
    7
}
fn stub_destroy(_t: &mut Tree, id: i32) {
    LOG.with(|l| l.borrow_mut().push(format!("destroy {}", id)));
}
fn stub_move(_t: &mut Tree, id: i32, _b: B2AABB, _d: B2vec2) -> bool {
    LOG.with(|l| l.borrow_mut().push(format!("move {}", id)));
    flag("re-inserted")
}
fn log() -> Vec<String> {
    LOG.with(|l| l.borrow_mut().drain(..).collect())
}
fn proxies() {
    log();
    let cap = [1, 2, 4, 16][choose("capacity", 4)];
    let count = [0, cap - 1, cap][choose("count", 3)];
    let mut p = Phase::new();
    ensure("a new broad phase is empty", b_of(p.get_proxy_count() == 0 && p.m_move_count == 0 && p.pairs.m_pair_count == 0 && p.m_move_buffer.len() as i32 == p.m_move_capacity && p.m_move_capacity > 0 && p.pairs.m_pair_buffer.len() as i32 == p.pairs.m_pair_capacity && p.pairs.m_pair_capacity > 1));
    let b = abox("given");
    p.create_proxy(abox("first"), &1);
    let second = p.create_proxy(abox("second"), &2);
    p.m_move_buffer = (0..cap as i32).map(|i| if i % 2 == 0 { second } else { 50 + i }).collect();
    p.m_move_capacity = cap as i32;
    p.m_move_count = count as i32;
    let old = p.m_move_buffer.clone();
    let kept = |p: &Phase, n: usize| p.m_move_buffer.len() as i32 == p.m_move_capacity && p.m_move_count as usize == n && (0..count).all(|i| p.m_move_buffer[i] == old[i]);
    match choose("operation", 4) {
        0 => {
            if symbolic() {
                hook::set::<fn(&mut Tree, B2AABB, &i32) -> i32>("create_proxy", stub_create);
            }
            let id = p.create_proxy(b, &3);
            ensure("creation counts the proxy", b_of(p.get_proxy_count() == 3));
            ensure("creation buffers the proxy", b_of(kept(&p, count + 1) && p.m_move_buffer[count] == id));
            ensure("creation hands on the data", b_of(!symbolic() || (id == 7 && log() == vec!["create 3"])));
        }
        1 => {
            if symbolic() {
                hook::set::<fn(&mut Tree, i32)>("destroy_proxy", stub_destroy);
            }
            p.destroy_proxy(second);
            ensure("destruction discounts the proxy", b_of(p.get_proxy_count() == 1));
            ensure("a destroyed proxy leaves the buffer", b_of((0..p.m_move_count as usize).all(|i| p.m_move_buffer[i] != second)));
            ensure("others stay in the buffer", b_of(p.m_move_count as usize == count && (0..count).all(|i| old[i] == second || p.m_move_buffer[i] == old[i])));
            ensure("destruction removes the proxy", b_of(!symbolic() || log() == vec![format!("destroy {}", second)]));
        }
        2 => {
            if symbolic() {
                hook::set::<fn(&mut Tree, i32, B2AABB, B2vec2) -> bool>("move_proxy", stub_move);
            }
            p.m_tree.clear_moved(second);
            p.move_proxy(second, b, vec2("displacement"));
            let again = if symbolic() { log() == vec![format!("move {}", second)] && p.m_move_count as usize > count } else { p.m_tree.was_moved(second) };
            ensure("moving keeps the count", b_of(p.get_proxy_count() == 2));
            if again {
                ensure("a re-inserted proxy is buffered", b_of(kept(&p, count + 1) && p.m_move_buffer[count] == second));
            } else {
                ensure("a proxy that stays is not buffered", b_of(kept(&p, count)));
            }
        }
        _ => {
            p.touch_proxy(second);
            ensure("a touched proxy is buffered", b_of(kept(&p, count + 1) && p.m_move_buffer[count] == second && p.get_proxy_count() == 2));
        }
    }
}
fn moved_or_not() {
    // the buffer follows the answer of the tree
    let mut p = Phase::new();
    let id = p.create_proxy(abox("first"), &1);
    p.m_move_count = 0;
    p.m_tree.clear_moved(id);
    let old = p.get_fat_aabb(id);
    p.move_proxy(id, abox("next"), vec2("displacement"));
    let now = p.get_fat_aabb(id);
    let again = p.m_tree.was_moved(id);
    ensure("a proxy is buffered when it was put in again", b_of((p.m_move_count == 1) == again && (!again || p.m_move_buffer[0] == id)));
    if !again {
        ensure("a proxy that stays keeps its box", and(&[eqv(old.lower_bound, now.lower_bound), eqv(old.upper_bound, now.upper_bound)]));
    }
}
fn overlaps() {
    let p = phase(2, &[], &[false, false]);
    if symbolic() {
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    let r = p.test_overlap(0, 1);
    ensure("the overlap test compares the stored boxes", iff(b_of(r), overlap(p.m_tree.m_nodes[0].aabb, p.m_tree.m_nodes[1].aabb)));
    ensure("the box of a proxy is the stored one", eqv(p.get_fat_aabb(1).lower_bound, p.m_tree.m_nodes[1].aabb.lower_bound));
    ensure("the height is that of the tree", b_of(p.get_tree_height() == 1));
    let mut p = phase(2, &[], &[false, false]);
    let o = vec2("origin");
    let old = p.get_fat_aabb(0);
    p.shift_origin(o);
    ensure("shifting the origin shifts the boxes", and(&[eqv(p.get_fat_aabb(0).lower_bound, sub(old.lower_bound, o)), eqv(p.get_fat_aabb(0).upper_bound, sub(old.upper_bound, o))]));
}
contracts! { selection_bodies, updates, gathers, proxies, moved_or_not, overlaps }
