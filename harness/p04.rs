mod common;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_dynamic_tree::*;
use common::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

type Tree = B2dynamicTree<i32>;
type Node = B2treeNode<i32>;
/// First id that belongs to parts of the tree that are not spelled out: touching one is a failure.
const FAR: i32 = 100_000;

fn abox(n: &str) -> B2AABB {
    let l = vec2(&format!("{}.low", n));
    B2AABB { lower_bound: l, upper_bound: add(l, B2vec2::new(nonneg(&format!("{}.w", n)), nonneg(&format!("{}.h", n)))) }
}
fn join(a: B2AABB, b: B2AABB) -> B2AABB {
    let (lo, hi) = (|x: f32, y: f32| sel(lt(x, y), x, y), |x: f32, y: f32| sel(gt(x, y), x, y));
    B2AABB {
        lower_bound: B2vec2::new(lo(a.lower_bound.x, b.lower_bound.x), lo(a.lower_bound.y, b.lower_bound.y)),
        upper_bound: B2vec2::new(hi(a.upper_bound.x, b.upper_bound.x), hi(a.upper_bound.y, b.upper_bound.y)),
    }
}
fn eqb(a: B2AABB, b: B2AABB) -> B {
    and(&[eqv(a.lower_bound, b.lower_bound), eqv(a.upper_bound, b.upper_bound)])
}
fn within(inner: B2AABB, outer: B2AABB) -> B {
    and(&[
        le(outer.lower_bound.x, inner.lower_bound.x),
        le(outer.lower_bound.y, inner.lower_bound.y),
        le(inner.upper_bound.x, outer.upper_bound.x),
        le(inner.upper_bound.y, outer.upper_bound.y),
    ])
}
fn overlap(a: B2AABB, b: B2AABB) -> B {
    and(&[
        le(a.lower_bound.x, b.upper_bound.x),
        le(a.lower_bound.y, b.upper_bound.y),
        le(b.lower_bound.x, a.upper_bound.x),
        le(b.lower_bound.y, a.upper_bound.y),
    ])
}
fn holds(b: B) -> bool {
    sel(b, 1.0, 0.0) > 0.5
}
fn any_overlap(a: B2AABB, b: B2AABB) -> bool {
    holds(overlap(a, b))
}
fn empty() -> Tree {
    Tree { m_root: B2_NULL_NODE, m_nodes: vec![], m_node_count: 0, m_node_capacity: FAR * 10, m_free_list: FAR, m_insertion_count: 0 }
}
/// A node at the edge of what is spelled out: a proxy, or the top of a subtree of the given height.
fn edge_node(t: &mut Tree, n: &str, height: i32) -> i32 {
    let id = t.m_nodes.len() as i32;
    let far = FAR + 10 * id;
    t.m_nodes.push(Node {
        aabb: abox(n),
        user_data: if height == 0 { Some(1000 + id) } else { None },
        parent: FAR + 10 * id + 5,
        child1: if height == 0 { B2_NULL_NODE } else { far },
        child2: if height == 0 { B2_NULL_NODE } else { far + 1 },
        height,
        moved: height == 0 && id % 2 == 1,
    });
    id
}
fn join_node(t: &mut Tree, a: i32, b: i32) -> i32 {
    let id = t.m_nodes.len() as i32;
    let (na, nb) = (t.m_nodes[a as usize].clone(), t.m_nodes[b as usize].clone());
    t.m_nodes.push(Node {
        aabb: join(na.aabb, nb.aabb),
        user_data: None,
        parent: FAR + 10 * id + 5,
        child1: a,
        child2: b,
        height: 1 + na.height.max(nb.height),
        moved: false,
    });
    t.m_nodes[a as usize].parent = id;
    t.m_nodes[b as usize].parent = id;
    id
}
/// Puts `a` below a node outside of the part that is spelled out, or makes it the root.
fn hang(t: &mut Tree, a: i32, place: usize) -> i32 {
    if place == 0 {
        t.m_nodes[a as usize].parent = B2_NULL_NODE;
        t.m_root = a;
        return B2_NULL_NODE;
    }
    let id = t.m_nodes.len() as i32;
    let other = FAR + 10 * id;
    t.m_nodes.push(Node {
        aabb: abox("above"),
        user_data: None,
        parent: if place > 2 { B2_NULL_NODE } else { FAR + 10 * id + 5 },
        child1: if place % 2 == 1 { a } else { other },
        child2: if place % 2 == 1 { other } else { a },
        height: 70,
        moved: false,
    });
    t.m_nodes[a as usize].parent = id;
    t.m_root = if place > 2 { id } else { FAR + 9 };
    id
}
fn same_node(a: &Node, b: &Node, but_parent: bool) -> B {
    and(&[
        eqb(a.aabb, b.aabb),
        b_of(a.user_data == b.user_data && a.child1 == b.child1 && a.child2 == b.child2 && a.height == b.height && a.moved == b.moved && (but_parent || a.parent == b.parent)),
    ])
}
/// The nodes at the edge below `top`, with links checked on the way; inner nodes but `stale` have the right height and box.
fn edges(t: &Tree, top: i32, is_edge: &dyn Fn(i32) -> bool, stale: &dyn Fn(i32) -> bool) -> Vec<i32> {
    let (mut seen, mut out, mut todo) = (vec![], vec![], vec![top]);
    while let Some(i) = todo.pop() {
        let fresh = i >= 0 && (i as usize) < t.m_nodes.len() && !seen.contains(&i);
        ensure("every node hangs in exactly one place", b_of(fresh));
        if !fresh {
            continue;
        }
        seen.push(i);
        if is_edge(i) {
            out.push(i);
            continue;
        }
        let n = &t.m_nodes[i as usize];
        let inside = |c: i32| c >= 0 && (c as usize) < t.m_nodes.len();
        ensure("inner nodes have two children", b_of(inside(n.child1) && inside(n.child2)));
        if !inside(n.child1) || !inside(n.child2) {
            continue;
        }
        let (a, b) = (&t.m_nodes[n.child1 as usize], &t.m_nodes[n.child2 as usize]);
        ensure("children know their parent", b_of(a.parent == i && b.parent == i));
        ensure("inner nodes carry no user data", b_of(n.user_data.is_none()));
        if !stale(i) {
            ensure("heights are one more than the higher child's", b_of(n.height == 1 + a.height.max(b.height)));
            ensure("inner boxes are the union of the boxes below", eqb(n.aabb, join(a.aabb, b.aabb)));
        }
        todo.push(n.child1);
        todo.push(n.child2);
    }
    out.sort();
    out
}
fn in_place(old: &Tree, new: &Tree, above: i32, was: i32, now: i32) {
    if above == B2_NULL_NODE {
        ensure("the top of the tree is its root", b_of(new.m_root == now && new.m_nodes[now as usize].parent == B2_NULL_NODE));
        return;
    }
    let (o, n) = (&old.m_nodes[above as usize], &new.m_nodes[above as usize]);
    let put = |c: i32| if c == was { now } else { c };
    ensure("the tree above keeps the subtree in its place", b_of(n.child1 == put(o.child1) && n.child2 == put(o.child2) && n.parent == o.parent));
    ensure("the subtree knows the node above", b_of(new.m_nodes[now as usize].parent == above));
    ensure("the root stays", b_of(new.m_root == old.m_root));
}
/// A subtree of up to three levels.
fn subtree(t: &mut Tree, n: &str, base: i32) -> i32 {
    // five kinds of children suffice to see every order of heights at the rotation
    let h = |k: usize| base + k as i32;
    match choose(&format!("{} kind", n), 8) {
        0 => edge_node(t, n, base),
        k => {
            let (x, y) = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 3)][k - 1];
            let a = edge_node(t, &format!("{}1", n), h(x));
            let b = edge_node(t, &format!("{}2", n), h(y));
            join_node(t, a, b)
        }
    }
}
fn rotation() {
    if !symbolic() {
        return history();
    }
    let base = [0, 40][choose("deep", 2)];
    let mut t = empty();
    let b = subtree(&mut t, "b", base);
    let c = subtree(&mut t, "c", base);
    let a = join_node(&mut t, b, c);
    // the node itself has just seen its subtree change
    t.m_nodes[a as usize].aabb = abox("stale");
    t.m_nodes[a as usize].height += choose("stale height", 3) as i32 - 1;
    let above = hang(&mut t, a, choose("place", 3));
    let old = t.clone();
    let r = t.balance(a);
    let is_edge = |i: i32| old.m_nodes[i as usize].child1 >= FAR || old.m_nodes[i as usize].child1 == B2_NULL_NODE;
    let before = edges(&old, a, &is_edge, &|i| i == a);
    let after = edges(&t, r, &is_edge, &|i| i == r);
    ensure("rotations keep everything below", b_of(before == after));
    in_place(&old, &t, above, a, r);
    for i in before {
        ensure("rotations move subtrees unchanged", same_node(&old.m_nodes[i as usize], &t.m_nodes[i as usize], true));
    }
    if above >= 0 {
        let (o, n) = (&old.m_nodes[above as usize], &t.m_nodes[above as usize]);
        ensure("rotations leave the node above", b_of(o.height == n.height && o.user_data == n.user_data));
        ensure("rotations leave the box above", eqb(o.aabb, n.aabb));
    }
    ensure("rotations use no other node", b_of(t.m_nodes.len() == old.m_nodes.len() && t.m_free_list == old.m_free_list && t.m_node_count == old.m_node_count));
}

thread_local! {
    static ROUND: Cell<usize> = Cell::new(0);
    static KEPT: RefCell<Option<Tree>> = RefCell::new(None);
    static LEAF: Cell<i32> = Cell::new(-1);
    static ABOVE: Cell<i32> = Cell::new(-1);
    static GONE: Cell<i32> = Cell::new(-1);
    static CALLS: RefCell<Vec<(i32, Option<Node>)>> = RefCell::new(vec![]);
}
fn ancestors(t: &Tree, mut i: i32) -> Vec<i32> {
    let mut v = vec![];
    while i >= 0 && (i as usize) < t.m_nodes.len() && !v.contains(&i) {
        v.push(i);
        i = t.m_nodes[i as usize].parent;
    }
    v
}
/// What insertion and removal have established when they start to walk up from `index`.
fn spliced(t: &Tree, index: i32) {
    let old = KEPT.with(|k| k.borrow().clone()).unwrap();
    let (leaf, above, gone) = (LEAF.get(), ABOVE.get(), GONE.get());
    // the top is what hangs where the old top was
    let was = old.m_nodes.iter().position(|n| n.parent == above && n.height >= 0).unwrap() as i32;
    let slot = |x: &Tree| if above < 0 { x.m_root } else if old.m_nodes[above as usize].child1 == was { x.m_nodes[above as usize].child1 } else { x.m_nodes[above as usize].child2 };
    let was = slot(&old);
    let now = slot(t);
    in_place(&old, t, above, was, now);
    let stale = ancestors(t, index);
    let is_edge = |i: i32| t.m_nodes[i as usize].child1 >= FAR || t.m_nodes[i as usize].child1 == B2_NULL_NODE;
    let mut want: Vec<i32> = (0..old.m_nodes.len() as i32)
        .filter(|i| {
            let n = &old.m_nodes[*i as usize];
            *i != above && n.height >= 0 && (n.child1 >= FAR || n.child1 == B2_NULL_NODE) && *i != gone && (*i != leaf)
        })
        .collect();
    if leaf >= 0 {
        want.push(leaf);
    }
    want.sort();
    let have = edges(t, now, &is_edge, &|i| stale.contains(&i));
    ensure("the leaves are those before and the change", b_of(have == want));
    for i in want {
        if i == leaf {
            let (o, n) = (&old.m_nodes[i as usize], &t.m_nodes[i as usize]);
            ensure("the new leaf keeps its box", eqb(o.aabb, n.aabb));
            ensure("the new leaf keeps its data", b_of(o.user_data == n.user_data && n.height == 0 && n.child1 == B2_NULL_NODE && n.child2 == B2_NULL_NODE && o.moved == n.moved));
        } else {
            ensure("other leaves and subtrees stay as they are", same_node(&old.m_nodes[i as usize], &t.m_nodes[i as usize], true));
        }
    }
}
fn stub_splice(t: &mut Tree, index: i32) -> i32 {
    spliced(t, index);
    abort_path()
}
/// The tree when the search for a sibling has come to `top`, which hangs anywhere.
fn searched() -> (Tree, i32) {
    let mut t = empty();
    let leaf = edge_node(&mut t, "new", 0);
    // two free nodes
    let f1 = t.m_nodes.len() as i32;
    for k in 0..2 {
        t.m_nodes.push(Node { aabb: abox("junk"), user_data: Some(7), parent: if k == 0 { f1 + 1 } else { FAR + 3 }, child1: 3, child2: 4, height: -1, moved: true });
    }
    t.m_free_list = f1;
    t.m_node_count = 50;
    let top = match choose("found", 4) {
        0 => edge_node(&mut t, "x", 0),
        1 => {
            let a = edge_node(&mut t, "x", 0);
            let b = edge_node(&mut t, "y", 0);
            join_node(&mut t, a, b)
        }
        k => {
            let a = edge_node(&mut t, "x", 0);
            let b = edge_node(&mut t, "y", 0);
            let c = edge_node(&mut t, "z", 0);
            let ab = join_node(&mut t, a, b);
            if k == 2 { join_node(&mut t, ab, c) } else { join_node(&mut t, c, ab) }
        }
    };
    let above = hang(&mut t, top, choose("place", 3));
    // the search has come here: it reads the root only to begin
    t.m_root = top;
    ABOVE.set(above);
    LEAF.set(leaf);
    GONE.set(-1);
    (t, leaf)
}
fn insertion() {
    if !symbolic() {
        return history();
    }
    let (mut t, leaf) = searched();
    KEPT.with(|k| *k.borrow_mut() = Some(t.clone()));
    hook::set::<fn(&mut Tree, i32) -> i32>("balance", stub_splice);
    t.insert_leaf(leaf);
    // a walk that ends at once has nothing left to repair
    if ABOVE.get() < 0 {
        spliced(&t, B2_NULL_NODE);
    }
    ensure("insertion looks at every node on the way up", b_of(ABOVE.get() < 0));
}
fn first_leaf() {
    if !symbolic() {
        return history();
    }
    let mut t = empty();
    let leaf = edge_node(&mut t, "new", 0);
    let old = t.clone();
    t.insert_leaf(leaf);
    ensure("the first proxy is the root", b_of(t.m_root == leaf && t.m_nodes[leaf as usize].parent == B2_NULL_NODE));
    ensure("the first proxy stays as it is", same_node(&old.m_nodes[0], &t.m_nodes[0], true));
    t.remove_leaf(leaf);
    ensure("without the last proxy the tree is empty", b_of(t.m_root == B2_NULL_NODE && t.m_node_count == old.m_node_count));
    // a proxy whose only companion goes
    let mut t = empty();
    let a = edge_node(&mut t, "a", 0);
    let b = edge_node(&mut t, "b", choose("other", 2) as i32);
    let p = if flag("first") { join_node(&mut t, a, b) } else { join_node(&mut t, b, a) };
    hang(&mut t, p, 0);
    t.m_node_count = 3;
    let old = t.clone();
    t.remove_leaf(a);
    ensure("the companion becomes the root", b_of(t.m_root == b && t.m_nodes[b as usize].parent == B2_NULL_NODE));
    ensure("the companion stays as it is", same_node(&old.m_nodes[b as usize], &t.m_nodes[b as usize], true));
    ensure("the inner node returns to the pool", b_of(t.m_free_list == p && t.m_nodes[p as usize].height == -1 && t.m_nodes[p as usize].parent == old.m_free_list && t.m_node_count == 2));
}
fn removal() {
    if !symbolic() {
        return history();
    }
    let mut t = empty();
    let leaf = edge_node(&mut t, "old", 0);
    let s = edge_node(&mut t, "sibling", choose("sibling height", 2) as i32);
    let p = if flag("first") { join_node(&mut t, leaf, s) } else { join_node(&mut t, s, leaf) };
    let o = edge_node(&mut t, "other", choose("other height", 3) as i32);
    let g = if flag("first child") { join_node(&mut t, p, o) } else { join_node(&mut t, o, p) };
    let above = hang(&mut t, g, choose("place", 3));
    t.m_node_count = 50;
    ABOVE.set(above);
    LEAF.set(-1);
    GONE.set(leaf);
    KEPT.with(|k| *k.borrow_mut() = Some(t.clone()));
    hook::set::<fn(&mut Tree, i32) -> i32>("balance", stub_removed);
    t.remove_leaf(leaf);
    if above < 0 {
        removed(&t, B2_NULL_NODE);
    }
    ensure("removal looks at every node on the way up", b_of(above < 0));
}
fn removed(t: &Tree, index: i32) {
    spliced(t, index);
    let old = KEPT.with(|k| k.borrow().clone()).unwrap();
    let p = old.m_nodes[GONE.get() as usize].parent;
    let n = &t.m_nodes[p as usize];
    ensure("the inner node returns to the pool", b_of(t.m_free_list == p && n.height == -1 && n.parent == old.m_free_list && t.m_node_count == 49));
}
fn stub_removed(t: &mut Tree, index: i32) -> i32 {
    removed(t, index);
    abort_path()
}
/// Any state the walk upwards can be in once the node it is at has been rebalanced.
fn stub_walk(t: &mut Tree, index: i32) -> i32 {
    if ROUND.get() == 0 {
        ROUND.set(1);
        let mut n = empty();
        let x = edge_node(&mut n, "x", choose("x height", 3) as i32);
        let y = edge_node(&mut n, "y", choose("y height", 3) as i32);
        let r = join_node(&mut n, x, y);
        n.m_nodes[r as usize].aabb = abox("stale");
        n.m_nodes[r as usize].height = choose("stale height", 4) as i32;
        // places 3 and 4: the node above is the root itself
        let above = hang(&mut n, r, choose("place", 5));
        ABOVE.set(above);
        LEAF.set(r);
        *t = n;
        KEPT.with(|k| *k.borrow_mut() = Some(t.clone()));
        return r;
    }
    walked(t);
    ensure("the walk goes on at the node above", b_of(index == ABOVE.get() && index >= 0));
    abort_path()
}
fn walked(t: &Tree) {
    let old = KEPT.with(|k| k.borrow().clone()).unwrap();
    let r = LEAF.get();
    let is_edge = |i: i32| old.m_nodes[i as usize].child1 >= FAR || old.m_nodes[i as usize].child1 == B2_NULL_NODE;
    let below = edges(t, r, &is_edge, &|_| false);
    ensure("the walk keeps what is below", b_of(below == edges(&old, r, &is_edge, &|_| true)));
    for i in 0..old.m_nodes.len() {
        if i as i32 != r {
            ensure("the walk changes only the node it is at", same_node(&old.m_nodes[i], &t.m_nodes[i], false));
        }
    }
    ensure("the walk keeps the node in its place", b_of(t.m_root == old.m_root && t.m_nodes[r as usize].parent == ABOVE.get()));
}
fn walk() {
    if !symbolic() {
        return history();
    }
    ROUND.set(0);
    let mut t = empty();
    let remove = flag("removal");
    let a = edge_node(&mut t, "a", 0);
    let b = edge_node(&mut t, "b", 0);
    let ab = join_node(&mut t, a, b);
    let leaf = edge_node(&mut t, "c", 0);
    let top = if remove { join_node(&mut t, ab, leaf) } else { ab };
    hang(&mut t, top, 0);
    let f = t.m_nodes.len() as i32;
    t.m_nodes.push(Node { parent: FAR, height: -1, ..Node::default() });
    t.m_free_list = f;
    t.m_node_count = 50;
    hook::set::<fn(&mut Tree, i32) -> i32>("balance", stub_walk);
    hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    if remove {
        t.remove_leaf(a);
    } else {
        // the choice of the sibling plays no part here
        t.m_nodes[ab as usize].aabb = t.m_nodes[a as usize].aabb;
        t.m_root = a;
        t.m_nodes[a as usize].parent = B2_NULL_NODE;
        t.insert_leaf(leaf);
    }
    ensure("the walk looks at the nodes on its way", b_of(ROUND.get() == 1));
    walked(&t);
    ensure("the walk ends at the root", b_of(ABOVE.get() == B2_NULL_NODE));
}

fn free_chain(t: &Tree) -> Vec<i32> {
    let (mut v, mut i) = (vec![], t.m_free_list);
    while i != B2_NULL_NODE && i >= 0 && (i as usize) < t.m_nodes.len() && v.len() <= t.m_nodes.len() {
        v.push(i);
        i = t.m_nodes[i as usize].parent;
    }
    v
}
/// A pool of `n` nodes of which the given ones are free, in that order.
fn pool(n: usize, free: &[i32]) -> Tree {
    let mut t = empty();
    for i in 0..n {
        let id = edge_node(&mut t, &format!("n{}", i), 0);
        t.m_nodes[id as usize].parent = FAR;
    }
    t.m_free_list = B2_NULL_NODE;
    for f in free.iter().rev() {
        let k = *f as usize;
        t.m_nodes[k].height = -1;
        t.m_nodes[k].parent = t.m_free_list;
        t.m_nodes[k].child1 = 1;
        t.m_nodes[k].child2 = 2;
        t.m_free_list = *f;
    }
    t.m_node_capacity = n as i32;
    t.m_node_count = (n - free.len()) as i32;
    t
}
fn pools() {
    let n = [1, 2, 3, 4, 16][choose("size", 5)];
    let free: Vec<i32> = match choose("free", 4) {
        0 => vec![],
        1 => vec![0],
        2 => vec![(n - 1) as i32],
        _ => if n < 3 { vec![] } else { vec![2, 0] },
    };
    let mut t = pool(n, &free);
    let old = t.clone();
    let id = t.allocate_node();
    let was_free = free.contains(&id) || (free.is_empty() && id >= n as i32);
    ensure("nodes come from the pool", b_of(was_free && (id as usize) < t.m_nodes.len()));
    let x = &t.m_nodes[id as usize];
    ensure("a fresh node is blank", b_of(x.parent == B2_NULL_NODE && x.child1 == B2_NULL_NODE && x.child2 == B2_NULL_NODE && x.height == 0 && x.user_data.is_none() && !x.moved));
    let rest = free_chain(&t);
    ensure("the pool keeps its size in step", b_of(t.m_node_capacity as usize == t.m_nodes.len() && t.m_node_count == old.m_node_count + 1 && rest.len() as i32 + t.m_node_count == t.m_node_capacity));
    for i in 0..t.m_nodes.len() {
        let f = (i < n && free.contains(&(i as i32))) || i >= n;
        ensure("the rest of the pool stays free", b_of(rest.contains(&(i as i32)) == (f && i as i32 != id)));
        if f && i as i32 != id {
            ensure("free nodes are marked", b_of(t.m_nodes[i].height == -1));
        }
        if !f {
            ensure("allocation leaves the nodes in use", same_node(&t.m_nodes[i], &old.m_nodes[i], false));
        }
    }
    // and back
    let before = t.clone();
    t.free_node(id);
    let chain = free_chain(&t);
    ensure("a freed node is back in the pool", b_of(chain.contains(&id) && chain.len() == rest.len() + 1 && rest.iter().all(|i| chain.contains(i)) && t.m_nodes[id as usize].height == -1 && t.m_node_count == old.m_node_count));
    for i in 0..t.m_nodes.len() {
        if i as i32 != id {
            ensure("freeing leaves the other nodes", same_node(&t.m_nodes[i], &before.m_nodes[i], false));
        }
    }
    let t = Tree::new();
    ensure("a new tree is empty", b_of(t.m_root == B2_NULL_NODE && t.m_node_count == 0 && free_chain(&t).len() == t.m_nodes.len() && t.m_node_capacity as usize == t.m_nodes.len() && t.m_nodes.iter().all(|n| n.height == -1)));
}
fn stub_insert(t: &mut Tree, leaf: i32) {
    CALLS.with(|c| c.borrow_mut().push((leaf, Some(t.m_nodes[leaf as usize].clone()))));
}
fn stub_remove(t: &mut Tree, leaf: i32) {
    let _ = &t;
    CALLS.with(|c| c.borrow_mut().push((leaf, None)));
}
fn stubs() {
    CALLS.with(|c| c.borrow_mut().clear());
    hook::set::<fn(&mut Tree, i32)>("insert_leaf", stub_insert);
    hook::set::<fn(&mut Tree, i32)>("remove_leaf", stub_remove);
}
fn grown(a: B2AABB, by: f32) -> B2AABB {
    let r = B2vec2::new(by, by);
    B2AABB { lower_bound: sub(a.lower_bound, r), upper_bound: add(a.upper_bound, r) }
}
fn proxies() {
    if !symbolic() {
        return history();
    }
    let mut t = pool(3, &[1]);
    let old = t.clone();
    stubs();
    let b = abox("given");
    let id = t.create_proxy(b, &42);
    let calls = CALLS.with(|c| c.borrow().clone());
    ensure("a proxy takes a free node", b_of(id == 1 && t.m_node_count == 3));
    let n = &t.m_nodes[id as usize];
    ensure("a proxy is a leaf with the user data", b_of(n.height == 0 && n.is_leaf() && n.child2 == B2_NULL_NODE && t.get_user_data(id) == Some(42) && t.was_moved(id)));
    ensure("the stored box contains the given one", within(b, t.get_fat_aabb(id)));
    ensure("a proxy is put into the tree once", b_of(calls.len() == 1 && calls[0].0 == id && calls[0].1.is_some()));
    if let Some((_, Some(c))) = calls.first() {
        ensure("a proxy is put into the tree with its box", eqb(c.aabb, n.aabb));
        ensure("a proxy is put into the tree as a leaf", b_of(c.is_leaf() && c.height == 0));
    }
    for i in [0, 2] {
        ensure("creation leaves the other nodes", same_node(&t.m_nodes[i], &old.m_nodes[i], false));
    }
    t.clear_moved(id);
    ensure("the moved mark can be cleared", b_of(!t.was_moved(id)));
    stubs();
    let before = t.clone();
    t.destroy_proxy(id);
    let calls = CALLS.with(|c| c.borrow().clone());
    ensure("a proxy is taken out of the tree once", b_of(calls.len() == 1 && calls[0].0 == id && calls[0].1.is_none()));
    ensure("its node returns to the pool", b_of(t.m_node_count == 2 && free_chain(&t) == vec![1] && t.m_nodes[1].height == -1));
    for i in [0, 2] {
        ensure("destruction leaves the other nodes", same_node(&t.m_nodes[i], &before.m_nodes[i], false));
    }
}
fn moves() {
    if !symbolic() {
        return history();
    }
    let mut t = pool(3, &[]);
    let id = choose("which", 3) as i32;
    t.m_nodes[id as usize].moved = flag("moved before");
    let old = t.clone();
    stubs();
    let (b, d) = (abox("given"), vec2("displacement"));
    let again = t.move_proxy(id, b, d);
    let calls = CALLS.with(|c| c.borrow().clone());
    ensure("the stored box contains the box last given", within(b, t.get_fat_aabb(id)));
    let (o, n) = (&old.m_nodes[id as usize], &t.m_nodes[id as usize]);
    if again {
        let shape = calls.len() == 2 && calls[0].0 == id && calls[0].1.is_none() && calls[1].0 == id && calls[1].1.is_some();
        ensure("a proxy that leaves its box is taken out and put in again", b_of(shape));
        if let Some((_, Some(c))) = calls.last() {
            ensure("a proxy is put in again with its new box", eqb(c.aabb, n.aabb));
        }
        ensure("a proxy that is put in again is marked", b_of(t.was_moved(id)));
        ensure("the proxy keeps its data", b_of(o.user_data == n.user_data && n.height == 0 && n.is_leaf()));
        ensure("the new box leaves room", within(grown(b, B2_AABB_EXTENSION), n.aabb));
        // only a box far larger than needed is given up while it still serves
        let shift = add(b.lower_bound, scale(B2_AABB_MULTIPLIER, d));
        let needed = grown(join(b, B2AABB { lower_bound: shift, upper_bound: add(shift, sub(b.upper_bound, b.lower_bound)) }), B2_AABB_EXTENSION);
        ensure("a box that serves and is not too large is kept", not(and(&[within(b, o.aabb), within(o.aabb, needed)])));
    } else {
        ensure("moving within the stored box leaves the tree untouched", b_of(calls.is_empty()));
        ensure("moving within the stored box leaves the proxy untouched", same_node(o, n, false));
    }
    for i in 0..3 {
        if i as i32 != id {
            ensure("moving leaves the other proxies", same_node(&t.m_nodes[i], &old.m_nodes[i], false));
        }
    }
    ensure("moving keeps the pool", b_of(t.m_node_count == old.m_node_count && t.m_free_list == old.m_free_list && t.m_root == old.m_root));
}

fn inner(t: &mut Tree, a: i32, b: i32) -> i32 {
    let n = format!("i{}", t.m_nodes.len());
    let id = join_node(t, a, b);
    // any box around those below will do
    let l = &t.m_nodes[id as usize].aabb;
    let r = |s: &str| nonneg(&format!("{}.{}", n, s));
    let bx = B2AABB { lower_bound: sub(l.lower_bound, B2vec2::new(r("l"), r("b"))), upper_bound: add(l.upper_bound, B2vec2::new(r("r"), r("t"))) };
    t.m_nodes[id as usize].aabb = bx;
    for c in [a, b] {
        lemma("inner boxes contain those below", within(t.m_nodes[c as usize].aabb, bx));
    }
    id
}
/// Trees of up to `n` leaves; each leaf may stand for a whole subtree.
fn small_tree(n: usize) -> (Tree, Vec<i32>) {
    let mut t = empty();
    let ls: Vec<i32> = (0..n).map(|i| edge_node(&mut t, &format!("leaf{}", i), 0)).collect();
    let top = match n {
        0 => B2_NULL_NODE,
        1 => ls[0],
        2 => inner(&mut t, ls[0], ls[1]),
        _ => {
            let a = inner(&mut t, ls[0], ls[1]);
            if flag("right") { inner(&mut t, a, ls[2]) } else { inner(&mut t, ls[2], a) }
        }
    };
    if n > 0 {
        hang(&mut t, top, 0);
    }
    t.m_node_capacity = t.m_nodes.len() as i32;
    t.m_node_count = t.m_node_capacity;
    t.m_free_list = B2_NULL_NODE;
    (t, ls)
}
fn queries() {
    let (t, ls) = small_tree(choose("leaves", 4));
    let q = abox("area");
    let stop = choose("stop at", 4);
    let mut seen = vec![];
    if symbolic() {
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    t.query(
        |id: i32| {
            seen.push(id);
            seen.len() != stop
        },
        q,
    );
    hook::clear();
    for i in 0..seen.len() {
        ensure("queries offer proxies", b_of(ls.contains(&seen[i])));
        ensure("queries offer a proxy once", b_of(!seen[..i].contains(&seen[i])));
        ensure("queries offer only what overlaps", overlap(t.m_nodes[seen[i] as usize].aabb, q));
    }
    let stopped = stop > 0 && seen.len() >= stop;
    ensure("queries stop when told", b_of(stop == 0 || seen.len() <= stop));
    for l in &ls {
        if !seen.contains(l) && !stopped {
            ensure("queries offer all that overlaps", not(overlap(t.m_nodes[*l as usize].aabb, q)));
        }
    }
}
fn rays() {
    let n = choose("leaves", 3);
    let (t, ls) = small_tree(n);
    let p1 = vec2("p1");
    // direction by quadrant
    let side = |s: &str| match choose(s, 3) {
        0 => 0.0,
        1 => pos(s),
        _ => -pos(s),
    };
    let d = B2vec2::new(side("dx"), side("dy"));
    let l2 = dot(d, d);
    assume(gt(l2, 0.0));
    let far = ge(l2.sqrt(), B2_EPSILON);
    assume(far);
    lemma("rays have a length", gt(l2.sqrt(), 0.0));
    let input = B2rayCastInput { p1, p2: add(p1, d), max_fraction: nonneg("max fraction") };
    // a point of the ray
    let at = nonneg("at");
    let p = add(p1, scale(at, d));
    let inside = |b: B2AABB| within(B2AABB { lower_bound: p, upper_bound: p }, b);
    let u = scale(1.0 / l2.sqrt(), B2vec2::new(-d.y, d.x));
    let mag = |x: f32| sel(lt(x, 0.0), -x, x);
    if symbolic() {
        for i in 0..t.m_nodes.len() {
            let b = t.m_nodes[i].aabb;
            let c = scale(0.5, add(b.lower_bound, b.upper_bound));
            let h = scale(0.5, sub(b.upper_bound, b.lower_bound));
            let (ux, uy) = (mag(u.x), mag(u.y));
            let e = sub(p, c);
            lemma("offset of a point within a box", implies(inside(b), and(&[le(mag(e.x), h.x), le(mag(e.y), h.y)])));
            lemma("distance of a box that the ray crosses", implies(inside(b), le(mag(dot(u, e)), ux * h.x + uy * h.y)));
            lemma("distance of the ray", eq(dot(u, e), dot(u, sub(p1, c))));
        }
    }
    let mut seen = vec![];
    let mut max = input.max_fraction;
    let mut least = max;
    let mut ended = false;
    if symbolic() {
        hook::set::<fn(B2AABB, B2AABB) -> bool>("b2_test_overlap", any_overlap);
    }
    t.ray_cast(
        |i: &B2rayCastInput, id: i32| {
            ensure("ray casts end on zero", b_of(!ended));
            ensure("the callback sees the ray", and(&[eqv(i.p1, input.p1), eqv(i.p2, input.p2)]));
            ensure("the callback sees the remaining length", eq(i.max_fraction, max));
            seen.push(id);
            match choose(&format!("answer {}", seen.len()), 3) {
                0 => -1.0,
                1 => {
                    ended = true;
                    0.0
                }
                _ => {
                    max = pos(&format!("clip {}", seen.len()));
                    least = sel(lt(max, least), max, least);
                    max
                }
            }
        },
        &input,
    );
    hook::clear();
    for i in 0..seen.len() {
        ensure("ray casts offer proxies", b_of(ls.contains(&seen[i])));
        ensure("ray casts offer a proxy once", b_of(!seen[..i].contains(&seen[i])));
    }
    for l in &ls {
        if !seen.contains(l) && !ended {
            // an answer beyond the length so far would lengthen the ray: only the shortest counts
            ensure("ray casts never skip a proxy the remaining ray crosses", not(and(&[le(at, input.max_fraction), le(at, least), inside(t.m_nodes[*l as usize].aabb)])));
        }
    }
}
fn shifted() {
    let (mut t, ls) = small_tree(choose("leaves", 4));
    let o = vec2("origin");
    let old = t.clone();
    t.shift_origin(o);
    for i in 0..t.m_nodes.len() {
        let (a, b) = (&t.m_nodes[i], &old.m_nodes[i]);
        ensure("shifting the origin moves every box", eqb(a.aabb, B2AABB { lower_bound: sub(b.aabb.lower_bound, o), upper_bound: sub(b.aabb.upper_bound, o) }));
        ensure("shifting the origin keeps the tree", b_of(a.parent == b.parent && a.child1 == b.child1 && a.child2 == b.child2 && a.height == b.height && a.user_data == b.user_data && a.moved == b.moved));
    }
    ensure("shifting the origin keeps the proxies", b_of(t.m_root == old.m_root && t.m_node_count == old.m_node_count && ls.len() <= t.m_nodes.len()));
}
/// The whole tree: `live` maps each proxy to the box last given and its data.
fn whole(t: &Tree, live: &BTreeMap<i32, (B2AABB, i32)>) {
    let ids: Vec<i32> = live.keys().copied().collect();
    if ids.is_empty() {
        ensure("the leaves are exactly the live proxies", b_of(t.m_root == B2_NULL_NODE));
    } else {
        ensure("the top of the tree is its root", b_of(t.m_root >= 0 && t.m_nodes[t.m_root as usize].parent == B2_NULL_NODE));
        let is_edge = |i: i32| t.m_nodes[i as usize].is_leaf();
        ensure("the leaves are exactly the live proxies", b_of(edges(t, t.m_root, &is_edge, &|_| false) == ids));
    }
    for (id, (b, data)) in live {
        let n = &t.m_nodes[*id as usize];
        ensure("the proxy keeps its data", b_of(t.get_user_data(*id) == Some(*data) && n.height == 0 && n.is_leaf() && n.child2 == B2_NULL_NODE));
        ensure("the stored box contains the box last given", within(*b, t.get_fat_aabb(*id)));
    }
    let free = free_chain(t);
    let used = if ids.is_empty() { 0 } else { 2 * ids.len() - 1 };
    ensure("the pool keeps its size in step", b_of(t.m_node_capacity as usize == t.m_nodes.len() && t.m_node_count as usize == used && free.len() + used == t.m_nodes.len()));
    ensure("free nodes are marked", b_of(free.iter().all(|i| t.m_nodes[*i as usize].height == -1)));
}
fn rebuilds() {
    let n = choose("leaves", 4);
    let mut t = Tree::new();
    let mut live = BTreeMap::new();
    // the tree before the rebuild may have any shape
    if symbolic() {
        let (s, ls) = small_tree(n);
        t = s;
        for l in ls {
            live.insert(l, (t.m_nodes[l as usize].aabb, 1000 + l));
        }
    } else {
        for i in 0..n {
            let b = abox(&format!("leaf{}", i));
            live.insert(t.create_proxy(b, &(i as i32)), (b, i as i32));
        }
    }
    t.rebuild_bottom_up();
    whole(&t, &live);
    t.validate();
}
/// The figures a tree reports about itself.
fn figures() {
    let n = choose("leaves", 6);
    let spare = choose("spare", 3);
    let mut t = empty();
    for i in 0..spare {
        let k = edge_node(&mut t, &format!("spare{}", i), 0);
        t.m_nodes[k as usize].height = -1;
    }
    let ls: Vec<i32> = (0..n).map(|i| edge_node(&mut t, &format!("leaf{}", i), 0)).collect();
    // one after another, or in pairs first
    let pairs = n > 3 && flag("pairs");
    let left = flag("left");
    let mut todo = ls.clone();
    let mut all = vec![];
    if pairs {
        let (a, b) = (join_node(&mut t, ls[0], ls[1]), join_node(&mut t, ls[2], ls[3]));
        all.extend(vec![a, b]);
        todo = [vec![a, b], ls[4..].to_vec()].concat();
    }
    while todo.len() > 1 {
        let (a, b) = (todo.remove(0), todo.remove(0));
        let x = if left { join_node(&mut t, a, b) } else { join_node(&mut t, b, a) };
        all.push(x);
        todo.insert(0, x);
    }
    if n > 0 {
        t.m_nodes[todo[0] as usize].parent = B2_NULL_NODE;
        t.m_root = todo[0];
    }
    t.m_node_capacity = t.m_nodes.len() as i32;
    t.m_node_count = t.m_node_capacity - spare as i32;
    let h = |i: i32| t.m_nodes[i as usize].height;
    ensure("the height of a tree is that of its root", b_of(t.get_height() == if n > 0 { h(t.m_root) } else { 0 }));
    let worst = all.iter().map(|i| (h(t.m_nodes[*i as usize].child1) - h(t.m_nodes[*i as usize].child2)).abs()).max().unwrap_or(0);
    ensure("the balance of a tree is its largest difference in height", b_of(t.get_max_balance() == worst));
    if n == 0 {
        ensure("the area ratio of an empty tree is zero", eq(t.get_area_ration(), 0.0));
        return;
    }
    let around = |i: i32| {
        let b = t.m_nodes[i as usize].aabb;
        2.0 * (b.upper_bound.x - b.lower_bound.x + b.upper_bound.y - b.lower_bound.y)
    };
    assume(gt(around(t.m_root), 0.0));
    let total = ls.iter().chain(all.iter()).fold(var("zero") * 0.0, |s, i| s + around(*i));
    ensure("the area ratio weighs all boxes by that of the root", eq(t.get_area_ration() * around(t.m_root), total));
}
/// Operations one after another on the real code, for the samples that look for a failing input.
fn history() {
    let mut t = Tree::new();
    let mut live: BTreeMap<i32, (B2AABB, i32)> = BTreeMap::new();
    let steps = 1 + choose("steps", 40);
    let ground = |n: &str| {
        let l = B2vec2::new(var_hint(&format!("{}.x", n), -9.0, 9.0), var_hint(&format!("{}.y", n), -9.0, 9.0));
        B2AABB { lower_bound: l, upper_bound: add(l, B2vec2::new(nonneg(&format!("{}.w", n)), nonneg(&format!("{}.h", n)))) }
    };
    for k in 0..steps {
        let pick = |m: usize| choose(&format!("pick {}", k), m);
        let op = choose(&format!("op {}", k), 8);
        if live.is_empty() || op < 4 {
            let b = ground(&format!("box {}", k));
            let id = t.create_proxy(b, &(k as i32));
            ensure("nodes come from the pool", b_of(!live.contains_key(&id)));
            live.insert(id, (b, k as i32));
        } else {
            let id = *live.keys().nth(pick(live.len())).unwrap();
            if op < 6 {
                t.destroy_proxy(id);
                live.remove(&id);
            } else {
                let old = t.get_fat_aabb(id);
                let mut b = ground(&format!("box {}", k));
                if flag(&format!("near {}", k)) {
                    b = B2AABB { lower_bound: add(old.lower_bound, B2vec2::new(B2_AABB_EXTENSION, B2_AABB_EXTENSION)), upper_bound: old.upper_bound };
                    assume(within(B2AABB { lower_bound: b.lower_bound, upper_bound: b.lower_bound }, b));
                }
                t.clear_moved(id);
                let before = t.m_insertion_count;
                let again = t.move_proxy(id, b, vec2(&format!("displacement {}", k)));
                ensure("moving within the stored box leaves the tree untouched", b_of(again || before == t.m_insertion_count));
                if !again {
                    ensure("moving within the stored box leaves the proxy untouched", eqb(old, t.get_fat_aabb(id)));
                }
                ensure("a proxy that is put in again is marked", b_of(t.was_moved(id) == again));
                let data = live[&id].1;
                live.insert(id, (b, data));
            }
        }
        whole(&t, &live);
    }
}
contracts! { selection_bodies, rotation, insertion, first_leaf, removal, walk, pools, proxies, moves, queries, rays, shifted, rebuilds, figures }
