mod common;
use box2d_rs::b2_growable_stack::*;
use box2d_rs::b2rs_double_linked_list::*;
use box2d_rs::b2rs_linked_list::*;
use common::*;
use std::cell::{Cell, RefCell};
use std::rc::{Rc, Weak};

/// Any history of a stack against a sequence.
struct Twin<const N: usize> {
    s: B2growableStack<f32, N>,
    v: Vec<f32>,
    n: usize,
}
impl<const N: usize> Twin<N> {
    fn new() -> Self {
        Twin { s: B2growableStack::new(), v: vec![], n: 0 }
    }
    fn push(&mut self) {
        self.n += 1;
        let x = var(&format!("element {}", self.n));
        self.s.push(&x);
        self.v.push(x);
        self.count();
    }
    fn pop(&mut self) {
        let x = self.s.pop();
        ensure("the last element in is the first out", eq(x, self.v.pop().unwrap()));
        self.count();
    }
    fn count(&self) {
        ensure("the stack counts its elements", b_of(self.s.get_count() == self.v.len()));
    }
    fn drain(&mut self) {
        while !self.v.is_empty() {
            self.pop();
        }
    }
}
fn small_stack() {
    let mut t = Twin::<2>::new();
    t.count();
    for i in 0..12 {
        if t.v.is_empty() || flag(&format!("push at {}", i)) {
            t.push();
        } else {
            t.pop();
        }
    }
    t.drain();
}
fn large<const N: usize>(up: usize, down: usize, again: usize) {
    let mut t = Twin::<N>::new();
    for _ in 0..up {
        t.push();
    }
    for _ in 0..down.min(up) {
        t.pop();
    }
    for _ in 0..again {
        t.push();
    }
    t.drain();
}
fn large_stack() {
    let at = |s: &str, v: &[usize]| v[choose(s, v.len())];
    let (up, down, again) = (at("up", &[255, 256, 257, 600]), at("down", &[0, 1, 2, 256, 600]), at("again", &[0, 1, 2, 300]));
    large::<256>(up, down, again);
}
fn one_stack() {
    large::<1>(choose("up", 5), choose("down", 5), choose("again", 4));
}

/// A node that complains when touched outside of the footprint of an operation.
#[derive(Default)]
struct Node {
    next: Option<Rc<RefCell<Node>>>,
    prev: Option<Weak<RefCell<Node>>>,
    far: Cell<bool>,
}
impl Node {
    fn touch(&self) {
        ensure("only the neighbourhood is touched", b_of(!self.far.get()));
    }
}
impl LinkedListNode<Node> for Node {
    fn get_next(&self) -> Option<Rc<RefCell<Node>>> {
        self.touch();
        self.next.clone()
    }
    fn take_next(&mut self) -> Option<Rc<RefCell<Node>>> {
        self.touch();
        self.next.take()
    }
    fn set_next(&mut self, v: Option<Rc<RefCell<Node>>>) {
        self.touch();
        self.next = v;
    }
}
impl DoubleLinkedListNode<Node> for Node {
    fn get_prev(&self) -> Option<Weak<RefCell<Node>>> {
        self.touch();
        self.prev.clone()
    }
    fn set_prev(&mut self, v: Option<Weak<RefCell<Node>>>) {
        self.touch();
        self.prev = v;
    }
}
type Ptr = Rc<RefCell<Node>>;
fn node() -> Ptr {
    Rc::new(RefCell::new(Node::default()))
}
fn same_nodes(a: &[Ptr], b: &[Ptr]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| Rc::ptr_eq(x, y))
}
fn far(all: &[Ptr], near: impl Fn(usize) -> bool) {
    for (i, n) in all.iter().enumerate() {
        n.borrow().far.set(!near(i));
    }
}
/// Links of a list written out, so that no operation is needed to make one.
fn chained(n: usize) -> Vec<Ptr> {
    let v: Vec<Ptr> = (0..n).map(|_| node()).collect();
    for i in 0..n {
        if i + 1 < n {
            v[i].borrow_mut().next = Some(v[i + 1].clone());
        }
        if i > 0 {
            v[i].borrow_mut().prev = Some(Rc::downgrade(&v[i - 1]));
        }
    }
    v
}
fn walked<I: Iterator<Item = Ptr>>(it: I) -> Vec<Ptr> {
    it.take(20).collect()
}
fn double_ok(l: &DoubleLinkedList<Node>, want: &[Ptr]) {
    far(want, |_| true);
    ensure("iteration yields exactly the elements in order", b_of(same_nodes(&walked(l.iter()), want)));
    let back = (0..want.len()).all(|i| match &want[i].borrow().prev {
        None => i == 0,
        Some(p) => i > 0 && p.upgrade().map_or(false, |p| Rc::ptr_eq(&p, &want[i - 1])),
    });
    ensure("links back match links forward", b_of(back));
    ensure("nothing follows the last", b_of(want.last().map_or(true, |n| n.borrow().next.is_none())));
}
fn double_push() {
    let n = choose("length", 6);
    let mut want = chained(n);
    let mut l = DoubleLinkedList::<Node>::default();
    l.head = want.first().cloned();
    let x = node();
    // links of an earlier life
    if flag("used before") {
        let old = node();
        x.borrow_mut().prev = Some(Rc::downgrade(&old));
        x.borrow_mut().next = Some(old);
    }
    far(&want, |i| i == 0);
    l.push_front(x.clone());
    want.insert(0, x);
    double_ok(&l, &want);
}
fn double_remove() {
    let n = choose("length", 7) + 1;
    let mut want = chained(n);
    let k = choose("which", n);
    let mut l = DoubleLinkedList::<Node>::default();
    l.head = want.first().cloned();
    far(&want, |i| i + 1 >= k && i <= k + 1);
    l.remove(want[k].clone());
    let x = want.remove(k);
    double_ok(&l, &want);
    ensure("a removed element is no longer referred to", b_of(Rc::strong_count(&x) == 1));
}
/// Elements may be removed while being iterated over.
fn double_iterate() {
    let n = choose("length", 6);
    let all = chained(n);
    let mut l = DoubleLinkedList::<Node>::default();
    l.head = all.first().cloned();
    let mut want = vec![];
    let mut seen = vec![];
    for (i, x) in l.clone().iter().take(20).enumerate() {
        seen.push(x.clone());
        if flag(&format!("remove {}", i)) {
            l.remove(x);
        } else {
            want.push(x);
        }
    }
    ensure("removal does not disturb an iteration", b_of(same_nodes(&seen, &all)));
    double_ok(&l, &want);
    let first = want.first().cloned();
    if flag("clear") {
        l.clear();
        ensure("a cleared list is empty", b_of(l.iter().next().is_none()));
        if let Some(x) = first {
            ensure("clearing leaves the elements linked", b_of(x.borrow().next.is_some() == (want.len() > 1)));
        }
    } else {
        l.remove_all();
        ensure("a list is empty when all are removed", b_of(l.iter().next().is_none()));
        ensure("removed elements are unlinked", b_of(want.iter().all(|x| x.borrow().next.is_none())));
    }
}
fn single_ok(l: &LinkedList<Node>, want: &[Ptr]) {
    far(want, |_| true);
    ensure("iteration yields exactly the elements in order", b_of(same_nodes(&walked(l.iter()), want)));
    ensure("the front is the first", b_of(match (l.front(), want.first()) {
        (None, None) => true,
        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }));
}
fn single() {
    let n = choose("length", 6);
    let mut want = chained(n);
    let mut l = LinkedList::<Node>::default();
    l.head = want.first().cloned();
    match choose("change", 5) {
        0 => {
            let x = node();
            if flag("used before") {
                x.borrow_mut().next = Some(node());
            }
            far(&want, |_| false);
            l.push_front(x.clone());
            want.insert(0, x);
        }
        1 => {
            if n > 0 {
                let k = choose("which", n);
                far(&want, |i| i <= k);
                l.remove(want[k].clone());
                want.remove(k);
            }
        }
        2 => {
            l.remove_all();
            ensure("removed elements are unlinked", b_of(want.iter().all(|x| x.borrow().next.is_none())));
            want.clear();
        }
        3 => {
            l.clear();
            want.clear();
        }
        _ => {
            let all = want.clone();
            let mut seen = vec![];
            for (i, x) in l.clone().iter().take(20).enumerate() {
                seen.push(x.clone());
                if flag(&format!("remove {}", i)) {
                    l.remove(x.clone());
                    want.retain(|y| !Rc::ptr_eq(&x, y));
                }
            }
            ensure("removal does not disturb an iteration", b_of(same_nodes(&seen, &all)));
        }
    }
    single_ok(&l, &want);
    let c = l.clone();
    single_ok(&c, &want);
}
/// Elements put in one after the other come out in reverse.
fn histories() {
    let mut l = DoubleLinkedList::<Node>::default();
    let mut s = LinkedList::<Node>::default();
    let (mut vl, mut vs): (Vec<Ptr>, Vec<Ptr>) = (vec![], vec![]);
    for i in 0..7 {
        let k = choose(&format!("change {}", i), vl.len() + 1);
        if k == 0 {
            let (x, y) = (node(), node());
            l.push_front(x.clone());
            s.push_front(y.clone());
            vl.insert(0, x);
            vs.insert(0, y);
        } else {
            l.remove(vl.remove(k - 1));
            s.remove(vs.remove(k - 1));
        }
        double_ok(&l, &vl);
        single_ok(&s, &vs);
    }
}
contracts! { selection_bodies, small_stack, large_stack, one_stack, double_push, double_remove, double_iterate, single, histories }
