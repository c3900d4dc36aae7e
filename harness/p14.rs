mod common;
mod phys;
use common::selection_bodies;
use phys::*;

struct Scene {
    pc: B2contactPositionConstraint,
    pos: Vec<B2position>,
    n: B2vec2,
    /// separation and contact point of each manifold point
    sep: [f32; 2],
    point: [B2vec2; 2],
}
/// One position constraint in any geometry, written in the frame of the world normal.
fn scene(n: usize, mt: B2manifoldType) -> Scene {
    let (ma, ia) = inv("a");
    let (mb, ib) = inv("b");
    if known_eq(ma, 0.0) && known_eq(mb, 0.0) {
        abort_path();
    }
    let (ka, kb) = if flag("swapped") { (2, 0) } else { (0, 1) };
    let nn = unit("wn");
    let ca = vec2("ca");
    let mut pos: Vec<B2position> = (0..3).map(|k| B2position { c: vec2(&format!("c{}", k)), a: var_hint(&format!("a{}", k), -4.0, 4.0) }).collect();
    pos[ka].c = ca;
    pos[kb].c = add(ca, framed(nn, "cb"));
    let (lca, lcb) = (vec2("lca"), vec2("lcb"));
    let pose = |p: B2position, lc: B2vec2| { let q = B2Rot { s: p.a.sin(), c: p.a.cos() }; B2Transform { p: sub(p.c, rotv(q, lc)), q } };
    let (xa, xb) = (pose(pos[ka], lca), pose(pos[kb], lcb));
    let (ra, rb) = (nonneg("radius_a"), nonneg("radius_b"));
    let mut pc = B2contactPositionConstraint::default();
    pc.index_a = ka as i32;
    pc.index_b = kb as i32;
    pc.inv_mass_a = ma;
    pc.inv_mass_b = mb;
    pc.inv_ia = ia;
    pc.inv_ib = ib;
    pc.local_center_a = lca;
    pc.local_center_b = lcb;
    pc.radius_a = ra;
    pc.radius_b = rb;
    pc.mtype = mt;
    pc.point_count = n as i32;
    pc.local_normal = unit("unused");
    let p0 = add(ca, framed(nn, "p"));
    let mut sep = [0.0, 0.0];
    let mut point = [zero2(), zero2()];
    match mt {
        B2manifoldType::ECircles => {
            // centres closer than the smallest length the code treats as a direction are left out
            let gap = nonneg("gap");
            assume(ge(gap, B2_EPSILON));
            pc.local_point = to_local(xa, p0);
            pc.local_points[0] = to_local(xb, add(p0, scale(gap, nn)));
            sep[0] = gap - ra - rb;
            point[0] = add(p0, scale(0.5 * gap, nn));
        }
        _ => {
            let face_a = matches!(mt, B2manifoldType::EFaceA);
            let (xr, xi) = if face_a { (xa, xb) } else { (xb, xa) };
            let out = if face_a { nn } else { scale(-1.0, nn) };
            pc.local_normal = to_local(B2Transform { p: zero2(), q: xr.q }, out);
            pc.local_point = to_local(xr, p0);
            for j in 0..n {
                let h = var(&format!("h{}", j));
                let q = add(p0, add(scale(h, out), scale(var(&format!("s{}", j)), tangent(nn))));
                pc.local_points[j] = to_local(xi, q);
                sep[j] = h - ra - rb;
                point[j] = q;
            }
        }
    }
    Scene { pc, pos, n: nn, sep, point }
}
fn any_type(circles: bool) -> B2manifoldType {
    match choose("manifold", if circles { 3 } else { 2 }) {
        0 => B2manifoldType::EFaceA,
        1 => B2manifoldType::EFaceB,
        _ => B2manifoldType::ECircles,
    }
}
struct Mode { toi: Option<(i32, i32)>, rate: f32, tol: f32, ma: f32, ia: f32, mb: f32, ib: f32 }
fn mode(s: &Scene, few: bool) -> Mode {
    let p = &s.pc;
    if !flag("continuous") {
        return Mode { toi: None, rate: B2_BAUMGARTE, tol: 3.0 * B2_LINEAR_SLOP, ma: p.inv_mass_a, ia: p.inv_ia, mb: p.inv_mass_b, ib: p.inv_ib };
    }
    // only the two designated bodies may move
    let (x, y, fa, fb) = match choose("designated", if few { 2 } else { 4 }) + if few { 1 } else { 0 } {
        0 => (p.index_a, p.index_b, true, true),
        1 => (p.index_b, p.index_a, true, true),
        2 => (p.index_a, 3, true, false),
        _ => (3, p.index_b, false, true),
    };
    let g = |f: bool, x: f32| if f { x } else { 0.0 };
    Mode { toi: Some((x, y)), rate: B2_TOI_BAUMGARTE, tol: 1.5 * B2_LINEAR_SLOP, ma: g(fa, p.inv_mass_a), ia: g(fa, p.inv_ia), mb: g(fb, p.inv_mass_b), ib: g(fb, p.inv_ib) }
}
fn run(s: &Scene, m: &Mode) -> (Vec<B2position>, bool) {
    let mut solver = B2contactSolver::default();
    solver.m_position_constraints = vec![s.pc];
    let mut pos = s.pos.clone();
    let r = match m.toi {
        None => solver.solve_position_constraints(&mut pos),
        Some((a, b)) => solver.solve_toiposition_constraints(a, b, &mut pos),
    };
    (pos, r)
}
fn response(s: &Scene, m: &Mode, j: usize) -> f32 {
    let (ka, kb) = (s.pc.index_a as usize, s.pc.index_b as usize);
    let r = (cross(sub(s.point[j], s.pos[ka].c), s.n), cross(sub(s.point[j], s.pos[kb].c), s.n));
    keff(m.ma, m.ia, m.mb, m.ib, r, r)
}
/// Poses after one push of the given strength at a manifold point.
fn pushed(s: &Scene, m: &Mode, j: usize, lambda: f32, new: &[B2position]) {
    let (ka, kb) = (s.pc.index_a as usize, s.pc.index_b as usize);
    let p = scale(lambda, s.n);
    let (oa, ob) = (s.pos[ka], s.pos[kb]);
    ensure("first body moves against the normal by its share", and(&[eqv(new[ka].c, sub(oa.c, scale(m.ma, p))), eq(new[ka].a, oa.a - m.ia * cross(sub(s.point[j], oa.c), p))]));
    ensure("second body moves along the normal by its share", and(&[eqv(new[kb].c, add(ob.c, scale(m.mb, p))), eq(new[kb].a, ob.a + m.ib * cross(sub(s.point[j], ob.c), p))]));
}
fn others(s: &Scene, new: &[B2position]) {
    for k in 0..3 {
        if k as i32 != s.pc.index_a && k as i32 != s.pc.index_b {
            ensure("other bodies stay", and(&[eqv(new[k].c, s.pos[k].c), eq(new[k].a, s.pos[k].a)]));
        }
    }
}
fn correction(sep: f32, rate: f32) -> f32 {
    let c = rate * (sep + B2_LINEAR_SLOP);
    sel(ge(c, 0.0), 0.0, sel(le(c, -B2_MAX_LINEAR_CORRECTION), -B2_MAX_LINEAR_CORRECTION, c))
}
fn one_point() {
    summaries(false);
    let s = scene(1, any_type(true));
    let m = mode(&s, false);
    let movable = !(known_eq(m.ma, 0.0) && known_eq(m.mb, 0.0));
    let k = response(&s, &m, 0);
    if movable {
        lemma("some body gives way", gt(k, 0.0));
    }
    let (new, solved) = run(&s, &m);
    let c = correction(s.sep[0], m.rate);
    let lambda = if movable { -c / k } else { 0.0 };
    pushed(&s, &m, 0, lambda, &new);
    ensure("never pulls together", ge(lambda, 0.0));
    ensure("overlap within the slop is left alone", implies(ge(s.sep[0], -B2_LINEAR_SLOP), eq(lambda, 0.0)));
    ensure("one correction is bounded", and(&[ge(c, -B2_MAX_LINEAR_CORRECTION), le(c, 0.0)]));
    others(&s, &new);
    ensure("success exactly when the overlap is within tolerance", iff(b_of(solved), ge(s.sep[0], -m.tol)));
}
/// The first point is fine, the second one is corrected: from the unchanged pose.
fn second_point() {
    summaries(false);
    let s = scene(2, any_type(false));
    assume(ge(s.sep[0], -B2_LINEAR_SLOP));
    let m = mode(&s, false);
    let movable = !(known_eq(m.ma, 0.0) && known_eq(m.mb, 0.0));
    if movable {
        lemma("some body gives way", gt(response(&s, &m, 0), 0.0));
        lemma("some body gives way", gt(response(&s, &m, 1), 0.0));
    }
    let (new, solved) = run(&s, &m);
    let lambda = if movable { -correction(s.sep[1], m.rate) / response(&s, &m, 1) } else { 0.0 };
    pushed(&s, &m, 1, lambda, &new);
    others(&s, &new);
    ensure("success exactly when the worst overlap is within tolerance", iff(b_of(solved), ge(s.sep[1], -m.tol)));
}
/// Both points corrected in turn, bodies that cannot turn: the second from the moved pose.
fn two_points() {
    summaries(false);
    let mut s = scene(2, any_type(false));
    if s.pc.index_a != 0 || !known_eq(s.pc.inv_ia, 0.0) || !known_eq(s.pc.inv_ib, 0.0) {
        abort_path();
    }
    let m = mode(&s, true);
    let (ka, kb) = (s.pc.index_a as usize, s.pc.index_b as usize);
    let k = m.ma + m.mb;
    let movable = !(known_eq(m.ma, 0.0) && known_eq(m.mb, 0.0));
    if movable {
        lemma("some body gives way", gt(k, 0.0));
    }
    let (new, solved) = run(&s, &m);
    let c0 = correction(s.sep[0], m.rate);
    // the first push opens the gap by its full size
    let sep1 = if movable { s.sep[1] - c0 } else { s.sep[1] };
    let c1 = correction(sep1, m.rate);
    let lambda = if movable { -(c0 + c1) / k } else { 0.0 };
    ensure("both pushes move the first body", and(&[eqv(new[ka].c, sub(s.pos[ka].c, scale(m.ma * lambda, s.n))), eq(new[ka].a, s.pos[ka].a)]));
    ensure("both pushes move the second body", and(&[eqv(new[kb].c, add(s.pos[kb].c, scale(m.mb * lambda, s.n))), eq(new[kb].a, s.pos[kb].a)]));
    others(&s, &new);
    ensure("solved exactly when both overlaps are within tolerance", iff(b_of(solved), and(&[ge(s.sep[0], -m.tol), ge(sep1, -m.tol)])));
}
/// The same for turning bodies: pushes stay opposite and weighted by inverse mass.
fn two_points_turning() {
    summaries(false);
    let s = scene(2, any_type(false));
    if s.pc.index_a != 0 || known_eq(s.pc.inv_ia, 0.0) || known_eq(s.pc.inv_ib, 0.0) {
        abort_path();
    }
    let m = mode(&s, true);
    assume(lt(s.sep[0], -m.tol));
    if m.toi.is_some() { abort_path(); }
    assume(gt(m.rate * (s.sep[0] + B2_LINEAR_SLOP), -B2_MAX_LINEAR_CORRECTION));
    lemma("some body gives way", gt(response(&s, &m, 0), 0.0));
    let (new, solved) = run(&s, &m);
    let (ka, kb) = (s.pc.index_a as usize, s.pc.index_b as usize);
    let (da, db) = (sub(new[ka].c, s.pos[ka].c), sub(new[kb].c, s.pos[kb].c));
    ensure("pushes are opposite, weighted by inverse mass", eqv(scale(m.mb, da), scale(-m.ma, db)));
    others(&s, &new);
    let _ = solved;
}
/// Two contacts in the list are both handled; the verdict is about the worst.
fn two_contacts() {
    summaries(false);
    let mk = |k: usize| {
        let mut pc = B2contactPositionConstraint::default();
        pc.index_a = k as i32;
        pc.index_b = k as i32 + 1;
        pc.inv_mass_b = if k == 1 { pos("m") } else { 0.0 };
        pc.mtype = B2manifoldType::EFaceA;
        pc.point_count = 1;
        pc.local_normal = B2vec2 { x: 0.0, y: 1.0 };
        pc.local_points[0] = B2vec2 { x: 0.0, y: var(&format!("h{}", k)) };
        pc
    };
    let (p, q) = (mk(0), mk(1));
    let mut solver = B2contactSolver::default();
    solver.m_position_constraints = vec![p, q];
    let mut pos: Vec<B2position> = (0..3).map(|_| B2position { c: zero2(), a: 0.0 }).collect();
    let toi = flag("continuous");
    let (rate, tol) = if toi { (B2_TOI_BAUMGARTE, 1.5 * B2_LINEAR_SLOP) } else { (B2_BAUMGARTE, 3.0 * B2_LINEAR_SLOP) };
    let solved = if toi { solver.solve_toiposition_constraints(1, 2, &mut pos) } else { solver.solve_position_constraints(&mut pos) };
    ensure("the second contact is corrected", eq(pos[2].c.y, -correction(var("h1"), rate)));
    ensure("the first contact between immovable bodies moves nothing", eqv(pos[0].c, zero2()));
    ensure("solved exactly when every overlap is within tolerance", iff(b_of(solved), and(&[ge(var("h0"), -tol), ge(var("h1"), -tol)])));
}
contracts! { one_point, second_point, two_points, two_points_turning, two_contacts, selection_bodies }
