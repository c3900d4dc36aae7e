mod common;
mod phys;
use common::selection_bodies;
use phys::*;
use std::sync::atomic::Ordering;

fn vels() -> Vec<B2velocity> {
    (0..3).map(|i| B2velocity { v: vec2(&format!("v{}", i)), w: var(&format!("w{}", i)) }).collect()
}
fn vels_in(nn: B2vec2) -> Vec<B2velocity> {
    (0..3).map(|i| B2velocity { v: framed(nn, &format!("v{}", i)), w: var(&format!("w{}", i)) }).collect()
}
fn indices() -> (usize, usize) {
    match choose("bodies", 3) {
        0 => (0, 1),
        1 => (2, 0),
        _ => (1, 2),
    }
}
/// One velocity constraint as the set-up leaves it: arms from the mass centres to the contact points, effective masses
/// the inverses of the responses along normal and tangent.
fn constraint(n: usize, ia: usize, ib: usize) -> B2contactVelocityConstraint {
    let (ma, iia) = inv("a");
    let (mb, iib) = inv("b");
    // at least one body can move
    if known_eq(ma, 0.0) && known_eq(mb, 0.0) {
        abort_path();
    }
    let mut c = B2contactVelocityConstraint::default();
    c.normal = unit("n");
    c.index_a = ia as i32;
    c.index_b = ib as i32;
    c.inv_mass_a = ma;
    c.inv_mass_b = mb;
    c.inv_ia = iia;
    c.inv_ib = iib;
    c.friction = nonneg("friction");
    c.restitution = nonneg("restitution");
    c.threshold = nonneg("threshold");
    c.tangent_speed = var("tangent_speed");
    c.point_count = n as i32;
    c.contact_index = 0;
    let t = tangent(c.normal);
    let d = framed(c.normal, "d"); // c_a - c_b
    for j in 0..2 {
        let p = &mut c.points[j];
        let x = framed(c.normal, &format!("r{}", j));
        p.r_a = x;
        p.r_b = add(x, d);
        p.normal_impulse = nonneg(&format!("ni{}", j));
        p.tangent_impulse = var(&format!("ti{}", j));
        p.velocity_bias = nonneg(&format!("bias{}", j));
        let rn = (cross(p.r_a, c.normal), cross(p.r_b, c.normal));
        let rt = (cross(p.r_a, t), cross(p.r_b, t));
        p.normal_mass = 1.0 / keff(ma, iia, mb, iib, rn, rn);
        p.tangent_mass = 1.0 / keff(ma, iia, mb, iib, rt, rt);
    }
    c
}
fn solver(c: Vec<B2contactVelocityConstraint>) -> B2contactSolver {
    let mut s = B2contactSolver::default();
    s.m_velocity_constraints = c;
    s
}
fn rel(c: &B2contactVelocityConstraint, j: usize, v: &[B2velocity]) -> B2vec2 {
    let (a, b) = (v[c.index_a as usize], v[c.index_b as usize]);
    sub(add(b.v, sxv(b.w, c.points[j].r_b)), add(a.v, sxv(a.w, c.points[j].r_a)))
}
/// Velocities change exactly by the given impulses at the contact points, opposite on the two bodies.
fn changed_by(c: &B2contactVelocityConstraint, ps: &[B2vec2], before: &[B2velocity], after: &[B2velocity]) {
    let (ia, ib) = (c.index_a as usize, c.index_b as usize);
    let mut p = zero2();
    let (mut la, mut lb) = (0.0, 0.0);
    for (j, q) in ps.iter().enumerate() {
        p = add(p, *q);
        la += cross(c.points[j].r_a, *q);
        lb += cross(c.points[j].r_b, *q);
    }
    ensure("first body changes by the opposite impulse at the contact points", and(&[
        eqv(after[ia].v, sub(before[ia].v, scale(c.inv_mass_a, p))), eq(after[ia].w, before[ia].w - c.inv_ia * la)]));
    ensure("second body changes by the impulse at the contact points", and(&[
        eqv(after[ib].v, add(before[ib].v, scale(c.inv_mass_b, p))), eq(after[ib].w, before[ib].w + c.inv_ib * lb)]));
    for k in 0..before.len() {
        if k != ia && k != ib {
            ensure("other bodies are untouched", and(&[eqv(after[k].v, before[k].v), eq(after[k].w, before[k].w)]));
        }
    }
}
fn impulse_change(c: &B2contactVelocityConstraint, o: &B2contactVelocityConstraint, n: usize) -> Vec<B2vec2> {
    let t = tangent(c.normal);
    (0..n).map(|j| add(scale(c.points[j].normal_impulse - o.points[j].normal_impulse, c.normal), scale(c.points[j].tangent_impulse - o.points[j].tangent_impulse, t))).collect()
}
fn friction_bound(c: &B2contactVelocityConstraint, o: &B2contactVelocityConstraint, n: usize) {
    for j in 0..n {
        let m = o.friction * o.points[j].normal_impulse;
        ensure("tangential impulse is at most friction times the normal impulse", and(&[le(c.points[j].tangent_impulse, m), ge(c.points[j].tangent_impulse, -m)]));
    }
}
fn rest_kept(c: &B2contactVelocityConstraint, o: &B2contactVelocityConstraint) {
    ensure("constraint data is kept", and(&[eqv(c.normal, o.normal), eq(c.friction, o.friction), eq(c.inv_mass_a, o.inv_mass_a), eq(c.inv_mass_b, o.inv_mass_b), b_of(c.point_count == o.point_count)]));
}
fn serial_one_point() {
    summaries(false);
    let (ia, ib) = indices();
    let block = flag("block solver");
    G_BLOCK_SOLVE.store(block, Ordering::SeqCst);
    let o = constraint(1, ia, ib);
    let mut s = solver(vec![o]);
    let before = vels_in(o.normal);
    let mut after = before.clone();
    s.solve_velocity_constraints(&mut after);
    G_BLOCK_SOLVE.store(true, Ordering::SeqCst);
    let c = s.m_velocity_constraints[0];
    let ps = impulse_change(&c, &o, 1);
    changed_by(&o, &ps, &before, &after);
    friction_bound(&c, &o, 1);
    rest_kept(&c, &o);
    let x = c.points[0].normal_impulse;
    ensure("normal impulse only pushes", ge(x, 0.0));
    let vn = dot(rel(&o, 0, &after), o.normal) - o.points[0].velocity_bias;
    ensure("approach velocity is removed, or the point separates without a push", and(&[ge(vn, 0.0), or(&[eq(x, 0.0), eq(vn, 0.0)])]));
    ensure("second point untouched", and(&[eq(c.points[1].normal_impulse, o.points[1].normal_impulse), eq(c.points[1].tangent_impulse, o.points[1].tangent_impulse)]));
}
/// Friction of a single point: with the normal part inactive, sticking removes the slip.
fn friction() {
    summaries(false);
    let mut o = constraint(1, 0, 1);
    // no approach at all: the normal part has nothing to do
    let before = vels_in(o.normal);
    let dvt = dot(rel(&o, 0, &before), tangent(o.normal)) - o.tangent_speed;
    let ideal = o.points[0].tangent_impulse - o.points[0].tangent_mass * dvt;
    let m = o.friction * o.points[0].normal_impulse;
    o.points[0].velocity_bias = 0.0;
    let mut s = solver(vec![o]);
    let mut after = before.clone();
    s.solve_velocity_constraints(&mut after);
    let c = s.m_velocity_constraints[0];
    let tnew = c.points[0].tangent_impulse;
    ensure("within the friction limit the impulse is the one that stops the slip", implies(and(&[le(ideal, m), ge(ideal, -m)]), eq(tnew, ideal)));
    ensure("beyond the friction limit the impulse is the limit", and(&[implies(gt(ideal, m), eq(tnew, m)), implies(lt(ideal, -m), eq(tnew, -m))]));
}
fn serial_two_points_in_turn() {
    summaries(false);
    let (ia, ib) = (2, 0);
    G_BLOCK_SOLVE.store(false, Ordering::SeqCst);
    let o = constraint(2, ia, ib);
    let mut s = solver(vec![o]);
    let before = vels_in(o.normal);
    let mut after = before.clone();
    s.solve_velocity_constraints(&mut after);
    G_BLOCK_SOLVE.store(true, Ordering::SeqCst);
    let c = s.m_velocity_constraints[0];
    changed_by(&o, &impulse_change(&c, &o, 2), &before, &after);
    friction_bound(&c, &o, 2);
    for j in 0..2 {
        ensure("normal impulse only pushes", ge(c.points[j].normal_impulse, 0.0));
    }
    let vn = dot(rel(&o, 1, &after), o.normal) - o.points[1].velocity_bias;
    // scaled by the (positive) effective mass
    ensure("the point solved last does not approach", ge(o.points[1].normal_mass * vn, 0.0));
}
fn with_block(o: &mut B2contactVelocityConstraint) {
    let rn: Vec<(f32, f32)> = (0..2).map(|j| (cross(o.points[j].r_a, o.normal), cross(o.points[j].r_b, o.normal))).collect();
    let k = |a: usize, b: usize| keff(o.inv_mass_a, o.inv_ia, o.inv_mass_b, o.inv_ib, rn[a], rn[b]);
    let (k11, k12, k22) = (k(0, 0), k(0, 1), k(1, 1));
    let det = k11 * k22 - k12 * k12;
    assume(gt(det, 0.0));
    o.k.ex = B2vec2 { x: k11, y: k12 };
    o.k.ey = B2vec2 { x: k12, y: k22 };
    o.normal_mass.ex = B2vec2 { x: k22 / det, y: -k12 / det };
    o.normal_mass.ey = B2vec2 { x: -k12 / det, y: k11 / det };
}
fn block_impulses() {
    summaries(false);
    let (ia, ib) = (2, 0);
    let mut o = constraint(2, ia, ib);
    with_block(&mut o);
    let mut s = solver(vec![o]);
    let before = vels_in(o.normal);
    let mut after = before.clone();
    s.solve_velocity_constraints(&mut after);
    let c = s.m_velocity_constraints[0];
    changed_by(&o, &impulse_change(&c, &o, 2), &before, &after);
    friction_bound(&c, &o, 2);
    rest_kept(&c, &o);
    for j in 0..2 {
        ensure("normal impulse only pushes", ge(c.points[j].normal_impulse, 0.0));
    }
}
/// The two-point problem itself: response matrix arbitrary positive definite, bodies at rest except for the second one,
/// whose velocity gives any pair of approach velocities.
fn block_solution() {
    let mut o = B2contactVelocityConstraint::default();
    o.normal = B2vec2 { x: 1.0, y: 0.0 };
    o.index_a = 0;
    o.index_b = 1;
    o.point_count = 2;
    let (k11, k12, k22) = (pos("k11"), var("k12"), pos("k22"));
    let det = if symbolic() { pos("det") } else { k11 * k22 - k12 * k12 };
    if symbolic() {
        assume(eq(det, k11 * k22 - k12 * k12));
    } else {
        assume(gt(det, 0.05));
    }
    o.k.ex = B2vec2 { x: k11, y: k12 };
    o.k.ey = B2vec2 { x: k12, y: k22 };
    o.normal_mass.ex = B2vec2 { x: k22 / det, y: -k12 / det };
    o.normal_mass.ey = B2vec2 { x: -k12 / det, y: k11 / det };
    o.points[0].normal_mass = 1.0 / k11;
    o.points[1].normal_mass = 1.0 / k22;
    for j in 0..2 {
        o.points[j].normal_impulse = nonneg(&format!("ni{}", j));
        o.points[j].velocity_bias = nonneg(&format!("bias{}", j));
    }
    o.points[0].r_b = B2vec2 { x: 0.0, y: 0.0 };
    o.points[1].r_b = B2vec2 { x: 0.0, y: -1.0 };
    let before = vec![B2velocity { v: zero2(), w: 0.0 }, B2velocity { v: B2vec2 { x: var("vn0"), y: 0.0 }, w: var("dvn") }];
    let vn = [before[1].v.x, before[1].v.x + before[1].w];
    let mut s = solver(vec![o]);
    let mut after = before.clone();
    s.solve_velocity_constraints(&mut after);
    let c = s.m_velocity_constraints[0];
    let (a0, a1) = (o.points[0].normal_impulse, o.points[1].normal_impulse);
    let (x0, x1) = (c.points[0].normal_impulse, c.points[1].normal_impulse);
    let r0 = vn[0] - o.points[0].velocity_bias + k11 * (x0 - a0) + k12 * (x1 - a1);
    let r1 = vn[1] - o.points[1].velocity_bias + k12 * (x0 - a0) + k22 * (x1 - a1);
    ensure("both impulses push", and(&[ge(x0, 0.0), ge(x1, 0.0)]));
    ensure("neither point is left approaching", and(&[ge(r0, 0.0), ge(r1, 0.0)]));
    ensure("a point is pushed only if it does not separate", and(&[or(&[eq(x0, 0.0), eq(r0, 0.0)]), or(&[eq(x1, 0.0), eq(r1, 0.0)])]));
}
fn warm_start() {
    summaries(false);
    let (ia, ib) = indices();
    let n = 1 + choose("points - 1", 2);
    let o = constraint(n, ia, ib);
    let mut s = solver(vec![o]);
    let before = vels_in(o.normal);
    let mut after = before.clone();
    s.warm_start(&mut after);
    let c = s.m_velocity_constraints[0];
    let t = tangent(o.normal);
    let ps: Vec<B2vec2> = (0..n).map(|j| add(scale(o.points[j].normal_impulse, o.normal), scale(o.points[j].tangent_impulse, t))).collect();
    changed_by(&o, &ps, &before, &after);
    ensure("warm starting keeps the impulses", and(&[eq(c.points[0].normal_impulse, o.points[0].normal_impulse), eq(c.points[1].normal_impulse, o.points[1].normal_impulse), eq(c.points[0].tangent_impulse, o.points[0].tangent_impulse), eq(c.points[1].tangent_impulse, o.points[1].tangent_impulse)]));
}
/// Two contacts in one list: each is solved for its own bodies, and linear momentum of all bodies is kept.
fn two_contacts() {
    let mut a = B2contactVelocityConstraint::default();
    let mut b = B2contactVelocityConstraint::default();
    let m: Vec<f32> = (0..3).map(|i| pos(&format!("m{}", i))).collect();
    for (k, c) in [&mut a, &mut b].iter_mut().enumerate() {
        c.normal = unit(&format!("n{}", k));
        c.index_a = k as i32;
        c.index_b = k as i32 + 1;
        c.point_count = 1;
        c.friction = nonneg(&format!("friction{}", k));
        c.inv_mass_a = 1.0 / m[k];
        c.inv_mass_b = 1.0 / m[k + 1];
        c.points[0].r_a = vec2(&format!("ra{}", k));
        c.points[0].r_b = vec2(&format!("rb{}", k));
        c.points[0].normal_impulse = nonneg(&format!("ni{}", k));
        c.points[0].tangent_impulse = var(&format!("ti{}", k));
        let kn = c.inv_mass_a + c.inv_mass_b;
        c.points[0].normal_mass = 1.0 / kn;
        c.points[0].tangent_mass = 1.0 / kn;
    }
    let mut s = solver(vec![a, b]);
    let before = vels();
    let mut after = before.clone();
    if flag("warm start") {
        s.warm_start(&mut after);
    } else {
        s.solve_velocity_constraints(&mut after);
    }
    let mom = |v: &[B2velocity]| (0..3).fold(zero2(), |p, i| add(p, scale(m[i], v[i].v)));
    ensure("total momentum is kept", eqv(mom(&before), mom(&after)));
    for k in 0..2 {
        ensure("normal impulse only pushes", ge(s.m_velocity_constraints[k].points[0].normal_impulse, 0.0));
    }
}
fn set_up_contact(n: usize, mt: B2manifoldType) -> (World, [Body; 2], ContactPtr<D>, B2manifold) {
    let w = world();
    let a = body_of(&w, "a", B2bodyType::B2DynamicBody);
    let ty = if flag("second body dynamic") { B2bodyType::B2DynamicBody } else { B2bodyType::B2StaticBody };
    let b = body_of(&w, "b", ty);
    a.borrow_mut().m_island_index = 1;
    b.borrow_mut().m_island_index = 2;
    // all geometry is arbitrary, but written in the frame of the world normal
    let nn = unit("wn");
    let t = tangent(nn);
    let fr = |s: &str| add(scale(var(&format!("{}.n", s)), nn), scale(var(&format!("{}.t", s)), t));
    let ca = vec2("ca");
    place(&a, ca);
    place(&b, add(ca, fr("cb")));
    a.borrow_mut().m_linear_velocity = fr("va");
    if ty == B2bodyType::B2DynamicBody {
        b.borrow_mut().m_linear_velocity = fr("vb");
    }
    let (fa, fb) = (fixture_on(&a, "fa"), fixture_on(&b, "fb"));
    let mut m = any_manifold("m", n, mt);
    let (xa, xb) = (a.borrow().m_xf, b.borrow().m_xf);
    let p0 = add(ca, fr("p"));
    match mt {
        B2manifoldType::ECircles => {
            m.local_point = to_local(xa, p0);
            m.points[0].local_point = to_local(xb, add(p0, scale(nonneg("gap"), nn)));
        }
        _ => {
            let face_a = matches!(mt, B2manifoldType::EFaceA);
            let (xr, xi) = if face_a { (xa, xb) } else { (xb, xa) };
            let out = if face_a { nn } else { scale(-1.0, nn) };
            m.local_normal = to_local(B2Transform { p: zero2(), q: xr.q }, out);
            m.local_point = to_local(xr, p0);
            for j in 0..n {
                m.points[j].local_point = to_local(xi, add(p0, fr(&format!("q{}", j))));
            }
        }
    }
    let c = any_contact(&fa, &fb, m);
    {
        let mut c = c.borrow_mut();
        let c = c.get_base_mut();
        c.set_tangent_speed(var("belt"));
        c.set_friction(nonneg("friction"));
        c.set_restitution(nonneg("restitution"));
        c.set_restitution_threshold(nonneg("threshold"));
    }
    (w, [a, b], c, m)
}
/// Set-up of the solver from contacts: indices, masses, stored impulses scaled to the step.
fn set_up() {
    let n = 1 + choose("points - 1", 2);
    let (_w, [a, b], c, m) = set_up_contact(n, manifold_type("manifold"));
    let step = time_step();
    let s = B2contactSolver::new::<D>(&B2contactSolverDef { step }, &vec![c.clone()]);
    let vc = s.m_velocity_constraints[0];
    let pc = s.m_position_constraints[0];
    ensure("one constraint per contact", b_of(s.m_velocity_constraints.len() == 1 && s.m_position_constraints.len() == 1));
    let (a, b) = (a.borrow(), b.borrow());
    ensure("bodies of the contact", b_of(vc.index_a == 1 && vc.index_b == 2 && pc.index_a == 1 && pc.index_b == 2 && vc.contact_index == 0));
    ensure("masses of the bodies", and(&[eq(vc.inv_mass_a, a.m_inv_mass), eq(vc.inv_mass_b, b.m_inv_mass), eq(vc.inv_ia, a.m_inv_i), eq(vc.inv_ib, b.m_inv_i),
        eq(pc.inv_mass_a, a.m_inv_mass), eq(pc.inv_mass_b, b.m_inv_mass), eq(pc.inv_ia, a.m_inv_i), eq(pc.inv_ib, b.m_inv_i)]));
    let cc = c.borrow();
    let cb = cc.get_base();
    ensure("surface values of the contact", and(&[eq(vc.friction, cb.get_friction()), eq(vc.restitution, cb.get_restitution()), eq(vc.threshold, cb.get_restitution_threshold()), eq(vc.tangent_speed, var("belt"))]));
    ensure("geometry of the manifold", and(&[eqv(pc.local_normal, m.local_normal), eqv(pc.local_point, m.local_point), eqv(pc.local_center_a, a.m_sweep.local_center), eqv(pc.local_center_b, b.m_sweep.local_center),
        eq(pc.radius_a, var("fa.radius")), eq(pc.radius_b, var("fb.radius")), b_of(pc.mtype as u8 == m.manifold_type as u8 && pc.point_count == n as i32 && vc.point_count == n as i32)]));
    for j in 0..n {
        let r = if step.warm_starting { step.dt_ratio } else { 0.0 };
        ensure("stored impulses scaled to the step", and(&[eq(vc.points[j].normal_impulse, r * m.points[j].normal_impulse), eq(vc.points[j].tangent_impulse, r * m.points[j].tangent_impulse)]));
        ensure("contact point of the manifold", eqv(pc.local_points[j], m.points[j].local_point));
    }
}
fn positions(a: &Body, b: &Body) -> Vec<B2position> {
    let p = |x: &Body| { let x = x.borrow(); B2position { c: x.m_sweep.c, a: x.m_sweep.a } };
    vec![B2position { c: vec2("oc"), a: var("oa") }, p(a), p(b)]
}
fn velocities(a: &Body, b: &Body) -> Vec<B2velocity> {
    let p = |x: &Body| { let x = x.borrow(); B2velocity { v: x.m_linear_velocity, w: x.m_angular_velocity } };
    vec![B2velocity { v: vec2("ov"), w: var("ow") }, p(a), p(b)]
}
/// World contact points of a face manifold: midway between the two surfaces.
fn world_points(m: &B2manifold, xa: B2Transform, ra: f32, xb: B2Transform, rb: f32) -> (B2vec2, Vec<B2vec2>) {
    let face_a = matches!(m.manifold_type, B2manifoldType::EFaceA);
    let (xr, xi, rr, ri) = if face_a { (xa, xb, ra, rb) } else { (xb, xa, rb, ra) };
    let nn = rotv(xr.q, m.local_normal);
    let plane = apply(xr, m.local_point);
    let ps = (0..m.point_count).map(|j| {
        let p = apply(xi, m.points[j].local_point);
        // surface of the reference shape: plane shifted by its radius; of the other: the point shifted back
        let on_ref = add(p, scale(rr - dot(sub(p, plane), nn), nn));
        let on_inc = sub(p, scale(ri, nn));
        scale(0.5, add(on_ref, on_inc))
    }).collect();
    (if face_a { nn } else { scale(-1.0, nn) }, ps)
}
fn initialise_n(n: usize, mt: B2manifoldType) {
    let (_w, [a, b], c, m) = set_up_contact(n, mt);
    let step = time_step();
    let contacts = vec![c.clone()];
    let mut s = B2contactSolver::new::<D>(&B2contactSolverDef { step }, &contacts);
    let set = s.m_velocity_constraints[0];
    let (ps, vs) = (positions(&a, &b), velocities(&a, &b));
    if !matches!(m.manifold_type, B2manifoldType::ECircles) {
        let (a, b) = (a.borrow(), b.borrow());
        let (nn, wp) = world_points(&m, a.m_xf, var("fa.radius"), b.m_xf, var("fb.radius"));
        for p in wp {
            for d in [nn, tangent(nn)] {
                let r = (cross(sub(p, a.m_sweep.c), d), cross(sub(p, b.m_sweep.c), d));
                lemma("some body gives way", gt(keff(a.m_inv_mass, a.m_inv_i, b.m_inv_mass, b.m_inv_i, r, r), 0.0));
            }
        }
    }
    s.initialize_velocity_constraints(&ps, &vs, &contacts);
    let vc = s.m_velocity_constraints[0];
    let (a, b) = (a.borrow(), b.borrow());
    let (ra, rb) = (var("fa.radius"), var("fb.radius"));
    let (nn, wp);
    if matches!(m.manifold_type, B2manifoldType::ECircles) {
        let pa = apply(a.m_xf, m.local_point);
        let pb = apply(b.m_xf, m.points[0].local_point);
        let d = sub(pb, pa);
        ensure("circles: normal is a unit vector", is_unit(vc.normal));
        ensure("circles: normal points from the first to the second centre", implies(gt(len2(d), B2_EPSILON * B2_EPSILON), and(&[eq(cross(vc.normal, d), 0.0), gt(dot(vc.normal, d), 0.0)])));
        nn = vc.normal;
        wp = vec![scale(0.5, add(add(pa, scale(ra, nn)), sub(pb, scale(rb, nn))))];
    } else {
        let (x, y) = world_points(&m, a.m_xf, ra, b.m_xf, rb);
        nn = x;
        wp = y;
        ensure("normal of the manifold in the world, from first to second", eqv(vc.normal, nn));
    }
    let t = tangent(nn);
    let (ma, ia, mb, ib) = (a.m_inv_mass, a.m_inv_i, b.m_inv_mass, b.m_inv_i);
    for j in 0..n {
        let p = vc.points[j];
        ensure("arms reach from the mass centres to the contact point", and(&[eqv(p.r_a, sub(wp[j], a.m_sweep.c)), eqv(p.r_b, sub(wp[j], b.m_sweep.c))]));
        let rn = (cross(p.r_a, nn), cross(p.r_b, nn));
        let rt = (cross(p.r_a, t), cross(p.r_b, t));
        ensure("normal mass is the inverse of the response", eq(p.normal_mass * keff(ma, ia, mb, ib, rn, rn), 1.0));
        ensure("tangent mass is the inverse of the response", eq(p.tangent_mass * keff(ma, ia, mb, ib, rt, rt), 1.0));
        let vn = dot(nn, rel(&vc, j, &vs));
        ensure("restitution acts on the approach speed above the threshold only", eq(p.velocity_bias, sel(lt(vn, -vc.threshold), -vc.restitution * vn, 0.0)));
        ensure("impulses kept by the set-up", and(&[eq(p.normal_impulse, set.points[j].normal_impulse), eq(p.tangent_impulse, set.points[j].tangent_impulse)]));
    }
    if n == 2 {
        let rn: Vec<(f32, f32)> = (0..2).map(|j| (cross(vc.points[j].r_a, nn), cross(vc.points[j].r_b, nn))).collect();
        let k = |x: usize, y: usize| keff(ma, ia, mb, ib, rn[x], rn[y]);
        let (k11, k12, k22) = (k(0, 0), k(0, 1), k(1, 1));
        let det = k11 * k22 - k12 * k12;
        if vc.point_count == 2 {
            ensure("two points are solved together only when well conditioned", lt(k11 * k11, 1000.0 * det));
            ensure("response matrix of the two points", and(&[eq(vc.k.ex.x, k11), eq(vc.k.ex.y, k12), eq(vc.k.ey.x, k12), eq(vc.k.ey.y, k22)]));
            let i = vc.normal_mass;
            ensure("block mass is the inverse of the response matrix", and(&[eq(i.ex.x * det, k22), eq(i.ex.y * det, -k12), eq(i.ey.x * det, -k12), eq(i.ey.y * det, k11)]));
        } else {
            ensure("a redundant point is dropped only when badly conditioned", and(&[b_of(vc.point_count == 1), ge(k11 * k11, 1000.0 * det)]));
        }
    }
}
fn initialise_face_one() {
    initialise_n(1, if flag("face on first") { B2manifoldType::EFaceA } else { B2manifoldType::EFaceB });
}
fn initialise_face_two() {
    initialise_n(2, if flag("face on first") { B2manifoldType::EFaceA } else { B2manifoldType::EFaceB });
}
fn initialise_circles() {
    initialise_n(1, B2manifoldType::ECircles);
}
fn store() {
    let n = 1 + choose("points - 1", 2);
    let (_w, _b, c, m) = set_up_contact(n, B2manifoldType::EFaceA);
    let o = { let mut o = constraint(n, 1, 2); o.contact_index = 0; o };
    let mut s = solver(vec![o]);
    s.store_impulses(&[c.clone()]);
    let c = c.borrow();
    let r = c.get_base().get_manifold();
    for j in 0..n {
        ensure("impulses are stored with their contact point", and(&[eq(r.points[j].normal_impulse, o.points[j].normal_impulse), eq(r.points[j].tangent_impulse, o.points[j].tangent_impulse)]));
    }
    ensure("geometry is kept when storing", and(&[eqv(r.local_normal, m.local_normal), eqv(r.points[0].local_point, m.points[0].local_point), eqv(r.points[1].local_point, m.points[1].local_point), b_of(r.point_count == n)]));
}
contracts! { serial_one_point, friction, serial_two_points_in_turn, block_impulses, block_solution, warm_start, two_contacts, set_up, initialise_face_one, initialise_face_two, initialise_circles, store, selection_bodies }
