//! C01 (forward kinematics and the cached poses), C02 (quantities derived from it).
use super::common::*;
use super::single::{twin, Part};
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use simstd::rt::Rng;
use std::sync::Arc;

const COMBOS: usize = 4096;

/// every local transform node `i` may have had during [a, b]
fn locals(w: &W, ws: &Writes, i: usize, a: u64, b: u64) -> Vec<Iso> {
    let n = &w.spec.nodes[i];
    let qs: Vec<f64> = if w.spec.movable(i) { candidates(&n.init, &ws.pos[i], a, b) } else { vec![0.0] };
    let os = candidates(&n.origin, &ws.org[i], a, b);
    let mut v: Vec<Iso> = vec![];
    for o in &os {
        for q in &qs {
            let x = w.spec.local(i, o, *q);
            if !v.iter().any(|y| *y == x) {
                v.push(x);
            }
        }
    }
    v
}
/// calls `f` with every assignment of local transforms to the nodes of `path`; true if one fits.
/// None: too many assignments.
fn any_assignment(cands: &[Vec<Iso>], f: &mut dyn FnMut(&[Iso]) -> bool) -> Option<bool> {
    let mut total = 1usize;
    for c in cands {
        total = total.saturating_mul(c.len());
    }
    if total > COMBOS {
        return None;
    }
    let mut cur: Vec<Iso> = cands.iter().map(|c| c[0]).collect();
    let mut ix = vec![0usize; cands.len()];
    loop {
        if f(&cur) {
            return Some(true);
        }
        let mut k = 0;
        loop {
            if k == cands.len() {
                return Some(false);
            }
            ix[k] += 1;
            if ix[k] < cands[k].len() {
                cur[k] = cands[k][ix[k]];
                break;
            }
            ix[k] = 0;
            cur[k] = cands[k][0];
            k += 1;
        }
    }
}
fn chain_ops(op: &Op) -> Option<usize> {
    match op {
        Op::Update(c) | Op::Jac(c) | Op::Com(c) | Op::Vel(c) | Op::LinkUpd(c) | Op::Ik(c, _, _) => Some(*c),
        _ => None,
    }
}

/// checks every forward-kinematics pass of the history
fn check_updates(ex: &mut Exec, w: &W, h: &H, ws: &Writes) -> Res {
    let mut checked = 0;
    let mut mixed = 0;
    for e in h {
        let (c, res) = match (&e.op, e.res.as_ref().unwrap()) {
            (Op::Update(c), R::Isos(v)) => (*c, v),
            _ => continue,
        };
        let idx = &w.idx[c];
        if res.len() != idx.len() {
            return viol("wrong-count", format!("update_transforms returned {} transforms for {} joints", res.len(), idx.len()));
        }
        for (k, i) in idx.iter().enumerate() {
            let l = locals(w, ws, *i, e.inv, e.ret);
            let prefix: Vec<Vec<Iso>> = match w.spec.nodes[*i].parent {
                None => vec![],
                Some(p) => match idx[..k].iter().position(|x| *x == p) {
                    Some(kp) => vec![vec![res[kp]]],
                    None => w.spec.path(p).iter().map(|x| locals(w, ws, *x, e.inv, e.ret)).collect(),
                },
            };
            let mut all = prefix;
            if l.len() > 1 {
                mixed += 1;
            }
            all.push(l);
            match any_assignment(&all, &mut |a| a.iter().fold(ID, |x, y| x.mul(y)).near(&res[k])) {
                None => ex.count("poses not checked (too many candidates)", 1),
                Some(true) => checked += 1,
                Some(false) => {
                    let want = all.iter().map(|c| c[0]).fold(ID, |x, y| x.mul(&y));
                    return viol(
                        "wrong-pose",
                        format!(
                            "t{} {:?} returned for joint {} the pose {:?}, which no positions and origins held during the call give below the pose returned for its parent (one of them gives {:?})",
                            e.tid, e.op, w.spec.nodes[*i].name, res[k], want
                        ),
                    );
                }
            }
        }
    }
    ex.count("poses checked", checked);
    ex.count("poses with a change during the call", mixed);
    Ok(())
}
#[derive(Clone, Debug)]
enum Cell<T> {
    Empty,
    Val(T),
    Any,
}
/// the writes to the pose cache of node `i`
fn cache_writes(w: &W, h: &H, ws: &Writes, i: usize) -> Vec<Wr<Cell<Iso>>> {
    let mut v = vec![];
    for x in &ws.pos[i] {
        v.push(Wr { inv: x.inv, ret: x.ret, val: Cell::Empty, definite: x.definite });
    }
    for x in &ws.org[i] {
        v.push(Wr { inv: x.inv, ret: x.ret, val: Cell::Empty, definite: true });
    }
    for e in h {
        let touches = match &e.op {
            Op::Set(n, _) | Op::Clamped(n, _) | Op::Unchecked(n, _) => {
                *n == i || w.spec.nodes[i].mimic.map(|m| m.0) == Some(*n)
            }
            Op::ChainSet(c, _) | Op::ChainClamped(c, _) | Op::ChainUnchecked(c, _) => {
                w.idx[*c].contains(&i) || w.idx[*c].iter().any(|n| w.spec.nodes[i].mimic.map(|m| m.0) == Some(*n))
            }
            Op::Ik(c, _, _) => w.idx[*c].contains(&i),
            _ => false,
        };
        if touches {
            // rejected or ineffective setters may clear as well
            v.push(Wr { inv: e.inv, ret: e.ret, val: Cell::Empty, definite: false });
        }
        if let Some(c) = chain_ops(&e.op) {
            if let Some(k) = w.idx[c].iter().position(|x| *x == i) {
                let (val, definite) = match (&e.op, e.res.as_ref().unwrap()) {
                    (Op::Update(_), R::Isos(r)) => (Cell::Val(r[k]), true),
                    (Op::Vel(_) | Op::LinkUpd(_), _) => (Cell::Any, true),
                    _ => (Cell::Any, false),
                };
                v.push(Wr { inv: e.inv, ret: e.ret, val, definite });
            }
        }
    }
    v
}
fn check_cache(ex: &mut Exec, w: &W, h: &H, ws: &Writes) -> Res {
    let mut some = 0;
    let mut none = 0;
    for e in h {
        let (i, got) = match (&e.op, e.res.as_ref().unwrap()) {
            (Op::World(i), R::OptIso(v)) => (*i, v),
            _ => continue,
        };
        let cw = cache_writes(w, h, ws, i);
        let c = candidates(&Cell::Empty, &cw, e.inv, e.ret);
        let ok = c.iter().any(|x| match (x, got) {
            (Cell::Empty, None) => true,
            (Cell::Val(a), Some(b)) => a.near(b),
            (Cell::Any, Some(_)) => true,
            _ => false,
        });
        if !ok {
            return viol(
                "stale-pose",
                format!(
                    "t{} reads the pose {:?} of joint {} at events {}..{}; possible were {:?}",
                    e.tid, got, w.spec.nodes[i].name, e.inv, e.ret, c
                ),
            );
        }
        if let Some(b) = got {
            // it belongs to what the position and the origin of the joint are now, not to what they were
            // at some time during the pass
            let own = locals(w, ws, i, e.inv, e.ret);
            let mut known = true;
            let mut fits = false;
            for p in h.iter().filter(|p| p.inv < e.ret) {
                match (&p.op, p.res.as_ref().unwrap()) {
                    (Op::Update(c), R::Isos(r)) => {
                        let k = match w.idx[*c].iter().position(|x| *x == i) {
                            Some(k) if r[k].near(b) => k,
                            _ => continue,
                        };
                        fits |= match w.spec.nodes[i].parent {
                            None => own.iter().any(|l| l.near(b)),
                            Some(up) => match w.idx[*c][..k].iter().position(|x| *x == up) {
                                Some(kp) => own.iter().any(|l| r[kp].mul(l).near(b)),
                                None => true,
                            },
                        }
                    }
                    (o, _) => known &= !chain_ops(o).is_some_and(|c| w.idx[c].contains(&i)),
                }
            }
            if known && !fits {
                return viol(
                    "stale-pose",
                    format!(
                        "t{} reads the pose {:?} of joint {} at events {}..{}, after its position or origin was changed from what the pose was computed with",
                        e.tid, b, w.spec.nodes[i].name, e.inv, e.ret
                    ),
                );
            }
            some += 1
        } else {
            none += 1
        }
    }
    ex.count("cached poses read", some);
    ex.count("cleared poses read", none);
    Ok(())
}
fn final_positions(w: &W) -> (Vec<f64>, Vec<Iso>) {
    let q = w.nodes.iter().map(|n| n.joint_position().unwrap_or(0.0)).collect();
    let o = w.nodes.iter().map(|n| of_na(&n.origin())).collect();
    (q, o)
}

pub fn c01(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let g = Gen {
        n: sc.n((1, 8)),
        movable: 0.75,
        limits: 0.4,
        links: 0.3,
        mimic: if rng.chance(0.3) { 0.3 } else { 0.0 },
        serial: [0.4, 0.8][rng.below(2)],
        ..Gen::default()
    };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    random_init(&mut rng, &mut spec);
    let mut w = W::new(spec);
    w.add_root();
    let k = rng.range(1, 2);
    w.add_some(&mut rng, k);
    if rng.chance(0.5) {
        let r = rng.below(w.nodes.len());
        w.add_subtree(r);
    }
    if rng.chance(0.2) {
        w.add_list(&mut rng);
        ex.count("runs with a chain of joints in any order", 1);
    }
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 1, 4);
    let others = rng.chance(0.3);
    let per = if nt == 1 { 8 } else { 5 };
    let lists: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            (0..sc.ops(&mut rng, 1, per))
                .map(|_| {
                    let i = rng.below(w.nodes.len());
                    let c = rng.below(w.chains.len());
                    match rng.below(20) {
                        0..=5 => Op::Update(c),
                        6..=8 => Op::Set(i, value(&mut rng, &w.spec, i, 0.9)),
                        9 => Op::Clamped(i, finite(value(&mut rng, &w.spec, i, 0.6))),
                        10 => Op::Unchecked(i, finite(value(&mut rng, &w.spec, i, 0.8))),
                        11 => match rng.below(3) {
                            0 => Op::ChainSet(c, values(&mut rng, &w, c, 0.95)),
                            1 => Op::ChainClamped(c, values(&mut rng, &w, c, 0.7).into_iter().map(finite).collect()),
                            _ => Op::ChainUnchecked(c, values(&mut rng, &w, c, 0.9).into_iter().map(finite).collect()),
                        },
                        12 => Op::Origin(i, new_origin(&mut rng, &w.spec, i)),
                        13 => Op::ChainOrigin(c, new_origin(&mut rng, &w.spec, w.idx[c][0])),
                        14 if others => [Op::Jac(c), Op::Com(c), Op::Vel(c), Op::LinkUpd(c)][rng.below(4)].clone(),
                        _ => Op::World(i),
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |_, op: &Op| w2.apply(op)))?;
    no_panics(&h)?;
    check_results(&w, &h)?;
    // what is remembered in the end
    let mut t = h.iter().map(|e| e.ret).max().unwrap_or(0) + 10;
    for i in 0..w.nodes.len() {
        let op = Op::World(i);
        let r = w.apply(&op);
        h.push(Ev { tid: 99, idx: 0, op, inv: t, ret: t + 1, res: Ok(r) });
        t += 2;
    }
    let ws = writes(&w, &h);
    check_updates(ex, &w, &h, &ws)?;
    check_cache(ex, &w, &h, &ws)?;
    // once everything has stopped: a pass gives the poses of the present positions, and they stay readable
    let (q, o) = final_positions(&w);
    let want = w.spec.world_o(&q, &o);
    for c in (0..w.chains.len()).rev() {
        let r = w.chains[c].c().update_transforms();
        for (k, i) in w.idx[c].iter().enumerate() {
            let got = of_na(&r[k]);
            if !got.near(&want[*i]) {
                return viol("wrong-pose", format!("final pass over chain {}: joint {} is at {:?}, expected {:?}", c, w.spec.nodes[*i].name, got, want[*i]));
            }
            match w.nodes[*i].world_transform() {
                Some(x) if of_na(&x).near(&want[*i]) => {}
                x => return viol("stale-pose", format!("after the final pass over chain {}: joint {} remembers {:?}, expected {:?}", c, w.spec.nodes[*i].name, x.map(|x| of_na(&x)), want[*i])),
            }
        }
    }
    if rng.chance(0.1) {
        twin(ex, &mut rng, &w, Part::Poses)?;
    }
    let upd = h.iter().filter(|e| matches!(e.op, Op::Update(_))).count();
    ex.nontrivial = upd > 0 && (ex.preemptions() > 0 || nt == 1);
    Ok(())
}
pub fn finite(x: f64) -> f64 {
    if x.is_finite() {
        x
    } else {
        9.75
    }
}
/// legal initial positions other than zero (followers keep zero)
pub fn random_init(rng: &mut Rng, spec: &mut Spec) {
    for i in 0..spec.nodes.len() {
        if spec.nodes[i].kind != JK::Fixed && rng.chance(0.5) {
            spec.nodes[i].init = match spec.nodes[i].limits {
                Some((a, b)) => rng.fr(a, b),
                None => rng.fr(-3.0, 3.0),
            };
        }
    }
}

// ------------------------------------------------------------------ C02
struct Kin {
    world: Vec<Iso>,
}
/// world transforms of all nodes on `nodes` (closed under parents, parents first), from locals
fn kin(w: &W, nodes: &[usize], l: &[Iso]) -> Kin {
    let mut world = vec![ID; w.nodes.len()];
    for (i, x) in nodes.iter().zip(l) {
        world[*i] = match w.spec.nodes[*i].parent {
            Some(p) => world[p].mul(x),
            None => *x,
        };
    }
    Kin { world }
}
/// `set` and all its ancestors, parents first
fn closure(w: &W, set: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in set {
        for x in w.spec.path(*i) {
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v.sort_unstable();
    v
}
pub fn ref_jacobian(w: &W, c: usize, world: &[Iso]) -> Vec<[f64; 6]> {
    let end = world[*w.idx[c].last().unwrap()];
    w.mov[c]
        .iter()
        .map(|i| {
            let t = &world[*i];
            match w.spec.nodes[*i].kind {
                JK::Rot(a) => {
                    let ax = mv(&t.r, &a);
                    let l = cross(&ax, &sub(&end.t, &t.t));
                    [l[0], l[1], l[2], ax[0], ax[1], ax[2]]
                }
                JK::Lin(a) => {
                    let ax = mv(&t.r, &a);
                    [ax[0], ax[1], ax[2], 0., 0., 0.]
                }
                JK::Fixed => unreachable!(),
            }
        })
        .collect()
}
/// velocities of all nodes of `nodes` (parents first)
pub fn ref_velocities(w: &W, nodes: &[usize], world: &[Iso]) -> Vec<(V, V)> {
    let mut v = vec![([0.; 3], [0.; 3]); w.nodes.len()];
    for i in nodes {
        let (mut t, mut r) = ([0.; 3], [0.; 3]);
        if let Some(p) = w.spec.nodes[*i].parent {
            let arm = sub(&world[*i].t, &world[p].t);
            t = add(&v[p].0, &cross(&v[p].1, &arm));
            r = v[p].1;
        }
        match w.spec.nodes[*i].kind {
            JK::Rot(a) => r = add(&r, &sc(&mv(&world[*i].r, &a), w.spec.nodes[*i].vel)),
            JK::Lin(a) => t = add(&t, &sc(&mv(&world[*i].r, &a), w.spec.nodes[*i].vel)),
            JK::Fixed => {}
        }
        v[*i] = (t, r);
    }
    v
}
pub fn ref_com(w: &W, c: usize, world: &[Iso]) -> Option<V> {
    let mut m = 0.0;
    let mut s = [0.; 3];
    for i in &w.idx[c] {
        if let Some(l) = &w.spec.nodes[*i].link {
            let p = world[*i].mul(&l.com).t;
            s = add(&s, &sc(&p, l.mass));
            m += l.mass;
        }
    }
    if m > 0.0 {
        Some(sc(&s, 1.0 / m))
    } else {
        None
    }
}
fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-8 * (1.0 + scale)
}
fn vclose(a: &V, b: &V) -> bool {
    let s = norm(a).max(norm(b));
    (0..3).all(|k| close(a[k], b[k], s))
}

/// Gives elements of links new origins, with nobody else about: their remembered poses are forgotten,
/// and the next pass uses the new origins.
fn edit_links(rng: &mut Rng, w: &W) -> Result<u64, Violation> {
    let mut now = w.spec.clone();
    for (s, n) in now.nodes.iter_mut().zip(&w.nodes) {
        s.origin = of_na(&n.origin());
    }
    let q: Vec<f64> = w.nodes.iter().map(|n| n.joint_position().unwrap_or(0.0)).collect();
    let world = now.world(&q);
    let mut edited = 0;
    for (i, n) in w.nodes.iter().enumerate() {
        let copy = n.link().clone();
        let mut l = match copy {
            Some(l) => l,
            None => continue,
        };
        let s = now.nodes[i].link.as_mut().unwrap();
        let clear = rng.chance(0.2);
        let mut new = |rng: &mut Rng, x: &mut Iso| {
            *x = rand_iso(rng, 0.5, 1.0);
            edited += 1;
            x.to_na()
        };
        let mut changed = [false; 3];
        if rng.chance(0.5) {
            let o = new(rng, &mut s.com);
            if clear {
                l.inertial.clear_world_transform();
            } else {
                l.inertial.set_origin(o);
            }
            changed[0] = true;
        }
        if rng.chance(0.5) && !s.visuals.is_empty() {
            let o = new(rng, s.visuals.last_mut().unwrap());
            if clear {
                l.visuals.last_mut().unwrap().clear_world_transform();
            } else {
                l.visuals.last_mut().unwrap().set_origin(o);
            }
            changed[1] = true;
        }
        if rng.chance(0.5) && !s.collisions.is_empty() {
            let o = new(rng, s.collisions.last_mut().unwrap());
            if clear {
                l.collisions.last_mut().unwrap().clear_world_transform();
            } else {
                l.collisions.last_mut().unwrap().set_origin(o);
            }
            changed[2] = true;
        }
        n.set_link(Some(l));
        if clear {
            *s = w.spec.nodes[i].link.clone().unwrap();
        }
        let g = n.link();
        let l = g.as_ref().unwrap();
        let left = [
            changed[0] && l.inertial.world_transform().is_some(),
            changed[1] && l.visuals.last().unwrap().world_transform().is_some(),
            changed[2] && l.collisions.last().unwrap().world_transform().is_some(),
        ];
        if left != [false; 3] {
            return viol(
                "stale link pose",
                format!("elements (inertial, visual, collision) {:?} of the link of {} got new origins and still have a pose", left, now.nodes[i].name),
            );
        }
    }
    let c = rng.below(w.chains.len());
    w.apply(&Op::LinkUpd(c));
    for &i in &w.idx[c] {
        let g = w.nodes[i].link();
        if let (Some(l), Some(s)) = (g.as_ref(), &now.nodes[i].link) {
            let mut got = vec![*l.inertial.world_transform()];
            got.extend(l.visuals.iter().map(|x| *x.world_transform()));
            got.extend(l.collisions.iter().map(|x| *x.world_transform()));
            let want = [s.com].into_iter().chain(s.visuals.iter().cloned()).chain(s.collisions.iter().cloned());
            for (k, (g, p)) in got.iter().zip(want).enumerate() {
                let p = world[i].mul(&p);
                if !matches!(g, Some(g) if p.near(&of_na(g))) {
                    return viol(
                        "wrong link poses",
                        format!("element {} of the link of {} is at {:?} after its origin was set, expected {:?}", k, now.nodes[i].name, g, p),
                    );
                }
            }
        }
    }
    if let R::V3(x) = w.apply(&Op::Com(c)) {
        let (mut m, mut sum) = (0.0, [0.0; 3]);
        for &i in &w.idx[c] {
            if let Some(l) = &now.nodes[i].link {
                m += l.mass;
                sum = add(&sum, &sc(&world[i].mul(&l.com).t, l.mass));
            }
        }
        if m > 0.0 && !vclose(&x, &sc(&sum, 1.0 / m)) {
            return viol("wrong centers of mass", format!("{:?} after links got new centers, expected {:?}", x, sc(&sum, 1.0 / m)));
        }
    }
    Ok(edited)
}
/// Changes copies of the joints, with nobody else about: what they remember is forgotten.
fn edit_joints(rng: &mut Rng, w: &W) -> Result<u64, Violation> {
    // the velocities are computed with the poses
    for _ in 0..rng.below(3) {
        let i = rng.below(w.nodes.len());
        if w.spec.movable(i) {
            w.nodes[i].set_joint_position_unchecked(finite(value(rng, &w.spec, i, 1.0)));
        } else {
            w.nodes[i].set_origin(rand_iso(rng, 1.0, 1.0).to_na());
        }
    }
    let q: Vec<f64> = w.nodes.iter().map(|n| n.joint_position().unwrap_or(0.0)).collect();
    let o: Vec<Iso> = w.nodes.iter().map(|n| of_na(&n.origin())).collect();
    let want = w.spec.world_o(&q, &o);
    let c = rng.below(w.chains.len());
    w.chains[c].c().update_velocities();
    for i in &w.idx[c] {
        let x = w.nodes[*i].world_transform();
        if !x.as_ref().is_some_and(|x| of_na(x).near(&want[*i])) {
            return viol(
                "pose-after-velocities",
                format!("after a velocity pass joint {} remembers the pose {:?}, expected {:?}", w.spec.nodes[*i].name, x.map(|x| of_na(&x)), want[*i]),
            );
        }
    }
    let mut edited = 0;
    for (i, n) in w.nodes.iter().enumerate() {
        let mut j = n.joint().clone();
        let what = rng.below(3);
        let q = value(rng, &w.spec, i, 1.0);
        let (done, pose) = match what {
            0 => (j.set_joint_velocity(rng.fr(-1.0, 1.0)).is_ok(), false),
            1 => (j.set_joint_position(q).is_ok(), true),
            _ => {
                j.set_origin(rand_iso(rng, 1.0, 1.0).to_na());
                (true, true)
            }
        };
        if !done {
            continue;
        }
        edited += 1;
        if j.world_velocity().is_some() || pose && j.world_transform().is_some() {
            return viol(
                "stale-velocity",
                format!(
                    "after a new {} joint {} remembers the pose {:?} and the velocity {:?}",
                    ["velocity", "position", "origin"][what],
                    w.spec.nodes[i].name,
                    j.world_transform().map(|x| of_na(&x)),
                    j.world_velocity().map(|x| of_v(&x.translation))
                ),
            );
        }
    }
    Ok(edited)
}

pub fn c02(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let g = Gen {
        n: sc.n((2, 7)),
        movable: 0.8,
        limits: 0.3,
        links: 0.7,
        mimic: if rng.chance(0.2) { 0.3 } else { 0.0 },
        serial: [0.5, 0.9][rng.below(2)],
        ..Gen::default()
    };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    random_init(&mut rng, &mut spec);
    if rng.chance(0.15) {
        // massless links
        for n in spec.nodes.iter_mut() {
            if let Some(l) = &mut n.link {
                if rng.chance(0.5) {
                    l.mass = 0.0;
                }
            }
        }
    }
    let mut w = W::new(spec);
    w.add_root();
    let leaves = w.spec.leaves();
    w.add_end(leaves[rng.below(leaves.len())]);
    w.add_some(&mut rng, 1);
    if rng.chance(0.5) {
        // a serial sub-chain whose ancestors are outside
        let end = leaves[rng.below(leaves.len())];
        let p = w.spec.path(end);
        let r = p[rng.below(p.len())];
        w.add_sub(end, r);
    }
    let nt = sc.threads(&mut rng, 1, 4);
    if nt == 1 && rng.chance(0.4) {
        // (such a pass reads joints more than once, and no two reads have to agree when others move them)
        w.add_list(&mut rng);
        ex.count("runs with a chain of joints in any order", 1);
    }
    ex.setup = w.spec.describe();
    let per = if nt == 1 { 8 } else { 4 };
    let mut writes_left = 8;
    let lists: Vec<Vec<Op>> = (0..nt)
        .map(|t| {
            (0..sc.ops(&mut rng, 1, per))
                .map(|_| {
                    let i = rng.below(w.nodes.len());
                    let c = rng.below(w.chains.len());
                    let writer = rng.chance(if t % 2 == 1 { 0.7 } else { 0.25 }) && writes_left > 0;
                    if writer {
                        writes_left -= 1;
                        match rng.below(8) {
                            0..=3 => Op::Set(i, value(&mut rng, &w.spec, i, 0.95)),
                            4 => Op::Origin(i, new_origin(&mut rng, &w.spec, i)),
                            5 => Op::Unchecked(i, finite(value(&mut rng, &w.spec, i, 0.9))),
                            6 => Op::ChainSet(c, values(&mut rng, &w, c, 0.98)),
                            _ => Op::Clamped(i, finite(value(&mut rng, &w.spec, i, 0.7))),
                        }
                    } else {
                        match rng.below(12) {
                            0 => Op::End(c),
                            1..=3 => Op::Jac(c),
                            4 | 5 => Op::Com(c),
                            6 | 7 => Op::Vel(c),
                            8 | 9 => Op::LinkUpd(c),
                            10 => Op::WorldVel(i),
                            _ => Op::LinkRead(i),
                        }
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |_, op: &Op| w2.apply(op)))?;
    no_panics(&h)?;
    check_results(&w, &h)?;
    // quiet tail: every quantity once more, without any concurrency
    let mut t = h.iter().map(|e| e.ret).max().unwrap_or(0) + 10;
    let mut tail: Vec<Op> = (0..w.nodes.len()).map(Op::WorldVel).collect();
    for c in 0..w.chains.len() {
        tail.extend([Op::End(c), Op::Jac(c), Op::Com(c), Op::Vel(c)]);
        tail.extend(w.idx[c].iter().map(|i| Op::WorldVel(*i)));
        tail.push(Op::LinkUpd(c));
        tail.extend(w.idx[c].iter().map(|i| Op::LinkRead(*i)));
    }
    for op in tail {
        let r = w.apply(&op);
        h.push(Ev { tid: 99, idx: 0, op, inv: t, ret: t + 1, res: Ok(r) });
        t += 2;
    }
    let ws = writes(&w, &h);
    let mut per: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let mut skipped = 0;
    for e in &h {
        let res = e.res.as_ref().unwrap();
        let (name, c) = match &e.op {
            Op::End(c) => ("end transforms", *c),
            Op::Jac(c) => ("jacobians", *c),
            Op::Com(c) => ("centers of mass", *c),
            Op::Vel(c) => ("velocity passes", *c),
            _ => continue,
        };
        let nodes = match &e.op {
            // the end transform is the product over the joints of the chain only
            Op::End(_) => w.idx[c].clone(),
            _ => closure(&w, &w.idx[c]),
        };
        let cands: Vec<Vec<Iso>> = nodes.iter().map(|i| locals(&w, &ws, *i, e.inv, e.ret)).collect();
        let mut wanted = String::new();
        let ok = any_assignment(&cands, &mut |l| match (&e.op, res) {
            (Op::End(_), R::Iso(x)) => {
                let want = l.iter().fold(ID, |a, b| a.mul(b));
                if wanted.is_empty() {
                    wanted = format!("{:?}", want);
                }
                want.near(x)
            }
            (Op::End(_), R::Unit) => true,
            (Op::Jac(_), R::Unit) => true,
            (Op::Jac(_), R::Mat(r, n, x)) => {
                let want = ref_jacobian(&w, c, &kin(&w, &nodes, l).world);
                if wanted.is_empty() {
                    wanted = format!("{:?}", want);
                }
                *r == 6
                    && *n == want.len()
                    && want.iter().enumerate().all(|(k, col)| {
                        let s = col.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                        (0..6).all(|j| close(x[k * 6 + j], col[j], s))
                    })
            }
            (Op::Com(_), R::V3(x)) => match ref_com(&w, c, &kin(&w, &nodes, l).world) {
                Some(want) => {
                    if wanted.is_empty() {
                        wanted = format!("{:?}", want);
                    }
                    vclose(x, &want)
                }
                None => true,
            },
            (Op::Vel(_), R::Vels(x)) => {
                let k = kin(&w, &nodes, l);
                let v = ref_velocities(&w, &nodes, &k.world);
                if wanted.is_empty() {
                    wanted = format!("{:?}", w.idx[c].iter().map(|i| v[*i]).collect::<Vec<_>>());
                }
                x.len() == w.idx[c].len()
                    && w.idx[c].iter().zip(x).all(|(i, y)| vclose(&v[*i].0, &y.0) && vclose(&v[*i].1, &y.1))
            }
            _ => false,
        });
        match ok {
            None => skipped += 1,
            Some(true) => *per.entry(name).or_default() += 1,
            Some(false) => {
                return viol(
                    &format!("wrong {}", name),
                    format!(
                        "t{} {:?} over joints {:?} returned {:?}, which no one assignment of the positions and origins held during the call gives (one of them gives {})",
                        e.tid,
                        e.op,
                        w.idx[c].iter().map(|i| w.spec.nodes[*i].name.as_str()).collect::<Vec<_>>(),
                        res,
                        wanted
                    ),
                );
            }
        }
    }
    // remembered velocities and link poses
    for e in &h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (Op::WorldVel(i), R::OptVel(v)) => {
                let mut cw: Vec<Wr<Cell<(V, V)>>> = vec![];
                for x in cache_writes(&w, &h, &ws, *i) {
                    if let Cell::Empty = x.val {
                        cw.push(Wr { inv: x.inv, ret: x.ret, val: Cell::Empty, definite: x.definite });
                    }
                }
                for p in &h {
                    if let (Op::Vel(c), R::Vels(r)) = (&p.op, p.res.as_ref().unwrap()) {
                        if let Some(k) = w.idx[*c].iter().position(|x| x == i) {
                            cw.push(Wr { inv: p.inv, ret: p.ret, val: Cell::Val(r[k]), definite: true });
                        }
                    }
                }
                let c = candidates(&Cell::Empty, &cw, e.inv, e.ret);
                let ok = c.iter().any(|x| match (x, v) {
                    (Cell::Empty, None) => true,
                    (Cell::Val(a), Some(b)) => vclose(&a.0, &b.0) && vclose(&a.1, &b.1),
                    _ => false,
                });
                if !ok {
                    return viol("stale-velocity", format!("t{} reads the velocity {:?} of joint {}; possible were {:?}", e.tid, v, w.spec.nodes[*i].name, c));
                }
                // with the position and the origin which the joint has now
                if let Some(v) = v {
                    let path = w.spec.path(*i);
                    let mut fits = false;
                    for p in h.iter().filter(|p| p.inv < e.ret) {
                        let r = match (&p.op, p.res.as_ref().unwrap()) {
                            (Op::Vel(c), R::Vels(r)) => match w.idx[*c].iter().position(|x| x == i) {
                                Some(k) => r[k],
                                None => continue,
                            },
                            _ => continue,
                        };
                        if !(vclose(&r.0, &v.0) && vclose(&r.1, &v.1)) {
                            continue;
                        }
                        let mut cands: Vec<Vec<Iso>> = path.iter().map(|n| locals(&w, &ws, *n, p.inv, p.ret)).collect();
                        *cands.last_mut().unwrap() = locals(&w, &ws, *i, e.inv, e.ret);
                        fits |= any_assignment(&cands, &mut |l| {
                            let x = ref_velocities(&w, &path, &kin(&w, &path, l).world)[*i];
                            vclose(&x.0, &v.0) && vclose(&x.1, &v.1)
                        })
                        .unwrap_or(true);
                        if fits {
                            break;
                        }
                    }
                    if !fits {
                        return viol(
                            "stale-velocity",
                            format!(
                                "t{} reads the velocity {:?} of joint {}, after its position or origin was changed from what the velocity was computed with",
                                e.tid, v, w.spec.nodes[*i].name
                            ),
                        );
                    }
                }
                *per.entry("remembered velocities").or_default() += 1;
            }
            (Op::LinkRead(i), R::Link(v)) => {
                let spec = &w.spec.nodes[*i].link;
                let v = match (spec, v) {
                    (None, None) => continue,
                    (Some(_), Some(v)) => v,
                    _ => return viol("wrong link", format!("link() of joint {} is {:?}", w.spec.nodes[*i].name, v.is_some())),
                };
                let l = spec.as_ref().unwrap();
                // all parts carry the pose of one pass, or none (before the first pass)
                let mut lw: Vec<Wr<Cell<(u64, u64)>>> = vec![];
                for p in &h {
                    if let Op::LinkUpd(c) = &p.op {
                        if w.idx[*c].contains(i) {
                            lw.push(Wr { inv: p.inv, ret: p.ret, val: Cell::Val((p.inv, p.ret)), definite: true });
                        }
                    }
                }
                let cs = candidates(&Cell::Empty, &lw, e.inv, e.ret);
                let mut parts = vec![l.com];
                parts.extend(l.visuals.iter().cloned());
                parts.extend(l.collisions.iter().cloned());
                if parts.len() != v.len() {
                    return viol("wrong link", format!("link of {} has {} parts, expected {}", w.spec.nodes[*i].name, v.len(), parts.len()));
                }
                let mut fits = false;
                let mut undecided = false;
                for c in &cs {
                    match c {
                        Cell::Empty => fits |= v.iter().all(|x| x.is_none()),
                        Cell::Val((a, b)) => {
                            if v.iter().any(|x| x.is_none()) {
                                continue;
                            }
                            let path = w.spec.path(*i);
                            let cands: Vec<Vec<Iso>> = path.iter().map(|n| locals(&w, &ws, *n, *a, *b)).collect();
                            match any_assignment(&cands, &mut |l| {
                                let t = l.iter().fold(ID, |x, y| x.mul(y));
                                parts.iter().zip(v).all(|(p, x)| t.mul(p).near(x.as_ref().unwrap()))
                            }) {
                                None => undecided = true,
                                Some(x) => fits |= x,
                            }
                        }
                        Cell::Any => {}
                    }
                }
                if !fits && !undecided {
                    return viol(
                        "wrong link poses",
                        format!(
                            "t{} reads the poses {:?} of the link of joint {}; they are not those of one pose the joint had during a link update ({} candidates)",
                            e.tid, v, w.spec.nodes[*i].name, cs.len()
                        ),
                    );
                }
                *per.entry("link poses").or_default() += 1;
            }
            _ => {}
        }
    }
    for (k, v) in per {
        ex.count(&format!("{} checked", k), v);
    }
    ex.count("results not checked (too many candidates)", skipped);
    if rng.chance(0.25) {
        let k = edit_links(&mut rng, &w)?;
        ex.count("link elements moved", k);
    }
    let k = edit_joints(&mut rng, &w)?;
    ex.count("joints changed", k);
    if rng.chance(0.1) {
        twin(ex, &mut rng, &w, Part::Kinematics)?;
    }
    ex.nontrivial = ex.preemptions() > 0 || nt == 1;
    Ok(())
}
