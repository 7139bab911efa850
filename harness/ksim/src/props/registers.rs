//! C03 (joint registers), C04 (limits), C05 (mimic coupling).
use super::common::*;
use super::single::{twin, Part};
use crate::engine::*;
use crate::lin::*;
use crate::math::*;
use crate::spec::*;
use simstd::rt::Rng;
use std::sync::Arc;

/// observations of a node's position in the history: (inv, ret, node, value)
fn reads(w: &W, h: &H) -> Vec<(u64, u64, usize, f64, String)> {
    let mut o = vec![];
    for e in h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (Op::Get(i), R::Opt(Some(v))) => o.push((e.inv, e.ret, *i, *v, format!("t{} reads {}", e.tid, v))),
            (Op::ChainGet(c), R::Vec(vs)) => {
                for (i, v) in w.mov[*c].iter().zip(vs) {
                    o.push((e.inv, e.ret, *i, *v, format!("t{} reads {} in joint_positions", e.tid, v)));
                }
            }
            (Op::Clone(c), R::Cloned(vs)) => {
                for (i, (name, v)) in w.idx[*c].iter().zip(vs) {
                    if let (true, Some(v)) = (w.spec.nodes[*i].name == *name, v) {
                        o.push((e.inv, e.ret, *i, *v, format!("t{} reads {} in a clone", e.tid, v)));
                    }
                }
            }
            _ => {}
        }
    }
    o
}
fn shape_checks(w: &W, h: &H) -> Res {
    for e in h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (Op::Get(i), R::Opt(v)) => {
                if v.is_some() != w.spec.movable(*i) {
                    return viol("wrong-result", format!("joint_position of {} is {:?}", w.spec.nodes[*i].name, v));
                }
            }
            (Op::ChainGet(c), R::Vec(v)) => {
                if v.len() != w.mov[*c].len() {
                    return viol("wrong-result", format!("joint_positions returned {} values for {} movable joints", v.len(), w.mov[*c].len()));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn final_reads(w: &W, h: &mut H) {
    let t = h.iter().map(|e| e.ret).max().unwrap_or(0) + 10;
    for i in 0..w.nodes.len() {
        let r = w.apply(&Op::Get(i));
        h.push(Ev { tid: 99, idx: i, op: Op::Get(i), inv: t + 2 * i as u64, ret: t + 2 * i as u64 + 1, res: Ok(r) });
    }
}

pub fn c03(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let g = Gen { n: sc.n((1, 5)), movable: 0.85, limits: 0.5, links: 0.3, mimic: if rng.chance(0.3) { 0.4 } else { 0.0 }, ..Gen::default() };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    let mut w = W::new(spec);
    w.add_root();
    let k = rng.below(3);
    w.add_some(&mut rng, k);
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 2, 4);
    let movable: Vec<usize> = (0..w.nodes.len()).filter(|i| w.spec.movable(*i)).collect();
    let focus = if movable.is_empty() { 0 } else { movable[rng.below(movable.len())] };
    let legal = [0.6, 0.85, 1.0][rng.below(3)];
    let p_chain = [0.15, 0.4][rng.below(2)];
    let lists: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            (0..sc.ops(&mut rng, 1, 5))
                .map(|_| {
                    let i = if rng.chance(0.6) { focus } else { rng.below(w.nodes.len()) };
                    let c = rng.below(w.chains.len());
                    if rng.chance(p_chain) {
                        match rng.below(8) {
                            0 | 1 => Op::ChainSet(c, values(&mut rng, &w, c, legal)),
                            2 => {
                                let mut v = values(&mut rng, &w, c, 1.0);
                                if rng.chance(0.5) {
                                    v.push(0.123)
                                } else {
                                    v.pop();
                                }
                                if v.len() == w.mov[c].len() {
                                    v.push(0.5);
                                }
                                Op::ChainSet(c, v)
                            }
                            3 => Op::ChainClamped(c, values(&mut rng, &w, c, 0.6)),
                            4 => Op::ChainUnchecked(c, values(&mut rng, &w, c, 0.6)),
                            5 => Op::ChainOrigin(c, new_origin(&mut rng, &w.spec, w.idx[c][0])),
                            _ => Op::ChainGet(c),
                        }
                    } else {
                        match rng.below(10) {
                            0..=2 => Op::Set(i, value(&mut rng, &w.spec, i, legal)),
                            3 => Op::Clamped(i, value(&mut rng, &w.spec, i, 0.5)),
                            4 => Op::Unchecked(i, value(&mut rng, &w.spec, i, 0.5)),
                            5 => Op::Origin(i, new_origin(&mut rng, &w.spec, i)),
                            6 => Op::GetOrigin(i),
                            7 => match rng.below(4) {
                                0 => Op::Update(c),
                                1 => Op::End(c),
                                2 => Op::Com(c),
                                _ => Op::Display(c),
                            },
                            _ => Op::Get(i),
                        }
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |_, op: &Op| w2.apply(op)))?;
    no_panics(&h)?;
    check_results(&w, &h)?;
    shape_checks(&w, &h)?;
    final_reads(&w, &mut h);
    let ws = writes(&w, &h);
    let rs = reads(&w, &h);
    let mut overlap = 0u64;
    for i in 0..w.nodes.len() {
        if !w.spec.movable(i) {
            continue;
        }
        let init = w.spec.nodes[i].init;
        let mut ops: Vec<LOp> = vec![];
        for e in &h {
            for (n, v, d) in w.model(&e.op).0 {
                if n == i {
                    let c = vec![(0usize, canon_w(init, &ws.pos[i], v))];
                    ops.push(LOp {
                        inv: e.inv,
                        ret: e.ret,
                        what: if d { What::Write(c) } else { What::MaybeWrite(c) },
                        name: format!("t{} writes {}", e.tid, v),
                    });
                }
            }
        }
        for (inv, ret, n, v, name) in &rs {
            if *n == i {
                ops.push(LOp { inv: *inv, ret: *ret, what: What::Read(0, canon(init, &ws.pos[i], *v)), name: name.clone() });
            }
        }
        for a in 0..ops.len() {
            for b in a + 1..ops.len() {
                if ops[a].inv < ops[b].ret && ops[b].inv < ops[a].ret {
                    overlap += 1;
                }
            }
        }
        if let Some(m) = check(&[init.to_bits()], &ops) {
            return viol("not-linearizable", format!("joint {}: {}", w.spec.nodes[i].name, m));
        }
        // origin register
        let o0 = w.spec.nodes[i].origin;
        let id = |o: &Iso| -> u64 {
            if o.near(&o0) {
                return 0;
            }
            ws.org[i].iter().position(|x| x.val.near(o)).map(|p| p as u64 + 1).unwrap_or(u64::MAX)
        };
        let mut ops: Vec<LOp> = ws.org[i]
            .iter()
            .map(|x| LOp { inv: x.inv, ret: x.ret, what: What::Write(vec![(0, id(&x.val))]), name: format!("origin write {}", id(&x.val)) })
            .collect();
        for e in &h {
            if let (Op::GetOrigin(n), R::Iso(o)) = (&e.op, e.res.as_ref().unwrap()) {
                if *n == i {
                    ops.push(LOp { inv: e.inv, ret: e.ret, what: What::Read(0, id(o)), name: format!("origin read {:?}", o.t) });
                }
            }
        }
        let t = u64::MAX / 2;
        let fin = of_na(&w.nodes[i].origin());
        ops.push(LOp { inv: t, ret: t + 1, what: What::Read(0, id(&fin)), name: format!("final origin read {:?}", fin.t) });
        if let Some(m) = check(&[0], &ops) {
            return viol("origin-not-linearizable", format!("joint {}: {}", w.spec.nodes[i].name, m));
        }
    }
    ex.count("overlapping operation pairs on one joint", overlap);
    let rej = h.iter().filter(|e| matches!(e.res, Ok(R::Res(Err(_))))).count();
    ex.count("rejected setter calls", rej as u64);
    if rng.chance(0.1) {
        twin(ex, &mut rng, &w, Part::Setters)?;
    }
    ex.nontrivial = overlap > 0 && ex.preemptions() > 0;
    Ok(())
}

pub fn c04(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let ik = rng.chance(0.45);
    let g = if ik {
        Gen { n: sc.n((3, 8)), movable: 0.95, limits: 0.8, serial: 1.0, mimic: if rng.chance(0.3) { 0.2 } else { 0.0 }, ..Gen::default() }
    } else {
        Gen { n: sc.n((1, 6)), movable: 0.9, limits: 0.85, mimic: if rng.chance(0.5) { 0.4 } else { 0.0 }, ..Gen::default() }
    };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    // sometimes a degenerate range, and initial positions anywhere inside the range
    for i in 0..spec.nodes.len() {
        if let (true, Some((a, b))) = (spec.nodes[i].kind != JK::Fixed, spec.nodes[i].limits) {
            if rng.chance(0.1) {
                spec.nodes[i].limits = Some((a, a));
                spec.nodes[i].init = a;
            } else if rng.chance(0.5) {
                spec.nodes[i].init = rng.fr(a, b);
            }
        }
    }
    let mut w = W::new(spec);
    w.add_root();
    let leaves = w.spec.leaves();
    let arm = w.add_end(leaves[rng.below(leaves.len())]);
    w.add_some(&mut rng, 1);
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 2, 4);
    let lists: Vec<Vec<Op>> = (0..nt)
        .map(|t| {
            if ik && t == 0 {
                (0..rng.range(1, 2))
                    .map(|_| {
                        let mut op = super::ik::random_ik(&mut rng, &w, arm);
                        if let Op::Ik(_, _, o) = &mut op {
                            if rng.chance(0.15) {
                                o.nullspace = true;
                                o.drift = [f64::NAN, f64::INFINITY, 1e9][rng.below(3)];
                            }
                        }
                        op
                    })
                    .collect()
            } else {
                (0..sc.ops(&mut rng, 2, 6))
                    .map(|_| {
                        let i = rng.below(w.nodes.len());
                        let c = rng.below(w.chains.len());
                        match rng.below(10) {
                            0 | 1 => Op::Set(i, if rng.chance(0.05) { f64::NAN } else { value(&mut rng, &w.spec, i, 0.5) }),
                            2 => Op::Clamped(i, value(&mut rng, &w.spec, i, 0.3)),
                            3 => Op::ChainSet(c, values(&mut rng, &w, c, 0.8)),
                            4 => Op::ChainClamped(c, values(&mut rng, &w, c, 0.3)),
                            5 => Op::ChainGet(c),
                            6 => Op::Clone(0),
                            _ => Op::Get(i),
                        }
                    })
                    .collect()
            }
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |_, op: &Op| w2.apply(op)))?;
    no_panics(&h)?;
    check_results(&w, &h)?;
    final_reads(&w, &mut h);
    let rs = reads(&w, &h);
    for (inv, _, i, v, name) in &rs {
        if !w.spec.in_limits(*i, *v) {
            return viol(
                "limit-violated",
                format!(
                    "joint {} with limits {:?} observed at {} ({} at event {})",
                    w.spec.nodes[*i].name, w.spec.nodes[*i].limits, v, name, inv
                ),
            );
        }
    }
    let lim = rs.iter().filter(|r| w.spec.nodes[r.2].limits.is_some()).count();
    ex.count("observations of limited joints", lim as u64);
    ex.count("rejected setter calls", h.iter().filter(|e| matches!(e.res, Ok(R::Res(Err(ErrK::OutOfLimit(..)))))).count() as u64);
    ex.count("inverse-kinematics calls", h.iter().filter(|e| matches!(e.op, Op::Ik(..))).count() as u64);
    if rng.chance(0.1) {
        twin(ex, &mut rng, &w, Part::Setters)?;
    }
    ex.nontrivial = lim > 0 && ex.preemptions() > 0;
    Ok(())
}

/// A joint gets another leader while others set and read.
#[derive(Clone, Debug)]
enum ROp {
    Set(usize, f64),
    Get(usize),
    Couple(usize, f64, f64),
    Leader,
    /// by the thread which couples: set its leader and read the follower
    Lead(f64),
}
#[derive(Clone, Debug)]
enum RR {
    Res(Result<(), ErrK>),
    Val(Option<f64>),
    Node(Option<usize>),
}
fn c05_recouple(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let _ = rng.next();
    let g = Gen { n: (3, 5), movable: 1.0, limits: 0.0, mimic: 0.0, links: 0.1, ..Gen::default() };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    let w = W::new(spec);
    ex.setup = w.spec.describe();
    let n = w.nodes.len();
    let f = rng.below(n);
    let own = (f + 1) % n; // set by thread 1 only, like the couplings
    let leaders: Vec<usize> = (0..n).filter(|x| *x != f && *x != own).collect();
    // thread 0 sets the other leaders
    let start = [own, leaders[0]][rng.below(2)];
    // it may also be on its own until the first coupling
    let start = if rng.chance(0.3) { None } else { Some(start) };
    let val = |rng: &mut Rng| rng.fr(-3.0, 3.0);
    let nt = rng.range(2, 4);
    let lists: Vec<Vec<ROp>> = (0..nt)
        .map(|t| {
            (0..rng.range(2, 6))
                .map(|_| match t {
                    0 => ROp::Set(leaders[rng.below(leaders.len())], val(&mut rng)),
                    1 => match rng.below(8) {
                        0..=2 => {
                            let l = if rng.chance(0.6) { own } else { leaders[rng.below(leaders.len())] };
                            ROp::Couple(l, [1.0, -1.0, 2.0, rng.fr(-2.0, 2.0)][rng.below(4)], rng.fr(-1.0, 1.0))
                        }
                        3..=5 => ROp::Lead(val(&mut rng)),
                        6 => ROp::Leader,
                        _ => ROp::Get(f),
                    },
                    _ if start.is_none() && rng.chance(0.4) => ROp::Set(f, val(&mut rng)),
                    _ => match rng.below(5) {
                        0 => ROp::Set(f, val(&mut rng)),
                        1 => ROp::Get(leaders[rng.below(leaders.len())]),
                        2 => ROp::Leader,
                        _ => ROp::Get(f),
                    },
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let init = w.spec.nodes[f].init;
    if let Some(l) = start {
        w.nodes[f].set_mimic_parent(&w.nodes[l], k::joint::Mimic::new(0.5, 0.25));
    }
    let w = Arc::new(w);
    let w2 = w.clone();
    let run = move |_: usize, op: &ROp| -> RR {
        let nd = &w2.nodes;
        match op {
            ROp::Set(i, v) => RR::Res(nd[*i].set_joint_position(*v).map_err(|e| errk(&e))),
            ROp::Get(i) => RR::Val(nd[*i].joint_position()),
            ROp::Couple(l, m, o) => {
                nd[f].set_mimic_parent(&nd[*l], k::joint::Mimic::new(*m, *o));
                RR::Res(Ok(()))
            }
            ROp::Leader => RR::Node(nd[f].mimic_parent().map(|p| nd.iter().position(|x| *x == p).unwrap_or(n))),
            ROp::Lead(v) => match nd[own].set_joint_position(*v) {
                Ok(()) => RR::Val(nd[f].joint_position()),
                Err(e) => RR::Res(Err(errk(&e))),
            },
        }
    };
    let h = ex.run_ops(lists, None, Arc::new(run))?;
    if let Some(e) = h.iter().find(|e| e.res.is_err()) {
        return viol("panic", format!("t{} {:?} panicked: {:?}", e.tid, e.op, e.res));
    }
    // the couplings in order: (inv, ret, leader, multiplier, offset)
    let mut cs: Vec<(u64, u64, usize, f64, f64)> = start.map(|s| (0, 0, s, 0.5, 0.25)).into_iter().collect();
    for e in &h {
        if let ROp::Couple(l, m, o) = e.op {
            cs.push((e.inv, e.ret, l, m, o));
        }
    }
    cs.sort_by_key(|c| c.0);
    let end = h.iter().map(|e| e.ret).max().unwrap_or(0) + 10;
    // the positions the follower can have got: (inv, ret, value, coupling)
    let mut sets: Vec<(u64, u64, f64, usize)> = vec![];
    for e in &h {
        let (l, v) = match e.op {
            ROp::Set(l, v) if l != f => (l, v),
            ROp::Lead(v) => (own, v),
            _ => continue,
        };
        if let RR::Res(Err(x)) = e.res.as_ref().unwrap() {
            return viol("wrong-result", format!("t{} {:?} returned {:?}", e.tid, e.op, x));
        }
        for (k, c) in cs.iter().enumerate() {
            let until = cs.get(k + 1).map(|c| c.1).unwrap_or(end);
            if c.2 == l && c.0 <= e.ret && e.inv <= until {
                sets.push((e.inv, e.ret, c.3 * v + c.4, k));
            }
        }
    }
    // and the ones of its own, until it has a leader: (inv, ret or the first coupling, value)
    let free_until = if start.is_some() { 0 } else { cs.first().map(|c| c.1).unwrap_or(end) };
    let mut free: Vec<(u64, u64, f64)> = vec![];
    for e in &h {
        match e.op {
            ROp::Set(i, v) if i == f && e.inv <= free_until => free.push((e.inv, e.ret.min(free_until), v)),
            _ => {}
        }
    }
    let values = |a: u64, b: u64| -> Vec<f64> {
        let dead = |r: u64, k: usize| {
            sets.iter().any(|s| {
                // a later set of the coupling in force, complete before
                s.0 > r && s.1 < a && s.3 >= k && cs[s.3].1 < s.0 && cs.get(s.3 + 1).map(|c| c.0 > s.1).unwrap_or(true)
            })
        };
        let mut v: Vec<f64> = sets.iter().filter(|s| s.0 < b && !dead(s.1, s.3)).map(|s| s.2).collect();
        v.extend(free.iter().filter(|s| s.0 < b && !dead(s.1, 0)).map(|s| s.2));
        if !dead(0, 0) {
            v.push(init);
        }
        v
    };
    let fits = |x: f64, a: u64, b: u64| values(a, b).iter().any(|v| near(*v, x));
    let mut reads = 0;
    for e in &h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (ROp::Get(i), RR::Val(Some(x))) if *i == f => {
                reads += 1;
                if !fits(*x, e.inv, e.ret) {
                    return viol("mimic-of-former-leader", format!("t{} reads {} of {}, possible are {:?}; couplings {:?}", e.tid, x, w.spec.nodes[f].name, values(e.inv, e.ret), cs));
                }
            }
            (ROp::Lead(v), RR::Val(Some(x))) => {
                reads += 1;
                let c = cs.iter().rev().find(|c| c.1 < e.inv);
                let ok = match c {
                    Some(c) if c.2 == own => near(*x, c.3 * v + c.4),
                    _ => fits(*x, e.inv, e.ret),
                };
                if !ok {
                    return viol("mimic-of-former-leader", format!("t{} set the leader to {} and reads {} of the follower; couplings {:?}", e.tid, v, x, cs));
                }
            }
            (ROp::Leader, RR::Node(x)) => {
                let k = x.is_none() && e.inv <= free_until && start.is_none()
                    || cs.iter().enumerate().any(|(k, c)| c.0 <= e.ret && cs.get(k + 1).map(|d| e.inv <= d.1).unwrap_or(true) && *x == Some(c.2));
                if !k {
                    return viol("wrong-leader", format!("t{} got the leader {:?}; couplings {:?}", e.tid, x, cs));
                }
            }
            (ROp::Get(_), RR::Val(_)) | (ROp::Set(..) | ROp::Couple(..), RR::Res(Ok(()))) => {}
            (op, r) => return viol("wrong-result", format!("t{} {:?} returned {:?}", e.tid, op, r)),
        }
    }
    let x = w.nodes[f].joint_position().unwrap();
    if !fits(x, end, end + 1) {
        return viol("mimic-of-former-leader", format!("the follower ends at {}, possible are {:?}; couplings {:?}", x, values(end, end + 1), cs));
    }
    // and afterwards only the last leader moves it
    let last = cs.last();
    let mut want = x;
    for i in (0..n).chain(0..n) {
        if i == f {
            continue;
        }
        let v = 0.1 + 0.3 * i as f64;
        if let Err(e) = w.nodes[i].set_joint_position(v) {
            return viol("wrong-result", format!("set of {} to {} returned {:?}", w.spec.nodes[i].name, v, e));
        }
        if let Some(l) = last.filter(|l| l.2 == i) {
            want = l.3 * v + l.4;
        }
        let got = w.nodes[f].joint_position().unwrap();
        if !near(got, want) {
            return viol("mimic-of-former-leader", format!("after {} was set to {} the follower is at {}, expected {}; couplings {:?}", w.spec.nodes[i].name, v, got, want, cs));
        }
    }
    ex.count("couplings while running", (cs.len() - start.is_some() as usize) as u64);
    ex.count("positions set before a joint had a leader", free.len() as u64);
    ex.count("reads of a follower which gets other leaders", reads);
    ex.nontrivial = cs.len() > start.is_some() as usize && reads > 0 && ex.preemptions() > 0;
    Ok(())
}
/// Several threads give the same joint leaders.  Afterwards it follows exactly one of those that can
/// have been the last.
fn c05_contended(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let _ = rng.next();
    let g = Gen { n: (3, 5), movable: 1.0, limits: 0.0, mimic: 0.0, links: 0.1, ..Gen::default() };
    let mut spec = Spec::random(&mut rng, &g);
    spec.share_names(&mut rng);
    let w = W::new(spec);
    ex.setup = w.spec.describe();
    let n = w.nodes.len();
    let f = rng.below(n);
    let leaders: Vec<usize> = (0..n).filter(|x| *x != f).collect();
    let start = if rng.chance(0.7) { Some(leaders[rng.below(leaders.len())]) } else { None };
    let nt = rng.range(2, 3);
    let lists: Vec<Vec<ROp>> = (0..nt)
        .map(|_| {
            (0..rng.range(1, 3))
                .map(|_| {
                    let l = leaders[rng.below(leaders.len())];
                    match rng.below(5) {
                        0..=2 => ROp::Couple(l, rng.fr(0.5, 2.0), rng.fr(-1.0, 1.0)),
                        3 => ROp::Set(l, rng.fr(-3.0, 3.0)),
                        _ => ROp::Leader,
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    if let Some(s) = start {
        w.nodes[f].set_mimic_parent(&w.nodes[s], k::joint::Mimic::new(0.5, 0.25));
    }
    let w = Arc::new(w);
    let w2 = w.clone();
    let run = move |_: usize, op: &ROp| -> RR {
        let nd = &w2.nodes;
        match op {
            ROp::Set(i, v) => RR::Res(nd[*i].set_joint_position(*v).map_err(|e| errk(&e))),
            ROp::Couple(l, m, o) => {
                nd[f].set_mimic_parent(&nd[*l], k::joint::Mimic::new(*m, *o));
                RR::Res(Ok(()))
            }
            _ => RR::Node(nd[f].mimic_parent().map(|p| nd.iter().position(|x| *x == p).unwrap_or(n))),
        }
    };
    let h = ex.run_ops(lists, None, Arc::new(run))?;
    if let Some(e) = h.iter().find(|e| e.res.is_err()) {
        return viol("panic", format!("t{} {:?} panicked: {:?}", e.tid, e.op, e.res));
    }
    let mut cs: Vec<(u64, u64, usize, f64, f64)> = start.map(|s| (0, 0, s, 0.5, 0.25)).into_iter().collect();
    for e in &h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (ROp::Couple(l, m, o), _) => cs.push((e.inv, e.ret, *l, *m, *o)),
            (ROp::Set(..), RR::Res(Err(x))) => return viol("wrong-result", format!("t{} {:?} returned {:?}", e.tid, e.op, x)),
            _ => {}
        }
    }
    let last: Vec<_> = cs.iter().filter(|c| !cs.iter().any(|d| d.0 > c.1)).collect();
    let got = w.nodes[f].mimic_parent().map(|p| w.nodes.iter().position(|x| *x == p).unwrap_or(n));
    if cs.is_empty() && got.is_some() || !cs.is_empty() && !last.iter().any(|c| Some(c.2) == got) {
        return viol("wrong-leader", format!("{} ends with the leader {:?}; couplings {:?}", w.spec.nodes[f].name, got, cs));
    }
    let mut known: Vec<(f64, f64)> = last.iter().filter(|c| Some(c.2) == got).map(|c| (c.3, c.4)).collect();
    let mut want = w.nodes[f].joint_position().unwrap();
    for i in leaders.iter().chain(&leaders) {
        let v = rng.fr(-2.0, 2.0);
        if let Err(e) = w.nodes[*i].set_joint_position(v) {
            return viol("wrong-result", format!("set of {} to {} returned {:?}", w.spec.nodes[*i].name, v, e));
        }
        let x = w.nodes[f].joint_position().unwrap();
        if Some(*i) == got {
            known.retain(|(m, o)| near(x, m * v + o));
            if known.is_empty() {
                return viol("mimic-lost", format!("its leader {} was set to {} and the follower is at {}; couplings {:?}", w.spec.nodes[*i].name, v, x, cs));
            }
            want = x;
        }
        if x != want {
            return viol("mimic-of-former-leader", format!("{} was set to {} and {}, which follows {:?}, went to {}; couplings {:?}", w.spec.nodes[*i].name, v, w.spec.nodes[f].name, got, x, cs));
        }
    }
    ex.count("joints coupled by several threads", 1);
    ex.nontrivial = last.len() > 1;
    Ok(())
}
pub fn c05(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    if rng.chance(0.12) {
        return c05_recouple(ex);
    }
    if rng.chance(0.06) {
        return c05_contended(ex);
    }
    let sc = Scale::pick(&mut rng);
    let g = Gen { n: sc.n((2, 6)), movable: 0.95, limits: if rng.chance(0.4) { 0.3 } else { 0.0 }, mimic: 0.6, links: 0.2, ..Gen::default() };
    let mut spec = Spec::random(&mut rng, &g);
    let mut tries = 0;
    while !spec.nodes.iter().any(|n| n.mimic.is_some()) && tries < 50 {
        spec = Spec::random(&mut rng, &g);
        tries += 1;
    }
    spec.share_names(&mut rng);
    let mut w = W::new(spec);
    w.add_root();
    w.add_some(&mut rng, 1);
    ex.setup = w.spec.describe();
    let n = w.nodes.len();
    let leaders: Vec<usize> = (0..n).filter(|i| !w.spec.followers(*i).is_empty()).collect();
    if leaders.is_empty() {
        return Ok(());
    }
    let l = leaders[rng.below(leaders.len())];
    let fs = w.spec.followers(l);
    let direct = rng.chance(0.3);
    let nt = sc.threads(&mut rng, 2, 4);
    let lists: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            (0..sc.ops(&mut rng, 1, 5))
                .map(|_| {
                    let f = fs[rng.below(fs.len())];
                    let c = rng.below(w.chains.len());
                    match rng.below(12) {
                        0..=2 => Op::Set(l, value(&mut rng, &w.spec, l, 0.9)),
                        3 => Op::ChainSet(c, values(&mut rng, &w, c, 0.95)),
                        4 => Op::ChainGet(c),
                        5 => Op::Get(l),
                        6 => Op::Set(f, value(&mut rng, &w.spec, f, 0.9)),
                        7 => {
                            let x = if rng.chance(0.5) { l } else { f };
                            if !direct {
                                Op::Get(x)
                            } else if rng.chance(0.5) {
                                Op::Clamped(x, value(&mut rng, &w.spec, x, 0.7))
                            } else {
                                Op::Unchecked(x, value(&mut rng, &w.spec, x, 0.7))
                            }
                        }
                        8 => match rng.below(3) {
                            0 => Op::Update(c),
                            1 => Op::Display(c),
                            _ => Op::Clone(0),
                        },
                        9 => Op::Get(l),
                        _ => Op::Get(f),
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |_, op: &Op| w2.apply(op)))?;
    no_panics(&h)?;
    check_results(&w, &h)?;
    final_reads(&w, &mut h);
    let ws = writes(&w, &h);
    let rs = reads(&w, &h);
    let mut overlap = 0;
    for l in leaders {
        for f in w.spec.followers(l) {
            let ini = [w.spec.nodes[l].init, w.spec.nodes[f].init];
            let cell = |n: usize| if n == l { Some(0) } else if n == f { Some(1) } else { None };
            let mut ops: Vec<LOp> = vec![];
            for e in &h {
                let mut cells = vec![];
                let mut definite = true;
                let mut split = false;
                // one atomic group per leader assignment; a chain call is one call per joint
                for (n, v, d) in w.model(&e.op).0 {
                    if let Some(c) = cell(n) {
                        if c == 0 && cells.iter().any(|(x, _)| *x == 0) {
                            split = true;
                        }
                        cells.push((c, canon_w(ini[c], &ws.pos[n], v)));
                        definite &= d;
                    }
                }
                let _ = split;
                if cells.is_empty() {
                    continue;
                }
                let checked = matches!(e.op, Op::Set(..) | Op::ChainSet(..));
                let groups: Vec<Vec<(usize, u64)>> =
                    if checked && definite { vec![cells] } else { cells.into_iter().map(|c| vec![c]).collect() };
                for g in groups {
                    ops.push(LOp {
                        inv: e.inv,
                        ret: e.ret,
                        what: if definite { What::Write(g.clone()) } else { What::MaybeWrite(g.clone()) },
                        name: format!(
                            "t{} {:?} writes {:?}",
                            e.tid,
                            e.op,
                            g.iter().map(|(c, v)| (["leader", "follower"][*c], f64::from_bits(*v))).collect::<Vec<_>>()
                        ),
                    });
                }
            }
            for (inv, ret, n, v, name) in &rs {
                if let Some(c) = cell(*n) {
                    ops.push(LOp {
                        inv: *inv,
                        ret: *ret,
                        what: What::Read(c, canon(ini[c], &ws.pos[*n], *v)),
                        name: format!("{} ({})", name, ["leader", "follower"][c]),
                    });
                }
            }
            for a in 0..ops.len() {
                for b in a + 1..ops.len() {
                    if ops[a].inv < ops[b].ret && ops[b].inv < ops[a].ret {
                        overlap += 1;
                    }
                }
            }
            if let Some(m) = check(&[ini[0].to_bits(), ini[1].to_bits()], &ops) {
                return viol(
                    "mimic-incoherent",
                    format!("{} follows {}: {}", w.spec.nodes[f].name, w.spec.nodes[l].name, m),
                );
            }
        }
    }
    ex.count("overlapping operation pairs on a coupled pair", overlap);
    if rng.chance(0.1) {
        twin(ex, &mut rng, &w, Part::Setters)?;
    }
    ex.nontrivial = overlap > 0 && ex.preemptions() > 0;
    Ok(())
}
