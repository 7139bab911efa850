//! C06 (IK success), C07 (IK failure), C08 (IK progress), C16 (callbacks), C17 (independent arms).
use super::common::*;
use super::single;
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use k::InverseKinematicsSolver;
use simstd::rt::{self, Kind, Rng};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub fn arm_joints(w: &W, arm: usize) -> &Vec<usize> {
    &w.mov[arm]
}
fn rand_mask(rng: &mut Rng) -> [bool; 6] {
    match rng.below(6) {
        0 => [true, true, true, false, false, false],
        1 => [true, true, true, true, false, false],
        2 => [true, true, false, false, false, true],
        3 => [false, false, false, true, true, true],
        4 => [true, true, true, true, true, true],
        _ => {
            let mut m = [false; 6];
            for x in m.iter_mut() {
                *x = rng.chance(0.5);
            }
            if !m.iter().any(|x| *x) {
                m[rng.below(3)] = true;
            }
            m
        }
    }
}
/// a target for the arm: near its current pose, reachable far away, or anywhere
fn rand_target(rng: &mut Rng, w: &W, arm: usize, q: &[f64], kind: usize) -> Iso {
    let end = *w.idx[arm].last().unwrap();
    let mut t = q.to_vec();
    match kind {
        0 => {
            for i in arm_joints(w, arm) {
                t[*i] = w.spec.clamp(*i, t[*i] + rng.fr(-0.05, 0.05));
            }
            w.spec.world(&t)[end]
        }
        1 => {
            for i in arm_joints(w, arm) {
                t[*i] = match w.spec.nodes[*i].limits {
                    Some((a, b)) => rng.fr(a, b),
                    None => rng.fr(-1.5, 1.5),
                };
            }
            w.spec.world(&t)[end]
        }
        2 => rand_iso(rng, 1.0, 2.0),
        // where it is, or as good as there
        4 => {
            let mut x = w.spec.world(q)[end];
            if rng.chance(0.6) {
                x.t[rng.below(3)] += [1e-14, 1e-12, 1e-10, 1e-8][rng.below(4)];
            }
            x
        }
        _ => {
            let mut x = rand_iso(rng, 1.0, 2.0);
            x.t = [100.0 + rng.f(), 0.0, 0.0];
            x
        }
    }
}
pub fn random_ik(rng: &mut Rng, w: &W, arm: usize) -> Op {
    let mut o = IkOpt { tries: rng.range(1, 10), ..IkOpt::default() };
    if rng.chance(0.6) {
        o.mask = Some(rand_mask(rng));
    }
    let names: Vec<String> = arm_joints(w, arm).iter().map(|i| w.spec.nodes[*i].name.clone()).collect();
    if rng.chance(0.3) && !names.is_empty() {
        for _ in 0..rng.range(1, 2) {
            let n = names[rng.below(names.len())].clone();
            if !o.ignored.contains(&n) {
                o.ignored.push(n);
            }
        }
    }
    o.nullspace = rng.chance(0.2);
    let kind = rng.below(4);
    let t = rand_target(rng, w, arm, &w.init(), kind);
    Op::Ik(arm, t, o)
}

// ------------------------------------------------------------------ shared IK workload
#[derive(Clone, Debug)]
enum IOp {
    /// solve, then read back every joint from the same thread
    Solve { arm: usize, target: Iso, opt: IkOpt, nan: bool },
    Plain(Op),
}
#[derive(Clone, Debug)]
enum IR {
    Solve { res: Result<(), ErrK>, before: Vec<Option<f64>>, after: Vec<Option<f64>>, calls: u64 },
    Plain(R),
}
fn positions(w: &W) -> Vec<Option<f64>> {
    w.nodes.iter().map(|n| n.joint_position()).collect()
}
fn exec_iop(w: &W, op: &IOp) -> IR {
    match op {
        IOp::Plain(o) => IR::Plain(w.apply(o)),
        IOp::Solve { arm, target, opt, nan } => {
            let s = w.serial(*arm).unwrap();
            let calls = Arc::new(AtomicU64::new(0));
            let (mut sol, con) = w.solver(opt);
            if opt.nullspace {
                let c = calls.clone();
                let drift = opt.drift;
                sol.set_nullspace_function(Box::new(move |q: &[f64]| {
                    c.fetch_add(1, SeqCst);
                    if let Some(h) = rt::current() {
                        h.point(Kind::Callback, 1);
                    }
                    if drift != 0.0 {
                        // a constant direction of length `drift`
                        let v: Vec<f64> = (0..q.len()).map(|i| (1.0 + 1.7 * i as f64).sin()).collect();
                        let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                        return v.iter().map(|x| x * drift / n).collect();
                    }
                    q.iter().map(|x| -0.05 * x).collect()
                }));
            }
            let mut t = target.to_na();
            if *nan {
                t.translation.vector[1] = f64::NAN;
            }
            let before = positions(w);
            let r = if opt.mask.is_none() && opt.ignored.is_empty() {
                sol.solve(s, &t)
            } else {
                sol.solve_with_constraints(s, &t, &con)
            };
            let after = positions(w);
            IR::Solve { res: r.map_err(|e| errk(&e)), before, after, calls: calls.load(SeqCst) }
        }
    }
}
/// observers and motions of joints that do not belong to the arm
fn bystander(rng: &mut Rng, w: &W, arm: usize, moves: bool) -> Op {
    let inarm = arm_joints(w, arm);
    let free: Vec<usize> = (0..w.nodes.len())
        .filter(|i| {
            w.spec.movable(*i)
                && !inarm.contains(i)
                && !w.spec.followers(*i).iter().any(|f| inarm.contains(f))
        })
        .collect();
    let c = rng.below(w.chains.len());
    if moves && !free.is_empty() && rng.chance(0.4) {
        let i = free[rng.below(free.len())];
        return match rng.below(3) {
            0 => Op::Clamped(i, value(rng, &w.spec, i, 1.0)),
            _ => Op::Set(i, value(rng, &w.spec, i, 1.0)),
        };
    }
    match rng.below(10) {
        0 => Op::Update(c),
        1 => Op::ChainGet(c),
        2 => Op::Com(c),
        3 => Op::Vel(c),
        4 => Op::Display(c),
        5 => Op::LinkUpd(c),
        6 => Op::Jac(c),
        7 => Op::End(c),
        8 => Op::Get(rng.below(w.nodes.len())),
        _ => Op::World(rng.below(w.nodes.len())),
    }
}
/// A robot with at least one arm from the root; returns (world, arm).
fn arm_world(rng: &mut Rng, dof: (usize, usize), limits: f64, mimic: f64, branch: bool) -> (W, usize) {
    let n = if dof.1 > 6 && rng.chance(0.015) { rng.range(10, 24) } else { rng.range(dof.0, dof.1) };
    let g = Gen {
        n: (n, n),
        movable: 0.93,
        linear: 0.2,
        limits,
        serial: 1.0,
        links: 0.4,
        mimic,
        origin_rot: 0.5,
        legal_init: true,
    };
    let mut spec = Spec::random(rng, &g);
    for x in spec.nodes.iter_mut() {
        // wide ranges: most solves should get somewhere
        if let Some((a, b)) = x.limits {
            x.limits = Some((a - 0.5, b + 0.5));
        }
    }
    let end = n - 1;
    if branch {
        for k in 0..rng.range(1, 3) {
            let parent = rng.below(spec.nodes.len());
            let kind = if rng.chance(0.8) { JK::Rot(rand_axis(rng)) } else { JK::Lin(rand_axis(rng)) };
            let link = Some(rand_link(rng, &format!("bl{}", k)));
            spec.nodes.push(NodeS {
                name: format!("b{}", k),
                kind,
                limits: None,
                origin: rand_iso(rng, 0.5, 1.0),
                parent: Some(parent),
                link,
                mimic: None,
                vel: 0.3,
                init: 0.0,
            });
        }
    }
    let locked = rng.chance(0.2);
    for i in 0..spec.nodes.len() {
        if locked && spec.nodes[i].limits.is_some() && rng.chance(0.3) {
            // it can not be moved
            let v = rng.fr(-1.0, 1.0);
            spec.nodes[i].limits = Some((v, v));
            spec.nodes[i].init = v;
        }
        if spec.nodes[i].kind != JK::Fixed && rng.chance(0.8) {
            let v = match spec.nodes[i].limits {
                Some((a, b)) => rng.fr(a, b),
                None => rng.fr(-1.5, 1.5),
            };
            spec.nodes[i].init = v;
        }
    }
    let mut w = W::new(spec);
    w.add_root();
    let arm = w.add_end(end);
    (w, arm)
}
fn random_opt(rng: &mut Rng, w: &W, arm: usize) -> IkOpt {
    let mut o = IkOpt { tries: [3, 10, 10, 20, 40][rng.below(5)], ..IkOpt::default() };
    if rng.chance(0.55) {
        o.mask = Some(rand_mask(rng));
    }
    if rng.chance(0.15) {
        o.tol = Some([(1e-6, 1e-6), (0.05, 0.05), (1e-3, 10.0), (10.0, 1e-3)][rng.below(4)]);
    }
    let names: Vec<String> = arm_joints(w, arm).iter().map(|i| w.spec.nodes[*i].name.clone()).collect();
    if rng.chance(0.35) && !names.is_empty() {
        for _ in 0..rng.range(1, 3) {
            let n = names[rng.below(names.len())].clone();
            if !o.ignored.contains(&n) || rng.chance(0.1) {
                o.ignored.push(n);
            }
        }
        if o.mask.is_none() {
            o.mask = Some([true, true, true, rng.chance(0.5), false, false]);
        }
    }
    o.nullspace = rng.chance(0.25);
    o.mult = [0.5, 0.5, 0.3, 1.0][rng.below(4)];
    o
}
/// the distance and the angle over the constrained components
pub fn pose_error(cur: &Iso, target: &Iso, mask: &[bool; 6]) -> (f64, f64) {
    let mut dp = sub(&target.t, &cur.t);
    let mut dr = rotvec(&mm(&target.r, &tr(&cur.r)));
    for i in 0..3 {
        if !mask[i] {
            dp[i] = 0.0;
        }
        if !mask[i + 3] {
            dr[i] = 0.0;
        }
    }
    (norm(&dp), norm(&dr))
}
fn unchanged(a: &Option<f64>, b: &Option<f64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x.to_bits() == y.to_bits() || x == y,
        (None, None) => true,
        _ => false,
    }
}
/// nodes moved by some other thread during [inv, ret]
fn moved_by_others(w: &W, h: &[Ev<IOp, IR>], tid: usize) -> Vec<bool> {
    let mut m = vec![false; w.nodes.len()];
    for e in h {
        if e.tid != tid {
            if let IOp::Plain(o) = &e.op {
                for (i, _, _) in w.model(o).0 {
                    m[i] = true;
                }
            }
        }
    }
    m
}

/// requests to a twin of the robot in single precision
fn twin_solves(ex: &mut Exec, rng: &mut Rng, w: &W, arm: usize, few: bool) -> Res {
    let t = single::Twin::new(w);
    for _ in 0..rng.range(1, 3) {
        let mut opt = random_opt(rng, w, arm);
        if few {
            opt.tries = rng.below(5);
        }
        let kind = [0, 0, 1, 1, 2][rng.below(5)];
        let target = rand_target(rng, w, arm, &w.init(), kind);
        match t.solve(arm, &target, &opt)? {
            true => ex.count("successful solves in single precision", 1),
            false => ex.count("failed solves in single precision", 1),
        }
    }
    Ok(())
}
pub fn c06(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let (mut w, arm) = arm_world(&mut rng, (3, 9), 0.5, 0.0, true);
    let mut outside = vec![];
    if rng.chance(0.12) {
        // some joints are a little or far outside of their limits before
        for i in arm_joints(&w, arm).clone() {
            if let Some((a, b)) = w.spec.nodes[i].limits {
                if rng.chance(0.5) {
                    let d = [1e-6, 1e-5, 1e-3, 0.3][rng.below(4)];
                    w.spec.nodes[i].init = if rng.chance(0.5) { b + d } else { a - d };
                    w.nodes[i].set_joint_position_unchecked(w.spec.nodes[i].init);
                    outside.push(i);
                }
            }
        }
        ex.count("runs starting outside the limits", !outside.is_empty() as u64);
    }
    ex.setup = format!("{} arm to {}", w.spec.describe(), w.spec.nodes[*w.idx[arm].last().unwrap()].name);
    let q = w.init();
    let nt = rng.range(2, 3);
    let lists: Vec<Vec<IOp>> = (0..nt)
        .map(|t| {
            if t == 0 {
                (0..rng.range(1, 3))
                    .map(|_| {
                        let opt = random_opt(&mut rng, &w, arm);
                        let kind = [0, 0, 1, 1, 1, 2][rng.below(6)];
                        let kind = if rng.chance(if outside.is_empty() { 0.03 } else { 0.5 }) { 4 } else { kind };
                        IOp::Solve { arm, target: rand_target(&mut rng, &w, arm, &q, kind), opt, nan: false }
                    })
                    .collect()
            } else {
                (0..rng.range(2, 6)).map(|_| IOp::Plain(bystander(&mut rng, &w, arm, true))).collect()
            }
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let h = ex.run_ops(lists, None, Arc::new(move |_, op: &IOp| exec_iop(&w2, op)))?;
    no_panics(&h)?;
    let mut ok = 0;
    for e in &h {
        let (arm, target, opt) = match &e.op {
            IOp::Solve { arm, target, opt, .. } => (*arm, target, opt),
            _ => continue,
        };
        let (res, before, after) = match e.res.as_ref().unwrap() {
            IR::Solve { res, before, after, .. } => (res, before, after),
            _ => unreachable!(),
        };
        if res.is_err() {
            continue;
        }
        ok += 1;
        let others = moved_by_others(&w, &h, e.tid);
        let joints = arm_joints(&w, arm);
        let qa: Vec<f64> = after.iter().map(|x| x.unwrap_or(0.0)).collect();
        let mask = opt.mask.unwrap_or([true; 6]);
        let end = *w.idx[arm].last().unwrap();
        let cur = w.spec.world(&qa)[end];
        let (dp, dr) = pose_error(&cur, target, &mask);
        let (tp, ta) = opt.tol.unwrap_or((0.001, 0.005));
        // joints far away (near singularities the steps are huge) leave fewer digits for the pose
        let slack = 1e-9 + 1e-11 * joints.iter().map(|i| qa[*i].abs()).sum::<f64>();
        if !(dp <= tp * (1.0 + 1e-6) + slack) || !(dr <= ta * (1.0 + 1e-6) + slack) {
            return viol(
                "ik-wrong-pose",
                format!(
                    "solve returned Ok but the arm is {} away and {} rad off on the constrained axes {:?} (tolerances {} and {}), ignored {:?}",
                    dp, dr, mask, tp, ta, opt.ignored
                ),
            );
        }
        for i in 0..w.nodes.len() {
            let name = &w.spec.nodes[i].name;
            if joints.contains(&i) {
                if opt.ignored.contains(name) && outside.contains(&i) {
                    continue;
                }
                if opt.ignored.contains(name) && !unchanged(&before[i], &after[i]) {
                    return viol("ik-moved-ignored", format!("ignored joint {} moved from {:?} to {:?}", name, before[i], after[i]));
                }
                if !w.spec.in_limits(i, qa[i]) {
                    return viol("ik-limit", format!("joint {} left at {} outside {:?}", name, qa[i], w.spec.nodes[i].limits));
                }
            } else if !others[i] && !unchanged(&before[i], &after[i]) {
                return viol("ik-moved-other", format!("joint {} outside the arm moved from {:?} to {:?}", name, before[i], after[i]));
            }
        }
        if !opt.ignored.is_empty() {
            ex.count("successful solves with ignored joints", 1);
        }
        if opt.mask.is_some() {
            ex.count("successful solves with constraints", 1);
        }
    }
    ex.count("successful solves", ok);
    ex.count("failed solves", h.iter().filter(|e| matches!(&e.res, Ok(IR::Solve { res: Err(_), .. }))).count() as u64);
    if rng.chance(0.15) {
        twin_solves(ex, &mut rng, &w, arm, false)?;
    }
    ex.nontrivial = ok > 0 && ex.preemptions() > 0;
    Ok(())
}

pub fn c07(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let mimic = if rng.chance(0.35) { 0.3 } else { 0.0 };
    let (mut w, arm) = arm_world(&mut rng, (1, 9), 0.6, mimic, true);
    // a mimic relation that crosses the boundary of the arm
    if rng.chance(0.3) {
        let n = w.nodes.len();
        let mut spec = w.spec.clone();
        let a = rng.below(n);
        let b = rng.below(n);
        if a != b
            && spec.movable(a)
            && spec.movable(b)
            && spec.nodes[a].mimic.is_none()
            && spec.nodes[b].mimic.is_none()
            && spec.followers(b).is_empty()
        {
            spec.nodes[b].mimic = Some((a, -1.5, 0.2));
            let end = *w.idx[arm].last().unwrap();
            w = W::new(spec);
            w.add_root();
            let a2 = w.add_end(end);
            assert!(a2 == arm);
        }
    }
    // an initial position outside the limits
    let mut out_init = 0;
    if rng.chance(0.3) {
        let js = arm_joints(&w, arm).clone();
        if !js.is_empty() {
            let i = js[rng.below(js.len())];
            if let Some((a, b)) = w.spec.nodes[i].limits {
                w.spec.nodes[i].init = if rng.chance(0.5) { b + 0.3 } else { a - 0.3 };
                w.nodes[i].set_joint_position_unchecked(w.spec.nodes[i].init);
                out_init = 1;
            }
        }
    }
    // a part of the serial chain, whose first joint hangs below others
    let mut arm = arm;
    if rng.chance(0.2) {
        let end = *w.idx[arm].last().unwrap();
        let p = w.spec.path(end);
        arm = w.add_sub(end, p[rng.below(p.len())]);
        ex.count("runs with a part of a serial chain", 1);
    }
    ex.setup = format!("{} arm to {}", w.spec.describe(), w.spec.nodes[*w.idx[arm].last().unwrap()].name);
    let q = w.init();
    let nt = rng.range(2, 3);
    let lists: Vec<Vec<IOp>> = (0..nt)
        .map(|t| {
            if t == 0 {
                (0..rng.range(1, 3))
                    .map(|_| {
                        let mut opt = random_opt(&mut rng, &w, arm);
                        opt.tries = [0, 1, 1, 2, 3, 5, 8][rng.below(7)];
                        if rng.chance(0.08) {
                            // nobody is called like that
                            let all = ["nobody", "", "j", "J0", "a", "a1", "arm_", "_arm", "A1", "a10", "j0 "];
                            let x = all[rng.below(all.len())];
                            if !w.spec.nodes.iter().any(|n| n.name == x) {
                                opt.ignored.push(x.into());
                            }
                        }
                        if rng.chance(0.05) {
                            // more ignored names than joints
                            opt.ignored = w.spec.nodes.iter().map(|n| n.name.clone()).collect();
                            opt.ignored.push("x".into());
                        }
                        if rng.chance(0.3) {
                            opt.tol = Some((1e-9, 1e-9));
                        }
                        let mut kind = [0, 1, 1, 2, 3, 3][rng.below(6)];
                        if rng.chance(0.08) {
                            // a failed solve which hardly moved
                            kind = 4;
                            opt.tol = Some([(0.0, 0.0), (1e-20, 1e-20)][rng.below(2)]);
                        }
                        let nan = rng.chance(0.08);
                        IOp::Solve { arm, target: rand_target(&mut rng, &w, arm, &q, kind), opt, nan }
                    })
                    .collect()
            } else {
                (0..rng.range(2, 6)).map(|_| IOp::Plain(bystander(&mut rng, &w, arm, true))).collect()
            }
        })
        .collect();
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let h = ex.run_ops(lists, None, Arc::new(move |_, op: &IOp| exec_iop(&w2, op)))?;
    no_panics(&h)?;
    let mut failed = 0;
    for e in &h {
        if let (IOp::Solve { arm, opt, nan, .. }, Ok(IR::Solve { res, calls, .. })) = (&e.op, &e.res) {
            let mask = opt.mask.unwrap_or([true; 6]);
            if !expected_outcome(&w, *arm, opt, &mask, *nan, res) {
                return viol("ik-wrong-error", format!("solve with {:?} on {} joints returned {:?}", opt, w.mov[*arm].len(), res));
            }
            if *calls > opt.tries as u64 {
                return viol("ik-too-many-iterations", format!("{} iterations with num_max_try {}", calls, opt.tries));
            }
        }
        if let Ok(IR::Solve { res: Err(err), before, after, .. }) = &e.res {
            failed += 1;
            let others = moved_by_others(&w, &h, e.tid);
            for i in 0..w.nodes.len() {
                if others[i] {
                    continue;
                }
                let same = match (before[i], after[i]) {
                    (Some(a), Some(b)) => a.to_bits() == b.to_bits(),
                    (None, None) => true,
                    _ => false,
                };
                if !same {
                    return viol(
                        "ik-not-restored",
                        format!(
                            "solve failed with {:?} but joint {} went from {:?} to {:?}",
                            err, w.spec.nodes[i].name, before[i], after[i]
                        ),
                    );
                }
            }
            ex.count(
                &format!(
                    "failed solves: {}",
                    match err {
                        ErrK::NotConverged(_) => "not converged",
                        ErrK::Inverse => "inverse matrix",
                        ErrK::Precondition(..) => "precondition",
                        ErrK::Name(_) => "unknown joint name",
                        ErrK::OutOfLimit(..) => "out of limit",
                        _ => "other",
                    }
                ),
                1,
            );
        }
        if let (IOp::Solve { nan: true, .. }, Ok(IR::Solve { res, .. })) = (&e.op, &e.res) {
            ex.fault("target pose with NaN", 1);
            if res.is_ok() && matches!(&e.op, IOp::Solve { opt, .. } if opt.mask.map(|m| m[1]).unwrap_or(true)) {
                return viol("ik-nan-ok", "solve reported success for a target whose constrained coordinate is NaN".into());
            }
        }
    }
    ex.count("runs starting outside the limits", out_init);
    if rng.chance(0.2) && w.spec.path(*w.idx[arm].last().unwrap()).len() == w.idx[arm].len() {
        check_difference(ex, &mut rng, &w, arm)?;
    }
    if rng.chance(0.15) {
        twin_solves(ex, &mut rng, &w, arm, true)?;
    }
    ex.nontrivial = failed > 0 && ex.preemptions() > 0;
    Ok(())
}

/// The difference that a failed solve reports is the one which was left after its last iteration: it is
/// compared with the pose that as many solves of one iteration each reach from the same start.
fn check_difference(ex: &mut Exec, rng: &mut Rng, w: &W, arm: usize) -> Res {
    let s = w.serial(arm).unwrap();
    let start = positions(w);
    let q: Vec<f64> = start.iter().map(|p| p.unwrap_or(0.0)).collect();
    let mut opt = random_opt(rng, w, arm);
    opt.nullspace = false;
    opt.default = false;
    opt.tries = rng.below(3);
    opt.tol = Some((1e-9, 1e-9));
    let kind = [1, 1, 3][rng.below(3)];
    let target = rand_target(rng, w, arm, &q, kind);
    let mask = opt.mask.unwrap_or([true; 6]);
    let (sol, con) = w.solver(&opt);
    let (dp, dr) = match sol.solve_with_constraints(s, &target.to_na(), &con) {
        Err(k::Error::NotConvergedError { position_diff, rotation_diff, .. }) => (of_v(&position_diff), of_v(&rotation_diff)),
        _ => return Ok(()),
    };
    // close to a singularity, where the last digit decides about everything
    if !(norm(&dp) < 300.0) {
        return Ok(());
    }
    for _ in 0..opt.tries {
        let (step, con) = w.solver(&IkOpt { tries: 1, tol: Some((f64::INFINITY, f64::INFINITY)), ..opt.clone() });
        if let Err(e) = step.solve_with_constraints(s, &target.to_na(), &con) {
            return viol("ik-difference", format!("{} iterations ended without convergence, but one at a time ends with {}", opt.tries, e));
        }
    }
    let now: Vec<f64> = positions(w).iter().map(|p| p.unwrap_or(0.0)).collect();
    if arm_joints(w, arm).iter().any(|i| (now[*i] - q[*i]).abs() > 100.0) {
        return Ok(());
    }
    let cur = w.spec.world(&now)[*w.idx[arm].last().unwrap()];
    let wp = sub(&target.t, &cur.t);
    let wr = rotvec(&mm(&target.r, &tr(&cur.r)));
    let tol = 1e-6 * (1.0 + norm(&wp));
    for i in 0..3 {
        let want = if mask[i] { wp[i] } else { 0.0 };
        // almost half a turn has no definite direction
        let skip = norm(&wr) > 3.0;
        let want_r = if mask[i + 3] { wr[i] } else { 0.0 };
        if !((dp[i] - want).abs() <= tol) || !skip && !((dr[i] - want_r).abs() <= 1e-6) {
            return viol(
                "ik-difference",
                format!(
                    "solve with {:?} failed and reported the differences {:?} and {:?}, but {:?} and {:?} are left after {} iterations",
                    opt, dp, dr, wp, wr, opt.tries
                ),
            );
        }
    }
    ex.count("reported differences compared", 1);
    for (n, p) in w.nodes.iter().zip(&start) {
        if let Some(p) = p {
            n.set_joint_position_unchecked(*p);
        }
    }
    Ok(())
}

/// whether the result of a solve is one that its inputs allow
fn expected_outcome(w: &W, arm: usize, opt: &IkOpt, mask: &[bool; 6], nan: bool, res: &Result<(), ErrK>) -> bool {
    let names: Vec<&String> = arm_joints(w, arm).iter().map(|i| &w.spec.nodes[*i].name).collect();
    if opt.ignored.iter().any(|n| !names.contains(&n)) {
        return matches!(res, Err(ErrK::Name(n)) if opt.ignored.contains(n) && !names.contains(&n));
    }
    let avail = names.iter().filter(|n| !opt.ignored.contains(n)).count();
    let req = mask.iter().filter(|x| **x).count();
    if avail < req {
        return *res == Err(ErrK::Precondition(avail, req));
    }
    match res {
        Ok(()) => opt.tries > 0,
        Err(ErrK::NotConverged(n)) => *n == opt.tries,
        // only a square system has an inverse which may not exist
        Err(ErrK::Inverse) => opt.tries > 0 && (nan || avail == req),
        Err(ErrK::OutOfLimit(n, ..)) => opt.tries > 0 && names.contains(&n),
        Err(_) => false,
    }
}

/// the rows `mask` and the columns of the free joints of the arm's geometric Jacobian
fn jac_free(w: &W, arm: usize, q: &[f64], mask: &[bool; 6], ignored: &[String]) -> nalgebra::DMatrix<f64> {
    let wt = w.spec.world(q);
    let end = *w.idx[arm].last().unwrap();
    let pn = wt[end].t;
    let mut cols: Vec<[f64; 6]> = vec![];
    for &i in arm_joints(w, arm) {
        if ignored.contains(&w.spec.nodes[i].name) {
            continue;
        }
        let c = match w.spec.nodes[i].kind {
            JK::Rot(a) => {
                let ax = mv(&wt[i].r, &a);
                let d = cross(&ax, &sub(&pn, &wt[i].t));
                [d[0], d[1], d[2], ax[0], ax[1], ax[2]]
            }
            JK::Lin(a) => {
                let ax = mv(&wt[i].r, &a);
                [ax[0], ax[1], ax[2], 0., 0., 0.]
            }
            JK::Fixed => unreachable!(),
        };
        cols.push(c);
    }
    let rows: Vec<usize> = (0..6).filter(|i| mask[*i]).collect();
    nalgebra::DMatrix::from_fn(rows.len(), cols.len(), |r, c| cols[c][rows[r]])
}
/// the smallest singular value of it
fn sigma_min(w: &W, arm: usize, q: &[f64], mask: &[bool; 6], ignored: &[String]) -> f64 {
    let m = jac_free(w, arm, q, mask, ignored);
    if m.ncols() < m.nrows() || m.nrows() == 0 {
        return 0.0;
    }
    m.singular_values().iter().cloned().fold(f64::INFINITY, f64::min)
}
/// Finds a random arm, options and mask in a well-conditioned pose away from the limits.
fn well_conditioned(rng: &mut Rng, dof: (usize, usize), redundant: bool) -> Option<(W, usize, IkOpt, [bool; 6])> {
    for _ in 0..60 {
        let (w, arm) = arm_world(rng, dof, 0.4, 0.0, true);
        let q = w.init();
        let mut opt = IkOpt { tries: 30, mult: [0.5, 0.5, 0.8][rng.below(3)], ..IkOpt::default() };
        let dof = arm_joints(&w, arm).len();
        if dof < 6 || rng.chance(0.4) || redundant && dof < 7 {
            opt.mask = Some(rand_mask(rng));
        }
        if rng.chance(0.35) && dof > 1 {
            let js = arm_joints(&w, arm);
            let i = js[rng.below(js.len())];
            opt.ignored.push(w.spec.nodes[i].name.clone());
            if rng.chance(0.3) {
                let i = js[rng.below(js.len())];
                let n = w.spec.nodes[i].name.clone();
                if !opt.ignored.contains(&n) {
                    opt.ignored.push(n);
                }
            }
        }
        let mask = opt.mask.unwrap_or([true; 6]);
        let req = mask.iter().filter(|x| **x).count();
        if redundant && dof - opt.ignored.len() <= req {
            continue;
        }
        // redundant arms regularise singular directions at 1e-4: keep clear of that
        let s = sigma_min(&w, arm, &q, &mask, &opt.ignored);
        let far = arm_joints(&w, arm).iter().all(|i| match w.spec.nodes[*i].limits {
            // what stays where it is may also be at a limit
            Some((a, b)) => q[*i] > a + 0.35 && q[*i] < b - 0.35 || opt.ignored.contains(&w.spec.nodes[*i].name),
            None => true,
        });
        // sometimes closer, with targets as much nearer and tolerances to match
        let close = !redundant && s > 0.004 && s < 0.15 && rng.chance(0.15);
        if close && far {
            opt.tol = Some((1e-7, 1e-7));
            opt.tries = 60;
            opt.near = s / 0.15;
            return Some((w, arm, opt, mask));
        }
        if s > 0.15 && far {
            opt.nullspace = dof - opt.ignored.len() > req && rng.chance(0.5);
            opt.drift = 0.012;
            return Some((w, arm, opt, mask));
        }
    }
    None
}

/// how far each joint is from its target in the problems that must be solved
fn near_by(dof: usize) -> f64 {
    0.012 * (9.0 / dof.max(9) as f64).sqrt()
}
pub fn c08(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let (w, arm, mut opt, mask) = match well_conditioned(&mut rng, (3, 10), false) {
        Some(x) => x,
        None => {
            ex.count("no well-conditioned arm found", 1);
            return Ok(());
        }
    };
    let q = w.init();
    let mut t = q.clone();
    let mut r = near_by(arm_joints(&w, arm).len());
    if opt.near > 0.0 {
        r *= opt.near;
        ex.count("arms close to a singularity", 1);
    }
    for i in arm_joints(&w, arm) {
        if !opt.ignored.contains(&w.spec.nodes[*i].name) {
            t[*i] += rng.fr(-r, r);
        }
    }
    if opt.near == 0.0 && rng.chance(0.3) {
        // JacobianIkSolver::default(), which has fewer tries
        opt.default = true;
        opt.mult = 0.5;
        opt.tries = 10;
        opt.drift = 0.004;
        for i in 0..t.len() {
            t[i] = q[i] + 0.4 * (t[i] - q[i]);
        }
        ex.count("near targets with default settings", 1);
    }
    let end = *w.idx[arm].last().unwrap();
    let target = w.spec.world(&t)[end];
    ex.setup = format!("{} arm to {} mask {:?} ignored {:?}", w.spec.describe(), w.spec.nodes[end].name, mask, opt.ignored);
    let mut lists: Vec<Vec<IOp>> = vec![vec![IOp::Solve { arm, target, opt: opt.clone(), nan: false }]];
    if rng.chance(0.25) {
        // a hopeless request afterwards must still return in bounded work
        let mut o = opt.clone();
        o.default = false;
        o.tries = 5;
        let kind = [2, 3][rng.below(2)];
        let nan = rng.chance(0.5);
        lists[0].push(IOp::Solve { arm, target: rand_target(&mut rng, &w, arm, &q, kind), opt: o, nan });
    }
    for _ in 0..rng.range(1, 2) {
        lists.push((0..rng.range(2, 6)).map(|_| IOp::Plain(bystander(&mut rng, &w, arm, true))).collect());
    }
    let lists = ex.plan(lists);
    let w = Arc::new(w);
    let w2 = w.clone();
    let h = ex.run_ops(lists, None, Arc::new(move |_, op: &IOp| exec_iop(&w2, op)))?;
    no_panics(&h)?;
    for e in &h {
        if let (IOp::Solve { opt: o, nan, .. }, Ok(IR::Solve { res, calls, .. })) = (&e.op, &e.res) {
            if e.idx == 0 {
                if let Err(x) = res {
                    return viol(
                        "ik-no-progress",
                        format!("a reachable, well-conditioned target within 0.012 rad per joint was not reached in {} tries: {:?}", o.tries, x),
                    );
                }
                ex.count("near targets reached", 1);
            } else {
                if *nan {
                    ex.fault("target pose with NaN", 1);
                }
                ex.count("hopeless requests that returned", 1);
            }
            if *calls > o.tries as u64 {
                return viol("ik-too-many-iterations", format!("{} iterations with num_max_try {}", calls, o.tries));
            }
            if o.nullspace {
                ex.count("solves with a counted nullspace callback", 1);
            }
        }
    }
    if opt.near == 0.0 && rng.chance(0.15) {
        // from the same start in single precision
        if !single::Twin::new(&w).solve(arm, &target, &opt)? {
            return viol("f32-ik-no-progress", format!("the near target was not reached in {} tries in single precision", opt.tries));
        }
        ex.count("near targets reached in single precision", 1);
    }
    ex.nontrivial = ex.preemptions() > 0;
    Ok(())
}

// ------------------------------------------------------------------ C16
#[derive(Clone, Debug)]
enum CbOp {
    /// solve on the arm; the callback performs these operations; panics at call number `panic_at`
    Solve { solver: usize, target: Iso },
    /// a solve which the callbacks of other threads wait for
    Helper { solver: usize, target: Iso },
    Plain(Op),
}
pub fn c16(ex: &mut Exec) -> Res {
    if ex.rng.clone().chance(0.5) {
        c16_exact(ex)
    } else {
        c16_chaos(ex)
    }
}

/// What a registered function does, beside returning its direction.
#[derive(Clone, Debug)]
enum Dir {
    /// towards reference positions, by k's own helper
    Reference(Vec<f64>, Vec<f64>),
    /// a constant direction
    Constant(Vec<f64>),
}
impl Dir {
    fn of(&self, q: &[f64]) -> Vec<f64> {
        match self {
            Dir::Constant(v) => v.clone(),
            Dir::Reference(r, w) => (0..q.len()).map(|i| w[i] * (q[i] - r[i])).collect(),
        }
    }
}
#[derive(Clone, Debug)]
enum XOp {
    /// near: the target is nearby, reachable and well-conditioned; cleared: the function was cleared
    Solve { target: Iso, near: bool, cleared: bool, panic_at: Option<u64> },
    Plain(Op),
}
#[derive(Clone, Debug)]
enum XR {
    Solve { res: Result<Result<(), ErrK>, String>, before: Vec<Option<f64>>, after: Vec<Option<f64>>, seen: Vec<Vec<f64>> },
    Plain(R),
}
/// Functions that behave: read, compute, solve another arm, move joints outside the arm, stall.
/// The arm is only moved by its own solves.
fn c16_exact(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let _ = rng.next();
    let (mut w, arm, mut opt, mask) = match well_conditioned(&mut rng, (4, 9), true) {
        Some(x) => x,
        None => {
            ex.count("no well-conditioned arm found", 1);
            return Ok(());
        }
    };
    opt.tries = [8, 15, 25][rng.below(3)];
    let joints = arm_joints(&w, arm).clone();
    let dof = joints.len();
    let q = w.init();
    // another arm: the joints of a side branch, if there is one
    let mut other = None;
    let ends: Vec<usize> = (0..w.nodes.len())
        .filter(|i| !w.idx[arm].contains(i) && w.spec.movable(*i))
        .collect();
    if !ends.is_empty() {
        let e = ends[rng.below(ends.len())];
        let first = *w.spec.path(e).iter().find(|i| !w.idx[arm].contains(i)).unwrap();
        other = Some(w.add_sub(e, first));
    }
    ex.setup = format!("{} mask {:?} opt {:?}", w.spec.describe(), mask, opt);
    let size = [0.002, 0.02, 0.1][rng.below(3)];
    let dir = if rng.chance(0.5) {
        Dir::Reference((0..dof).map(|i| q[joints[i]] + rng.fr(-1.0, 1.0)).collect(), (0..dof).map(|_| rng.fr(-size, size)).collect())
    } else {
        Dir::Constant((0..dof).map(|_| rng.fr(-size, size)).collect())
    };
    let mut inner: Vec<Op> = vec![];
    for _ in 0..rng.range(0, 3) {
        inner.push(match other {
            Some(o) if rng.chance(0.4) => {
                let t = rand_target(&mut rng, &w, o, &q, 1);
                Op::Ik(o, t, IkOpt { tries: rng.range(1, 3), mask: Some([true, false, false, false, false, false]), ..IkOpt::default() })
            }
            _ => bystander(&mut rng, &w, arm, true),
        });
    }
    let mut list: Vec<XOp> = vec![];
    for k in 0..rng.range(1, 3) {
        // the first target is near where the arm starts
        let near = k == 0 && size < 0.05 && dof <= 9;
        let mut t = q.clone();
        let r = if near { 0.012 } else { 0.2 };
        for i in &joints {
            if !opt.ignored.contains(&w.spec.nodes[*i].name) {
                t[*i] += rng.fr(-r, r);
            }
        }
        let mut target = w.spec.world(&t)[*w.idx[arm].last().unwrap()];
        if !near && rng.chance(0.2) {
            target.t[0] += 50.0;
        }
        list.push(XOp::Solve {
            target,
            // (larger steps of the function, once bent, can exceed the tolerance)
            near: near && size < 0.01 && opt.tries >= 15,
            cleared: rng.chance(0.2),
            panic_at: if rng.chance(0.1) { Some(rng.below(4) as u64) } else { None },
        });
    }
    let mut lists = vec![list];
    for _ in 0..rng.range(0, 2) {
        lists.push((0..rng.range(2, 5)).map(|_| XOp::Plain(bystander(&mut rng, &w, arm, true))).collect());
    }
    let lists = ex.plan(lists);
    // the joints which the functions and the bystanders move
    let mut free = vec![false; w.nodes.len()];
    let plain = lists.iter().flatten().filter_map(|o| match &o.1 {
        XOp::Plain(o) => Some(o),
        _ => None,
    });
    for o in inner.iter().chain(plain) {
        match o {
            Op::Ik(c, ..) => w.mov[*c].iter().for_each(|i| free[*i] = true),
            o => w.model(o).0.iter().for_each(|x| free[x.0] = true),
        }
    }
    let w = Arc::new(w);
    let wrong: Arc<std::sync::Mutex<Option<String>>> = Arc::new(std::sync::Mutex::new(None));
    let (w2, opt2, dir2, wrong2) = (w.clone(), opt.clone(), dir.clone(), wrong.clone());
    let h = ex.run_ops(
        lists,
        None,
        Arc::new(move |_, op: &XOp| match op {
            XOp::Plain(o) => XR::Plain(w2.apply(o)),
            XOp::Solve { target, cleared, panic_at, .. } => {
                let mut o = opt2.clone();
                o.nullspace = false;
                let (mut sol, con) = w2.solver(&o);
                let seen: Arc<std::sync::Mutex<Vec<Vec<f64>>>> = Arc::default();
                let (s2, w3, inner, dir, wrong, panic_at) =
                    (seen.clone(), w2.clone(), inner.clone(), dir2.clone(), wrong2.clone(), *panic_at);
                let helper = match &dir {
                    Dir::Reference(r, w) => Some(k::create_reference_positions_nullspace_function(r.clone(), w.clone())),
                    _ => None,
                };
                // sometimes another function was there before
                let former = target.t[0].to_bits() % 5;
                if former < 2 {
                    let wrong = wrong.clone();
                    sol.set_nullspace_function(Box::new(move |q: &[f64]| {
                        *wrong.lock().unwrap() = Some("a function which had been replaced was called".into());
                        vec![0.0; q.len()]
                    }));
                }
                if former == 1 {
                    sol.clear_nullspace_function();
                }
                sol.set_nullspace_function(Box::new(move |q: &[f64]| {
                    if let Some(h) = rt::current() {
                        h.point(Kind::Callback, 1);
                    }
                    let now = w3.serial(arm).unwrap().joint_positions();
                    if now.len() != q.len() || now.iter().zip(q).any(|(a, b)| a.to_bits() != b.to_bits()) {
                        *wrong.lock().unwrap() = Some(format!("the function was called with {:?}, but the arm is at {:?}", q, now));
                    }
                    let k = {
                        let mut s = s2.lock().unwrap();
                        s.push(q.to_vec());
                        s.len() as u64 - 1
                    };
                    for o in &inner {
                        w3.apply(o);
                    }
                    if panic_at == Some(k) {
                        panic!("injected callback panic");
                    }
                    let d = match &helper {
                        Some(f) => f(q),
                        None => dir.of(q),
                    };
                    if d.iter().zip(dir.of(q)).any(|(a, b)| (a - b).abs() > 1e-12) {
                        *wrong.lock().unwrap() = Some(format!("the reference function returned {:?} for {:?} of {:?}", d, q, dir));
                    }
                    d
                }));
                if *cleared {
                    sol.clear_nullspace_function();
                }
                let before = positions(&w2);
                let r = match call(|| sol.solve_with_constraints(w2.serial(arm).unwrap(), &target.to_na(), &con)) {
                    Ok(r) => Ok(r.map_err(|e| errk(&e))),
                    Err(p) if p.msg == "injected callback panic" => Err(p.msg),
                    Err(p) => Err(format!("{} at {}", p.msg, p.loc)),
                };
                let after = positions(&w2);
                let seen = seen.lock().unwrap().clone();
                XR::Solve { res: r, before, after, seen }
            }
        }),
    )?;
    no_panics(&h)?;
    if let Some(m) = wrong.lock().unwrap().clone() {
        return viol("callback-argument", m);
    }
    let mut steps = 0;
    let ign: Vec<bool> = joints.iter().map(|i| opt.ignored.contains(&w.spec.nodes[*i].name)).collect();
    let mut fresh = true;
    for e in &h {
        let (target, near, cleared, panic_at) = match &e.op {
            XOp::Solve { target, near, cleared, panic_at } => (target, *near, *cleared, *panic_at),
            _ => continue,
        };
        let (res, before, after, seen) = match e.res.as_ref().unwrap() {
            XR::Solve { res, before, after, seen } => (res, before, after, seen),
            _ => unreachable!(),
        };
        let what = format!("solve {} with {:?} and {:?}", e.idx, opt, dir);
        if cleared && !seen.is_empty() {
            return viol("callback-cleared", format!("{}: the cleared function was called", what));
        }
        let at_start = fresh;
        fresh = false;
        let res = match res {
            Ok(r) => r,
            Err(m) if m == "injected callback panic" => {
                ex.fault("panicking callback", 1);
                if panic_at != Some(seen.len() as u64 - 1) {
                    return viol("callback-panic", format!("{}: the function was called again after its panic", what));
                }
                continue;
            }
            Err(m) => return viol("panic", format!("{}: panicked: {}", what, m)),
        };
        if let Some(k) = panic_at {
            if !cleared && seen.len() as u64 > k {
                return viol("callback-panic", format!("{}: the panic of call {} did not reach the caller: {:?}", what, k, res));
            }
        }
        if !expected_outcome(&w, arm, &opt, &mask, false, res) {
            return viol("ik-wrong-error", format!("{}: returned {:?}", what, res));
        }
        if !cleared && (seen.is_empty() || seen.len() > opt.tries || matches!(res, Err(ErrK::NotConverged(_))) && seen.len() != opt.tries) {
            return viol("callback-count", format!("{}: returned {:?} after {} calls of the function", what, res, seen.len()));
        }
        let qa: Vec<f64> = after.iter().map(|x| x.unwrap_or(0.0)).collect();
        match res {
            Ok(()) => {
                let cur = w.spec.world(&qa)[*w.idx[arm].last().unwrap()];
                let (dp, dr) = pose_error(&cur, target, &mask);
                if !(dp <= 0.001 * (1.0 + 1e-6) + 1e-9) || !(dr <= 0.005 * (1.0 + 1e-6) + 1e-9) {
                    return viol("ik-wrong-pose", format!("{}: Ok, but {} away and {} rad off", what, dp, dr));
                }
            }
            Err(x) => {
                if near && at_start {
                    return viol("ik-no-progress", format!("{}: a near, reachable, well-conditioned target was not reached: {:?}", what, x));
                }
            }
        }
        for i in 0..w.nodes.len() {
            let inarm = joints.iter().position(|j| *j == i);
            let may = match inarm {
                Some(k) => res.is_ok() && !ign[k],
                None => free[i],
            };
            if !may && !unchanged(&before[i], &after[i]) {
                return viol("ik-moved-other", format!("{}: {:?}, joint {} went from {:?} to {:?}", what, res, w.spec.nodes[i].name, before[i], after[i]));
            }
            if inarm.is_some() && res.is_ok() && !w.spec.in_limits(i, qa[i]) {
                return viol("ik-limit", format!("{}: joint {} left at {} outside {:?}", what, w.spec.nodes[i].name, qa[i], w.spec.nodes[i].limits));
            }
        }
        // every step: towards the target, and along the function's direction within the nullspace
        let mut path: Vec<Vec<f64>> = seen.clone();
        if res.is_ok() {
            path.push(joints.iter().map(|i| qa[*i]).collect());
        }
        let mut checked = 0;
        let mut bad: Vec<String> = vec![];
        for p in path.windows(2) {
            let mut full = qa.clone();
            for (k, i) in joints.iter().enumerate() {
                full[*i] = p[0][k];
            }
            let hits = joints.iter().enumerate().any(|(k, i)| match w.spec.nodes[*i].limits {
                Some((a, b)) => p[1][k] <= a + 1e-9 || p[1][k] >= b - 1e-9,
                None => false,
            });
            let j = jac_free(&w, arm, &full, &mask, &opt.ignored);
            let smin = j.singular_values().iter().cloned().fold(f64::INFINITY, f64::min);
            if hits || smin < 0.05 {
                continue;
            }
            // not by singular vectors, which nalgebra sometimes computes to a few digits only
            let gram = (&j * j.transpose()).lu();
            let sel = |v: &[f64]| nalgebra::DVector::from_vec((0..dof).filter(|k| !ign[*k]).map(|k| v[k]).collect::<Vec<f64>>());
            let dq = sel(&p[1]) - sel(&p[0]);
            let s = sel(&dir.of(&p[0]));
            let n = |v: &nalgebra::DVector<f64>| v - j.transpose() * gram.solve(&(&j * v)).unwrap_or_else(|| nalgebra::DVector::zeros(j.nrows()));
            let (ndq, ns) = (n(&dq), n(&s));
            let cur = w.spec.world(&full)[*w.idx[arm].last().unwrap()];
            let dp = sub(&target.t, &cur.t);
            let dr = rotvec(&mm(&target.r, &tr(&cur.r)));
            let err: Vec<f64> = (0..6).filter(|i| mask[*i]).map(|i| if i < 3 { dp[i] } else { dr[i - 3] }).collect();
            let err = nalgebra::DVector::from_vec(err);
            // rotations of almost half a turn have no definite direction
            if (dr[0] * dr[0] + dr[1] * dr[1] + dr[2] * dr[2]).sqrt() > 2.5 {
                continue;
            }
            let task = &j * &dq - &err * opt.mult;
            let leak = (&j * &s).norm() * opt.mult;
            checked += 1;
            if task.norm() > 0.3 * err.norm() + 0.3 * leak + 1e-6 {
                bad.push(format!("a step moves the end by {:?}, wanted {:?}", (&j * &dq).as_slice(), (&err * opt.mult).as_slice()));
            }
            if ns.norm() > 1e-5 && ns.norm() > 0.1 * dq.norm() {
                let cos = ndq.dot(&ns) / (ndq.norm() * ns.norm()).max(1e-300);
                if !(cos > 0.5) {
                    bad.push(format!("the step within the nullspace is {:?}, the function asked for {:?}", ndq.as_slice(), ns.as_slice()));
                }
                steps += 1;
            }
        }
        // nalgebra's singular value decomposition is off by some percent for a few matrices
        if checked >= 3 && bad.len() * 2 > checked {
            return viol("nullspace-steps", format!("{}: {} of {} steps are wrong: {}", what, bad.len(), checked, bad.last().unwrap()));
        }
        ex.count(if res.is_ok() { "successful solves with a function" } else { "failed solves with a function" }, 1);
    }
    ex.count("steps with a checked nullspace motion", steps);
    ex.nontrivial = steps > 0 && (h.iter().all(|e| e.tid == 0) || ex.preemptions() > 0);
    Ok(())
}

fn c16_chaos(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let _ = rng.next();
    let mask = [true, true, true, false, false, false];
    let (mut w, arm) = arm_world(&mut rng, (5, 8), 0.3, 0.0, true);
    let dof = arm_joints(&w, arm).len();
    if dof < 4 {
        ex.count("arm too short", 1);
        return Ok(());
    }
    ex.setup = w.spec.describe();
    let q = w.init();
    let ends: Vec<usize> = (0..w.nodes.len())
        .filter(|i| !w.idx[arm].contains(i) && w.spec.movable(*i))
        .collect();
    let other = if ends.is_empty() { None } else { Some(w.add_end(ends[rng.below(ends.len())])) };
    // what the callbacks do: any operation of the API, also on the arm itself
    let nsolv = rng.range(1, 2);
    let mut cb: Vec<(Vec<Op>, Option<u64>)> = vec![];
    for _ in 0..nsolv {
        let ops = (0..rng.range(1, 4))
            .map(|_| {
                if rng.chance(0.25) {
                    let i = w.idx[arm][rng.below(w.idx[arm].len())];
                    match rng.below(3) {
                        0 => Op::Set(i, 0.01),
                        1 => Op::Clamped(i, 0.02),
                        _ => Op::Get(i),
                    }
                } else {
                    bystander(&mut rng, &w, arm, true)
                }
            })
            .collect();
        cb.push((ops, if rng.chance(0.5) { Some(rng.below(4) as u64) } else { None }));
    }
    let mut lists: Vec<Vec<CbOp>> = vec![];
    for _ in 0..rng.range(1, 2) {
        lists.push(
            (0..rng.range(1, 2))
                .map(|_| {
                    let kind = rng.below(3);
                    CbOp::Solve { solver: rng.below(nsolv), target: rand_target(&mut rng, &w, arm, &q, kind) }
                })
                .collect(),
        );
    }
    for _ in 0..rng.range(1, 2) {
        lists.push((0..rng.range(2, 5)).map(|_| CbOp::Plain(bystander(&mut rng, &w, arm, true))).collect());
    }
    // the functions may use their own solver for another arm, and wait for a solve of another thread
    let again = if rng.chance(0.3) { Some(rand_target(&mut rng, &w, other.unwrap_or(arm), &q, 1)) } else { None };
    if rng.chance(0.2) {
        let target = rand_target(&mut rng, &w, other.unwrap_or(arm), &q, 1);
        lists.push(vec![CbOp::Helper { solver: rng.below(nsolv), target }]);
    }
    let lists = ex.plan(lists);
    let helped = !lists.iter().flatten().any(|o| matches!(o.1, CbOp::Helper { .. }));
    let help = Arc::new((simstd::sync::Mutex::new(helped), simstd::sync::Condvar::new()));
    thread_local! {
        static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0);
    }
    let w = Arc::new(w);
    struct Shared {
        calls: AtomicU64,
        panics: AtomicU64,
        again: AtomicU64,
        wrong: std::sync::Mutex<Option<String>>,
    }
    let sh = Arc::new(Shared { calls: AtomicU64::new(0), panics: AtomicU64::new(0), again: AtomicU64::new(0), wrong: std::sync::Mutex::new(None) });
    let solvers: Arc<std::sync::OnceLock<Vec<k::JacobianIkSolver<f64>>>> = Arc::default();
    let odof = other.map_or(dof, |o| arm_joints(&w, o).len());
    let made: Vec<k::JacobianIkSolver<f64>> = cb
        .iter()
        .enumerate()
        .map(|(me, (ops, panic_at))| {
            let (own, again, help) = (Arc::downgrade(&solvers), again.clone(), help.clone());
            let mut s = k::JacobianIkSolver::new(0.001, 0.005, 0.5, 4);
            let (w, sh, ops, panic_at) = (w.clone(), sh.clone(), ops.clone(), *panic_at);
            let n = AtomicU64::new(0);
            s.set_nullspace_function(Box::new(move |q: &[f64]| {
                let k = n.fetch_add(1, SeqCst);
                sh.calls.fetch_add(1, SeqCst);
                if let Some(h) = rt::current() {
                    h.point(Kind::Callback, 1);
                }
                if q.len() != dof && q.len() != odof {
                    *sh.wrong.lock().unwrap() = Some(format!("the callback got {} positions for {} joints", q.len(), dof));
                }
                if DEPTH.with(|d| d.get()) == 1 {
                    let mut done = help.0.lock().unwrap();
                    while !*done {
                        done = help.1.wait(done).unwrap();
                    }
                    drop(done);
                    if let (Some(target), Some(all)) = (&again, own.upgrade()) {
                        DEPTH.with(|d| d.set(2));
                        let con = k::Constraints { position_y: false, position_z: false, rotation_x: false, rotation_y: false, rotation_z: false, ..Default::default() };
                        let arm = w.serial(other.unwrap_or(arm)).unwrap();
                        let r = call(|| all.get().unwrap()[me].solve_with_constraints(arm, &target.to_na(), &con));
                        DEPTH.with(|d| d.set(1));
                        sh.again.fetch_add(1, SeqCst);
                        if let Err(p) = r {
                            if p.msg != "injected callback panic" {
                                panic!("{} at {}", p.msg, p.loc);
                            }
                        }
                    }
                }
                for o in &ops {
                    w.apply(o);
                }
                if panic_at == Some(k) {
                    sh.panics.fetch_add(1, SeqCst);
                    panic!("injected callback panic");
                }
                q.iter().map(|x| -0.05 * x).collect()
            }));
            s
        })
        .collect();
    let _ = solvers.set(made);
    let (w2, s2, help2) = (w.clone(), solvers.clone(), help.clone());
    let h = ex.run_ops(
        lists,
        None,
        Arc::new(move |_, op: &CbOp| match op {
            CbOp::Plain(o) => w2.apply(o),
            CbOp::Solve { solver, target } | CbOp::Helper { solver, target } => {
                let helper = matches!(op, CbOp::Helper { .. });
                let arm = if helper { other.unwrap_or(arm) } else { arm };
                let con = k::Constraints {
                    position_x: mask[0],
                    position_y: mask[1],
                    position_z: mask[2],
                    rotation_x: mask[3],
                    rotation_y: mask[4],
                    rotation_z: mask[5],
                    ignored_joint_names: vec![],
                };
                DEPTH.with(|d| d.set(if helper { 2 } else { 1 }));
                let r = call(|| s2.get().unwrap()[*solver].solve_with_constraints(w2.serial(arm).unwrap(), &target.to_na(), &con));
                if helper {
                    *help2.0.lock().unwrap() = true;
                    help2.1.notify_all();
                }
                let r = match r {
                    Ok(r) => r,
                    Err(p) if p.msg == "injected callback panic" => panic!("injected callback panic"),
                    Err(p) => panic!("{} at {}", p.msg, p.loc),
                };
                R::Res(r.map_err(|e| errk(&e)))
            }
        }),
    )?;
    for e in &h {
        if let Err(p) = &e.res {
            if p.msg != "injected callback panic" {
                return panic_viol(&format!("thread {} {:?}", e.tid, e.op), p);
            }
        }
    }
    if let Some(m) = sh.wrong.lock().unwrap().clone() {
        return viol("callback-argument", m);
    }
    // everything must still be usable
    let mut after = vec![Op::ChainGet(0), Op::Update(0), Op::Jac(arm), Op::Com(0), Op::Display(0), Op::Clone(0)];
    for i in 0..w.nodes.len() {
        after.push(Op::Get(i));
        if w.spec.movable(i) {
            after.push(Op::Set(i, w.spec.clamp(i, 0.0)));
        }
    }
    for o in after {
        if let Err(p) = call(|| w.apply(&o)) {
            return panic_viol(&format!("after a callback panic, {:?}", o), &p);
        }
    }
    ex.count("callback invocations", sh.calls.load(SeqCst));
    ex.count("solves by a callback with its own solver", sh.again.load(SeqCst));
    if !helped {
        ex.count("runs with callbacks that wait for a solve of another thread", 1);
    }
    ex.fault("panicking callback", sh.panics.load(SeqCst));
    ex.nontrivial = sh.calls.load(SeqCst) > 0 && ex.preemptions() > 0;
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    // a torso, and two arms below it
    let torso = rng.range(1, 3);
    let mut spec = Spec::default();
    let mut push = |rng: &mut Rng, parent: Option<usize>, fixed: bool, name: String| -> usize {
        let kind = if fixed {
            JK::Fixed
        } else if rng.chance(0.2) {
            JK::Lin(rand_axis(rng))
        } else {
            JK::Rot(rand_axis(rng))
        };
        let limits = if kind != JK::Fixed && rng.chance(0.4) { Some((-2.0, 2.0)) } else { None };
        let init = if kind == JK::Fixed { 0.0 } else { rng.fr(-1.0, 1.0) };
        let link = if rng.chance(0.4) { Some(rand_link(rng, &format!("l_{}", name))) } else { None };
        spec.nodes.push(NodeS {
            name,
            kind,
            limits,
            origin: rand_iso(rng, 0.5, 1.0),
            parent,
            link,
            mimic: None,
            vel: 0.0,
            init,
        });
        spec.nodes.len() - 1
    };
    let mut p = None;
    for i in 0..torso {
        p = Some(push(&mut rng, p, true, format!("t{}", i)));
    }
    let mut ends = vec![];
    for a in 0..2 {
        let n = if rng.chance(0.01) { rng.range(8, 16) } else { rng.range(3, 7) };
        let mut q = p;
        for i in 0..n {
            q = Some(push(&mut rng, q, false, format!("a{}_{}", a, i)));
        }
        ends.push(q.unwrap());
    }
    let make = || {
        let mut w = W::new(spec.clone());
        w.add_root();
        let arms = [w.add_end(ends[0]), w.add_end(ends[1])];
        (w, arms)
    };
    let (w, arms) = make();
    let q = w.init();
    // nearby, reachable and well-conditioned: the first solve of the arm must succeed
    let mut near = [false; 2];
    let mut lists: Vec<Vec<IOp>> = vec![];
    for a in 0..2 {
        let joints = arm_joints(&w, arms[a]).clone();
        let mut l = vec![];
        for k in 0..rng.range(1, 3) {
            let mut o = IkOpt { tries: rng.range(2, 8), ..IkOpt::default() };
            if joints.len() < 6 || rng.chance(0.3) {
                o.mask = Some([true, true, true, false, false, false]);
            }
            o.nullspace = rng.chance(0.2);
            let kind = rng.below(3);
            let mut target = rand_target(&mut rng, &w, arms[a], &q, kind);
            let mask = o.mask.unwrap_or([true; 6]);
            let far = joints.iter().all(|i| match w.spec.nodes[*i].limits {
                Some((a, b)) => q[*i] > a + 0.35 && q[*i] < b - 0.35,
                None => true,
            });
            if k == 0 && far && sigma_min(&w, arms[a], &q, &mask, &[]) > 0.15 {
                let mut t = q.clone();
                let r = near_by(joints.len());
                for i in &joints {
                    t[*i] += rng.fr(-r, r);
                }
                target = w.spec.world(&t)[*w.idx[arms[a]].last().unwrap()];
                o.tries = 30;
                o.drift = 0.012;
                near[a] = true;
            }
            l.push(IOp::Solve { arm: arms[a], target, opt: o, nan: false });
        }
        lists.push(l);
    }
    for _ in 0..rng.range(0, 2) {
        lists.push(
            (0..rng.range(2, 6))
                .map(|_| {
                    let c = rng.below(w.chains.len());
                    match rng.below(8) {
                        0 => IOp::Plain(Op::Update(c)),
                        1 => IOp::Plain(Op::End(arms[rng.below(2)])),
                        2 => IOp::Plain(Op::Com(c)),
                        3 => IOp::Plain(Op::Jac(arms[rng.below(2)])),
                        4 => IOp::Plain(Op::Vel(c)),
                        5 => IOp::Plain(Op::LinkUpd(c)),
                        6 => IOp::Plain(Op::ChainGet(c)),
                        _ => IOp::Plain(Op::Display(c)),
                    }
                })
                .collect(),
        );
    }
    ex.setup = w.spec.describe();
    let lists = ex.plan(lists);
    // each arm alone, on its own copy of the robot, outside the simulation
    let (solo, _) = make();
    let mut want: Vec<Vec<Result<(), ErrK>>> = vec![vec![]; 2];
    for t in 0..2 {
        for (_, o) in &lists[t] {
            match call(|| exec_iop(&solo, o)) {
                Ok(IR::Solve { res, .. }) => want[t].push(res),
                Ok(x) => return viol("wrong-result", format!("{:?} returned {:?}", o, x)),
                Err(p) => return panic_viol(&format!("{:?} alone", o), &p),
            }
        }
    }
    let solo_q: Vec<Option<f64>> = solo.nodes.iter().map(|n| n.joint_position()).collect();
    let w = Arc::new(w);
    let w2 = w.clone();
    let h = ex.run_ops(lists.clone(), None, Arc::new(move |_, op: &IOp| exec_iop(&w2, op)))?;
    no_panics(&h)?;
    let mut near_ok = 0;
    for t in 0..2 {
        let mut got: Vec<&Ev<IOp, IR>> = h.iter().filter(|e| e.tid == t).collect();
        got.sort_by_key(|e| e.inv);
        for (e, x) in got.iter().zip(&want[t]) {
            let (target, opt) = match &e.op {
                IOp::Solve { target, opt, .. } => (target, opt),
                _ => continue,
            };
            let (res, before, after) = match e.res.as_ref().unwrap() {
                IR::Solve { res, before, after, .. } => (res, before, after),
                _ => continue,
            };
            let ok = match (res, x) {
                (Ok(()), Ok(())) => true,
                (Err(a), Err(b)) => err_eq(a, b),
                _ => false,
            };
            if !ok {
                return viol(
                    "arms-interfere",
                    format!("arm {}: solve returned {:?} next to the other arm, {:?} alone", t, res, x),
                );
            }
            if e.idx == 0 && near[t] {
                if let Err(x) = res {
                    return viol("ik-no-progress", format!("arm {}: a near, reachable, well-conditioned target was not reached: {:?}", t, x));
                }
                near_ok += 1;
            }
            for i in 0..w.nodes.len() {
                let fixed = !w.spec.movable(i);
                let mine = arm_joints(&w, arms[t]).contains(&i);
                if (fixed || mine && res.is_err()) && !unchanged(&before[i], &after[i]) {
                    return viol(
                        "ik-moved-other",
                        format!("arm {}: {:?}, joint {} went from {:?} to {:?}", t, res, w.spec.nodes[i].name, before[i], after[i]),
                    );
                }
            }
            if res.is_ok() {
                let qa: Vec<f64> = after.iter().map(|x| x.unwrap_or(0.0)).collect();
                let cur = w.spec.world(&qa)[*w.idx[arms[t]].last().unwrap()];
                let (dp, dr) = pose_error(&cur, target, &opt.mask.unwrap_or([true; 6]));
                let slack = 1e-9 + 1e-11 * arm_joints(&w, arms[t]).iter().map(|i| qa[*i].abs()).sum::<f64>();
                if !(dp <= 0.001 * (1.0 + 1e-6) + slack) || !(dr <= 0.005 * (1.0 + 1e-6) + slack) {
                    return viol("ik-wrong-pose", format!("arm {}: Ok, but {} away and {} rad off", t, dp, dr));
                }
            }
        }
    }
    // what the observers saw: the torso where it is, and every joint within its limits
    let rest = w.spec.world(&w.init());
    for e in h.iter().filter(|e| e.tid >= 2) {
        let what = format!("t{} {:?}", e.tid, e.op);
        match (&e.op, e.res.as_ref().unwrap()) {
            (IOp::Plain(Op::Update(c)), IR::Plain(R::Isos(v))) => {
                for (i, x) in w.idx[*c].iter().zip(v) {
                    if *i < torso && !x.near(&rest[*i]) {
                        return viol("shared-joint-moved", format!("{}: {} was seen at {:?}, it is at {:?}", what, w.spec.nodes[*i].name, x, rest[*i]));
                    }
                }
            }
            (IOp::Plain(Op::ChainGet(c)), IR::Plain(R::Vec(v))) => {
                for (i, x) in w.mov[*c].iter().zip(v) {
                    if !w.spec.in_limits(*i, *x) {
                        return viol("observed-outside-limits", format!("{}: {} was seen at {}", what, w.spec.nodes[*i].name, x));
                    }
                }
            }
            _ => {}
        }
    }
    for i in 0..w.nodes.len() {
        let a = w.nodes[i].joint_position();
        let b = solo_q[i];
        let same = match (a, b) {
            (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a - b).abs() < 1e-12,
            (None, None) => true,
            _ => false,
        };
        if !same {
            return viol(
                "arms-interfere",
                format!("joint {} ends at {:?} next to the other arm, at {:?} alone", w.spec.nodes[i].name, a, b),
            );
        }
    }
    ex.count("near targets reached next to the other arm", near_ok);
    ex.nontrivial = ex.preemptions() > 0;
    Ok(())
}
