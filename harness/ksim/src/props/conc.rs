//! C09 (every call returns), C10 (a thread that panics).
use super::common::*;
use super::fk::finite;
use crate::engine::*;
use crate::spec::*;
use k::{Chain, Node, SerialChain};
use simstd::rt::{self, Kind, Rng};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

fn yields(n: usize) {
    if let Some(h) = rt::current() {
        for _ in 0..n {
            h.point(Kind::Callback, 2);
        }
    }
}
#[derive(Clone, Debug)]
enum COp {
    Plain(Op),
    /// couple a joint (which has no coupling yet) to a leader
    Mimic(usize, usize, f64, f64),
    SetLink(usize, bool),
    IterLinks(usize),
    IterJoints(usize),
    DebugChain(usize),
    DebugNode(usize),
    DisplayNode(usize),
    DisplaySerial(usize),
    Find(usize, String),
    Ancestors(usize),
    Descendants(usize),
    FromRoot(usize),
    FromEnd(usize),
    EndToRoot(usize, usize),
    TrySerial(usize),
    CloneUse(usize),
    /// hang a new joint below a node / below the last one this thread made, or remove it again
    Attach(usize),
    Detach,
    /// take a joint of the robot off its parent / hang it back, also below a joint further up
    Leave(usize),
    Rejoin(usize, usize),
    IsRoot(usize),
    IsEnd(usize),
    Parent(usize),
    MimicParent(usize),
    WithJoint(usize, usize),
    WithLink(usize, usize),
    WithChildren(usize, usize),
    Origins(usize),
    /// panic while holding access to a joint
    Die(usize, usize),
}
struct CW {
    w: W,
    fresh: Vec<std::sync::Mutex<Vec<(Node<f64>, Node<f64>)>>>,
    made: AtomicUsize,
}
#[derive(Clone, Debug)]
enum CR {
    Plain(R),
    N(usize),
    Opt(Option<String>),
    Names(Vec<String>),
    B(bool),
}
fn name(n: &Node<f64>) -> String {
    n.joint().name.clone()
}
impl CW {
    fn apply(&self, tid: usize, op: &COp) -> CR {
        let w = &self.w;
        match op {
            COp::Plain(o) => CR::Plain(w.apply(o)),
            COp::Mimic(f, l, m, o) => {
                w.nodes[*f].set_mimic_parent(&w.nodes[*l], k::joint::Mimic::new(*m, *o));
                CR::N(0)
            }
            COp::SetLink(i, on) => {
                let l = if *on {
                    let mut r = Rng::new(*i as u64 + 5);
                    Some(Spec::na_link(&rand_link(&mut r, &format!("n{}", i))))
                } else {
                    None
                };
                w.nodes[*i].set_link(l);
                CR::N(0)
            }
            COp::IterLinks(c) => CR::Names(
                w.chains[*c]
                    .c()
                    .iter_links()
                    .map(|l| {
                        yields(1);
                        l.name.clone()
                    })
                    .collect(),
            ),
            COp::IterJoints(c) => CR::Names(
                w.chains[*c]
                    .c()
                    .iter_joints()
                    .map(|j| {
                        yields(1);
                        j.name.clone()
                    })
                    .collect(),
            ),
            COp::DebugChain(c) => CR::N(match &w.chains[*c] {
                C::Tree(c) => format!("{:?}", c).len(),
                C::Serial(c) => format!("{:?}", c).len(),
            }),
            COp::DebugNode(i) => CR::N(format!("{:?}", w.nodes[*i]).len()),
            COp::DisplayNode(i) => CR::N(format!("{}", w.nodes[*i]).len().min(format!("{:#}", w.nodes[*i]).len())),
            COp::DisplaySerial(c) => CR::N(match &w.chains[*c] {
                C::Tree(c) => format!("{}", c).len().min(format!("{:#}", c).len()),
                C::Serial(c) => format!("{}", c).len().min(format!("{:#}", c).len()),
            }),
            COp::Find(c, n) => CR::Opt(w.chains[*c].c().find(n).map(name)),
            COp::Ancestors(i) => CR::Names(w.nodes[*i].iter_ancestors().map(|n| name(&n)).collect()),
            COp::Descendants(i) => CR::Names(w.nodes[*i].iter_descendants().map(|n| name(&n)).collect()),
            COp::FromRoot(i) => {
                let c = Chain::from_root(w.nodes[*i].clone());
                c.update_transforms();
                CR::N(c.joint_positions().len())
            }
            COp::FromEnd(i) => {
                let c = SerialChain::from_end(&w.nodes[*i]);
                c.end_transform();
                CR::N(c.dof())
            }
            COp::EndToRoot(i, r) => {
                let c = SerialChain::from_end_to_root(&w.nodes[*i], &w.nodes[*r]);
                let c = c.unwrap();
                c.update_link_transforms();
                CR::N(c.dof())
            }
            COp::TrySerial(i) => CR::B(SerialChain::try_new(Chain::from_root(w.nodes[*i].clone())).is_some()),
            COp::CloneUse(c) => {
                let x = w.chains[*c].c().clone();
                let q = x.joint_positions();
                x.set_joint_positions_unchecked(&q);
                x.update_transforms();
                CR::N(format!("{}", x).len())
            }
            COp::Attach(i) => {
                let id = self.made.fetch_add(1, SeqCst);
                let n = k::NodeBuilder::<f64>::new()
                    .name(&format!("new{}", id))
                    .joint_type(k::JointType::Rotational { axis: nalgebra::Vector3::y_axis() })
                    .into_node();
                let p = {
                    let f = self.fresh[tid].lock().unwrap();
                    match f.last() {
                        Some((l, _)) if id % 2 == 0 => l.clone(),
                        _ => w.nodes[*i].clone(),
                    }
                };
                // a follower of the joint it hangs below
                let free = p.mimic_parent().is_none() && p.joint().is_movable();
                if id % 3 == 0 && free {
                    n.set_mimic_parent(&p, k::joint::Mimic::new(1.0, 0.0));
                }
                n.set_parent(&p);
                self.fresh[tid].lock().unwrap().push((n, p));
                CR::N(0)
            }
            COp::Detach => {
                let x = self.fresh[tid].lock().unwrap().pop();
                if let Some((n, p)) = x {
                    n.remove_parent(&p);
                }
                CR::N(0)
            }
            COp::Leave(i) => {
                if let Some(p) = w.nodes[*i].parent() {
                    w.nodes[*i].remove_parent(&p);
                }
                CR::N(0)
            }
            COp::Rejoin(i, p) => {
                w.nodes[*i].set_parent(&w.nodes[*p]);
                CR::N(0)
            }
            COp::IsRoot(i) => CR::B(w.nodes[*i].is_root()),
            COp::IsEnd(i) => CR::B(w.nodes[*i].is_end()),
            COp::Parent(i) => CR::Opt(w.nodes[*i].parent().map(|n| name(&n))),
            COp::MimicParent(i) => CR::Opt(w.nodes[*i].mimic_parent().map(|n| name(&n))),
            COp::WithJoint(i, n) => {
                let g = w.nodes[*i].joint();
                yields(*n);
                let s = format!("{} {:?}", *g, *g).len();
                yields(*n);
                CR::N(s)
            }
            COp::WithLink(i, n) => {
                let g = w.nodes[*i].link();
                yields(*n);
                CR::B(g.is_some())
            }
            COp::WithChildren(i, n) => {
                let g = w.nodes[*i].children();
                yields(*n);
                CR::N(g.len())
            }
            COp::Origins(c) => {
                let _ = w.chains[*c].c().origin();
                CR::N(w.chains[*c].c().dof())
            }
            COp::Die(i, k) => match k {
                0 => {
                    let _g = w.nodes[*i].joint();
                    yields(2);
                    panic!("injected panic");
                }
                1 => {
                    let _g = w.nodes[*i].link();
                    yields(2);
                    panic!("injected panic");
                }
                2 => {
                    let _g = w.nodes[*i].children();
                    yields(2);
                    panic!("injected panic");
                }
                _ => {
                    let name = w.spec.nodes[*i].name.clone();
                    for j in w.chains[0].c().iter_joints() {
                        if j.name == name {
                            yields(2);
                            panic!("injected panic");
                        }
                    }
                    CR::N(0)
                }
            },
        }
    }
}
fn random_op(rng: &mut Rng, w: &W, free: &mut Vec<usize>) -> COp {
    let i = rng.below(w.nodes.len());
    let c = rng.below(w.chains.len());
    match rng.below(44) {
        0..=3 => COp::Plain(Op::Set(i, value(rng, &w.spec, i, 0.9))),
        4 => COp::Plain(Op::Clamped(i, finite(value(rng, &w.spec, i, 0.6)))),
        5 => COp::Plain(Op::Unchecked(i, finite(value(rng, &w.spec, i, 0.8)))),
        6 | 7 => COp::Plain(Op::ChainSet(c, values(rng, w, c, 0.95))),
        8 => COp::Plain(Op::ChainClamped(c, values(rng, w, c, 0.9).into_iter().map(finite).collect())),
        9 => COp::Plain(Op::ChainGet(c)),
        10 => COp::Plain(Op::Update(c)),
        11 => COp::Plain(Op::Jac(c)),
        12 => COp::Plain(Op::Com(c)),
        13 => COp::Plain(Op::Vel(c)),
        14 => COp::Plain(Op::LinkUpd(c)),
        15 => COp::Plain(Op::Display(c)),
        16 => {
            if w.serial(c).map(|s| s.dof() > 0).unwrap_or(false) {
                let end = *w.idx[c].last().unwrap();
                let mut t = w.spec.world(&w.init())[end];
                t.t[0] += rng.fr(-0.1, 0.1);
                let mut o = IkOpt { tries: rng.range(1, 4), ..IkOpt::default() };
                if rng.chance(0.6) {
                    o.mask = Some([true, rng.chance(0.5), rng.chance(0.5), false, false, false]);
                }
                COp::Plain(Op::Ik(c, t, o))
            } else {
                COp::Plain(Op::End(c))
            }
        }
        17 | 18 => {
            if let Some(f) = free.pop() {
                // to a node of lower index which follows nobody
                let ls: Vec<usize> = (0..w.nodes.len())
                    .filter(|l| *l != f && w.spec.movable(*l) && w.spec.nodes[*l].mimic.is_none() && !free.contains(l))
                    .collect();
                if !ls.is_empty() {
                    return COp::Mimic(f, ls[rng.below(ls.len())], rng.fr(-1.0, 1.0), 0.0);
                }
            }
            COp::MimicParent(i)
        }
        19 => COp::SetLink(i, rng.chance(0.6)),
        20 | 21 => COp::IterLinks(c),
        22 => COp::IterJoints(c),
        23 => COp::DebugChain(c),
        24 => COp::DebugNode(i),
        25 => COp::DisplayNode(i),
        26 => COp::DisplaySerial(c),
        27 => COp::Find(c, if rng.chance(0.8) { w.spec.nodes[i].name.clone() } else { ["nobody", "", "j", "a1", "arm"][rng.below(5)].into() }),
        28 => COp::Ancestors(i),
        29 => COp::Descendants(i),
        30 => COp::FromRoot(i),
        31 => COp::FromEnd(i),
        32 => {
            let p = w.spec.path(i);
            COp::EndToRoot(i, p[rng.below(p.len())])
        }
        33 => COp::TrySerial(i),
        34 => {
            // only chains which start at the root can be cloned
            let c = if w.spec.nodes[w.idx[c][0]].parent.is_none() { c } else { 0 };
            COp::CloneUse(c)
        }
        35 | 36 => COp::Attach(i),
        37 => COp::Detach,
        38 => [COp::IsRoot(i), COp::IsEnd(i), COp::Parent(i), COp::MimicParent(i)][rng.below(4)].clone(),
        39 => COp::WithJoint(i, rng.range(1, 5)),
        40 => COp::WithLink(i, rng.range(1, 5)),
        41 => COp::WithChildren(i, rng.range(1, 5)),
        42 => COp::Origins(c),
        _ => COp::Plain(Op::Origin(i, new_origin(rng, &w.spec, i))),
    }
}
fn world(rng: &mut Rng, n: (usize, usize)) -> (W, Vec<usize>) {
    let g = Gen {
        n,
        movable: 0.85,
        limits: 0.3,
        links: 0.6,
        mimic: if rng.chance(0.5) { 0.4 } else { 0.0 },
        serial: [0.4, 0.8][rng.below(2)],
        ..Gen::default()
    };
    let spec = Spec::random(rng, &g);
    let mut w = W::new(spec);
    w.add_root();
    let k = rng.range(1, 2);
    w.add_some(rng, k);
    // nodes which may become followers during the run
    let mut free: Vec<usize> = (0..w.nodes.len())
        .filter(|i| w.spec.movable(*i) && w.spec.nodes[*i].mimic.is_none() && w.spec.followers(*i).is_empty())
        .collect();
    free.truncate(free.len() / 2);
    (w, free)
}

pub fn c09(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let (w, mut free) = world(&mut rng, sc.n((1, 6)));
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 2, 5);
    let wild = rng.chance(0.15);
    let apart = rng.chance(0.2);
    let lists: Vec<Vec<COp>> = (0..nt)
        .map(|_| {
            (0..sc.ops(&mut rng, 1, 6))
                .map(|_| {
                    if wild && rng.chance(0.2) {
                        // couplings in circles and to itself: they must not hang either
                        let m: Vec<usize> = (0..w.nodes.len()).filter(|i| w.spec.movable(*i)).collect();
                        if !m.is_empty() {
                            return COp::Mimic(m[rng.below(m.len())], m[rng.below(m.len())], 0.5, 0.1);
                        }
                    }
                    if apart && rng.chance(0.25) {
                        let m: Vec<usize> = (0..w.nodes.len()).filter(|i| w.spec.nodes[*i].parent.is_some()).collect();
                        if !m.is_empty() {
                            let i = m[rng.below(m.len())];
                            if rng.chance(0.5) {
                                return COp::Leave(i);
                            }
                            let p = w.spec.path(i);
                            return COp::Rejoin(i, p[if rng.chance(0.7) { p.len() - 2 } else { rng.below(p.len() - 1) }]);
                        }
                    }
                    random_op(&mut rng, &w, &mut free)
                })
                .collect()
        })
        .collect();
    let level = if rng.chance(0.2) { 5 } else { 0 };
    crate::sys::set_level(level);
    ex.max_steps = 200_000;
    let lists = ex.plan(lists);
    let fresh = (0..nt).map(|_| Default::default()).collect();
    let cw = Arc::new(CW { w, fresh, made: AtomicUsize::new(0) });
    let c2 = cw.clone();
    let r = ex.run_ops(lists, None, Arc::new(move |t, op: &COp| c2.apply(t, op)));
    crate::sys::set_level(0);
    let h = r?;
    no_panics(&h)?;
    let n = h.len() as u64;
    ex.count("calls returned", n);
    ex.count("couplings made while running", h.iter().filter(|e| matches!(e.op, COp::Mimic(..))).count() as u64);
    ex.count("joints moved while running", h.iter().filter(|e| matches!(e.op, COp::Leave(..) | COp::Rejoin(..))).count() as u64);
    ex.count("joints attached while running", h.iter().filter(|e| matches!(e.op, COp::Attach(..))).count() as u64);
    let held = h.iter().filter(|e| matches!(e.op, COp::WithJoint(..) | COp::WithLink(..) | COp::WithChildren(..))).count();
    ex.count("accesses held over other threads' steps", held as u64);
    ex.fault("joint held by a stalled thread", held as u64);
    // and afterwards the robot still answers
    for i in 0..cw.w.nodes.len() {
        let _ = cw.w.apply(&Op::Get(i));
    }
    for c in 0..cw.w.chains.len() {
        cw.w.chains[c].c().update_transforms();
    }
    ex.nontrivial = ex.preemptions() > 0;
    Ok(())
}

// ------------------------------------------------------------------ C10
/// the nodes an operation needs, as spec indices
fn needs(w: &W, op: &COp) -> Option<Vec<usize>> {
    let chain = |c: usize| -> Vec<usize> {
        let mut v = vec![];
        for i in &w.idx[c] {
            v.extend(w.spec.path(*i));
        }
        v
    };
    let with_followers = |v: Vec<usize>| -> Vec<usize> {
        let mut o = v.clone();
        for i in v {
            o.extend(w.spec.followers(i));
            if let Some((l, _, _)) = w.spec.nodes[i].mimic {
                o.push(l);
            }
        }
        o
    };
    Some(match op {
        COp::Plain(o) => match o {
            Op::Set(i, _) => with_followers(vec![*i]),
            Op::Clamped(i, _) | Op::Unchecked(i, _) | Op::Get(i) | Op::Origin(i, _) | Op::GetOrigin(i) | Op::World(i) | Op::LinkRead(i) => vec![*i],
            Op::ChainSet(c, _) => with_followers(w.idx[*c].clone()),
            // joint-wise operations need the joints of the chain only
            Op::ChainClamped(c, _) | Op::ChainUnchecked(c, _) | Op::ChainGet(c) => w.mov[*c].clone(),
            Op::End(c) => w.idx[*c].clone(),
            Op::ChainOrigin(c, _) => vec![w.idx[*c][0]],
            Op::Update(c) | Op::Jac(c) | Op::Com(c) | Op::Vel(c) | Op::LinkUpd(c) => chain(*c),
            _ => return None,
        },
        COp::IterJoints(c) => w.mov[*c].clone(),
        COp::IterLinks(c) => w.idx[*c].clone(),
        COp::Find(c, n) => {
            let p = w.idx[*c].iter().position(|i| w.spec.nodes[*i].name == *n).map(|p| p + 1).unwrap_or(w.idx[*c].len());
            w.idx[*c][..p].to_vec()
        }
        COp::Ancestors(i) | COp::FromEnd(i) => w.spec.path(*i),
        COp::WithJoint(i, _) | COp::WithLink(i, _) | COp::WithChildren(i, _) | COp::IsRoot(i) | COp::IsEnd(i) | COp::DisplayNode(i) => vec![*i],
        COp::SetLink(i, _) => vec![*i],
        // these also read the name of the one they find
        COp::Parent(i) => std::iter::once(*i).chain(w.spec.nodes[*i].parent).collect(),
        COp::MimicParent(i) => std::iter::once(*i).chain(w.spec.nodes[*i].mimic.map(|m| m.0)).collect(),
        // a new joint below `i` (or below another new one) needs nothing further up
        COp::Attach(i) => vec![*i],
        COp::Descendants(i) | COp::TrySerial(i) => w.spec.subtree(*i),
        COp::FromRoot(i) => {
            let mut v = w.spec.subtree(*i);
            v.extend(w.spec.path(*i));
            v
        }
        COp::EndToRoot(i, _) => w.spec.path(*i),
        COp::Origins(c) => vec![w.idx[*c][0]],
        COp::CloneUse(c) => w.idx[*c].clone(),
        _ => return None,
    })
}
pub fn c10(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let (w, _) = world(&mut rng, sc.n((2, 7)));
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 2, 4);
    let victim = rng.below(w.nodes.len());
    let second = rng.below(w.nodes.len());
    let mut none = vec![];
    let two = rng.chance(0.2);
    let lists: Vec<Vec<COp>> = (0..nt)
        .map(|t| {
            let mut l: Vec<COp> = (0..sc.ops(&mut rng, 1, 6))
                .map(|_| loop {
                    let o = random_op(&mut rng, &w, &mut none);
                    if needs(&w, &o).is_some() || matches!(o, COp::DebugChain(_) | COp::DebugNode(_)) {
                        break o;
                    }
                })
                .collect();
            if t == 0 || (two && t == 1) {
                let i = if t == 0 { victim } else { second };
                let p = rng.below(l.len() + 1);
                l.insert(p, COp::Die(i, rng.below(4)));
            }
            l
        })
        .collect();
    let lists = ex.plan(lists);
    let fresh = (0..nt).map(|_| Default::default()).collect();
    let cw = Arc::new(CW { w, fresh, made: AtomicUsize::new(0) });
    let c2 = cw.clone();
    let mut h = ex.run_ops(lists, None, Arc::new(move |t, op: &COp| c2.apply(t, op)))?;
    let w = &cw.w;
    // joints which a panic may have made inaccessible: the held one, and those coupled to it
    let mut hit = vec![false; w.nodes.len()];
    let mut deaths = 0;
    for e in &h {
        if let COp::Die(i, _) = e.op {
            if e.res.is_err() {
                hit[i] = true;
                deaths += 1;
            }
        }
    }
    loop {
        let mut grown = false;
        for i in 0..hit.len() {
            if let Some((l, _, _)) = w.spec.nodes[i].mimic {
                if hit[i] != hit[l] {
                    hit[i] = true;
                    hit[l] = true;
                    grown = true;
                }
            }
        }
        if !grown {
            break;
        }
    }
    // afterwards, the untouched joints answer from outside as well
    let mut t = h.iter().map(|e| e.ret).max().unwrap_or(0) + 10;
    for i in 0..w.nodes.len() {
        if !hit[i] {
            let op = Op::Get(i);
            let res = call(|| CR::Plain(w.apply(&op)));
            h.push(Ev { tid: 99, idx: i, op: COp::Plain(op), inv: t, ret: t + 1, res });
            t += 2;
        }
    }
    // a new joint which in vain asked for a dead one is as good as new
    let dead = h.iter().find_map(|e| match e.op {
        COp::Die(i, _) if e.res.is_err() => Some(i),
        _ => None,
    });
    if let (Some(d), Some(a)) = (dead, (0..w.nodes.len()).find(|i| !hit[*i])) {
        let new = || k::NodeBuilder::<f64>::new().joint_type(k::JointType::Linear { axis: k::Vector3::x_axis() }).into_node();
        let (n, m) = (new(), new());
        let _ = call(|| n.remove_parent(&w.nodes[d]));
        let _ = call(|| m.set_parent(&w.nodes[d]));
        let r = call(|| {
            n.set_parent(&w.nodes[a]);
            n.set_joint_position(0.5).is_ok()
                && m.set_joint_position(0.5).is_ok()
                && m.is_end()
                && n.parent().map_or(false, |p| p == w.nodes[a])
                && w.nodes[a].children().iter().filter(|c| **c == n).count() == 1
        });
        match r {
            Ok(true) => {}
            Ok(false) => return viol("wrong-result", format!("a new joint is not where it was attached to ({})", w.spec.nodes[a].name)),
            Err(p) => {
                return viol(
                    "panic-spreads",
                    format!("a new joint which was once meant for the dead {} cannot be attached to {}: panicked at {}: {}", w.spec.nodes[d].name, w.spec.nodes[a].name, p.loc, p.msg),
                )
            }
        }
    }
    let mut clean = 0;
    let mut failed = 0;
    let mut ph: H = vec![];
    for e in &h {
        if matches!(e.op, COp::Die(..)) {
            continue;
        }
        let isolated = match needs(w, &e.op) {
            Some(n) => n.iter().all(|i| !hit[*i]),
            // printing for debugging must survive anything
            None => true,
        };
        match &e.res {
            Err(p) if isolated => {
                return viol(
                    "panic-spreads",
                    format!("t{} {:?} needs no joint which a panicking thread held, but panicked at {}: {}", e.tid, e.op, p.loc, p.msg),
                )
            }
            Err(_) => failed += 1,
            Ok(_) => clean += isolated as u64,
        }
        if let COp::Plain(op) = &e.op {
            let res = match &e.res {
                Ok(CR::Plain(r)) => Ok(r.clone()),
                Ok(_) => continue,
                Err(p) => Err(p.clone()),
            };
            ph.push(Ev { tid: e.tid, idx: e.idx, op: op.clone(), inv: e.inv, ret: e.ret, res });
        }
    }
    // values of the other joints: only what was written, also by calls that died halfway
    let mut pos: Vec<Vec<Wr<f64>>> = vec![vec![]; w.nodes.len()];
    for e in &ph {
        let (ws, want) = w.model(&e.op);
        for (i, v, d) in ws {
            pos[i].push(Wr { inv: e.inv, ret: e.ret, val: v, definite: d && e.res.is_ok() });
        }
        let iso = needs(w, &COp::Plain(e.op.clone())).map(|n| n.iter().all(|i| !hit[*i])).unwrap_or(false);
        if let (true, Some(want), Ok(R::Res(got))) = (iso, want, &e.res) {
            let ok = match (&want, got) {
                (Ok(()), Ok(())) => true,
                (Err(a), Err(b)) => err_eq(a, b),
                _ => false,
            };
            if !ok {
                return viol("wrong-result", format!("t{} {:?} returned {:?}, expected {:?}", e.tid, e.op, got, want));
            }
        }
        if let Op::Ik(c, _, _) = &e.op {
            for i in &w.mov[*c] {
                pos[*i].push(Wr { inv: e.inv, ret: e.ret, val: f64::NAN, definite: false });
            }
        }
    }
    for e in &ph {
        let seen: Vec<(usize, f64)> = match (&e.op, &e.res) {
            (Op::Get(i), Ok(R::Opt(Some(v)))) => vec![(*i, *v)],
            (Op::ChainGet(c), Ok(R::Vec(v))) => w.mov[*c].iter().copied().zip(v.iter().copied()).collect(),
            _ => continue,
        };
        for (i, v) in seen {
            let c = candidates(&w.spec.nodes[i].init, &pos[i], e.inv, e.ret);
            if !hit[i] && !c.iter().any(|x| near(*x, v) || x.is_nan()) {
                return viol("wrong-value", format!("t{} {:?}: joint {} is at {}, possible were {:?}", e.tid, e.op, w.spec.nodes[i].name, v, c));
            }
        }
    }
    ex.fault("thread panicked while it held a joint", deaths);
    ex.count("calls away from the held joint that worked", clean);
    ex.count("calls on an inaccessible joint that panicked", failed);
    ex.nontrivial = deaths > 0 && ex.preemptions() > 0;
    // the poisoned robot is leaked: dropping needs no lock, but keep the run simple
    Ok(())
}
