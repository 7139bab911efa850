//! C11 (a clone is a faithful and independent copy).
use super::common::*;
use super::fk::{finite, random_init};
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use k::Node;
use simstd::rt::Rng;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum KOp {
    /// on the original
    Orig(Op),
    SetLink(usize, u64),
    /// clone an original chain into this thread's list of copies
    Clone(usize),
    /// clone the k-th copy of this thread
    Again(usize),
    /// an operation on the k-th copy of this thread, checked at once against the copy's model
    Own(usize, OwnOp),
}
#[derive(Clone, Debug)]
enum OwnOp {
    /// joint (position in the copy), fraction of its range or of [-3, 3]
    Set(usize, f64),
    Clamped(usize, f64),
    ChainSet(Vec<f64>),
    Origin(usize, Iso),
    SetLink(usize, u64),
    Update,
    Read,
}
/// what can be seen of one joint
#[derive(Clone, Debug)]
struct Seen {
    name: String,
    kind: String,
    limits: Option<(f64, f64)>,
    origin: Iso,
    pos: Option<f64>,
    vel: Option<f64>,
    link: Option<String>,
    parent: Option<usize>,
    children: Vec<Option<usize>>,
    leader: Option<Option<usize>>,
}
fn kind_text(j: &k::Joint<f64>) -> String {
    match &j.joint_type {
        k::JointType::Fixed => "fixed".into(),
        k::JointType::Rotational { axis } => format!("rot {:?}", of_v(&axis.into_inner())),
        k::JointType::Linear { axis } => format!("lin {:?}", of_v(&axis.into_inner())),
    }
}
fn spec_kind(k: &JK) -> String {
    match k {
        JK::Fixed => "fixed".into(),
        JK::Rot(a) => format!("rot {:?}", a),
        JK::Lin(a) => format!("lin {:?}", a),
    }
}
/// the whole content of a link except remembered poses
fn link_text(l: &k::Link<f64>) -> String {
    let iso = |x: &nalgebra::Isometry3<f64>| {
        let i = of_na(x);
        format!("{:.6?}{:.6?}", i.t, i.r)
    };
    let mut s = format!("{} {} {:?} {}", l.name, l.inertial.mass, l.inertial.inertia, iso(l.inertial.origin()));
    for v in &l.visuals {
        s += &format!(" v {} {} {:?} {:?}", v.name, iso(v.origin()), v.geometry, v.material);
    }
    for c in &l.collisions {
        s += &format!(" c {} {} {:?}", c.name, iso(c.origin()), c.geometry);
    }
    s
}
fn seen(nodes: &[Node<f64>]) -> Vec<Seen> {
    let at = |n: &Node<f64>| nodes.iter().position(|x| x == n);
    nodes
        .iter()
        .map(|n| {
            let (name, kind, limits, origin, pos, vel) = {
                let j = n.joint();
                (
                    j.name.clone(),
                    kind_text(&j),
                    j.limits.as_ref().map(|r| (r.min, r.max)),
                    of_na(j.origin()),
                    j.joint_position(),
                    j.joint_velocity(),
                )
            };
            let link = n.link().as_ref().map(link_text);
            let parent = n.parent();
            let children: Vec<Node<f64>> = n.children().to_vec();
            let leader = n.mimic_parent();
            Seen {
                name,
                kind,
                limits,
                origin,
                pos,
                vel,
                link,
                parent: parent.map(|p| at(&p).unwrap_or(usize::MAX)),
                children: children.iter().map(at).collect(),
                leader: leader.map(|m| at(&m)),
            }
        })
        .collect()
}
fn ver_link(i: usize, v: u64) -> Option<k::Link<f64>> {
    if v % 5 == 4 {
        return None;
    }
    let mut r = Rng::new(v * 131 + i as u64);
    Some(Spec::na_link(&rand_link(&mut r, &format!("w{}_{}", i, v))))
}
/// a copy together with its model
struct Copy {
    w: W,
    /// origin of every joint and link text, as the model expects
    q: Vec<f64>,
    o: Vec<Iso>,
    links: Vec<Option<String>>,
    seed: Option<usize>,
}
impl Copy {
    /// the first difference between the copy and its model
    fn differs(&self) -> Option<String> {
        let s = seen(&self.w.nodes);
        for (i, x) in s.iter().enumerate() {
            let n = &self.w.spec.nodes[i];
            let p = x.pos.unwrap_or(0.0);
            if !near(p, self.q[i]) {
                return Some(format!("{} is at {} instead of {}", x.name, p, self.q[i]));
            }
            if !x.origin.near(&self.o[i]) {
                return Some(format!("{} has the origin {:?} instead of {:?}", x.name, x.origin, self.o[i]));
            }
            if x.link != self.links[i] {
                return Some(format!("{} has the link {:?} instead of {:?}", x.name, x.link, self.links[i]));
            }
            if x.name != n.name || x.kind != spec_kind(&n.kind) || x.limits != n.limits {
                return Some(format!("{} {} {:?} instead of {} {} {:?}", x.name, x.kind, x.limits, n.name, spec_kind(&n.kind), n.limits));
            }
            if x.parent != n.parent {
                return Some(format!("{} has the parent {:?} instead of {:?}", x.name, x.parent, n.parent));
            }
        }
        None
    }
}
fn from_seen(ex_spec: &Spec, idx: &[usize], s: &[Seen], w: W, seed: Option<usize>) -> Copy {
    let _ = (ex_spec, idx);
    Copy {
        w,
        q: s.iter().map(|x| x.pos.unwrap_or(0.0)).collect(),
        o: s.iter().map(|x| x.origin).collect(),
        links: s.iter().map(|x| x.link.clone()).collect(),
        seed,
    }
}
/// the robot of a chain's copy, as far as structure goes
fn sub_spec(spec: &Spec, idx: &[usize]) -> Spec {
    let at = |i: usize| idx.iter().position(|x| *x == i);
    Spec {
        nodes: idx
            .iter()
            .map(|i| {
                let mut n = spec.nodes[*i].clone();
                n.parent = n.parent.and_then(at);
                n.mimic = n.mimic.and_then(|(l, m, o)| at(l).map(|l| (l, m, o)));
                n
            })
            .collect(),
    }
}
#[derive(Clone, Debug)]
enum KR {
    Orig(R),
    Copied(usize, Vec<Seen>, Option<String>),
    None,
    Own(Option<String>),
}
struct World {
    w: W,
    copies: Vec<Mutex<Vec<Copy>>>,
}
fn wrap(chain: C, spec: Spec) -> Result<W, String> {
    let nodes: Vec<Node<f64>> = chain.c().iter().cloned().collect();
    if nodes.len() != spec.nodes.len() {
        return Err(format!("the copy has {} joints instead of {}", nodes.len(), spec.nodes.len()));
    }
    for (n, s) in nodes.iter().zip(&spec.nodes) {
        let name = n.joint().name.clone();
        if name != s.name {
            return Err(format!("the copy has {} in the place of {}", name, s.name));
        }
    }
    let mut w = W { spec, nodes, chains: vec![], idx: vec![], mov: vec![] };
    w.add(chain);
    Ok(w)
}
impl World {
    fn apply(&self, tid: usize, op: &KOp) -> KR {
        match op {
            KOp::Orig(o) => KR::Orig(self.w.apply(o)),
            KOp::SetLink(i, v) => {
                self.w.nodes[*i].set_link(ver_link(*i, *v));
                KR::None
            }
            KOp::Clone(c) => {
                let x = match &self.w.chains[*c] {
                    C::Tree(t) => C::Tree(t.clone()),
                    C::Serial(s) => C::Serial(s.clone()),
                };
                self.store(tid, x, *c, None)
            }
            KOp::Again(k) => {
                let (x, c) = {
                    let cs = self.copies[tid].lock().unwrap();
                    if cs.is_empty() {
                        return KR::None;
                    }
                    let c = &cs[k % cs.len()];
                    (
                        match &c.w.chains[0] {
                            C::Tree(t) => C::Tree(t.clone()),
                            C::Serial(s) => C::Serial(s.clone()),
                        },
                        k % cs.len(),
                    )
                };
                let src = self.copies[tid].lock().unwrap()[c].seed.unwrap();
                self.store(tid, x, src, Some(c))
            }
            KOp::Own(k, o) => {
                let mut cs = self.copies[tid].lock().unwrap();
                if cs.is_empty() {
                    return KR::None;
                }
                let n = cs.len();
                KR::Own(own(&mut cs[k % n], o))
            }
        }
    }
    fn store(&self, tid: usize, x: C, c: usize, from: Option<usize>) -> KR {
        let spec = sub_spec(&self.w.spec, &self.w.idx[c]);
        match wrap(x, spec) {
            Err(m) => KR::Copied(c, vec![], Some(m)),
            Ok(w) => {
                let s = seen(&w.nodes);
                let mut bad = None;
                if w.nodes.iter().any(|n| self.w.nodes.contains(n)) {
                    bad = Some("the copy contains a joint of the original".to_string());
                }
                let mov = w.chains[0].c().dof();
                if mov != self.w.mov[c].len() {
                    bad = Some(format!("the copy has {} degrees of freedom instead of {}", mov, self.w.mov[c].len()));
                }
                let mut cs = self.copies[tid].lock().unwrap();
                if let Some(f) = from {
                    // nobody else can reach the copy: its clone must equal its model exactly
                    let m = &cs[f];
                    for (i, x) in s.iter().enumerate() {
                        if !near(x.pos.unwrap_or(0.0), m.q[i]) || !x.origin.near(&m.o[i]) || x.link != m.links[i] {
                            bad = Some(format!("the clone of a copy differs at {}: {:?}", x.name, x));
                        }
                    }
                    if w.nodes.iter().any(|n| m.w.nodes.contains(n)) {
                        bad = Some("the clone of a copy contains a joint of the copy".to_string());
                    }
                }
                let copy = from_seen(&self.w.spec, &self.w.idx[c], &s, w, Some(c));
                cs.push(copy);
                KR::Copied(c, s, bad)
            }
        }
    }
}
fn own(c: &mut Copy, o: &OwnOp) -> Option<String> {
    let n = c.w.nodes.len();
    let val = |s: &Spec, i: usize, f: f64| match s.nodes[i].limits {
        Some((a, b)) => a + (b - a) * f,
        None => -3.0 + 6.0 * f,
    };
    let op = match o {
        OwnOp::Set(i, f) => Op::Set(i % n, val(&c.w.spec, i % n, *f)),
        OwnOp::Clamped(i, f) => Op::Clamped(i % n, val(&c.w.spec, i % n, *f)),
        OwnOp::ChainSet(f) => {
            let m = c.w.mov[0].clone();
            Op::ChainSet(0, m.iter().enumerate().map(|(k, i)| val(&c.w.spec, *i, f[k % f.len()])).collect())
        }
        OwnOp::Origin(i, x) => Op::Origin(i % n, *x),
        OwnOp::SetLink(i, v) => {
            let l = ver_link(i % n, *v);
            c.links[i % n] = l.as_ref().map(link_text);
            c.w.nodes[i % n].set_link(l);
            return c.differs();
        }
        OwnOp::Update => Op::Update(0),
        OwnOp::Read => Op::ChainGet(0),
    };
    let r = c.w.apply(&op);
    let (ws, want) = c.w.model(&op);
    if let (Some(want), R::Res(got)) = (&want, &r) {
        let ok = match (want, got) {
            (Ok(()), Ok(())) => true,
            (Err(a), Err(b)) => err_eq(a, b),
            _ => false,
        };
        if !ok {
            return Some(format!("{:?} on the copy returned {:?}, expected {:?}", op, got, want));
        }
    }
    for (i, v, d) in &ws {
        if *d {
            c.q[*i] = *v;
        } else {
            // which of the joints were reached before an error is not specified
            let p = c.w.nodes[*i].joint_position().unwrap_or(0.0);
            if near(p, *v) {
                c.q[*i] = p;
            }
        }
    }
    if let Some((i, x)) = c.w.origin_write(&op) {
        c.o[i] = x;
    }
    match (&op, &r) {
        (Op::Update(_), R::Isos(v)) => {
            let want = c.w.spec.world_o(&c.q, &c.o);
            for i in 0..n {
                if v.get(i).map(|x| x.near(&want[i])) != Some(true) {
                    return Some(format!("forward kinematics of the copy puts {} at {:?}, expected {:?}", c.w.spec.nodes[i].name, v.get(i), want[i]));
                }
            }
        }
        (Op::ChainGet(_), R::Vec(v)) => {
            let want: Vec<f64> = c.w.mov[0].iter().map(|i| c.q[*i]).collect();
            if v.len() != want.len() || v.iter().zip(&want).any(|(a, b)| !near(*a, *b)) {
                return Some(format!("joint positions of the copy are {:?}, expected {:?}", v, want));
            }
        }
        _ => {}
    }
    c.differs().map(|d| format!("after {:?}: {}", op, d))
}

pub fn c11(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let g = Gen {
        n: sc.n((1, 7)),
        movable: 0.8,
        limits: 0.4,
        links: 0.6,
        mimic: if rng.chance(0.6) { 0.5 } else { 0.0 },
        serial: [0.3, 0.7][rng.below(2)],
        ..Gen::default()
    };
    let mut spec = Spec::random(&mut rng, &g);
    random_init(&mut rng, &mut spec);
    let mut w = W::new(spec);
    w.add_root();
    let leaves = w.spec.leaves();
    for _ in 0..rng.range(1, 2) {
        let e = if rng.chance(0.6) { leaves[rng.below(leaves.len())] } else { rng.below(w.nodes.len()) };
        w.add_end(e);
    }
    ex.setup = w.spec.describe();
    let nt = sc.threads(&mut rng, 1, 4);
    let n = w.nodes.len();
    let mut ver = 1u64;
    let lists: Vec<Vec<KOp>> = (0..nt)
        .map(|t| {
            let cloner = t == 0 || rng.chance(0.4);
            (0..sc.ops(&mut rng, 2, 7))
                .map(|j| {
                    ver += 1;
                    let i = rng.below(n);
                    let c = rng.below(w.chains.len());
                    if cloner && j == 0 {
                        return KOp::Clone(c);
                    }
                    let f = if rng.chance(0.1) { 1.3 } else { rng.f() };
                    match (cloner, rng.below(12)) {
                        (true, 0 | 1) => KOp::Clone(c),
                        (true, 2) => KOp::Again(rng.below(8)),
                        (true, 3 | 4) => KOp::Own(rng.below(8), OwnOp::Set(i, f)),
                        (true, 5) => KOp::Own(rng.below(8), OwnOp::Clamped(i, f)),
                        (true, 6) => KOp::Own(rng.below(8), OwnOp::ChainSet((0..4).map(|_| rng.f()).collect())),
                        (true, 7) => KOp::Own(rng.below(8), OwnOp::Origin(i, new_origin(&mut rng, &w.spec, i))),
                        (true, 8) => KOp::Own(rng.below(8), OwnOp::SetLink(i, ver)),
                        (true, 9) => KOp::Own(rng.below(8), OwnOp::Update),
                        (true, _) => KOp::Own(rng.below(8), OwnOp::Read),
                        (false, 0..=2) => KOp::Orig(Op::Set(i, value(&mut rng, &w.spec, i, 0.9))),
                        (false, 4) => KOp::Orig(Op::Clamped(i, finite(value(&mut rng, &w.spec, i, 0.6)))),
                        (false, 3) => KOp::Orig(Op::Unchecked(i, finite(value(&mut rng, &w.spec, i, 0.4)))),
                        (false, 5 | 6) => KOp::Orig(Op::ChainSet(c, values(&mut rng, &w, c, 0.95))),
                        (false, 7) => KOp::Orig(Op::Origin(i, new_origin(&mut rng, &w.spec, i))),
                        (false, 8) => KOp::SetLink(i, ver),
                        (false, 9) => KOp::Orig(Op::Update(c)),
                        _ => KOp::Orig(Op::ChainGet(c)),
                    }
                })
                .collect()
        })
        .collect();
    let lists = ex.plan(lists);
    let world = Arc::new(World { w, copies: (0..nt).map(|_| Default::default()).collect() });
    let w2 = world.clone();
    let h = ex.run_ops(lists, None, Arc::new(move |t, op: &KOp| w2.apply(t, op)))?;
    no_panics(&h)?;
    let w = &world.w;
    // writes to the original
    let mut ph: H = vec![];
    let mut links: Vec<Vec<Wr<Option<String>>>> = vec![vec![]; n];
    for e in &h {
        match (&e.op, e.res.as_ref().unwrap()) {
            (KOp::Orig(o), KR::Orig(r)) => ph.push(Ev { tid: e.tid, idx: e.idx, op: o.clone(), inv: e.inv, ret: e.ret, res: Ok(r.clone()) }),
            (KOp::SetLink(i, v), _) => links[*i].push(Wr { inv: e.inv, ret: e.ret, val: ver_link(*i, *v).as_ref().map(link_text), definite: true }),
            _ => {}
        }
    }
    check_results(w, &ph)?;
    let ws = writes(w, &ph);
    let link0: Vec<Option<String>> = w.spec.nodes.iter().map(|n| n.link.as_ref().map(|l| link_text(&Spec::na_link(l)))).collect();
    let (mut made, mut moved, mut owned) = (0u64, 0u64, 0u64);
    for e in &h {
        match e.res.as_ref().unwrap() {
            KR::Own(Some(m)) => return viol("copy-differs", format!("t{} {:?}: {}", e.tid, e.op, m)),
            KR::Own(None) => owned += 1,
            KR::Copied(c, s, bad) => {
                if let Some(m) = bad {
                    return viol("clone-differs", format!("t{} {:?}: {}", e.tid, e.op, m));
                }
                made += 1;
                let idx = &w.idx[*c];
                let sub = sub_spec(&w.spec, idx);
                for (k, x) in s.iter().enumerate() {
                    let i = idx[k];
                    let want = &sub.nodes[k];
                    let fail = |m: String| -> Res { viol("clone-differs", format!("t{} {:?}: joint {} of the copy {}", e.tid, e.op, want.name, m)) };
                    if x.name != want.name || x.kind != spec_kind(&want.kind) || x.limits != want.limits {
                        return fail(format!("is {} {} {:?} instead of {} {:?}", x.name, x.kind, x.limits, spec_kind(&want.kind), want.limits));
                    }
                    let v0 = if want.kind == JK::Fixed { None } else { Some(want.vel) };
                    if x.vel != v0 {
                        return fail(format!("has the velocity {:?} instead of {:?}", x.vel, v0));
                    }
                    if x.parent != want.parent {
                        return fail(format!("has the parent {:?} instead of {:?} (positions in the chain)", x.parent, want.parent));
                    }
                    let ch: Vec<Option<usize>> = (0..sub.nodes.len()).filter(|j| sub.nodes[*j].parent == Some(k)).map(Some).collect();
                    // the children of the original, in its order, as far as they are in the chain
                    let mut orig: Vec<usize> = (0..n).filter(|j| w.spec.nodes[*j].parent == Some(i)).collect();
                    orig.sort_unstable();
                    let by_orig: Vec<Option<usize>> = orig.iter().filter_map(|j| idx.iter().position(|y| y == j)).map(Some).collect();
                    if x.children != by_orig || ch.len() != by_orig.len() {
                        return fail(format!("has the children {:?} instead of {:?}", x.children, by_orig));
                    }
                    if x.leader != want.mimic.map(|m| Some(m.0)) {
                        return fail(format!("follows {:?} instead of {:?}", x.leader, want.mimic));
                    }
                    if matches!(e.op, KOp::Clone(_)) {
                        if w.spec.movable(i) {
                            let p = candidates(&w.spec.nodes[i].init, &ws.pos[i], e.inv, e.ret);
                            if p.len() > 1 {
                                moved += 1;
                            }
                            if !x.pos.map(|v| p.iter().any(|y| near(*y, v))).unwrap_or(false) {
                                return fail(format!("is at {:?}, the original was at {:?} during the call", x.pos, p));
                            }
                        }
                        let o = candidates(&w.spec.nodes[i].origin, &ws.org[i], e.inv, e.ret);
                        if !o.iter().any(|y| y.near(&x.origin)) {
                            return fail(format!("has the origin {:?}, the original had {:?} during the call", x.origin, o));
                        }
                        let l = candidates(&link0[i], &links[i], e.inv, e.ret);
                        if !l.contains(&x.link) {
                            return fail(format!("has the link {:?}, the original had {:?} during the call", x.link, l));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // the original is what its own writers made it
    let end = u64::MAX / 2;
    for i in 0..n {
        if w.spec.movable(i) {
            let p = candidates(&w.spec.nodes[i].init, &ws.pos[i], end, end + 1);
            let v = w.nodes[i].joint_position().unwrap();
            if !p.iter().any(|y| near(*y, v)) {
                return viol("original-changed", format!("joint {} of the original is at {}, its writers left {:?}", w.spec.nodes[i].name, v, p));
            }
        }
        let l = candidates(&link0[i], &links[i], end, end + 1);
        let x = w.nodes[i].link().as_ref().map(link_text);
        if !l.contains(&x) {
            return viol("original-changed", format!("joint {} of the original has the link {:?}, its writers left {:?}", w.spec.nodes[i].name, x, l));
        }
    }
    // mutual independence, one change at a time
    let mut all: Vec<Copy> = vec![];
    for c in &world.copies {
        all.append(&mut c.lock().unwrap());
    }
    all.truncate(4);
    let os = seen(&w.nodes);
    let full = W { spec: w.spec.clone(), nodes: w.nodes.clone(), chains: vec![C::Tree(k::Chain::from_nodes(w.nodes.clone()))], idx: vec![(0..n).collect()], mov: vec![(0..n).filter(|i| w.spec.movable(*i)).collect()] };
    all.push(from_seen(&w.spec, &[], &os, full, None));
    for _ in 0..6 {
        ver += 1;
        let a = rng.below(all.len());
        let i = rng.below(n);
        let o = match rng.below(6) {
            0 | 1 => OwnOp::Set(i, rng.f()),
            2 => OwnOp::Origin(i, new_origin(&mut rng, &w.spec, i)),
            3 => OwnOp::SetLink(i, ver),
            4 => OwnOp::Update,
            _ => OwnOp::ChainSet((0..4).map(|_| rng.f()).collect()),
        };
        let before: Vec<Vec<Option<Iso>>> = all.iter().map(|c| c.w.nodes.iter().map(|n| n.world_transform().map(|x| of_na(&x))).collect()).collect();
        if let Some(m) = own(&mut all[a], &o) {
            return viol("copy-differs", format!("copy {} of {} and the original: {}", a, all.len() - 1, m));
        }
        for b in 0..all.len() {
            if b == a {
                continue;
            }
            if let Some(m) = all[b].differs() {
                return viol("copy-not-independent", format!("{:?} on one changed another: {}", o, m));
            }
            for (k, nd) in all[b].w.nodes.iter().enumerate() {
                let x = nd.world_transform().map(|x| of_na(&x));
                if x != before[b][k] {
                    return viol("copy-not-independent", format!("{:?} on one changed the remembered pose of {} of another", o, all[b].w.spec.nodes[k].name));
                }
            }
        }
    }
    // changes of the tree of one are not visible in the others
    let a = rng.below(all.len());
    let i = rng.below(all[a].w.nodes.len());
    let extra = k::NodeBuilder::<f64>::new().name("extra").into_node();
    extra.set_parent(&all[a].w.nodes[i]);
    if let Some(p) = all[a].w.spec.nodes[i].parent {
        let p = all[a].w.nodes[p].clone();
        all[a].w.nodes[i].remove_parent(&p);
    }
    for b in 0..all.len() {
        if b != a {
            if let Some(m) = all[b].differs() {
                return viol("copy-not-independent", format!("attaching and detaching in one changed another: {}", m));
            }
            if seen(&all[b].w.nodes).iter().any(|s| s.children.iter().any(|c| c.is_none()) && all[b].seed.is_some()) {
                return viol("copy-not-independent", "a joint attached to one appears in another".into());
            }
        }
    }
    ex.count("chains cloned", made);
    ex.count("joints cloned while they were set", moved);
    ex.count("operations on copies", owned);
    ex.nontrivial = made > 0 && (nt == 1 || ex.preemptions() > 0);
    Ok(())
}
