//! The shared world of the motion properties: a robot, some chains over it, the operations of the
//! public API on it, and the model of what each operation writes.
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use k::{Chain, Node, SerialChain};
use nalgebra as na;
use simstd::rt::Rng;

#[derive(Clone, Debug)]
pub enum Op {
    Set(usize, f64),
    Clamped(usize, f64),
    Unchecked(usize, f64),
    Get(usize),
    ChainSet(usize, Vec<f64>),
    ChainClamped(usize, Vec<f64>),
    ChainUnchecked(usize, Vec<f64>),
    ChainGet(usize),
    Origin(usize, Iso),
    GetOrigin(usize),
    ChainOrigin(usize, Iso),
    Update(usize),
    World(usize),
    WorldVel(usize),
    End(usize),
    Jac(usize),
    Com(usize),
    Vel(usize),
    LinkUpd(usize),
    LinkRead(usize),
    Display(usize),
    Clone(usize),
    Ik(usize, Iso, IkOpt),
}
#[derive(Clone, Debug, Default)]
pub struct IkOpt {
    pub tries: usize,
    pub mask: Option<[bool; 6]>,
    pub ignored: Vec<String>,
    pub nullspace: bool,
    pub drift: f64,
    pub mult: f64,
    pub tol: Option<(f64, f64)>,
    /// the solver is JacobianIkSolver::default()
    pub default: bool,
    /// how much nearer the targets are (0: as usual)
    pub near: f64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ErrK {
    OutOfLimit(String, f64, f64, f64),
    Fixed(String),
    Size(usize, usize),
    Mimic(String, String),
    NotConverged(usize),
    Inverse,
    Precondition(usize, usize),
    Name(String),
    Other(String),
}
pub fn errk(e: &k::Error) -> ErrK {
    match e {
        k::Error::OutOfLimitError { joint_name, position, max_limit, min_limit } => {
            ErrK::OutOfLimit(joint_name.clone(), *position, *max_limit, *min_limit)
        }
        k::Error::SetToFixedError { joint_name } => ErrK::Fixed(joint_name.clone()),
        k::Error::SizeMismatchError { input, required } => ErrK::Size(*input, *required),
        k::Error::MimicError { from, to } => ErrK::Mimic(from.clone(), to.clone()),
        k::Error::NotConvergedError { num_tried, .. } => ErrK::NotConverged(*num_tried),
        k::Error::InverseMatrixError => ErrK::Inverse,
        k::Error::PreconditionError { dof, necessary_dof } => ErrK::Precondition(*dof, *necessary_dof),
        k::Error::InvalidJointNameError { joint_name } => ErrK::Name(joint_name.clone()),
        e => ErrK::Other(format!("{:?}", e)),
    }
}
pub fn err_eq(a: &ErrK, b: &ErrK) -> bool {
    match (a, b) {
        (ErrK::OutOfLimit(n, p, x, y), ErrK::OutOfLimit(n2, p2, x2, y2)) => {
            let c = |a: f64, b: f64| near(a, b) || a.is_nan() && b.is_nan();
            n == n2 && c(*p, *p2) && c(*x, *x2) && c(*y, *y2)
        }
        _ => a == b,
    }
}
#[derive(Clone, Debug)]
pub enum R {
    Unit,
    Res(Result<(), ErrK>),
    Opt(Option<f64>),
    Vec(Vec<f64>),
    Iso(Iso),
    OptIso(Option<Iso>),
    OptVel(Option<(V, V)>),
    Isos(Vec<Iso>),
    Mat(usize, usize, Vec<f64>),
    V3(V),
    Vels(Vec<(V, V)>),
    Link(Option<Vec<Option<Iso>>>),
    Text(String),
    /// joint order and positions of a clone
    Cloned(Vec<(String, Option<f64>)>),
}
pub fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) && a.is_finite() && b.is_finite()
}

pub enum C {
    Tree(Chain<f64>),
    Serial(SerialChain<f64>),
}
impl C {
    pub fn c(&self) -> &Chain<f64> {
        match self {
            C::Tree(c) => c,
            C::Serial(s) => s,
        }
    }
}
pub struct W {
    pub spec: Spec,
    pub nodes: Vec<Node<f64>>,
    pub chains: Vec<C>,
    /// per chain: spec index of every node, in chain order
    pub idx: Vec<Vec<usize>>,
    /// per chain: spec index of every movable node, in chain order
    pub mov: Vec<Vec<usize>>,
}
impl W {
    pub fn new(spec: Spec) -> W {
        let nodes = spec.build();
        W { spec, nodes, chains: vec![], idx: vec![], mov: vec![] }
    }
    pub fn add(&mut self, c: C) -> usize {
        let idx: Vec<usize> =
            c.c().iter().map(|n| self.nodes.iter().position(|x| x == n).expect("unknown joint in chain")).collect();
        self.mov.push(idx.iter().copied().filter(|i| self.spec.movable(*i)).collect());
        self.idx.push(idx);
        self.chains.push(c);
        self.chains.len() - 1
    }
    pub fn add_root(&mut self) -> usize {
        let c = Chain::from_root(self.nodes[0].clone());
        self.add(C::Tree(c))
    }
    pub fn add_end(&mut self, end: usize) -> usize {
        let c = SerialChain::from_end(&self.nodes[end]);
        self.add(C::Serial(c))
    }
    pub fn add_sub(&mut self, end: usize, root: usize) -> usize {
        let c = SerialChain::from_end_to_root(&self.nodes[end], &self.nodes[root]);
        self.add(C::Serial(c))
    }
    pub fn add_subtree(&mut self, root: usize) -> usize {
        let c = Chain::from_root(self.nodes[root].clone());
        self.add(C::Tree(c))
    }
    /// some of the joints in any order, also before the ones that they hang below
    pub fn add_list(&mut self, rng: &mut Rng) -> usize {
        let mut l: Vec<usize> = (0..self.nodes.len()).filter(|_| rng.chance(0.7)).collect();
        if l.is_empty() {
            l.push(0);
        }
        for k in (1..l.len()).rev() {
            l.swap(k, rng.below(k + 1));
        }
        let c = Chain::from_nodes(l.iter().map(|i| self.nodes[*i].clone()).collect());
        self.add(C::Tree(c))
    }
    /// random additional chains over the robot: serial ones from the root, sub-chains, explicit lists
    pub fn add_some(&mut self, rng: &mut Rng, k: usize) {
        let leaves = self.spec.leaves();
        for _ in 0..k {
            let end = if rng.chance(0.7) { leaves[rng.below(leaves.len())] } else { rng.below(self.nodes.len()) };
            if rng.chance(0.6) {
                self.add_end(end);
            } else {
                let p = self.spec.path(end);
                let r = p[rng.below(p.len())];
                self.add_sub(end, r);
            }
        }
    }
    pub fn init(&self) -> Vec<f64> {
        self.spec.nodes.iter().map(|n| n.init).collect()
    }
    pub fn solver(&self, o: &IkOpt) -> (k::JacobianIkSolver<f64>, k::Constraints) {
        let tol = o.tol.unwrap_or((0.001, 0.005));
        let mut s = if o.default {
            k::JacobianIkSolver::default()
        } else {
            k::JacobianIkSolver::new(tol.0, tol.1, if o.mult == 0.0 { 0.5 } else { o.mult }, o.tries)
        };
        if o.nullspace {
            // drift is the value the function gives for a joint at zero (NaN: for any joint)
            let d = o.drift;
            s.set_nullspace_function(Box::new(move |q: &[f64]| q.iter().map(|x| d - 0.1 * x).collect()));
        }
        let m = o.mask.unwrap_or([true; 6]);
        let c = k::Constraints {
            position_x: m[0],
            position_y: m[1],
            position_z: m[2],
            rotation_x: m[3],
            rotation_y: m[4],
            rotation_z: m[5],
            ignored_joint_names: o.ignored.clone(),
        };
        (s, c)
    }
    pub fn serial(&self, c: usize) -> Option<&SerialChain<f64>> {
        match &self.chains[c] {
            C::Serial(s) => Some(s),
            _ => None,
        }
    }
    pub fn apply(&self, op: &Op) -> R {
        let res = |r: Result<(), k::Error>| R::Res(r.map_err(|e| errk(&e)));
        match op {
            Op::Set(i, v) => res(self.nodes[*i].set_joint_position(*v)),
            Op::Clamped(i, v) => {
                self.nodes[*i].set_joint_position_clamped(*v);
                R::Unit
            }
            Op::Unchecked(i, v) => {
                self.nodes[*i].set_joint_position_unchecked(*v);
                R::Unit
            }
            Op::Get(i) => R::Opt(self.nodes[*i].joint_position()),
            Op::ChainSet(c, v) => res(self.chains[*c].c().set_joint_positions(v)),
            Op::ChainClamped(c, v) => {
                self.chains[*c].c().set_joint_positions_clamped(v);
                R::Unit
            }
            Op::ChainUnchecked(c, v) => {
                self.chains[*c].c().set_joint_positions_unchecked(v);
                R::Unit
            }
            Op::ChainGet(c) => R::Vec(self.chains[*c].c().joint_positions()),
            Op::Origin(i, o) => {
                self.nodes[*i].set_origin(o.to_na());
                R::Unit
            }
            Op::GetOrigin(i) => R::Iso(of_na(&self.nodes[*i].origin())),
            Op::ChainOrigin(c, o) => {
                self.chains[*c].c().set_origin(o.to_na());
                R::Unit
            }
            Op::Update(c) => R::Isos(self.chains[*c].c().update_transforms().iter().map(of_na).collect()),
            Op::World(i) => R::OptIso(self.nodes[*i].world_transform().map(|x| of_na(&x))),
            Op::WorldVel(i) => {
                R::OptVel(self.nodes[*i].world_velocity().map(|v| (of_v(&v.translation), of_v(&v.rotation))))
            }
            Op::End(c) => match self.serial(*c) {
                Some(s) => R::Iso(of_na(&s.end_transform())),
                None => R::Unit,
            },
            Op::Jac(c) => match self.serial(*c) {
                Some(s) => {
                    let j = k::jacobian(s);
                    R::Mat(j.nrows(), j.ncols(), j.iter().copied().collect())
                }
                None => R::Unit,
            },
            Op::Com(c) => R::V3(of_v(&k::center_of_mass(self.chains[*c].c()))),
            Op::Vel(c) => R::Vels(
                self.chains[*c]
                    .c()
                    .update_velocities()
                    .iter()
                    .map(|v| (of_v(&v.translation), of_v(&v.rotation)))
                    .collect(),
            ),
            Op::LinkUpd(c) => {
                self.chains[*c].c().update_link_transforms();
                R::Unit
            }
            Op::LinkRead(i) => R::Link(self.nodes[*i].link().as_ref().map(|l| {
                let mut v = vec![l.inertial.world_transform().map(|x| of_na(&x))];
                v.extend(l.visuals.iter().map(|x| x.world_transform().map(|x| of_na(&x))));
                v.extend(l.collisions.iter().map(|x| x.world_transform().map(|x| of_na(&x))));
                v
            })),
            Op::Display(c) => R::Text(format!("{}", self.chains[*c].c())),
            Op::Clone(c) => {
                let x = self.chains[*c].c().clone();
                R::Cloned(
                    x.iter()
                        .map(|n| {
                            let j = n.joint();
                            (j.name.clone(), j.joint_position())
                        })
                        .collect(),
                )
            }
            Op::Ik(c, t, o) => match self.serial(*c) {
                Some(s) => {
                    use k::InverseKinematicsSolver;
                    let (sol, con) = self.solver(o);
                    let t: na::Isometry3<f64> = t.to_na();
                    let r = if o.mask.is_none() && o.ignored.is_empty() {
                        sol.solve(s, &t)
                    } else {
                        sol.solve_with_constraints(s, &t, &con)
                    };
                    res(r)
                }
                None => R::Unit,
            },
        }
    }
    /// expected result and writes of a checked set on one node; the writes carry `definite`
    pub fn model_set(&self, i: usize, v: f64, w: &mut Vec<(usize, f64, bool)>) -> Result<(), ErrK> {
        let n = &self.spec.nodes[i];
        if n.mimic.is_some() {
            return Ok(());
        }
        if n.kind == JK::Fixed {
            return Err(ErrK::Fixed(n.name.clone()));
        }
        let lim = |i: usize, v: f64| -> Result<(), ErrK> {
            let n = &self.spec.nodes[i];
            if self.spec.in_limits(i, v) {
                Ok(())
            } else {
                let (a, b) = n.limits.unwrap();
                Err(ErrK::OutOfLimit(n.name.clone(), v, b, a))
            }
        };
        lim(i, v)?;
        w.push((i, v, true));
        let mut e = None;
        for f in self.spec.followers(i) {
            let (_, m, o) = self.spec.nodes[f].mimic.unwrap();
            let fv = v * m + o;
            match lim(f, fv) {
                Ok(()) => w.push((f, fv, e.is_none())),
                Err(x) => {
                    if e.is_none() {
                        e = Some(x)
                    }
                }
            }
        }
        if let Some(x) = e {
            // which followers were reached before the failing one is not specified
            for t in w.iter_mut() {
                if t.0 != i && self.spec.nodes[t.0].mimic.map(|m| m.0) == Some(i) {
                    t.2 = false;
                }
            }
            return Err(x);
        }
        Ok(())
    }
    /// what an operation writes: (node, value, definite), and its expected result when determined
    pub fn model(&self, op: &Op) -> (Vec<(usize, f64, bool)>, Option<Result<(), ErrK>>) {
        let mut w = vec![];
        match op {
            Op::Set(i, v) => {
                let r = self.model_set(*i, *v, &mut w);
                (w, Some(r))
            }
            Op::Clamped(i, v) => {
                if self.spec.movable(*i) {
                    w.push((*i, self.spec.clamp(*i, *v), true));
                }
                (w, None)
            }
            Op::Unchecked(i, v) => {
                if self.spec.movable(*i) {
                    w.push((*i, *v, true));
                }
                (w, None)
            }
            Op::ChainSet(c, v) => {
                let m = &self.mov[*c];
                if v.len() != m.len() {
                    return (w, Some(Err(ErrK::Size(v.len(), m.len()))));
                }
                for (i, x) in m.iter().zip(v) {
                    if let Err(e) = self.model_set(*i, *x, &mut w) {
                        // whether joints other than the failing one were reached is not specified
                        w.iter_mut().for_each(|t| t.2 = false);
                        return (w, Some(Err(e)));
                    }
                }
                (w, Some(Ok(())))
            }
            Op::ChainClamped(c, v) => {
                for (i, x) in self.mov[*c].iter().zip(v) {
                    w.push((*i, self.spec.clamp(*i, *x), true));
                }
                (w, None)
            }
            Op::ChainUnchecked(c, v) => {
                for (i, x) in self.mov[*c].iter().zip(v) {
                    w.push((*i, *x, true));
                }
                (w, None)
            }
            _ => (w, None),
        }
    }
    pub fn origin_write(&self, op: &Op) -> Option<(usize, Iso)> {
        match op {
            Op::Origin(i, o) => Some((*i, *o)),
            Op::ChainOrigin(c, o) => Some((self.idx[*c][0], *o)),
            _ => None,
        }
    }
}

pub type H = Vec<Ev<Op, R>>;

/// Panics of any operation are violations of every motion property.
pub fn no_panics<O: std::fmt::Debug, T>(h: &[Ev<O, T>]) -> Res {
    for e in h {
        if let Err(p) = &e.res {
            return panic_viol(&format!("thread {} {:?}", e.tid, e.op), p);
        }
    }
    Ok(())
}
/// Results of setters must be those of the model.
pub fn check_results(w: &W, h: &H) -> Res {
    for e in h {
        if let (_, Some(want)) = w.model(&e.op) {
            let got = match e.res.as_ref().unwrap() {
                R::Res(r) => r,
                x => return viol("wrong-result", format!("{:?} returned {:?}", e.op, x)),
            };
            let ok = match (&want, got) {
                (Ok(()), Ok(())) => true,
                (Err(a), Err(b)) => err_eq(a, b),
                _ => false,
            };
            if !ok {
                return viol("wrong-result", format!("{:?} returned {:?}, expected {:?}", e.op, got, want));
            }
        }
    }
    Ok(())
}
/// A write to a register during [inv, ret].
#[derive(Clone, Debug)]
pub struct Wr<T> {
    pub inv: u64,
    pub ret: u64,
    pub val: T,
    pub definite: bool,
}
pub struct Writes {
    pub pos: Vec<Vec<Wr<f64>>>,
    pub org: Vec<Vec<Wr<Iso>>>,
}
pub fn writes(w: &W, h: &H) -> Writes {
    let n = w.spec.nodes.len();
    let mut o = Writes { pos: vec![vec![]; n], org: vec![vec![]; n] };
    for e in h {
        for (i, v, d) in w.model(&e.op).0 {
            o.pos[i].push(Wr { inv: e.inv, ret: e.ret, val: v, definite: d });
        }
        if let Some((i, v)) = w.origin_write(&e.op) {
            o.org[i].push(Wr { inv: e.inv, ret: e.ret, val: v, definite: true });
        }
    }
    o
}
/// every value the register may have held at some instant of [a, b]
pub fn candidates<T: Clone>(init: &T, ws: &[Wr<T>], a: u64, b: u64) -> Vec<T> {
    let mut c = vec![];
    let dead = |inv_ret: u64| ws.iter().any(|x| x.definite && x.inv > inv_ret && x.ret < a);
    if !ws.iter().any(|x| x.definite && x.ret < a) {
        c.push(init.clone());
    }
    for x in ws {
        if x.inv < b && !dead(x.ret) {
            c.push(x.val.clone());
        }
    }
    c
}
/// canonical id of an observed value among the values ever written to the cell
pub fn canon(init: f64, ws: &[Wr<f64>], v: f64) -> u64 {
    if v.is_nan() {
        return f64::NAN.to_bits();
    }
    if near(init, v) {
        return init.to_bits();
    }
    for x in ws {
        if near(x.val, v) {
            return canon_w(init, ws, x.val);
        }
    }
    v.to_bits()
}
/// the id of a written value: the first value near to it
pub fn canon_w(init: f64, ws: &[Wr<f64>], v: f64) -> u64 {
    if v.is_nan() {
        return f64::NAN.to_bits();
    }
    if near(init, v) {
        return init.to_bits();
    }
    ws.iter().find(|x| near(x.val, v)).map(|x| x.val.to_bits()).unwrap_or(v.to_bits())
}

/// a position to write: usually legal and unique, sometimes at or beyond a limit
pub fn value(rng: &mut Rng, s: &Spec, i: usize, legal: f64) -> f64 {
    if rng.chance(0.2) {
        // at or very near the initial value: steps of any size, also from one such value to the next
        let x = s.nodes[i].init;
        let d = match rng.below(4) {
            0 => 0.0,
            _ => 10f64.powi(-(rng.range(1, 6) as i32)) * rng.fr(-1.0, 1.0),
        };
        match s.nodes[i].limits {
            Some((a, b)) if x + d < a || x + d > b => {}
            _ => return x + d,
        }
    }
    match s.nodes[i].limits {
        Some((a, b)) => {
            if rng.chance(legal) {
                match rng.below(10) {
                    0 => a,
                    1 => b,
                    _ => rng.fr(a, b),
                }
            } else {
                match rng.below(7) {
                    6 => [b.next_up(), a.next_down()][rng.below(2)],
                    0 => b + 1e-6,
                    1 => a - 1e-6,
                    2 => a - rng.fr(0.01, 5.0),
                    3 => f64::INFINITY,
                    _ => b + rng.fr(0.01, 5.0),
                }
            }
        }
        None => {
            if rng.chance(0.05) {
                [1e3, -50.0, 7.0][rng.below(3)] + rng.f()
            } else {
                rng.fr(-3.0, 3.0)
            }
        }
    }
}
pub fn values(rng: &mut Rng, w: &W, c: usize, legal: f64) -> Vec<f64> {
    w.mov[c].iter().map(|i| value(rng, &w.spec, *i, legal)).collect()
}

/// a new origin of node `i`: anything, or one which differs from the first one in its rotation or
/// translation only, by a little, or not at all
pub fn new_origin(rng: &mut Rng, s: &Spec, i: usize) -> Iso {
    let o = s.nodes[i].origin;
    let mut x = rand_iso(rng, 0.6, 1.0);
    match rng.below(12) {
        0..=2 => x.t = o.t,
        3 | 4 => x.r = o.r,
        5 => return o,
        6 => {
            x = o;
            x.t[rng.below(3)] += 10f64.powi(-(rng.range(1, 7) as i32));
        }
        _ => {}
    }
    x
}

/// Some runs are much larger than the others: more joints, longer operation lists, or more threads.
pub struct Scale {
    nodes: usize,
    ops: usize,
    threads: usize,
}
impl Scale {
    pub fn pick(rng: &mut Rng) -> Scale {
        let mut s = Scale { nodes: 1, ops: 1, threads: 1 };
        match rng.below(60) {
            0 => s.nodes = 5,
            1 => s.ops = 6,
            2 => s.threads = 4,
            3 => s.ops = 3,
            _ => {}
        }
        s
    }
    pub fn n(&self, r: (usize, usize)) -> (usize, usize) {
        if self.nodes > 1 {
            (r.1, (r.1 * self.nodes).min(40))
        } else {
            r
        }
    }
    fn of(k: usize, rng: &mut Rng, a: usize, b: usize) -> usize {
        if k > 1 {
            rng.range(b, b * k)
        } else {
            rng.range(a, b)
        }
    }
    pub fn ops(&self, rng: &mut Rng, a: usize, b: usize) -> usize {
        Scale::of(self.ops, rng, a, b)
    }
    pub fn threads(&self, rng: &mut Rng, a: usize, b: usize) -> usize {
        Scale::of(self.threads, rng, a, b)
    }
}
