//! The same robot in single precision: a short sequence of calls without concurrency, against the model.
use super::common::*;
use super::fk::{finite, ref_com, ref_jacobian, ref_velocities};
use super::ik::{arm_joints, pose_error};
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use k::{Chain, InverseKinematicsSolver, SerialChain};
use nalgebra as na;
use simstd::rt::Rng;

fn r32(x: f64) -> f64 {
    x as f32 as f64
}
fn r_iso(x: &Iso) -> Iso {
    of_na32(&iso_t::<f32>(x))
}
fn of_na32(x: &na::Isometry3<f32>) -> Iso {
    let m = x.rotation.to_rotation_matrix();
    let mut r = I3;
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = m[(i, j)] as f64;
        }
    }
    Iso { r, t: [x.translation.x as f64, x.translation.y as f64, x.translation.z as f64] }
}
fn v32(x: &na::Vector3<f32>) -> V {
    [x.x as f64, x.y as f64, x.z as f64]
}
/// the robot whose numbers are all representable in single precision
fn rounded(spec: &Spec) -> Spec {
    let mut s = spec.clone();
    for n in s.nodes.iter_mut() {
        n.limits = n.limits.map(|(a, b)| (r32(a), r32(b)));
        n.origin = r_iso(&n.origin);
        n.vel = r32(n.vel);
        n.init = r32(n.init);
        n.mimic = n.mimic.map(|(l, m, o)| (l, r32(m), r32(o)));
        if let Some(l) = &mut n.link {
            l.mass = r32(l.mass);
            l.com = r_iso(&l.com);
        }
    }
    s
}
enum C32 {
    Tree(Chain<f32>),
    Serial(SerialChain<f32>),
}
impl C32 {
    fn c(&self) -> &Chain<f32> {
        match self {
            C32::Tree(c) => c,
            C32::Serial(s) => s,
        }
    }
}
pub struct Twin {
    w: W,
    nodes: Vec<k::Node<f32>>,
    chains: Vec<C32>,
}
impl Twin {
    pub fn new(w: &W) -> Twin {
        let spec = rounded(&w.spec);
        let nodes = spec.build::<f32>();
        let chains = w
            .idx
            .iter()
            .zip(&w.chains)
            .map(|(idx, c)| {
                let x = Chain::from_nodes(idx.iter().map(|i| nodes[*i].clone()).collect());
                match c {
                    C::Tree(_) => C32::Tree(x),
                    C::Serial(_) => C32::Serial(SerialChain::new_unchecked(x)),
                }
            })
            .collect();
        let mut m = W::new(spec);
        m.idx = w.idx.clone();
        m.mov = w.mov.clone();
        Twin { w: m, nodes, chains }
    }
    fn positions(&self) -> Vec<Option<f32>> {
        self.nodes.iter().map(|n| n.joint_position()).collect()
    }
    fn q(&self) -> Vec<f64> {
        self.positions().iter().map(|x| x.unwrap_or(0.0) as f64).collect()
    }
    /// lengths and angles with which rounding errors grow
    fn scale(&self) -> f64 {
        let q = self.q();
        1.0 + self.w.spec.nodes.iter().map(|n| norm(&n.origin.t)).sum::<f64>() + q.iter().map(|x| x.abs()).sum::<f64>()
    }
    fn setter(&self, rng: &mut Rng) -> Res {
        let s = &self.w.spec;
        let i = rng.below(self.nodes.len());
        let v = r32(value(rng, s, i, 0.8));
        let before = self.positions();
        let kind = rng.below(4);
        let (op, want) = match kind {
            0 | 1 => (Op::Set(i, v), "set_joint_position"),
            2 => (Op::Clamped(i, v), "set_joint_position_clamped"),
            _ => (Op::Unchecked(i, v), "set_joint_position_unchecked"),
        };
        if !v.is_finite() && kind > 1 {
            return Ok(());
        }
        let (writes, res) = self.w.model(&op);
        let got = match kind {
            0 | 1 => Some(self.nodes[i].set_joint_position(v as f32)),
            2 => {
                self.nodes[i].set_joint_position_clamped(v as f32);
                None
            }
            _ => {
                self.nodes[i].set_joint_position_unchecked(v as f32);
                None
            }
        };
        // a follower's value close to its limit is accepted or not, depending on the last digit
        let edge = writes.iter().any(|(j, x, _)| *j != i && s.nodes[*j].limits.is_some_and(|(a, b)| near32(*x, a) || near32(*x, b)))
            || matches!(&res, Some(Err(ErrK::OutOfLimit(n, x, b, a))) if *n != s.nodes[i].name && (near32(*x, *a) || near32(*x, *b)));
        if edge {
            return Ok(());
        }
        if let (Some(got), Some(res)) = (got, res) {
            let ok = match (&got, &res) {
                (Ok(()), Ok(())) => true,
                (Err(k::Error::SetToFixedError { joint_name }), Err(ErrK::Fixed(n))) => joint_name == n,
                (Err(k::Error::OutOfLimitError { joint_name, position, max_limit, min_limit }), Err(ErrK::OutOfLimit(n, x, b, a))) => {
                    joint_name == n && (near32(*position, *x) || x.is_nan()) && near32(*max_limit, *b) && near32(*min_limit, *a)
                }
                _ => false,
            };
            if !ok {
                return viol("f32-result", format!("{} of {} (f32) to {} returned {:?}, expected {:?}", want, s.nodes[i].name, v, got, res));
            }
        }
        for (j, n) in self.nodes.iter().enumerate() {
            let now = n.joint_position();
            let mut cands: Vec<Option<f64>> = writes.iter().filter(|x| x.0 == j).map(|x| Some(x.1)).collect();
            if !writes.iter().any(|x| x.0 == j && x.2) {
                cands.push(before[j].map(|x| x as f64));
            }
            let fits = cands.iter().any(|c| match (c, now) {
                (None, None) => true,
                (Some(c), Some(x)) if j == i => *c == x as f64 || c.is_nan() && x.is_nan(),
                (Some(c), Some(x)) => near32(*c, x as f64) || c.is_nan() && x.is_nan(),
                _ => false,
            });
            if !fits {
                return viol("f32-position", format!("after {} of {} (f32) to {}, {} is at {:?}; possible: {:?}", want, s.nodes[i].name, v, s.nodes[j].name, now, cands));
            }
        }
        Ok(())
    }
    fn poses(&self, c: usize) -> Res {
        let world = self.w.spec.world(&self.q());
        let tol = 1e-5 * self.scale();
        let got = self.chains[c].c().update_transforms();
        if got.len() != self.w.idx[c].len() {
            return viol("f32-pose", format!("{} poses for {} joints", got.len(), self.w.idx[c].len()));
        }
        for (i, g) in self.w.idx[c].iter().zip(&got) {
            let x = of_na32(g);
            let kept = self.nodes[*i].world_transform();
            if !iso_close(&x, &world[*i], tol) || kept != Some(*g) {
                return viol(
                    "f32-pose",
                    format!("joint {} (f32) is at {:?} and remembers {:?}, expected {:?}", self.w.spec.nodes[*i].name, x, kept.map(|k| of_na32(&k)), world[*i]),
                );
            }
        }
        if let C32::Serial(s) = &self.chains[c] {
            let first = self.w.idx[c][0];
            let base = self.w.spec.nodes[first].parent.map(|p| world[p]).unwrap_or(ID);
            let want = world[*self.w.idx[c].last().unwrap()];
            if !iso_close(&base.mul(&of_na32(&s.end_transform())), &want, tol) {
                return viol("f32-pose", format!("end transform (f32) {:?} on {:?}, expected {:?}", of_na32(&s.end_transform()), base, want));
            }
        }
        Ok(())
    }
    fn kinematics(&self, c: usize) -> Res {
        let w = &self.w;
        let world = w.spec.world(&self.q());
        let all: Vec<usize> = (0..self.nodes.len()).collect();
        let tol = 1e-5 * self.scale();
        if let C32::Serial(s) = &self.chains[c] {
            let j = k::jacobian(s);
            let want = ref_jacobian(w, c, &world);
            if j.ncols() != want.len() || (0..6 * want.len()).any(|k| !((j[(k % 6, k / 6)] as f64 - want[k / 6][k % 6]).abs() <= tol)) {
                return viol("f32-jacobian", format!("jacobian (f32) {} expected {:?}", j, want));
            }
        }
        if let Some(want) = ref_com(w, c, &world) {
            let x = v32(&k::center_of_mass(self.chains[c].c()));
            if !(norm(&sub(&x, &want)) <= 10.0 * tol) {
                return viol("f32-center-of-mass", format!("center of mass (f32) {:?} expected {:?}", x, want));
            }
        }
        let v = self.chains[c].c().update_velocities();
        let want = ref_velocities(w, &all, &world);
        for (i, x) in w.idx[c].iter().zip(&v) {
            let vt = 10.0 * tol * (1.0 + norm(&want[*i].0) + norm(&want[*i].1));
            if !(norm(&sub(&v32(&x.translation), &want[*i].0)) <= vt && norm(&sub(&v32(&x.rotation), &want[*i].1)) <= vt) {
                return viol("f32-velocity", format!("velocity (f32) of {}: {:?}, expected {:?}", w.spec.nodes[*i].name, x, want[*i]));
            }
        }
        Ok(())
    }
    /// whether it was solved
    pub fn solve(&self, arm: usize, target: &Iso, opt: &IkOpt) -> Result<bool, Violation> {
        let w = &self.w;
        let s = match &self.chains[arm] {
            C32::Serial(s) => s,
            _ => return Ok(false),
        };
        let tol = opt.tol.unwrap_or((0.001, 0.005));
        let sol = if opt.default {
            k::JacobianIkSolver::<f32>::default()
        } else {
            k::JacobianIkSolver::<f32>::new(tol.0 as f32, tol.1 as f32, opt.mult as f32, opt.tries)
        };
        let mask = opt.mask.unwrap_or([true; 6]);
        let con = k::Constraints {
            position_x: mask[0],
            position_y: mask[1],
            position_z: mask[2],
            rotation_x: mask[3],
            rotation_y: mask[4],
            rotation_z: mask[5],
            ignored_joint_names: opt.ignored.clone(),
        };
        let before = self.positions();
        let res = sol.solve_with_constraints(s, &iso_t(target), &con);
        let after = self.positions();
        let q = self.q();
        match &res {
            Err(e) => {
                for (i, (a, b)) in before.iter().zip(&after).enumerate() {
                    if a.map(|x| x.to_bits()) != b.map(|x| x.to_bits()) {
                        return viol("f32-ik-moved", format!("solve (f32) failed ({}) and left {} at {:?} instead of {:?}", e, w.spec.nodes[i].name, b, a));
                    }
                }
                Ok(false)
            }
            // (positions outside the limits, coupled joints and parts of chains are only for failing requests)
            Ok(()) if w.spec.nodes[w.idx[arm][0]].parent.is_some() => Ok(true),
            Ok(()) if (0..self.nodes.len()).any(|i| w.spec.nodes[i].mimic.is_some() || !w.spec.in_limits(i, before[i].unwrap_or(0.0) as f64)) => Ok(true),
            Ok(()) => {
                let cur = w.spec.world(&q)[*w.idx[arm].last().unwrap()];
                let (dp, dr) = pose_error(&cur, target, &mask);
                let slack = 1e-4 + 1e-5 * self.scale();
                if !(dp <= tol.0 * 1.001 + slack) || !(dr <= tol.1 * 1.001 + slack) {
                    return viol("f32-ik-wrong-pose", format!("solve (f32) returned Ok but the arm is {} away and {} rad off, {:?}", dp, dr, opt));
                }
                for i in 0..self.nodes.len() {
                    let name = &w.spec.nodes[i].name;
                    let still = !arm_joints(w, arm).contains(&i) || opt.ignored.contains(name);
                    if still && before[i].map(|x| x.to_bits()) != after[i].map(|x| x.to_bits()) {
                        return viol("f32-ik-moved", format!("solve (f32) moved {} from {:?} to {:?}", name, before[i], after[i]));
                    }
                    if !still && !w.spec.in_limits(i, q[i]) {
                        return viol("f32-ik-limit", format!("solve (f32) left {} at {} outside {:?}", name, q[i], w.spec.nodes[i].limits));
                    }
                }
                Ok(true)
            }
        }
    }
}
fn near32(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-5 * (1e-3 + a.abs().max(b.abs()))
}
fn iso_close(a: &Iso, b: &Iso, tol: f64) -> bool {
    norm(&sub(&a.t, &b.t)) <= tol && (0..3).all(|i| (0..3).all(|j| (a.r[i][j] - b.r[i][j]).abs() <= tol))
}
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Setters,
    Poses,
    Kinematics,
}
/// some calls on a twin of the robot `w` in single precision
pub fn twin(ex: &mut Exec, rng: &mut Rng, w: &W, what: Part) -> Res {
    let t = Twin::new(w);
    for _ in 0..rng.range(1, 6) {
        t.setter(rng)?;
        // (far away the last digits of the position are coarse)
        for (i, n) in t.nodes.iter().enumerate() {
            if n.joint_position().is_some_and(|x| !(x.abs() < 30.0)) {
                n.set_joint_position_unchecked(finite(r32(value(rng, &t.w.spec, i, 1.0))).clamp(-10.0, 10.0) as f32);
            }
        }
        let c = rng.below(t.chains.len());
        match what {
            Part::Setters => {}
            Part::Poses => t.poses(c)?,
            Part::Kinematics => t.kinematics(c)?,
        }
    }
    ex.count("calls in single precision", 1);
    Ok(())
}
