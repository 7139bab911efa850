//! Random robots: the description (`Spec`), its construction through k's public API, and the model.
use crate::math::*;
use k::{Joint, JointType, Node};
use nalgebra as na;
use simstd::rt::Rng;

/// the scalars of a robot
pub trait Real: na::RealField + Copy + simba::scalar::SubsetOf<f64> {}
impl Real for f64 {}
impl Real for f32 {}
pub fn iso_t<T: Real>(x: &Iso) -> na::Isometry3<T> {
    let x = x.to_na();
    let q = x.rotation.into_inner();
    let c = |v: f64| na::convert::<f64, T>(v);
    na::Isometry3::from_parts(
        na::Translation3::new(c(x.translation.x), c(x.translation.y), c(x.translation.z)),
        na::Unit::new_unchecked(na::Quaternion::new(c(q.w), c(q.i), c(q.j), c(q.k))),
    )
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum JK {
    Fixed,
    Rot(V),
    Lin(V),
}
#[derive(Clone, Debug)]
pub struct LinkS {
    pub name: String,
    pub mass: f64,
    pub com: Iso,
    pub visuals: Vec<Iso>,
    pub collisions: Vec<Iso>,
}
#[derive(Clone, Debug)]
pub struct NodeS {
    pub name: String,
    pub kind: JK,
    pub limits: Option<(f64, f64)>,
    pub origin: Iso,
    pub parent: Option<usize>,
    pub link: Option<LinkS>,
    pub mimic: Option<(usize, f64, f64)>,
    pub vel: f64,
    pub init: f64,
}
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub nodes: Vec<NodeS>,
}

pub struct Gen {
    pub n: (usize, usize),
    pub movable: f64,
    pub linear: f64,
    pub limits: f64,
    pub links: f64,
    pub mimic: f64,
    /// probability that a node hangs below its predecessor (1: serial chain)
    pub serial: f64,
    pub origin_rot: f64,
    /// every limit range contains zero, so that the initial positions are legal
    pub legal_init: bool,
}
impl Default for Gen {
    fn default() -> Self {
        Gen {
            n: (2, 7),
            movable: 0.8,
            linear: 0.35,
            limits: 0.5,
            links: 0.5,
            mimic: 0.0,
            serial: 0.6,
            origin_rot: 0.6,
            legal_init: true,
        }
    }
}

pub fn rand_axis(rng: &mut Rng) -> V {
    match rng.below(5) {
        0 => [1., 0., 0.],
        1 => [0., 1., 0.],
        2 => [0., 0., 1.],
        3 => {
            let mut a = [0.; 3];
            a[rng.below(3)] = -1.0;
            a
        }
        _ => loop {
            let v = [rng.fr(-1., 1.), rng.fr(-1., 1.), rng.fr(-1., 1.)];
            let n = norm(&v);
            if n > 0.2 {
                break unit(&v);
            }
        },
    }
}
pub fn rand_iso(rng: &mut Rng, p_rot: f64, s: f64) -> Iso {
    let t = if rng.chance(0.1) {
        [0.; 3]
    } else {
        [rng.fr(-s, s), rng.fr(-s, s), rng.fr(-s, s)]
    };
    let r = if rng.chance(p_rot) {
        let u = rand_axis(rng);
        rodrigues(&u, rng.fr(-3.0, 3.0))
    } else {
        I3
    };
    Iso { r, t }
}

/// some elements have no name, or that of another one
fn elem_name(link: &str, what: &str, i: usize, mass: f64) -> String {
    match (mass * 1e6) as u64 % 4 {
        0 if i != 1 => String::new(),
        1 => "part".into(),
        _ => format!("{}{}{}", link, what, i),
    }
}
impl Spec {
    pub fn random(rng: &mut Rng, g: &Gen) -> Spec {
        let n = rng.range(g.n.0, g.n.1);
        let mut nodes: Vec<NodeS> = vec![];
        for i in 0..n {
            let kind = if !rng.chance(g.movable) {
                JK::Fixed
            } else if rng.chance(g.linear) {
                JK::Lin(rand_axis(rng))
            } else {
                JK::Rot(rand_axis(rng))
            };
            // (limits of a fixed joint mean nothing, but may be given)
            let limits = if rng.chance(if kind != JK::Fixed { g.limits } else { g.limits * 0.25 }) {
                let a = rng.fr(0.05, 2.0);
                let b = rng.fr(0.05, 2.0);
                if rng.chance(0.05) {
                    // exactly one position is allowed
                    let x = if g.legal_init { 0.0 } else { a };
                    Some((x, x))
                } else if g.legal_init || rng.chance(0.8) {
                    Some((-a, b))
                } else {
                    Some((a, a + b))
                }
            } else {
                None
            };
            let parent = if i == 0 {
                None
            } else if rng.chance(g.serial) {
                Some(i - 1)
            } else {
                Some(rng.below(i))
            };
            let link = if rng.chance(g.links) { Some(rand_link(rng, &format!("l{}", i))) } else { None };
            nodes.push(NodeS {
                name: format!("j{}", i),
                kind,
                limits,
                origin: rand_iso(rng, g.origin_rot, 1.0),
                parent,
                link,
                mimic: None,
                vel: if rng.chance(0.7) { rng.fr(-1.0, 1.0) } else { 0.0 },
                init: 0.0,
            });
        }
        let mut s = Spec { nodes };
        for i in 0..n {
            if s.movable(i) && rng.chance(g.mimic) {
                let c: Vec<usize> = (0..n)
                    .filter(|&l| {
                        l != i
                            && s.movable(l)
                            && s.nodes[l].mimic.is_none()
                            && !s.nodes.iter().any(|x| matches!(x.mimic, Some((y, _, _)) if y == i))
                    })
                    .collect();
                if !c.is_empty() {
                    let l = c[rng.below(c.len())];
                    let mult = [1.0, -1.0, 0.5, 2.0, rng.fr(-2.0, 2.0), 0.0][rng.below(11) / 2];
                    let off = [0.0, 0.0, 0.25, rng.fr(-0.5, 0.5)][rng.below(4)];
                    s.nodes[i].mimic = Some((l, mult, off));
                }
            }
        }
        if rng.chance(0.08) {
            s.odd_names(rng);
        }
        s
    }
    /// names which are empty, begin with one another, or differ in little; all of them different
    fn odd_names(&mut self, rng: &mut Rng) {
        let mut pool: Vec<String> = ["", "a", "a1", "A1", "a10", "a1_", "a/1", "a 1", "a  b", "arm", "arm_1", "arm_10", "_arm", "1", "10", "\u{fc}", "joint", "root", "j", "J0"]
            .iter()
            .map(|x| x.to_string())
            .collect();
        for x in self.nodes.iter_mut() {
            if !pool.is_empty() && rng.chance(0.8) {
                x.name = pool.swap_remove(rng.below(pool.len()));
            }
        }
    }
    pub fn movable(&self, i: usize) -> bool {
        self.nodes[i].kind != JK::Fixed
    }
    pub fn followers(&self, l: usize) -> Vec<usize> {
        (0..self.nodes.len()).filter(|&i| matches!(self.nodes[i].mimic, Some((x, _, _)) if x == l)).collect()
    }
    /// in some robots several joints have the same name
    pub fn share_names(&mut self, rng: &mut Rng) {
        if rng.chance(0.1) {
            for _ in 0..rng.range(1, 4) {
                let (a, b) = (rng.below(self.nodes.len()), rng.below(self.nodes.len()));
                self.nodes[a].name = self.nodes[b].name.clone();
            }
        }
    }
    /// node indices from the root down to `i`
    pub fn path(&self, i: usize) -> Vec<usize> {
        let mut p = vec![i];
        let mut c = i;
        while let Some(x) = self.nodes[c].parent {
            p.push(x);
            c = x;
        }
        p.reverse();
        p
    }
    /// `i` and everything below it
    pub fn subtree(&self, i: usize) -> Vec<usize> {
        (0..self.nodes.len()).filter(|x| self.path(*x).contains(&i)).collect()
    }
    pub fn leaves(&self) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|&i| !self.nodes.iter().any(|n| n.parent == Some(i)))
            .collect()
    }
    /// the node's own transform relative to its parent
    pub fn local(&self, i: usize, origin: &Iso, q: f64) -> Iso {
        let m = match self.nodes[i].kind {
            JK::Fixed => ID,
            JK::Rot(a) => Iso { r: rodrigues(&a, q), t: [0.; 3] },
            JK::Lin(a) => Iso { r: I3, t: sc(&a, q) },
        };
        origin.mul(&m)
    }
    pub fn world(&self, q: &[f64]) -> Vec<Iso> {
        let o: Vec<Iso> = self.nodes.iter().map(|n| n.origin).collect();
        self.world_o(q, &o)
    }
    pub fn world_o(&self, q: &[f64], o: &[Iso]) -> Vec<Iso> {
        let mut w: Vec<Iso> = vec![];
        for i in 0..self.nodes.len() {
            let l = self.local(i, &o[i], q[i]);
            let x = match self.nodes[i].parent {
                Some(p) => w[p].mul(&l),
                None => l,
            };
            w.push(x);
        }
        w
    }
    pub fn in_limits(&self, i: usize, q: f64) -> bool {
        match self.nodes[i].limits {
            Some((a, b)) => q >= a && q <= b,
            None => true,
        }
    }
    pub fn clamp(&self, i: usize, q: f64) -> f64 {
        match self.nodes[i].limits {
            Some((a, b)) => {
                if q < a {
                    a
                } else if q > b {
                    b
                } else {
                    q
                }
            }
            None => q,
        }
    }
    pub fn na_link<T: Real>(l: &LinkS) -> k::link::Link<T> {
        let mut b = k::link::LinkBuilder::new().name(&l.name).inertial(k::link::Inertial::new(
            iso_t(&l.com),
            na::convert(l.mass),
            na::Matrix3::identity(),
        ));
        for (i, v) in l.visuals.iter().enumerate() {
            b = b.add_visual(k::link::Visual::new(
                elem_name(&l.name, "v", i, l.mass),
                iso_t(v),
                k::link::Geometry::Sphere { radius: na::convert(0.1) },
                k::link::Material {
                    name: "m".into(),
                    color: k::link::Color { r: na::convert(0.1), g: na::convert(0.2), b: na::convert(0.3), a: na::convert(1.0) },
                    texture: k::link::Texture { filename: String::new() },
                },
            ));
        }
        for (i, v) in l.collisions.iter().enumerate() {
            b = b.add_collision(k::link::Collision::new(
                elem_name(&l.name, "c", i, l.mass),
                iso_t(v),
                k::link::Geometry::Sphere { radius: na::convert(0.1) },
            ));
        }
        b.finalize()
    }
    pub fn make_node<T: Real>(&self, i: usize) -> Node<T> {
        let s = &self.nodes[i];
        let ax = |a: &V| na::Unit::new_unchecked(na::Vector3::new(na::convert(a[0]), na::convert(a[1]), na::convert(a[2])));
        let jt = match &s.kind {
            JK::Fixed => JointType::Fixed,
            JK::Rot(a) => JointType::Rotational { axis: ax(a) },
            JK::Lin(a) => JointType::Linear { axis: ax(a) },
        };
        let limits = s.limits.map(|(a, b)| k::joint::Range::new(na::convert(a), na::convert(b)));
        let o: na::Isometry3<T> = iso_t(&s.origin);
        // all ways to make a joint
        let b = || k::NodeBuilder::new().name(&s.name).joint_type(jt.clone()).limits(limits);
        let mut j = match (i + self.nodes.len()) % 3 {
            0 => b().origin(o).finalize(),
            1 => b().translation(o.translation).rotation(o.rotation).finalize(),
            _ => {
                let mut j = Joint::new(&s.name, jt);
                j.set_origin(o);
                j.limits = limits;
                j
            }
        };
        if s.kind != JK::Fixed {
            let _ = j.set_joint_velocity(na::convert(s.vel));
            if s.init != 0.0 {
                j.set_joint_position_unchecked(na::convert(s.init));
            }
        }
        let n = Node::new(j);
        if let Some(l) = &s.link {
            n.set_link(Some(Self::na_link(l)));
        }
        n
    }
    pub fn build<T: Real>(&self) -> Vec<Node<T>> {
        let nodes: Vec<Node<T>> = (0..self.nodes.len()).map(|i| self.make_node(i)).collect();
        for i in 0..nodes.len() {
            if let Some(p) = self.nodes[i].parent {
                nodes[i].set_parent(&nodes[p]);
            }
        }
        for i in 0..nodes.len() {
            if let Some((l, m, o)) = self.nodes[i].mimic {
                // sometimes it mimicked another joint before, or the same one with other values
                let before = i * 5 + nodes.len() * 3 + l;
                if before % 4 == 0 {
                    nodes[i].set_mimic_parent(&nodes[before % nodes.len()], k::joint::Mimic::new(na::convert(m + 1.0), na::convert(o - 0.5)));
                }
                nodes[i].set_mimic_parent(&nodes[l], k::joint::Mimic::new(na::convert(m), na::convert(o)));
            }
        }
        nodes
    }
    pub fn describe(&self) -> String {
        self.nodes
            .iter()
            .map(|n| {
                let k = match n.kind {
                    JK::Fixed => "fix".to_string(),
                    JK::Rot(_) => "rot".to_string(),
                    JK::Lin(_) => "lin".to_string(),
                };
                format!(
                    "{}:{}{}{}{}{}",
                    n.name,
                    k,
                    n.parent.map(|p| format!("<{}", self.nodes[p].name)).unwrap_or_default(),
                    n.limits.map(|(a, b)| format!("[{:.3},{:.3}]", a, b)).unwrap_or_default(),
                    n.mimic
                        .map(|(l, m, o)| format!("~{}*{:.3}+{:.3}", self.nodes[l].name, m, o))
                        .unwrap_or_default(),
                    if n.link.is_some() { "+link" } else { "" }
                )
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}
pub fn rand_link(rng: &mut Rng, name: &str) -> LinkS {
    let m = if rng.chance(0.02) { 13 } else { 3 };
    LinkS {
        name: if rng.chance(0.05) { String::new() } else { name.to_string() },
        mass: match rng.below(20) {
            0 | 1 => 0.0,
            2 => rng.fr(1e-4, 1e-3),
            3 => rng.fr(5.0, 500.0),
            _ => rng.fr(0.1, 5.0),
        },
        com: rand_iso(rng, 0.5, 0.5),
        visuals: (0..rng.below(m)).map(|_| rand_iso(rng, 0.7, 0.5)).collect(),
        collisions: (0..rng.below(m)).map(|_| rand_iso(rng, 0.7, 0.5)).collect(),
    }
}
