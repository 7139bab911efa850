//! C12 (loading a robot from URDF), C13 (loading under I/O faults).
use super::common::near;
use crate::engine::*;
use crate::math::*;
use k::{Chain, Node};
use nalgebra as na;
use simstd::rt::{self, IoHooks, Kind, Rng, SimRead};
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::path::Path;
use std::sync::Arc;

// ================================================================== the described robot
#[derive(Clone, Debug, PartialEq)]
enum Geo {
    Box([f64; 3]),
    Cyl(f64, f64),
    Cap(f64, f64),
    Sph(f64),
    Mesh(String, Option<[f64; 3]>),
}
#[derive(Clone, Debug)]
struct Elem {
    name: Option<String>,
    origin: Option<([f64; 3], [f64; 3])>,
    geo: Geo,
    /// name, color, texture
    mat: Option<(String, Option<[f64; 4]>, Option<String>)>,
}
#[derive(Clone, Debug)]
struct ULink {
    name: String,
    /// origin, mass, (ixx, ixy, ixz, iyy, iyz, izz)
    inertial: Option<(Option<([f64; 3], [f64; 3])>, f64, [f64; 6])>,
    visuals: Vec<Elem>,
    collisions: Vec<Elem>,
}
#[derive(Clone, Debug)]
struct UJoint {
    name: String,
    ty: &'static str,
    origin: Option<([f64; 3], [f64; 3])>,
    parent: String,
    child: String,
    axis: Option<[f64; 3]>,
    limit: Option<(Option<f64>, Option<f64>)>,
    mimic: Option<(String, Option<f64>, Option<f64>)>,
}
#[derive(Clone, Debug, Default)]
struct URobot {
    links: Vec<ULink>,
    joints: Vec<UJoint>,
}
const TYPES: [&str; 7] = ["revolute", "continuous", "prismatic", "fixed", "floating", "planar", "spherical"];

fn r3(rng: &mut Rng, s: f64) -> [f64; 3] {
    let mut a = [0.0; 3];
    for x in &mut a {
        *x = if rng.chance(0.15) { 0.0 } else { rnd(rng.fr(-s, s)) };
    }
    a
}
fn rnd(x: f64) -> f64 {
    (x * 1e5).round() / 1e5
}
fn u_origin(rng: &mut Rng) -> Option<([f64; 3], [f64; 3])> {
    if rng.chance(0.25) {
        return None;
    }
    let xyz = if rng.chance(0.2) { [0.0; 3] } else { r3(rng, 1.0) };
    let rpy = match rng.below(5) {
        0 => [0.0; 3],
        1 => [0.0, 1.5708, 0.0],
        2 => {
            let mut a = [0.0; 3];
            a[rng.below(3)] = rnd(rng.fr(-3.2, 3.2));
            a
        }
        _ => r3(rng, 3.2),
    };
    Some((xyz, rpy))
}
/// (nobody opens them)
const FILES: [&str; 12] = [
    "package://x/a.stl", "package://x/a.STL", "../meshes/a.dae", "a.obj", "/opt/none/a b.stl", "mesh", "file:///tmp/a.dae", "http://example.invalid/a.dae",
    "t.png", "../t.png", "t.PNG", "model://x/t.jpg",
];
fn u_geo(rng: &mut Rng) -> Geo {
    let p = |rng: &mut Rng| match rng.below(20) {
        0 => 0.00001 * rng.range(1, 9) as f64,
        1 => rnd(rng.fr(2.0, 5000.0)),
        _ => rnd(rng.fr(0.01, 2.0)),
    };
    match rng.below(6) {
        0 => Geo::Box([p(rng), p(rng), p(rng)]),
        1 => Geo::Cyl(p(rng), p(rng)),
        2 => Geo::Cap(p(rng), p(rng)),
        3 => Geo::Sph(p(rng)),
        4 => Geo::Mesh(FILES[rng.below(FILES.len())].into(), None),
        _ => Geo::Mesh(format!("file:///tmp/m{}.dae", rng.below(100)), Some([p(rng), p(rng), p(rng)])),
    }
}
fn u_elem(rng: &mut Rng, n: &str, visual: bool) -> Elem {
    Elem {
        name: if rng.chance(0.5) { Some(n.to_string()) } else { None },
        origin: u_origin(rng),
        geo: u_geo(rng),
        mat: if visual && rng.chance(0.6) {
            Some((
                ["red", "m1", ""][rng.below(3)].to_string(),
                if rng.chance(0.6) { Some([rnd(rng.f()), rnd(rng.f()), rnd(rng.f()), rnd(rng.f())]) } else { None },
                if rng.chance(0.3) { Some(FILES[rng.below(FILES.len())].to_string()) } else { None },
            ))
        } else {
            None
        },
    }
}
fn random_robot(rng: &mut Rng, big: bool) -> URobot {
    let n = if big { rng.range(8, 40) } else { [rng.range(1, 3), rng.range(2, 7), rng.range(4, 10)][rng.below(3)] };
    let rich = [0.0, 0.3, 0.8][rng.below(3)];
    let mut serial = [0.2, 0.6, 0.95][rng.below(3)];
    // many joints at one link
    let star = rng.chance(0.05);
    let n = if star { n.max(rng.range(6, 14)) } else { n };
    if star {
        serial = 0.1;
    }
    let most = if rng.chance(0.04) { 9 } else { 3 };
    let mut names: Vec<usize> = (0..n).collect();
    shuffle(rng, &mut names);
    let link = |i: usize| format!("link{}", names[i]);
    let mut r = URobot::default();
    for i in 0..n {
        r.links.push(ULink {
            name: link(i),
            inertial: if rng.chance(rich) {
                let mut t = [0.0; 6];
                for x in &mut t {
                    *x = rnd(rng.fr(-1.0, 2.0));
                }
                // a point mass, or none at all
                if rng.chance(0.15) {
                    t = [0.0; 6];
                }
                let m = match rng.below(20) {
                    0 | 1 => 0.0,
                    2 => 0.00001 * rng.range(1, 99) as f64,
                    3 => rnd(rng.fr(9.0, 9000.0)),
                    _ => rnd(rng.fr(0.01, 9.0)),
                };
                Some((u_origin(rng), m, t))
            } else {
                None
            },
            visuals: if rng.chance(rich) {
                (0..rng.range(1, most)).map(|k| u_elem(rng, &format!("v{}_{}", i, k), true)).collect()
            } else {
                vec![]
            },
            collisions: if rng.chance(rich) {
                (0..rng.range(1, most - 1)).map(|k| u_elem(rng, &format!("c{}_{}", i, k), false)).collect()
            } else {
                vec![]
            },
        });
    }
    for i in 1..n {
        let p = if rng.chance(serial) { i - 1 } else { rng.below(if star { i.min(2) } else { i }) };
        let ty = TYPES[if rng.chance(0.75) { rng.below(4) } else { rng.below(7) }];
        let axis = if rng.chance(0.2) {
            None
        } else {
            Some(loop {
                let a = match rng.below(4) {
                    0 => [0.0, 0.0, 1.0],
                    1 => [0.0, -1.0, 0.0],
                    2 => [1.0, 1.0, 0.0],
                    _ => r3(rng, 2.0),
                };
                if norm(&a) > 0.05 {
                    break a;
                }
            })
        };
        let limit = match rng.below(6) {
            0 => None,
            1 => Some((None, None)),
            2 => {
                let x = rnd(rng.fr(-1.0, 1.0));
                Some((Some(x), Some(x)))
            }
            3 => Some((None, Some(rnd(rng.fr(0.1, 3.0))))),
            _ if rng.chance(0.05) => Some((Some(-rnd(rng.fr(3.0, 20.0))), Some([7.0, 6.28319, 20.0, 1000.0, 1e9][rng.below(5)]))),
            _ => {
                let a = rnd(rng.fr(-3.0, 1.0));
                // also next to each other, and at zero
                let d = if rng.chance(0.25) { 10f64.powi(-(rng.range(1, 5) as i32)) * rng.fr(1.0, 5.0) } else { rng.fr(0.1, 4.0) };
                match rng.below(6) {
                    0 => Some((Some(0.0), Some(rnd(d)))),
                    1 => Some((Some(-rnd(d)), Some(0.0))),
                    _ => Some((Some(a), Some(rnd(a + d)))),
                }
            }
        };
        r.joints.push(UJoint {
            name: format!("joint{}", names[i] + 100),
            ty,
            origin: u_origin(rng),
            parent: link(p),
            child: link(i),
            axis,
            limit,
            mimic: None,
        });
    }
    // couplings; rarely to followers, to itself, or to joints which cannot move
    let m = r.joints.len();
    let p = [0.0, 0.3, 0.6][rng.below(3)];
    for i in 0..m {
        if m > 1 && rng.chance(p) {
            let l = rng.below(m);
            let follower = r.joints[l].mimic.is_some() || r.joints.iter().any(|j| matches!(&j.mimic, Some((x, _, _)) if *x == r.joints[i].name));
            if (l == i || follower) && !rng.chance(0.1) {
                continue;
            }
            let some = |rng: &mut Rng, m: f64| match rng.below(5) {
                0 => Some([0.0, 1.0, -1.0][rng.below(3)]),
                1..=2 => Some(rnd(rng.fr(-m, m))),
                _ => None,
            };
            let a = some(rng, 2.0);
            let b = some(rng, 0.5);
            r.joints[i].mimic = Some((r.joints[l].name.clone(), a, b));
        }
    }
    if rng.chance(0.15) {
        odd_names(rng, &mut r);
    }
    r
}
/// names which are only names: of links and of joints from the same list
fn odd_names(rng: &mut Rng, r: &mut URobot) {
    const NAMES: [&str; 26] = [
        "world", "base_link", "World", "BASE_LINK", "root_link", "base", "0", "1", "-1", "arm/link", "link", "arm:j.1", "arm:j.10", "fixed",
        "gripper finger", "gelenk_\u{fc}", "\u{95a2}\u{7bc0}", "map", "odom", "tool0", "joint", "Joint", "end", "none", "left/arm", "right/arm",
    ];
    let mut a: Vec<usize> = (0..NAMES.len()).collect();
    let mut b = a.clone();
    shuffle(rng, &mut a);
    shuffle(rng, &mut b);
    let links: Vec<String> = r.links.iter().map(|l| l.name.clone()).collect();
    let joints: Vec<String> = r.joints.iter().map(|j| j.name.clone()).collect();
    let f = |from: &str, old: &[String], perm: &[usize]| match old.iter().position(|x| x == from) {
        Some(i) if i < perm.len() => NAMES[perm[i]].to_string(),
        _ => from.to_string(),
    };
    for l in r.links.iter_mut() {
        l.name = f(&l.name, &links, &a);
    }
    for j in r.joints.iter_mut() {
        j.name = f(&j.name, &joints, &b);
        j.parent = f(&j.parent, &links, &a);
        j.child = f(&j.child, &links, &a);
        if let Some(m) = &mut j.mimic {
            m.0 = f(&m.0, &joints, &b);
        }
    }
}
fn shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, rng.below(i + 1));
    }
}

// ------------------------------------------------------------------ text
fn num(rng: &mut Rng, x: f64) -> String {
    match rng.below(4) {
        0 => format!("{:e}", x),
        1 => format!("{:.5}", x),
        _ => format!("{}", x),
    }
}
fn nums(rng: &mut Rng, x: &[f64]) -> String {
    x.iter().map(|v| num(rng, *v)).collect::<Vec<_>>().join(if rng.chance(0.1) { "  " } else { " " })
}
fn t_origin(rng: &mut Rng, o: &Option<([f64; 3], [f64; 3])>) -> Vec<String> {
    match o {
        None => vec![],
        Some((t, r)) => {
            let mut a = String::new();
            if *t != [0.0; 3] || rng.chance(0.5) {
                a += &format!(" xyz=\"{}\"", nums(rng, t));
            }
            if *r != [0.0; 3] || rng.chance(0.5) {
                let s = format!(" rpy=\"{}\"", nums(rng, r));
                if rng.chance(0.3) {
                    a = s + &a;
                } else {
                    a += &s;
                }
            }
            vec![format!("<origin{}/>", a)]
        }
    }
}
fn t_elem(rng: &mut Rng, tag: &str, e: &Elem) -> Vec<String> {
    let mut inner = vec![];
    let g = match &e.geo {
        Geo::Box(s) => format!("<box size=\"{}\"/>", nums(rng, s)),
        Geo::Cyl(r, l) => format!("<cylinder radius=\"{}\" length=\"{}\"/>", num(rng, *r), num(rng, *l)),
        Geo::Cap(r, l) => format!("<capsule length=\"{}\" radius=\"{}\"/>", num(rng, *l), num(rng, *r)),
        Geo::Sph(r) => format!("<sphere radius=\"{}\"/>", num(rng, *r)),
        Geo::Mesh(f, None) => format!("<mesh filename=\"{}\"/>", f),
        Geo::Mesh(f, Some(s)) => format!("<mesh filename=\"{}\" scale=\"{}\"/>", f, nums(rng, s)),
    };
    inner.push(format!("<geometry>{}</geometry>", g));
    inner.extend(t_origin(rng, &e.origin));
    if let Some((n, c, t)) = &e.mat {
        let c = c.map(|c| format!("<color rgba=\"{}\"/>", nums(rng, &c))).unwrap_or_default();
        let t = t.as_ref().map(|t| format!("<texture filename=\"{}\"/>", t)).unwrap_or_default();
        inner.push(format!("<material name=\"{}\">{}{}</material>", n, c, t));
    }
    shuffle(rng, &mut inner);
    let n = e.name.as_ref().map(|n| format!(" name=\"{}\"", n)).unwrap_or_default();
    let mut v = vec![format!("<{}{}>", tag, n)];
    v.extend(inner);
    v.push(format!("</{}>", tag));
    v
}
fn text(rng: &mut Rng, r: &URobot) -> String {
    let mut blocks: Vec<Vec<String>> = vec![];
    for l in &r.links {
        let mut parts: Vec<Vec<String>> = vec![];
        if let Some((o, m, t)) = &l.inertial {
            let mut inner = vec![
                format!("<mass value=\"{}\"/>", num(rng, *m)),
                format!(
                    "<inertia ixx=\"{}\" ixy=\"{}\" ixz=\"{}\" iyy=\"{}\" iyz=\"{}\" izz=\"{}\"/>",
                    num(rng, t[0]), num(rng, t[1]), num(rng, t[2]), num(rng, t[3]), num(rng, t[4]), num(rng, t[5])
                ),
            ];
            inner.extend(t_origin(rng, o));
            shuffle(rng, &mut inner);
            let mut v = vec!["<inertial>".to_string()];
            v.extend(inner);
            v.push("</inertial>".into());
            parts.push(v);
        }
        // the order of the visual and of the collision elements matters
        let k = rng.below(l.visuals.len() + 1);
        for (i, e) in l.visuals.iter().enumerate() {
            if i == k {
                for c in &l.collisions {
                    parts.push(t_elem(rng, "collision", c));
                }
            }
            parts.push(t_elem(rng, "visual", e));
        }
        if k == l.visuals.len() {
            for c in &l.collisions {
                parts.push(t_elem(rng, "collision", c));
            }
        }
        if parts.is_empty() {
            blocks.push(vec![format!("<link name=\"{}\"/>", l.name)]);
        } else {
            let mut v = vec![format!("<link name=\"{}\">", l.name)];
            v.extend(parts.into_iter().flatten());
            v.push("</link>".into());
            blocks.push(v);
        }
    }
    for j in &r.joints {
        let mut inner = vec![format!("<parent link=\"{}\"/>", j.parent), format!("<child link=\"{}\"/>", j.child)];
        inner.extend(t_origin(rng, &j.origin));
        if let Some(a) = &j.axis {
            inner.push(format!("<axis xyz=\"{}\"/>", nums(rng, a)));
        }
        if let Some((a, b)) = &j.limit {
            let mut s = "<limit".to_string();
            if let Some(a) = a {
                s += &format!(" lower=\"{}\"", num(rng, *a));
            }
            if let Some(b) = b {
                s += &format!(" upper=\"{}\"", num(rng, *b));
            }
            inner.push(s + " effort=\"1\" velocity=\"2.5\"/>");
        }
        if let Some((n, a, b)) = &j.mimic {
            let mut s = format!("<mimic joint=\"{}\"", n);
            if let Some(a) = a {
                s += &format!(" multiplier=\"{}\"", num(rng, *a));
            }
            if let Some(b) = b {
                s += &format!(" offset=\"{}\"", num(rng, *b));
            }
            inner.push(s + "/>");
        }
        if rng.chance(0.1) {
            inner.push("<dynamics damping=\"0.1\"/>".into());
        }
        if rng.chance(0.1) {
            inner.push("<safety_controller soft_lower_limit=\"-0.1\" soft_upper_limit=\"0.1\" k_position=\"1\" k_velocity=\"1\"/>".into());
        }
        shuffle(rng, &mut inner);
        let mut v = vec![if rng.chance(0.5) {
            format!("<joint name=\"{}\" type=\"{}\">", j.name, j.ty)
        } else {
            format!("<joint type=\"{}\" name=\"{}\">", j.ty, j.name)
        }];
        v.extend(inner);
        v.push("</joint>".into());
        blocks.push(v);
    }
    if rng.chance(0.3) {
        blocks.push(vec!["<material name=\"red\"><color rgba=\"1 0 0 1\"/></material>".into()]);
    }
    if rng.chance(0.2) {
        blocks.push(vec!["<gazebo><plugin name=\"p\"/></gazebo>".into()]);
    }
    if rng.chance(0.2) {
        blocks.push(vec!["<!-- a comment <joint name=\"no\"> -->".into()]);
    }
    match rng.below(3) {
        0 => {}
        _ => shuffle(rng, &mut blocks),
    }
    let mut s = String::new();
    if rng.chance(0.5) {
        s += "<?xml version=\"1.0\"?>\n";
    }
    s += if rng.chance(0.8) { "<robot name=\"robo\">\n" } else { "<robot>\n" };
    for b in blocks {
        for l in b {
            s += &l;
            s.push('\n');
        }
    }
    s += "</robot>";
    if rng.chance(0.7) {
        s.push('\n');
    }
    s
}

// ------------------------------------------------------------------ from the parsed file (for damaged content)
fn of_parsed(r: &urdf_rs::Robot) -> URobot {
    let o = |p: &urdf_rs::Pose| Some((p.xyz, p.rpy));
    let g = |g: &urdf_rs::Geometry| match g {
        urdf_rs::Geometry::Box { size } => Geo::Box(*size),
        urdf_rs::Geometry::Cylinder { radius, length } => Geo::Cyl(*radius, *length),
        urdf_rs::Geometry::Capsule { radius, length } => Geo::Cap(*radius, *length),
        urdf_rs::Geometry::Sphere { radius } => Geo::Sph(*radius),
        urdf_rs::Geometry::Mesh { filename, scale } => Geo::Mesh(filename.clone(), *scale),
    };
    URobot {
        links: r
            .links
            .iter()
            .map(|l| ULink {
                name: l.name.clone(),
                inertial: Some((
                    o(&l.inertial.origin),
                    l.inertial.mass.value,
                    {
                        let i = &l.inertial.inertia;
                        [i.ixx, i.ixy, i.ixz, i.iyy, i.iyz, i.izz]
                    },
                )),
                visuals: l
                    .visual
                    .iter()
                    .map(|v| Elem {
                        name: v.name.clone(),
                        origin: o(&v.origin),
                        geo: g(&v.geometry),
                        mat: v.material.as_ref().map(|m| {
                            (m.name.clone(), m.color.as_ref().map(|c| c.rgba), m.texture.as_ref().map(|t| t.filename.clone()))
                        }),
                    })
                    .collect(),
                collisions: l
                    .collision
                    .iter()
                    .map(|v| Elem { name: v.name.clone(), origin: o(&v.origin), geo: g(&v.geometry), mat: None })
                    .collect(),
            })
            .collect(),
        joints: r
            .joints
            .iter()
            .map(|j| UJoint {
                name: j.name.clone(),
                ty: match j.joint_type {
                    urdf_rs::JointType::Revolute => TYPES[0],
                    urdf_rs::JointType::Continuous => TYPES[1],
                    urdf_rs::JointType::Prismatic => TYPES[2],
                    urdf_rs::JointType::Fixed => TYPES[3],
                    urdf_rs::JointType::Floating => TYPES[4],
                    urdf_rs::JointType::Planar => TYPES[5],
                    urdf_rs::JointType::Spherical => TYPES[6],
                },
                origin: o(&j.origin),
                parent: j.parent.link.clone(),
                child: j.child.link.clone(),
                axis: Some(j.axis.xyz),
                limit: Some((Some(j.limit.lower), Some(j.limit.upper))),
                mimic: j.mimic.as_ref().map(|m| (m.joint.clone(), m.multiplier, m.offset)),
            })
            .collect(),
    }
}
/// Some(reason): must be refused
fn refused(r: &URobot) -> Option<String> {
    for j in &r.joints {
        let (a, b) = j.limit.map(|(a, b)| (a.unwrap_or(0.0), b.unwrap_or(0.0))).unwrap_or((0.0, 0.0));
        if !(a <= b) {
            return Some(format!("limits of {}", j.name));
        }
        if let Some((l, _, _)) = &j.mimic {
            if !r.joints.iter().any(|x| x.name == *l) {
                return Some(format!("{} is coupled to {}, which is not there", j.name, l));
            }
        }
    }
    None
}
/// the content describes exactly one robot
fn well_formed(r: &URobot) -> bool {
    let links: BTreeSet<&String> = r.links.iter().map(|l| &l.name).collect();
    let joints: BTreeSet<&String> = r.joints.iter().map(|l| &l.name).collect();
    let children: BTreeSet<&String> = r.joints.iter().map(|l| &l.child).collect();
    if links.len() != r.links.len() || joints.len() != r.joints.len() || children.len() != r.joints.len() {
        return false;
    }
    if r.links.len() != r.joints.len() + 1 || joints.contains(&"root".to_string()) {
        return false;
    }
    let up: BTreeMap<&String, &String> = r.joints.iter().map(|j| (&j.child, &j.parent)).collect();
    for j in &r.joints {
        if !links.contains(&j.parent) || !links.contains(&j.child) {
            return false;
        }
        let mut c = &j.child;
        let mut n = 0;
        while let Some(p) = up.get(c) {
            c = p;
            n += 1;
            if n > r.joints.len() {
                return false;
            }
        }
        let ok = |x: &[f64]| x.iter().all(|v| v.is_finite() && v.abs() < 1e6);
        if let Some((t, r)) = &j.origin {
            if !ok(t) || !ok(r) {
                return false;
            }
        }
        let a = j.axis.unwrap_or([1., 0., 0.]);
        if !ok(&a) || !(norm(&a) > 1e-6) {
            return false;
        }
        if let Some((a, b)) = j.limit {
            if !ok(&[a.unwrap_or(0.0), b.unwrap_or(0.0)]) {
                return false;
            }
        }
        if let Some((_, a, b)) = &j.mimic {
            if !ok(&[a.unwrap_or(0.0), b.unwrap_or(0.0)]) {
                return false;
            }
        }
    }
    // numbers of the links
    let s = format!("{:?}", r.links);
    !s.contains("NaN") && !s.contains("inf")
}

// ------------------------------------------------------------------ expectation and observation
#[derive(Clone, Debug, PartialEq)]
struct Vis {
    name: String,
    origin: Iso,
    geo: Geo,
    mat: Option<(String, [f64; 4], String)>,
}
#[derive(Clone, Debug, PartialEq)]
struct Lnk {
    name: String,
    mass: f64,
    com: Iso,
    inertia: [f64; 9],
    vis: Vec<Vis>,
    col: Vec<Vis>,
}
#[derive(Clone, Debug)]
struct Jnt {
    name: String,
    kind: char,
    axis: V,
    limits: Option<(f64, f64)>,
    origin: Iso,
    parent: Option<String>,
    leader: Option<String>,
    link: Option<Lnk>,
}
/// what a loaded chain looks like
#[derive(Clone, Debug)]
struct Obs {
    joints: Vec<Jnt>,
    children: BTreeMap<String, Vec<String>>,
    dof: usize,
    poses: Vec<Iso>,
    /// (leader, position, set succeeded, positions of the followers)
    coupled: Vec<(String, f64, bool, BTreeMap<String, f64>)>,
}
fn e_iso(o: &Option<([f64; 3], [f64; 3])>) -> Iso {
    match o {
        None => ID,
        Some((t, r)) => Iso { r: rpy(r), t: *t },
    }
}
fn expect_link(l: &ULink) -> Lnk {
    let (o, m, i) = l.inertial.unwrap_or((None, 0.0, [0.0; 6]));
    let e = |e: &Elem, v: bool| Vis {
        name: e.name.clone().unwrap_or_default(),
        origin: e_iso(&e.origin),
        geo: match &e.geo {
            Geo::Mesh(f, s) => Geo::Mesh(f.clone(), Some(s.unwrap_or([1.0; 3]))),
            g => g.clone(),
        },
        mat: if v {
            let (n, c, t) = e.mat.clone().unwrap_or_default();
            Some((n, c.unwrap_or([0.0; 4]), t.unwrap_or_default()))
        } else {
            None
        },
    };
    Lnk {
        name: l.name.clone(),
        mass: m,
        com: e_iso(&o),
        // column-major and symmetric
        inertia: [i[0], i[1], i[2], i[1], i[3], i[4], i[2], i[4], i[5]],
        vis: l.visuals.iter().map(|x| e(x, true)).collect(),
        col: l.collisions.iter().map(|x| e(x, false)).collect(),
    }
}
fn limits_of(j: &UJoint) -> Option<(f64, f64)> {
    let (a, b) = j.limit.map(|(a, b)| (a.unwrap_or(0.0), b.unwrap_or(0.0))).unwrap_or((0.0, 0.0));
    if a == b {
        None
    } else {
        Some((a, b))
    }
}
fn kind_of(ty: &str) -> char {
    match ty {
        "revolute" | "continuous" => 'r',
        "prismatic" => 'p',
        _ => 'f',
    }
}
/// the expected joints, by name
fn expect(r: &URobot) -> BTreeMap<String, Jnt> {
    let mut m = BTreeMap::new();
    let by_child: BTreeMap<&String, &UJoint> = r.joints.iter().map(|j| (&j.child, j)).collect();
    let root = r.links.iter().find(|l| !by_child.contains_key(&l.name)).expect("a root link");
    m.insert(
        "root".to_string(),
        Jnt {
            name: "root".into(),
            kind: 'f',
            axis: [0.; 3],
            limits: None,
            origin: ID,
            parent: None,
            leader: None,
            link: Some(expect_link(root)),
        },
    );
    for j in &r.joints {
        let kind = kind_of(j.ty);
        m.insert(
            j.name.clone(),
            Jnt {
                name: j.name.clone(),
                kind,
                axis: if kind == 'f' { [0.; 3] } else { unit(&j.axis.unwrap_or([1., 0., 0.])) },
                limits: limits_of(j),
                origin: e_iso(&j.origin),
                parent: Some(by_child.get(&j.parent).map(|p| p.name.clone()).unwrap_or("root".into())),
                leader: j.mimic.as_ref().map(|x| x.0.clone()),
                link: r.links.iter().find(|l| l.name == j.child).map(expect_link),
            },
        );
    }
    m
}
trait Num: na::RealField + simba::scalar::SubsetOf<f64> {
    fn f(&self) -> f64 {
        self.to_superset()
    }
}
impl Num for f32 {}
impl Num for f64 {}
fn iso_of<T: Num>(x: &na::Isometry3<T>) -> Iso {
    let q = x.rotation.quaternion();
    Iso {
        r: quat_to_m(q.coords[0].f(), q.coords[1].f(), q.coords[2].f(), q.coords[3].f()),
        t: [x.translation.vector[0].f(), x.translation.vector[1].f(), x.translation.vector[2].f()],
    }
}
fn geo_of<T: Num>(g: &k::link::Geometry<T>) -> Geo {
    match g {
        k::link::Geometry::Box { depth, width, height } => Geo::Box([depth.f(), width.f(), height.f()]),
        k::link::Geometry::Cylinder { radius, length } => Geo::Cyl(radius.f(), length.f()),
        k::link::Geometry::Capsule { radius, length } => Geo::Cap(radius.f(), length.f()),
        k::link::Geometry::Sphere { radius } => Geo::Sph(radius.f()),
        k::link::Geometry::Mesh { filename, scale } => {
            Geo::Mesh(filename.clone(), Some([scale[0].f(), scale[1].f(), scale[2].f()]))
        }
    }
}
fn jnt_of<T: Num>(n: &Node<T>) -> Jnt {
    let parent = n.parent().map(|p| p.joint().name.clone());
    let leader = n.mimic_parent().map(|p| p.joint().name.clone());
    let link = n.link().as_ref().map(|l| Lnk {
        name: l.name.clone(),
        mass: l.inertial.mass.f(),
        com: iso_of(l.inertial.origin()),
        inertia: {
            let mut a = [0.0; 9];
            for (i, x) in l.inertial.inertia.iter().enumerate() {
                a[i] = x.f();
            }
            a
        },
        vis: l
            .visuals
            .iter()
            .map(|v| Vis {
                name: v.name.clone(),
                origin: iso_of(v.origin()),
                geo: geo_of(&v.geometry),
                mat: Some((
                    v.material.name.clone(),
                    [v.material.color.r.f(), v.material.color.g.f(), v.material.color.b.f(), v.material.color.a.f()],
                    v.material.texture.filename.clone(),
                )),
            })
            .collect(),
        col: l
            .collisions
            .iter()
            .map(|v| Vis { name: v.name.clone(), origin: iso_of(v.origin()), geo: geo_of(&v.geometry), mat: None })
            .collect(),
    });
    let j = n.joint();
    let (kind, axis) = match &j.joint_type {
        k::JointType::Fixed => ('f', [0.; 3]),
        k::JointType::Rotational { axis } => ('r', [axis[0].f(), axis[1].f(), axis[2].f()]),
        k::JointType::Linear { axis } => ('p', [axis[0].f(), axis[1].f(), axis[2].f()]),
    };
    Jnt {
        name: j.name.clone(),
        kind,
        axis,
        limits: j.limits.as_ref().map(|r| (r.min.f(), r.max.f())),
        origin: iso_of(j.origin()),
        parent,
        leader,
        link,
    }
}
/// positions to try for a leader
fn trials(l: &Option<(f64, f64)>) -> [f64; 2] {
    match l {
        Some((a, b)) => [a + 0.31 * (b - a), a + 0.77 * (b - a)],
        None => [0.25, -0.5],
    }
}
fn observe<T: Num>(c: &Chain<T>) -> Obs {
    let joints: Vec<Jnt> = c.iter().map(jnt_of).collect();
    let mut children = BTreeMap::new();
    for n in c.iter() {
        let l: Vec<Node<T>> = n.children().to_vec();
        let names: Vec<String> = l.iter().map(|x| x.joint().name.clone()).collect();
        children.insert(n.joint().name.clone(), names);
    }
    let poses = c.update_transforms().iter().map(iso_of).collect();
    let mut coupled = vec![];
    let nodes: BTreeMap<String, Node<T>> = c.iter().map(|n| (n.joint().name.clone(), n.clone())).collect();
    for j in &joints {
        if j.leader.is_some() || !joints.iter().any(|f| f.leader.as_ref() == Some(&j.name)) {
            continue;
        }
        for v in trials(&j.limits) {
            let ok = nodes[&j.name].set_joint_position(na::convert(v)).is_ok();
            let m = joints
                .iter()
                .filter(|f| f.leader.as_ref() == Some(&j.name))
                .filter_map(|f| nodes[&f.name].joint_position().map(|p| (f.name.clone(), p.f())))
                .collect();
            coupled.push((j.name.clone(), v, ok, m));
        }
    }
    Obs { joints, children, dof: c.dof(), poses, coupled }
}
struct Cmp {
    tol: f64,
}
impl Cmp {
    fn n(&self, a: f64, b: f64) -> bool {
        (a - b).abs() <= self.tol * (1.0 + a.abs().max(b.abs()))
    }
    fn ns(&self, a: &[f64], b: &[f64]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.n(*x, *y))
    }
    fn iso(&self, a: &Iso, b: &Iso) -> bool {
        a.dist(b) <= self.tol * 4.0 * a.scale().max(b.scale())
    }
    fn geo(&self, a: &Geo, b: &Geo) -> bool {
        match (a, b) {
            (Geo::Box(x), Geo::Box(y)) => self.ns(x, y),
            (Geo::Cyl(a, b), Geo::Cyl(c, d)) | (Geo::Cap(a, b), Geo::Cap(c, d)) => self.n(*a, *c) && self.n(*b, *d),
            (Geo::Sph(a), Geo::Sph(b)) => self.n(*a, *b),
            (Geo::Mesh(a, Some(x)), Geo::Mesh(b, Some(y))) => a == b && self.ns(x, y),
            _ => false,
        }
    }
    fn vis(&self, a: &[Vis], b: &[Vis]) -> bool {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| {
                x.name == y.name
                    && self.iso(&x.origin, &y.origin)
                    && self.geo(&x.geo, &y.geo)
                    && match (&x.mat, &y.mat) {
                        (None, None) => true,
                        (Some((n, c, t)), Some((n2, c2, t2))) => n == n2 && self.ns(c, c2) && t == t2,
                        _ => false,
                    }
            })
    }
    fn link(&self, a: &Option<Lnk>, b: &Option<Lnk>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => {
                a.name == b.name
                    && self.n(a.mass, b.mass)
                    && self.iso(&a.com, &b.com)
                    && self.ns(&a.inertia, &b.inertia)
                    && self.vis(&a.vis, &b.vis)
                    && self.vis(&a.col, &b.col)
            }
            _ => false,
        }
    }
    fn limits(&self, a: &Option<(f64, f64)>, b: &Option<(f64, f64)>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => self.n(a.0, b.0) && self.n(a.1, b.1),
            _ => false,
        }
    }
}
/// the loaded chain is the described robot
fn compare(r: &URobot, o: &Obs, f32_: bool, what: &str) -> Res {
    let m = expect(r);
    let c = Cmp { tol: if f32_ { 4e-6 } else { 1e-9 } };
    let names: Vec<&String> = o.joints.iter().map(|j| &j.name).collect();
    let set: BTreeSet<&String> = names.iter().copied().collect();
    if o.joints.is_empty() || o.joints[0].name != "root" {
        return viol("wrong-root", format!("{}: the chain starts with {:?}", what, names.first()));
    }
    let want: BTreeSet<&String> = m.keys().collect();
    if set != want || set.len() != names.len() {
        return viol("wrong-joints", format!("{}: joints {:?}, described are {:?}", what, names, want));
    }
    for (i, j) in o.joints.iter().enumerate() {
        let e = &m[&j.name];
        let bad = |f: &str, a: String, b: String| viol(f, format!("{}: {} {} is {}, described is {}", what, j.name, f, a, b));
        if j.kind != e.kind {
            return bad("wrong-kind", j.kind.to_string(), e.kind.to_string());
        }
        if !c.ns(&j.axis, &e.axis) {
            return bad("wrong-axis", format!("{:?}", j.axis), format!("{:?}", e.axis));
        }
        if !c.limits(&j.limits, &e.limits) {
            return bad("wrong-limits", format!("{:?}", j.limits), format!("{:?}", e.limits));
        }
        if !c.iso(&j.origin, &e.origin) {
            return bad("wrong-origin", format!("{:?}", j.origin), format!("{:?}", e.origin));
        }
        if j.parent != e.parent {
            return bad("wrong-parent", format!("{:?}", j.parent), format!("{:?}", e.parent));
        }
        if let Some(p) = &j.parent {
            if !names[..i].contains(&p) {
                return viol("wrong-order", format!("{}: {} comes before its parent {}: {:?}", what, j.name, p, names));
            }
        }
        if j.leader != e.leader {
            return bad("wrong-coupling", format!("{:?}", j.leader), format!("{:?}", e.leader));
        }
        if !c.link(&j.link, &e.link) {
            return bad("wrong-link", format!("{:?}", j.link), format!("{:?}", e.link));
        }
        let mut k = o.children[&j.name].clone();
        k.sort();
        let mut w: Vec<String> =
            m.values().filter(|x| x.parent.as_ref() == Some(&j.name)).map(|x| x.name.clone()).collect();
        w.sort();
        if k != w {
            return bad("wrong-children", format!("{:?}", k), format!("{:?}", w));
        }
    }
    if o.dof != m.values().filter(|x| x.kind != 'f').count() {
        return viol("wrong-dof", format!("{}: {}", what, o.dof));
    }
    // the poses of the freshly loaded robot: all positions are zero
    let mut world: BTreeMap<&String, Iso> = BTreeMap::new();
    for (j, p) in o.joints.iter().zip(&o.poses) {
        let e = &m[&j.name];
        let w = match &e.parent {
            Some(p) => world[p].mul(&e.origin),
            None => e.origin,
        };
        world.insert(&j.name, w);
        let tol = Cmp { tol: if f32_ { 4e-5 } else { 1e-9 } };
        if !tol.iso(p, &w) {
            return viol("wrong-pose", format!("{}: initial pose of {} is {:?}, described is {:?}", what, j.name, p, w));
        }
    }
    // couplings
    for (l, v, ok, fs) in &o.coupled {
        let mut want_ok = m[l].kind != 'f' && m[l].limits.map(|(a, b)| *v >= a && *v <= b).unwrap_or(true);
        let mut edge = false;
        let mut vals = BTreeMap::new();
        for j in r.joints.iter().filter(|j| matches!(&j.mimic, Some((x, _, _)) if x == l)) {
            let (_, a, b) = j.mimic.clone().unwrap();
            let f = v * a.unwrap_or(1.0) + b.unwrap_or(0.0);
            if kind_of(j.ty) == 'f' {
                want_ok = false;
            }
            if let Some((a, b)) = limits_of(j) {
                let d = 1e-4;
                if (f - a).abs() < d || (f - b).abs() < d {
                    edge = true;
                }
                if f < a || f > b {
                    want_ok = false;
                }
            }
            vals.insert(j.name.clone(), f);
        }
        if edge {
            continue;
        }
        if *ok != want_ok {
            return viol("wrong-coupling", format!("{}: setting {} to {} succeeded: {}, expected {}", what, l, v, ok, want_ok));
        }
        if want_ok {
            for (n, f) in &vals {
                if !c.n(fs[n], *f) {
                    return viol(
                        "wrong-coupling",
                        format!("{}: with {} at {}, {} is at {}, described is {}", what, l, v, n, fs[n], f),
                    );
                }
            }
        }
    }
    Ok(())
}

// ================================================================== simulated files and tools
#[derive(Clone, Debug)]
struct Plan {
    content: Vec<u8>,
    open: Option<io::ErrorKind>,
    /// read error when this many bytes were delivered
    fail_at: Option<usize>,
    /// sizes of the single reads (0: an interrupted call)
    pieces: Vec<usize>,
    /// xacro: per tool, cannot be started / exit status
    tools: [Option<i32>; 2],
}
impl Plan {
    fn plain(content: Vec<u8>) -> Plan {
        Plan { content, open: None, fail_at: None, pieces: vec![], tools: [Some(0), Some(0)] }
    }
}
struct SimFile {
    p: Plan,
    pos: usize,
    n: usize,
}
impl SimRead for SimFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut k = buf.len();
        if !self.p.pieces.is_empty() {
            let s = self.p.pieces[self.n % self.p.pieces.len()];
            self.n += 1;
            if s == 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            k = k.min(s);
        }
        if let Some(f) = self.p.fail_at {
            if self.pos >= f {
                return Err(io::Error::from_raw_os_error(5)); // EIO
            }
            k = k.min(f - self.pos);
        }
        let k = k.min(self.p.content.len() - self.pos);
        buf[..k].copy_from_slice(&self.p.content[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
/// paths are /sim/<key>.urdf or /sim/<key>.xacro
struct Fs {
    plans: BTreeMap<String, Plan>,
    robots: Vec<Vec<u8>>,
}
impl Fs {
    fn plan(&self, path: &str) -> Option<Plan> {
        let k = path.strip_prefix("/sim/")?;
        let k = k.rsplit_once('.').map(|x| x.0).unwrap_or(k);
        if let Some(p) = self.plans.get(k) {
            return Some(p.clone());
        }
        let i: usize = k.strip_prefix('r')?.parse().ok()?;
        self.robots.get(i).map(|c| Plan::plain(c.clone()))
    }
}
impl IoHooks for Fs {
    fn open(&self, path: &Path) -> Option<io::Result<Box<dyn SimRead>>> {
        let s = path.to_string_lossy();
        if !s.starts_with("/sim/") {
            return None;
        }
        Some(match self.plan(&s) {
            None => Err(io::Error::from(io::ErrorKind::NotFound)),
            Some(p) => match p.open {
                Some(k) => Err(io::Error::from(k)),
                None => Ok(Box::new(SimFile { p, pos: 0, n: 0 })),
            },
        })
    }
    fn command(&self, program: &str, args: &[String]) -> io::Result<std::process::Output> {
        use std::os::unix::process::ExitStatusExt;
        let path = args.iter().find(|a| a.starts_with("/sim/")).cloned().unwrap_or_default();
        let p = self.plan(&path);
        let t = if program == "rosrun" { 0 } else { 1 };
        let p = match p {
            None => {
                return Ok(std::process::Output {
                    status: std::process::ExitStatus::from_raw(1 << 8),
                    stdout: vec![],
                    stderr: b"no such file".to_vec(),
                })
            }
            Some(p) => p,
        };
        match p.tools[t] {
            None => Err(io::Error::from(io::ErrorKind::NotFound)),
            Some(st) => Ok(std::process::Output {
                status: std::process::ExitStatus::from_raw(st),
                stdout: p.content.clone(),
                stderr: vec![],
            }),
        }
    }
}

// ================================================================== C12
#[derive(Clone, Debug)]
enum UOp {
    /// robot, 0: from_urdf_file, 1: From<&Robot>, 2: From<Robot>; single precision; xacro
    Load(usize, usize, bool, bool),
    Maps(usize),
    Level(u8),
    /// parts of a robot converted on their own
    Parts(usize),
}
#[derive(Clone, Debug)]
enum UR {
    Obs(Box<Obs>),
    Err(String),
    Maps(BTreeMap<String, String>, BTreeMap<String, String>),
    Parts(Vec<Jnt>),
    Unit,
}
fn load<T: Num>(path: &str, how: usize) -> UR {
    let c: Result<Chain<T>, String> = match how {
        0 => Chain::<T>::from_urdf_file(path).map_err(|e| format!("{}", e)),
        1 => match urdf_rs::utils::read_urdf_or_xacro(path) {
            Ok(r) => Ok(Chain::<T>::from(&r)),
            Err(e) => Err(format!("{}", e)),
        },
        _ => match urdf_rs::utils::read_urdf_or_xacro(path) {
            Ok(r) => Ok(r.into()),
            Err(e) => Err(format!("{}", e)),
        },
    };
    match c {
        Ok(c) => UR::Obs(Box::new(observe(&c))),
        Err(e) => UR::Err(e.chars().take(200).collect()),
    }
}
pub fn c12(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let big = rng.chance(0.05);
    let nr = if big { 1 } else { rng.range(1, 2) };
    let robots: Vec<URobot> = (0..nr).map(|_| random_robot(&mut rng, big)).collect();
    let texts: Vec<String> = robots.iter().map(|r| text(&mut rng, r)).collect();
    ex.setup = format!(
        "{} robots with {:?} joints, texts {:x?}",
        nr,
        robots.iter().map(|r| r.joints.len()).collect::<Vec<_>>(),
        texts.iter().map(|t| fnv(t)).collect::<Vec<_>>()
    );
    if ex.case.verbose {
        for t in &texts {
            ex.setup.push('\n');
            ex.setup.push_str(t);
        }
    }
    let nt = rng.range(1, 4);
    let lists: Vec<Vec<UOp>> = (0..nt)
        .map(|_| {
            (0..rng.range(1, 3))
                .map(|_| {
                    let r = rng.below(nr);
                    match rng.below(12) {
                        0 => UOp::Maps(r),
                        1 => UOp::Level([0, 3, 5][rng.below(3)]),
                        2 => UOp::Parts(r),
                        _ => UOp::Load(r, rng.below(3), rng.chance(0.35), rng.chance(0.15)),
                    }
                })
                .collect()
        })
        .collect();
    let level = [0, 0, 0, 3, 4, 5][rng.below(6)];
    let plan = ex.plan(lists);
    let fs: Arc<Fs> = Arc::new(Fs { plans: BTreeMap::new(), robots: texts.iter().map(|t| t.clone().into_bytes()).collect() });
    crate::sys::set_level(level);
    ex.max_steps = 400_000;
    let h = ex.run_ops(
        plan,
        Some(fs),
        Arc::new(|_, op: &UOp| match op {
            UOp::Load(r, how, single, xacro) => {
                let p = format!("/sim/r{}.{}", r, if *xacro { "xacro" } else { "urdf" });
                if *single {
                    load::<f32>(&p, *how)
                } else {
                    load::<f64>(&p, *how)
                }
            }
            UOp::Maps(r) => {
                let r = urdf_rs::read_file(format!("/sim/r{}.urdf", r)).unwrap();
                UR::Maps(
                    k::urdf::link_to_joint_map(&r).into_iter().collect(),
                    k::urdf::joint_to_link_map(&r).into_iter().collect(),
                )
            }
            UOp::Parts(r) => {
                // joints and links converted one by one
                let r = urdf_rs::read_file(format!("/sim/r{}.urdf", r)).unwrap();
                let mut v = vec![];
                for j in &r.joints {
                    let n: Node<f64> = Node::new(k::Joint::from(j));
                    let l = r.links.iter().find(|l| l.name == j.child.link).cloned();
                    n.set_link(l.map(|l| l.into()));
                    v.push(jnt_of(&n));
                }
                UR::Parts(v)
            }
            UOp::Level(l) => {
                crate::sys::set_level(*l);
                UR::Unit
            }
        }),
    );
    crate::sys::set_level(0);
    let h = h?;
    super::common::no_panics(&h)?;
    let mut order: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut kids: BTreeMap<usize, BTreeMap<String, Vec<String>>> = BTreeMap::new();
    let mut loads = 0;
    for e in &h {
        let what = format!("t{} {:?}", e.tid, e.op);
        match (&e.op, e.res.as_ref().unwrap()) {
            (UOp::Load(..), UR::Err(s)) => return viol("refused", format!("{}: a valid file was refused: {}", what, s)),
            (UOp::Load(r, _, single, _), UR::Obs(o)) => {
                loads += 1;
                compare(&robots[*r], o, *single, &what)?;
                let l: Vec<String> = o.joints.iter().map(|j| j.name.clone()).collect();
                let f = order.entry(*r).or_insert_with(|| l.clone());
                if *f != l {
                    return viol("order-differs", format!("{}: {:?}, another load gave {:?}", what, l, f));
                }
                let f = kids.entry(*r).or_insert_with(|| o.children.clone());
                if *f != o.children {
                    return viol("order-differs", format!("{}: children {:?}, another load gave {:?}", what, o.children, f));
                }
            }
            (UOp::Maps(r), UR::Maps(lj, jl)) => {
                let mut want: BTreeMap<String, String> =
                    robots[*r].joints.iter().map(|j| (j.child.clone(), j.name.clone())).collect();
                for l in &robots[*r].links {
                    want.entry(l.name.clone()).or_insert_with(|| "root".into());
                }
                let back: BTreeMap<String, String> = want.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
                if *lj != want || *jl != back {
                    return viol("wrong-map", format!("{}: {:?} and {:?}, described is {:?}", what, lj, jl, want));
                }
            }
            (UOp::Parts(r), UR::Parts(v)) => {
                let m = expect(&robots[*r]);
                let c = Cmp { tol: 1e-9 };
                for j in v {
                    let e = &m[&j.name];
                    let ok = j.kind == e.kind
                        && c.ns(&j.axis, &e.axis)
                        && c.limits(&j.limits, &e.limits)
                        && c.iso(&j.origin, &e.origin)
                        && c.link(&j.link, &e.link);
                    if !ok {
                        return viol("wrong-part", format!("{}: {:?}, described is {:?}", what, j, e));
                    }
                }
            }
            _ => {}
        }
    }
    // once more in this thread, which has other hash keys
    for (i, t) in texts.iter().enumerate() {
        if let Some(o) = order.get(&i) {
            let r = urdf_rs::read_from_string(t).unwrap();
            let c = Chain::<f64>::from(&r);
            let l: Vec<String> = c.iter().map(|n| n.joint().name.clone()).collect();
            if *o != l {
                return viol("order-differs", format!("a load in another thread gave {:?}, this one {:?}", o, l));
            }
        }
    }
    ex.count("loads", loads);
    ex.nontrivial = loads > 0 && (nt == 1 || ex.preemptions() > 0);
    Ok(())
}

// ================================================================== C13
#[derive(Clone, Debug)]
enum Fault {
    None,
    Missing,
    NoExtension,
    Open(io::ErrorKind),
    ReadError(usize),
    Pieces,
    Damage(&'static str),
    NotText,
    /// tools: rosrun, xacro; per tool None cannot be started, otherwise its wait status
    Tools([Option<i32>; 2]),
}
#[derive(Clone, Debug)]
struct FOp {
    robot: usize,
    fault: Fault,
    xacro: bool,
    single: bool,
    key: String,
}
/// what a load must do
#[derive(Clone, Debug)]
enum Must {
    Same,
    Fail(String),
    Be(Box<URobot>),
    /// no panic, no hang
    Return,
    /// both tools cannot be started: a recorded finding
    BothMissing,
}
fn damage(rng: &mut Rng, t: &str) -> (Vec<u8>, &'static str) {
    let b = t.as_bytes().to_vec();
    let lines: Vec<&str> = t.lines().collect();
    match rng.below(10) {
        0 | 1 => {
            let k = rng.below(b.len());
            (b[..k].to_vec(), "truncated")
        }
        2 => {
            let mut b = b;
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            (b, "bit flips")
        }
        3 => {
            // a lost block
            let i = rng.below(b.len());
            let k = (i + rng.range(1, 64)).min(b.len());
            let mut v = b[..i].to_vec();
            v.extend(&b[k..]);
            (v, "lost bytes")
        }
        4 => {
            let i = rng.below(b.len());
            let k = (i + rng.range(1, 64)).min(b.len());
            let mut v = b;
            v[i..k].iter_mut().for_each(|x| *x = 0);
            (v, "zeroed bytes")
        }
        5 => {
            let mut l = lines.clone();
            l.remove(rng.below(lines.len()));
            (l.join("\n").into_bytes(), "lost line")
        }
        6 => {
            let mut l = lines.clone();
            let i = rng.below(lines.len());
            l.insert(rng.below(lines.len() + 1), lines[i]);
            (l.join("\n").into_bytes(), "repeated line")
        }
        7 => {
            let mut l = lines.clone();
            let (i, k) = (rng.below(lines.len()), rng.below(lines.len()));
            l.swap(i, k);
            (l.join("\n").into_bytes(), "swapped lines")
        }
        _ => {
            // one attribute value replaced
            let q: Vec<usize> = t.match_indices('"').map(|x| x.0).collect();
            if q.len() < 2 {
                return (vec![], "truncated");
            }
            let i = rng.below(q.len() / 2);
            let (a, z) = (q[2 * i] + 1, q[2 * i + 1]);
            let mut v = String::new();
            v += &t[..a];
            v += ["", "nan", "inf", "-inf", "1e999", "0", "-1", "0 0 0", "nobody", "link0", "joint101", "fixed", "prismatic", "NaN 0 0"]
                [rng.below(14)];
            v += &t[z..];
            (v.into_bytes(), "replaced value")
        }
    }
}
/// the requirement on a load of this content
fn require(content: &[u8]) -> Must {
    let s = match std::str::from_utf8(content) {
        Ok(s) => s,
        Err(_) => return Must::Fail("not text".into()),
    };
    // the parser is a dependency, not under test; it must not be the one that panics
    match call(|| urdf_rs::read_from_string(s)) {
        Err(_) => Must::Return,
        Ok(Err(e)) => Must::Fail(format!("{}", e).chars().take(80).collect()),
        Ok(Ok(r)) => {
            let u = of_parsed(&r);
            if let Some(why) = refused(&u) {
                return Must::Fail(why);
            }
            if well_formed(&u) {
                Must::Be(Box::new(u))
            } else {
                Must::Return
            }
        }
    }
}
pub fn c13(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let nr = rng.range(1, 2);
    let robots: Vec<URobot> = (0..nr).map(|_| random_robot(&mut rng, false)).collect();
    let texts: Vec<String> = robots.iter().map(|r| text(&mut rng, r)).collect();
    ex.setup = format!(
        "{} robots with {:?} joints, texts {:x?}",
        nr,
        robots.iter().map(|r| r.joints.len()).collect::<Vec<_>>(),
        texts.iter().map(|t| fnv(t)).collect::<Vec<_>>()
    );
    let nt = rng.range(1, 3);
    let mut plans: BTreeMap<String, Plan> = BTreeMap::new();
    let mut must: BTreeMap<String, Must> = BTreeMap::new();
    let mut lists: Vec<Vec<FOp>> = vec![];
    let mut n = 0;
    for _ in 0..nt {
        let mut l = vec![];
        for _ in 0..rng.range(1, 4) {
            n += 1;
            let key = format!("k{}", n);
            let robot = rng.below(nr);
            let t = &texts[robot];
            let mut p = Plan::plain(t.clone().into_bytes());
            let mut xacro = rng.chance(0.25);
            let mut m = Must::Same;
            let fault = match rng.below(14) {
                0 | 1 => Fault::None,
                2 => {
                    m = Must::Fail("missing file".into());
                    Fault::Missing
                }
                3 if rng.chance(0.3) => {
                    m = Must::Fail("no extension".into());
                    Fault::NoExtension
                }
                3 => {
                    xacro = false;
                    let k = [io::ErrorKind::PermissionDenied, io::ErrorKind::Other, io::ErrorKind::OutOfMemory, io::ErrorKind::Interrupted]
                        [rng.below(4)];
                    p.open = Some(k);
                    m = Must::Fail("open fails".into());
                    Fault::Open(k)
                }
                4 | 5 => {
                    xacro = false;
                    let k = if rng.chance(0.3) { [0, t.len(), t.len() - 1][rng.below(3)] } else { rng.below(t.len() + 1) };
                    p.fail_at = Some(k);
                    if rng.chance(0.3) {
                        p.pieces = vec![rng.range(1, 100), 0];
                    }
                    m = Must::Fail("read error".into());
                    Fault::ReadError(k)
                }
                6 | 7 => {
                    xacro = false;
                    let z = rng.range(1, 4);
                    p.pieces = (0..rng.range(1, 5)).map(|_| if rng.chance(0.3) { 0 } else { rng.range(1, 40 * z * z) }).collect();
                    p.pieces.push(rng.range(20, 700));
                    Fault::Pieces
                }
                8..=11 => {
                    let (c, w) = damage(&mut rng, t);
                    m = require(&c);
                    p.content = c;
                    if rng.chance(0.2) {
                        p.pieces = vec![0, rng.range(10, 300)];
                    }
                    Fault::Damage(w)
                }
                12 => {
                    let i = rng.below(p.content.len());
                    p.content[i] = 0xff;
                    m = Must::Fail("not text".into());
                    Fault::NotText
                }
                _ => {
                    xacro = true;
                    let st = |rng: &mut Rng| [None, Some(0), Some(1 << 8), Some(9), Some(127 << 8)][rng.below(5)];
                    let t = [st(&mut rng), st(&mut rng)];
                    p.tools = t;
                    m = match t {
                        [Some(0), _] | [None, Some(0)] => Must::Same,
                        [Some(_), _] | [None, Some(_)] => Must::Fail("the tool failed".into()),
                        [None, None] => Must::BothMissing,
                    };
                    Fault::Tools(t)
                }
            };
            plans.insert(key.clone(), p);
            must.insert(key.clone(), m);
            l.push(FOp { robot, fault, xacro, single: rng.chance(0.2), key });
        }
        lists.push(l);
    }
    let plan = ex.plan(lists);
    let fs: Arc<Fs> = Arc::new(Fs { plans, robots: texts.iter().map(|t| t.clone().into_bytes()).collect() });
    ex.max_steps = 400_000;
    let h = ex.run_ops(
        plan,
        Some(fs),
        Arc::new(|_, op: &FOp| {
            let p = match op.fault {
                Fault::Missing => format!("/sim/gone.{}", if op.xacro { "xacro" } else { "urdf" }),
                Fault::NoExtension => format!("/sim/{}", op.key),
                _ => format!("/sim/{}.{}", op.key, if op.xacro { "xacro" } else { "urdf" }),
            };
            if let Some(h) = rt::current() {
                h.point(Kind::Callback, 4);
            }
            // ill-formed content gives a chain which is only held here
            let go = |single: bool| -> UR {
                if single {
                    match Chain::<f32>::from_urdf_file(&p) {
                        Ok(c) => UR::Obs(Box::new(observe(&c))),
                        Err(e) => UR::Err(format!("{}", e).chars().take(200).collect()),
                    }
                } else {
                    match Chain::<f64>::from_urdf_file(&p) {
                        Ok(c) => UR::Obs(Box::new(observe(&c))),
                        Err(e) => UR::Err(format!("{}", e).chars().take(200).collect()),
                    }
                }
            };
            go(op.single)
        }),
    )?;
    let mut both = None;
    let mut ok = 0;
    let mut failed = 0;
    for e in &h {
        let what = format!("t{} {:?}", e.tid, e.op);
        let m = &must[&e.op.key];
        let r = match (&e.res, m) {
            (Err(p), Must::BothMissing) if p.msg.contains("failed to execute xacro") => {
                both = Some(format!("{}: panicked at {}: {}", what, p.loc, p.msg));
                continue;
            }
            (Err(p), _) => return panic_viol(&what, p),
            (Ok(r), _) => r,
        };
        match (m, r) {
            (Must::Same, UR::Obs(o)) => {
                ok += 1;
                compare(&robots[e.op.robot], o, e.op.single, &what)?;
            }
            (Must::Same, UR::Err(s)) => {
                return viol("refused", format!("{}: nothing was lost, but loading failed: {}", what, s))
            }
            (Must::Fail(_), UR::Err(_)) | (Must::BothMissing, UR::Err(_)) => failed += 1,
            (Must::Fail(w), UR::Obs(o)) => {
                return viol(
                    "loaded-after-fault",
                    format!("{}: must fail ({}), but gave a chain of {} joints", what, w, o.joints.len()),
                )
            }
            (Must::BothMissing, UR::Obs(_)) => return viol("loaded-after-fault", format!("{}: no tool can be started", what)),
            (Must::Be(u), UR::Obs(o)) => {
                ok += 1;
                compare(u, o, e.op.single, &what)?;
            }
            (Must::Be(_), UR::Err(_)) => failed += 1,
            _ => {}
        }
    }
    for e in &h {
        let n: &str = match &e.op.fault {
            Fault::None => continue,
            Fault::Missing => "missing file",
            Fault::NoExtension => "path without extension",
            Fault::Open(_) => "open error",
            Fault::ReadError(_) => "read error (EIO)",
            Fault::Pieces => "short reads and EINTR",
            Fault::Damage(w) => w,
            Fault::NotText => "invalid UTF-8",
            Fault::Tools(_) => "xacro tool missing, failing or killed",
        };
        ex.fault(n, 1);
    }
    let describable = must.values().filter(|m| matches!(m, Must::Be(_))).count() as u64;
    ex.count("damaged contents that still describe a robot", describable);
    ex.count("successful loads", ok);
    ex.count("failed loads", failed);
    let _ = near;
    ex.nontrivial = ok + failed > 0 && (nt == 1 || ex.preemptions() > 0);
    if let Some(m) = both {
        return viol("panic-without-any-xacro-tool", m);
    }
    Ok(())
}
