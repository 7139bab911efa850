//! C15 (attaching and detaching joints), C14 (lifetime of robots).
use super::common::*;
use crate::alloc;
use crate::engine::*;
use crate::math::*;
use crate::spec::*;
use k::{Chain, Node, SerialChain};
use simstd::rt::{self, Kind};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

// ================================================================== C15
#[derive(Clone, Debug)]
enum SOp {
    Attach(usize, usize),
    Detach(usize),
    Parent(usize),
    Children(usize),
    IsRoot(usize),
    IsEnd(usize),
    Ancestors(usize),
    Descendants(usize),
    FromRoot(usize),
    FromEnd(usize),
    Sub(usize, usize),
    Find(usize, usize),
    Serial(usize),
    Update(usize),
    Show(usize),
    Set(usize, f64),
    /// nested listing: the ancestors of every child
    Nested(usize),
}
#[derive(Clone, Debug)]
enum SR {
    Did(Option<usize>),
    /// from, to
    Attached(Option<usize>, usize),
    Node(Option<usize>),
    List(Vec<usize>, usize),
    Bool(bool),
    Unit,
}
struct SW {
    w: W,
    ids: BTreeMap<String, usize>,
    /// the current parent of every node; touched only by the thread which moves the node
    cur: Mutex<Vec<Option<usize>>>,
}
impl SW {
    fn id(&self, n: &Node<f64>) -> usize {
        // nodes are identified by address equality, names are cross-checked
        let i = self.w.nodes.iter().position(|x| x == n).expect("unknown node");
        i
    }
    fn list<'a>(&self, it: impl Iterator<Item = &'a Node<f64>>) -> Vec<usize> {
        it.map(|n| self.id(n)).collect()
    }
    fn chain(&self, c: &Chain<f64>) -> SR {
        SR::List(self.list(c.iter()), c.dof())
    }
    fn apply(&self, op: &SOp) -> SR {
        let n = &self.w.nodes;
        match op {
            SOp::Attach(i, p) => {
                // it may be attached to another joint, or to the same one: then it is moved
                let old = self.cur.lock().unwrap()[*i];
                n[*i].set_parent(&n[*p]);
                self.cur.lock().unwrap()[*i] = Some(*p);
                SR::Attached(old, *p)
            }
            SOp::Detach(i) => {
                let p = self.cur.lock().unwrap()[*i];
                match p {
                    None => SR::Did(None),
                    Some(p) => {
                        n[*i].remove_parent(&n[p]);
                        self.cur.lock().unwrap()[*i] = None;
                        SR::Did(Some(p))
                    }
                }
            }
            SOp::Parent(i) => SR::Node(n[*i].parent().map(|p| self.id(&p))),
            SOp::Children(i) => {
                let c = n[*i].children().clone();
                SR::List(self.list(c.iter()), 0)
            }
            SOp::IsRoot(i) => SR::Bool(n[*i].is_root()),
            SOp::IsEnd(i) => SR::Bool(n[*i].is_end()),
            SOp::Ancestors(i) => SR::List(n[*i].iter_ancestors().map(|x| self.id(&x)).collect(), 0),
            SOp::Descendants(i) => SR::List(n[*i].iter_descendants().map(|x| self.id(&x)).collect(), 0),
            SOp::FromRoot(i) => self.chain(&Chain::from_root(n[*i].clone())),
            SOp::FromEnd(i) => {
                let c = SerialChain::from_end(&n[*i]);
                self.chain(&c)
            }
            SOp::Sub(i, r) => self.chain(&Chain::from_end_to_root(&n[*i], &n[*r])),
            SOp::Find(c, i) => {
                let c = self.w.chains[*c].c();
                SR::Node(c.find(&self.w.spec.nodes[*i].name).map(|n| self.id(n)))
            }
            SOp::Serial(i) => SR::Bool(SerialChain::try_new(Chain::from_root(n[*i].clone())).is_some()),
            SOp::Update(c) => {
                self.w.chains[*c].c().update_transforms();
                SR::Unit
            }
            SOp::Show(c) => {
                let _ = format!("{}", self.w.chains[*c].c());
                SR::Unit
            }
            SOp::Set(i, v) => {
                let _ = n[*i].set_joint_position(*v);
                SR::Unit
            }
            SOp::Nested(i) => {
                let c = n[*i].children().clone();
                for x in &c {
                    let _ = x.iter_ancestors().count();
                    let _ = x.is_end();
                }
                SR::Unit
            }
        }
    }
}
/// `Some(event)` of an attach: (order key low, order key high)
type At = Option<(u64, u64, u64)>;
struct Rel {
    parent: Vec<Vec<Wr<Option<usize>>>>,
    /// (child, parent) -> attaches and detaches
    member: BTreeMap<(usize, usize), Vec<Wr<At>>>,
    init: Vec<Option<usize>>,
}
impl Rel {
    fn parents(&self, i: usize, a: u64, b: u64) -> Vec<Option<usize>> {
        candidates(&self.init[i], &self.parent[i], a, b)
    }
    fn members(&self, i: usize, p: usize, a: u64, b: u64) -> Vec<At> {
        let init: At = if self.init[i] == Some(p) { Some((0, i as u64, i as u64)) } else { None };
        let e = vec![];
        candidates(&init, self.member.get(&(i, p)).unwrap_or(&e), a, b)
    }
    fn may(&self, i: usize, p: usize, a: u64, b: u64) -> bool {
        self.members(i, p, a, b).iter().any(|x| x.is_some())
    }
    fn must(&self, i: usize, p: usize, a: u64, b: u64) -> bool {
        self.members(i, p, a, b).iter().all(|x| x.is_some())
    }
}
fn before(a: &(u64, u64, u64), b: &(u64, u64, u64)) -> bool {
    (a.0, a.2) < (b.0, b.1)
}
fn check_children(rel: &Rel, n: usize, p: usize, l: &[usize], a: u64, b: u64, what: &str) -> Res {
    let set: BTreeSet<usize> = l.iter().copied().collect();
    if set.len() != l.len() {
        return viol("duplicate-child", format!("{}: j{} has the children {:?}", what, p, l));
    }
    for i in 0..n {
        if i == p {
            if set.contains(&i) {
                return viol("wrong-child", format!("{}: j{} is its own child", what, p));
            }
            continue;
        }
        if set.contains(&i) && !rel.may(i, p, a, b) {
            return viol("wrong-child", format!("{}: j{} has the children {:?}, but j{} was not attached to it", what, p, l, i));
        }
        if !set.contains(&i) && rel.must(i, p, a, b) {
            return viol("lost-child", format!("{}: j{} has the children {:?}, j{} is missing", what, p, l, i));
        }
    }
    for x in 0..l.len() {
        for y in x + 1..l.len() {
            let mx = rel.members(l[x], p, a, b);
            let my = rel.members(l[y], p, a, b);
            let wrong = mx.iter().flatten().all(|u| my.iter().flatten().all(|v| before(v, u)));
            if wrong {
                return viol(
                    "child-order",
                    format!("{}: j{} has the children {:?}, but j{} was attached before j{}", what, p, l, l[y], l[x]),
                );
            }
        }
    }
    Ok(())
}
/// a listing of ancestors, nearest first
fn check_up(rel: &Rel, start: usize, stop: Option<usize>, l: &[usize], a: u64, b: u64, what: &str) -> Res {
    if l.first() != Some(&start) {
        return viol("wrong-ancestors", format!("{}: {:?} does not start at j{}", what, l, start));
    }
    for w in l.windows(2) {
        if stop == Some(w[0]) {
            return viol("wrong-ancestors", format!("{}: {:?} goes on after the root", what, l));
        }
        if !rel.parents(w[0], a, b).contains(&Some(w[1])) {
            return viol("wrong-ancestors", format!("{}: {:?}, j{} was never the parent of j{}", what, l, w[1], w[0]));
        }
    }
    let last = *l.last().unwrap();
    if stop != Some(last) && !rel.parents(last, a, b).contains(&None) {
        return viol("wrong-ancestors", format!("{}: {:?} ends at j{}, which always had a parent", what, l, last));
    }
    Ok(())
}
/// a listing of descendants
fn check_down(rel: &Rel, n: usize, start: usize, l: &[usize], a: u64, b: u64, what: &str) -> Res {
    if l.first() != Some(&start) {
        return viol("wrong-descendants", format!("{}: {:?} does not start at j{}", what, l, start));
    }
    for (k, x) in l.iter().enumerate().skip(1) {
        if !l[..k].iter().any(|p| *p != *x && rel.may(*x, *p, a, b)) {
            return viol(
                "wrong-descendants",
                format!("{}: {:?}, none of the joints before j{} was its parent", what, l, x),
            );
        }
    }
    // nodes whose path from the start does not change
    let mut stable: BTreeSet<usize> = [start].into_iter().collect();
    for _ in 0..n {
        for i in 0..n {
            if stable.contains(&i) {
                continue;
            }
            let ps = rel.parents(i, a, b);
            if let [Some(p)] = ps[..] {
                // one parent, by the same attach, for the whole call
                if stable.contains(&p) && rel.must(i, p, a, b) && rel.members(i, p, a, b).len() == 1 {
                    stable.insert(i);
                }
            }
        }
    }
    for s in &stable {
        let c = l.iter().filter(|x| *x == s).count();
        if c != 1 {
            return viol(
                "wrong-descendants",
                format!("{}: {:?} lists j{} {} times, though its path was not altered", what, l, s, c),
            );
        }
    }
    Ok(())
}

/// the printed tree of the joints `set`
fn check_print(fin: &Spec, text: &str, set: &[usize]) -> Res {
    let mut seen: Vec<(usize, usize)> = vec![];
    let bad = |why: &str| viol("final-print", format!("{}; joints {:?}, printed:\n{}", why, set, text));
    for l in text.lines() {
        // the indentation, the name (which may be empty or have spaces in it), the type
        let blanks = l.len() - l.trim_start().len();
        let fits = |name: &str, d: usize| l.get(d..).and_then(|r| r.strip_prefix(name)).is_some_and(|r| r.starts_with(" ["));
        let (i, t, depth) = match (0..fin.nodes.len()).find_map(|i| {
            let name = &fin.nodes[i].name;
            let d = blanks.checked_sub(name.len() - name.trim_start().len() + name.is_empty() as usize)?;
            if fits(name, d) { Some((i, &l[d + name.len()..], d)) } else { None }
        }) {
            Some(x) => x,
            None => return bad("a line without a joint"),
        };
        let name = &fin.nodes[i].name;
        // the type, with the direction of the axis if it is one of the robot's
        let s = &fin.nodes[i];
        let axis = |a: &V| (0..3).find(|k| a[*k].abs() == 1.0).map(|k| format!("{}{}", if a[k] > 0.0 { '+' } else { '-' }, ["X", "Y", "Z"][k])).unwrap_or_default();
        let want = match &s.kind {
            JK::Fixed => "[⚓]".to_string(),
            JK::Rot(a) => format!("[⚙{}]", axis(a)),
            JK::Lin(a) => format!("[↕{}]", axis(a)),
        };
        let link = s.link.as_ref().map(|l| format!("/{}/", l.name));
        if t.split_whitespace().next() != Some(&want) || link.is_some_and(|l| !t.contains(&l)) {
            return bad(&format!("{} is not printed with its type {} and its link", name, want));
        }
        seen.push((i, depth));
    }
    let mut s: Vec<usize> = seen.iter().map(|x| x.0).collect();
    s.sort();
    let mut want = set.to_vec();
    want.sort();
    if s != want {
        return bad("not each joint exactly once");
    }
    for (k, (i, d)) in seen.iter().enumerate().skip(1) {
        // the nearest line above which is less indented
        let up = seen[..k].iter().rev().find(|x| x.1 < *d).map(|x| x.0);
        let parent = fin.nodes[*i].parent;
        // (the parent can be missing in a chain made from a list of joints)
        if parent.is_some_and(|p| set.contains(&p)) && up != parent {
            return bad(&format!("j{} is not printed below its parent", i));
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum MOp {
    Attach(usize, usize),
    Detach(usize, usize),
    Parent(usize),
    Children(usize),
    Down(usize),
}
#[derive(Clone, Debug)]
enum MR {
    Unit,
    One(Option<usize>),
    Many(Vec<usize>),
}
/// Several threads attach and detach the same joints.  Afterwards each hangs below a joint of one of
/// the moves that can have been its last, once and nowhere else.
fn c15_contended(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let _ = rng.next();
    let na = rng.range(2, 4); // joints that the others are attached to; the last one hangs below the first
    let nm = rng.range(1, 3);
    let n = na + nm;
    let nodes: Vec<Node<f64>> = (0..n).map(|i| k::NodeBuilder::new().name(&format!("j{}", i)).into_node()).collect();
    if na > 2 {
        nodes[na - 1].set_parent(&nodes[0]);
    }
    let init: Vec<Option<usize>> =
        (0..n).map(|i| if i == na - 1 && na > 2 { Some(0) } else if i >= na && rng.chance(0.6) { Some(rng.below(na)) } else { None }).collect();
    for i in na..n {
        if let Some(p) = init[i] {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    let leaf = k::NodeBuilder::<f64>::new().name("leaf").into_node();
    leaf.set_parent(&nodes[n - 1]);
    let nt = rng.range(2, 3);
    let detach = [0.0, 0.0, 0.3][rng.below(3)];
    let lists: Vec<Vec<MOp>> = (0..nt)
        .map(|_| {
            (0..rng.range(1, 4))
                .map(|_| {
                    let m = na + rng.below(nm);
                    match rng.below(8) {
                        0 => MOp::Parent(m),
                        1 => MOp::Children(rng.below(na)),
                        2 => MOp::Down(rng.below(na)),
                        _ if rng.chance(detach) => MOp::Detach(m, rng.below(na)),
                        _ => MOp::Attach(m, rng.below(na)),
                    }
                })
                .collect()
        })
        .collect();
    ex.setup = format!("{} joints attached to {} others", nm, na);
    let lists = ex.plan(lists);
    let nodes = Arc::new(nodes);
    let n2 = nodes.clone();
    let id = move |nd: &[Node<f64>], x: &Node<f64>| nd.iter().position(|y| x == y).unwrap_or(99);
    let run = move |_: usize, op: &MOp| -> MR {
        let nd = &n2[..];
        match op {
            MOp::Attach(i, p) => nd[*i].set_parent(&nd[*p]),
            MOp::Detach(i, p) => nd[*i].remove_parent(&nd[*p]),
            MOp::Parent(i) => return MR::One(nd[*i].parent().map(|p| id(nd, &p))),
            MOp::Children(i) => return MR::Many(nd[*i].children().iter().map(|x| id(nd, x)).collect()),
            MOp::Down(i) => return MR::Many(nd[*i].iter_descendants().map(|x| id(nd, &x)).collect()),
        }
        MR::Unit
    };
    let h = ex.run_ops(lists, None, Arc::new(run))?;
    if let Some(e) = h.iter().find(|e| e.res.is_err()) {
        return viol("panic", format!("t{} {:?} panicked: {:?}", e.tid, e.op, e.res));
    }
    // the moves of each joint; one that detaches it from a joint which was not its parent does nothing
    let mut moves: Vec<Vec<(u64, u64, Option<usize>, Option<usize>)>> = init.iter().map(|p| vec![(0, 0, *p, None)]).collect();
    for e in &h {
        match e.op {
            MOp::Attach(i, p) => moves[i].push((e.inv, e.ret, Some(p), None)),
            MOp::Detach(i, p) => moves[i].push((e.inv, e.ret, None, Some(p))),
            _ => {}
        }
    }
    for e in &h {
        if let (MOp::Parent(i), Ok(MR::One(p))) = (&e.op, &e.res) {
            let ok = match p {
                // a move to it began before the read ended and was not followed by another attachment
                Some(x) => moves[*i].iter().any(|m| {
                    m.2 == Some(*x) && m.0 <= e.ret && !moves[*i].iter().any(|d| d.2.is_some() && d.0 > m.1 && d.1 < e.inv)
                }),
                None => init[*i].is_none() || moves[*i].iter().any(|m| m.3.is_some() && m.0 <= e.ret),
            };
            if !ok {
                return viol("wrong-parent", format!("t{} reads the parent {:?} of j{}; moves {:?}", e.tid, p, i, moves[*i]));
            }
        }
    }
    for i in 0..n {
        let p = nodes[i].parent().map(|p| id(&nodes, &p));
        let ms = &moves[i];
        let ok = match p {
            Some(x) => ms.iter().any(|m| {
                m.2 == Some(x) && !ms.iter().any(|d| d.0 > m.1 && (d.2.is_some() || d.3 == Some(x)))
            }),
            None => init[i].is_none() && ms.len() == 1 || ms.iter().any(|m| (m.3.is_some() || m.1 == 0 && m.2.is_none()) && !ms.iter().any(|d| d.0 > m.1 && d.2.is_some())),
        };
        if !ok {
            return viol("final-parent", format!("j{} has the parent {:?}; moves {:?}", i, p, ms));
        }
        for q in 0..n {
            let c = nodes[q].children().iter().filter(|x| **x == nodes[i]).count();
            if c != (p == Some(q)) as usize {
                return viol("final-children", format!("j{} is {} times a child of j{}, its parent is {:?}; moves {:?}", i, c, q, p, ms));
            }
        }
        if nodes[i].is_root() != p.is_none() {
            return viol("final-is-root", format!("j{}: {}", i, nodes[i].is_root()));
        }
    }
    if leaf.parent().as_ref() != Some(&nodes[n - 1]) || nodes[n - 1].children().len() != 1 {
        return viol("final-children", "a joint which was never moved is not where it was".into());
    }
    ex.count("runs which move one joint from several threads", 1);
    ex.nontrivial = ex.preemptions() > 0;
    Ok(())
}

pub fn c15(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    if rng.chance(0.08) {
        return c15_contended(ex);
    }
    let sc = Scale::pick(&mut rng);
    let g = Gen {
        n: sc.n([(2, 5), (4, 9), (6, 12)][rng.below(3)]),
        movable: 0.7,
        limits: 0.2,
        links: 0.2,
        serial: [0.2, 0.5, 0.9][rng.below(3)],
        ..Gen::default()
    };
    let mut spec = Spec::random(&mut rng, &g);
    let n = spec.nodes.len();
    for i in 1..n {
        if rng.chance(0.15) {
            spec.nodes[i].parent = None;
        }
    }
    // unique names, except sometimes: queries by name then give one of them
    let mut w = W::new(spec);
    ex.setup = w.spec.describe();
    w.add_root();
    let k = rng.range(0, 2);
    w.add_some(&mut rng, k);
    let nt = sc.threads(&mut rng, 1, 4);
    let owner: Vec<Option<usize>> =
        (0..n).map(|i| if i > 0 && rng.chance(0.75) { Some(rng.below(nt)) } else { None }).collect();
    let mut cur: Vec<Option<usize>> = w.spec.nodes.iter().map(|x| x.parent).collect();
    let init = cur.clone();
    let mut lists: Vec<Vec<SOp>> = vec![];
    let reattach = [0.0, 0.4][rng.below(2)];
    for t in 0..nt {
        let mine: Vec<usize> = (0..n).filter(|i| owner[*i] == Some(t)).collect();
        let mut l = vec![];
        let movers = !mine.is_empty() && rng.chance(0.85);
        for _ in 0..sc.ops(&mut rng, 1, 9) {
            if movers && rng.chance(0.6) {
                let i = mine[rng.below(mine.len())];
                if cur[i].is_some() && !rng.chance(reattach) {
                    l.push(SOp::Detach(i));
                    cur[i] = None;
                    if rng.chance(0.3) {
                        continue;
                    }
                }
                let p = if rng.chance(0.4) { rng.below(i.min(2)) } else { rng.below(i) };
                l.push(SOp::Attach(i, p));
                cur[i] = Some(p);
                continue;
            }
            let i = rng.below(n);
            let up = if rng.chance(0.5) { n - 1 - rng.below(n.min(3)) } else { i };
            let low = if rng.chance(0.5) { rng.below(n.min(3)) } else { i };
            l.push(match rng.below(20) {
                0 | 1 => SOp::Parent(i),
                2..=4 => SOp::Children(low),
                5 => SOp::IsRoot(i),
                6 => SOp::IsEnd(i),
                7 | 8 => SOp::Ancestors(up),
                9..=11 => SOp::Descendants(low),
                12 => SOp::FromRoot(low),
                13 => SOp::FromEnd(up),
                14 => SOp::Sub(up, rng.below(up + 1)),
                15 => SOp::Find(rng.below(w.chains.len()), i),
                16 => [SOp::Serial(low), SOp::Nested(low)][rng.below(2)].clone(),
                17 => SOp::Update(rng.below(w.chains.len())),
                18 => SOp::Show(rng.below(w.chains.len())),
                _ => SOp::Set(i, 0.01),
            });
        }
        lists.push(l);
    }
    let plan = ex.plan(lists);
    let ids = w.spec.nodes.iter().enumerate().map(|(i, x)| (x.name.clone(), i)).collect();
    let sw = Arc::new(SW { w, ids, cur: Mutex::new(init.clone()) });
    let s2 = sw.clone();
    let h = ex.run_ops(plan, None, Arc::new(move |_, op: &SOp| s2.apply(op)))?;
    no_panics(&h)?;
    let w = &sw.w;
    // relations over time
    let mut rel = Rel { parent: vec![vec![]; n], member: BTreeMap::new(), init: init.clone() };
    let (mut moves, mut again) = (0, 0);
    let mut order: BTreeMap<(usize, usize), (u64, u64, u64)> = BTreeMap::new();
    for (i, p) in init.iter().enumerate() {
        if let Some(p) = p {
            order.insert((i, *p), (0, i as u64, i as u64));
        }
    }
    for e in &h {
        let (from, did) = match e.res.as_ref().unwrap() {
            SR::Did(Some(p)) => (None, *p),
            SR::Attached(old, p) => (*old, *p),
            _ => continue,
        };
        moves += 1;
        match &e.op {
            SOp::Attach(i, p) => {
                let at = (1, e.inv, e.ret);
                if let Some(old) = from {
                    again += 1;
                    rel.member.entry((*i, old)).or_default().push(Wr { inv: e.inv, ret: e.ret, val: None, definite: old != *p });
                    order.remove(&(*i, old));
                }
                rel.parent[*i].push(Wr { inv: e.inv, ret: e.ret, val: Some(*p), definite: true });
                rel.member.entry((*i, *p)).or_default().push(Wr { inv: e.inv, ret: e.ret, val: Some(at), definite: true });
                order.insert((*i, *p), at);
            }
            SOp::Detach(i) => {
                rel.parent[*i].push(Wr { inv: e.inv, ret: e.ret, val: None, definite: true });
                rel.member.entry((*i, did)).or_default().push(Wr { inv: e.inv, ret: e.ret, val: None, definite: true });
                order.remove(&(*i, did));
            }
            _ => {}
        }
    }
    let dof = |l: &[usize]| l.iter().filter(|i| w.spec.movable(**i)).count();
    let mut reads = 0;
    for e in &h {
        let (a, b) = (e.inv, e.ret);
        let what = format!("t{} {:?} during [{},{}]", e.tid, e.op, a, b);
        let r = e.res.as_ref().unwrap();
        reads += 1;
        match (&e.op, r) {
            (SOp::Parent(i), SR::Node(p)) => {
                if !rel.parents(*i, a, b).contains(p) {
                    return viol("wrong-parent", format!("{}: {:?}, possible are {:?}", what, p, rel.parents(*i, a, b)));
                }
            }
            (SOp::Children(p), SR::List(l, _)) => check_children(&rel, n, *p, l, a, b, &what)?,
            (SOp::IsRoot(i), SR::Bool(x)) => {
                if !rel.parents(*i, a, b).iter().any(|p| p.is_none() == *x) {
                    return viol("wrong-is-root", format!("{}: {}", what, x));
                }
            }
            (SOp::IsEnd(p), SR::Bool(x)) => {
                let others = || (0..n).filter(|i| i != p);
                let bad = if *x {
                    others().any(|i| rel.must(i, *p, a, b))
                } else {
                    !others().any(|i| rel.may(i, *p, a, b))
                };
                if bad {
                    return viol("wrong-is-end", format!("{}: {}", what, x));
                }
            }
            (SOp::Ancestors(i), SR::List(l, _)) => check_up(&rel, *i, None, l, a, b, &what)?,
            (SOp::FromEnd(i), SR::List(l, d)) => {
                let mut l = l.clone();
                l.reverse();
                check_up(&rel, *i, None, &l, a, b, &what)?;
                if *d != dof(&l) {
                    return viol("wrong-dof", format!("{}: {} for {:?}", what, d, l));
                }
            }
            (SOp::Sub(i, s), SR::List(l, d)) => {
                let mut l = l.clone();
                l.reverse();
                check_up(&rel, *i, Some(*s), &l, a, b, &what)?;
                if *d != dof(&l) {
                    return viol("wrong-dof", format!("{}: {} for {:?}", what, d, l));
                }
            }
            (SOp::Descendants(i), SR::List(l, _)) => check_down(&rel, n, *i, l, a, b, &what)?,
            (SOp::FromRoot(i), SR::List(l, d)) => {
                check_down(&rel, n, *i, l, a, b, &what)?;
                if *d != dof(l) {
                    return viol("wrong-dof", format!("{}: {} for {:?}", what, d, l));
                }
            }
            (SOp::Find(c, i), SR::Node(x)) => {
                let want = if w.idx[*c].contains(i) { Some(*i) } else { None };
                if *x != want {
                    return viol("wrong-find", format!("{}: {:?}", what, x));
                }
            }
            _ => {}
        }
    }
    // ---------------- the quiet tree
    let cur = sw.cur.lock().unwrap().clone();
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        if let Some(p) = cur[i] {
            kids[p].push(i);
        }
    }
    let t_end = u64::MAX - 1;
    let mut fin = w.spec.clone();
    for i in 0..n {
        fin.nodes[i].parent = cur[i];
        let nd = &w.nodes[i];
        let p = nd.parent().map(|p| sw.id(&p));
        if p != cur[i] {
            return viol("final-parent", format!("j{} has the parent {:?}, its last move was to {:?}", i, p, cur[i]));
        }
        if nd.is_root() != cur[i].is_none() {
            return viol("final-is-root", format!("j{}: {}", i, nd.is_root()));
        }
        let c = sw.list(nd.children().clone().iter());
        let mut cs = c.clone();
        cs.sort();
        if cs != kids[i] {
            return viol("final-children", format!("j{} has the children {:?}, attached are {:?}", i, c, kids[i]));
        }
        check_children(&rel, n, i, &c, t_end, t_end, "at the end")?;
        if nd.is_end() != kids[i].is_empty() {
            return viol("final-is-end", format!("j{}: {}", i, nd.is_end()));
        }
    }
    for i in 0..n {
        let mut path = fin.path(i);
        let c = SerialChain::from_end(&w.nodes[i]);
        let got = sw.list(c.iter());
        if got != path || c.dof() != dof(&path) || c.joint_positions().len() != dof(&path) {
            return viol("final-from-end", format!("chain to j{}: {:?} (dof {}), expected {:?}", i, got, c.dof(), path));
        }
        let c2 = Chain::from_end(&w.nodes[i]);
        if sw.list(c2.iter()) != path {
            return viol("final-from-end", format!("chain to j{}: {:?}, expected {:?}", i, sw.list(c2.iter()), path));
        }
        for (k, r) in path.clone().into_iter().enumerate() {
            let c = SerialChain::from_end_to_root(&w.nodes[i], &w.nodes[r]);
            let got = sw.list(c.iter());
            if got != path[k..] || c.dof() != dof(&path[k..]) {
                return viol("final-sub-chain", format!("chain from j{} to j{}: {:?}, expected {:?}", r, i, got, &path[k..]));
            }
        }
        path.reverse();
        let up: Vec<usize> = w.nodes[i].iter_ancestors().map(|x| sw.id(&x)).collect();
        if up != path {
            return viol("final-ancestors", format!("of j{}: {:?}, expected {:?}", i, up, path));
        }
        // descendants
        let mut sub: Vec<usize> = (0..n).filter(|x| fin.path(*x).contains(&i)).collect();
        sub.sort();
        let down: Vec<usize> = w.nodes[i].iter_descendants().map(|x| sw.id(&x)).collect();
        let chain = Chain::from_root(w.nodes[i].clone());
        for (name, l) in [("iter_descendants", down), ("from_root", sw.list(chain.iter()))] {
            let mut s = l.clone();
            s.sort();
            let bad = s != sub
                || l[0] != i
                || l.iter().enumerate().skip(1).any(|(k, x)| !l[..k].contains(&fin.nodes[*x].parent.unwrap()));
            if bad {
                return viol("final-descendants", format!("{} of j{}: {:?}, expected {:?}", name, i, l, sub));
            }
        }
        if chain.dof() != dof(&sub) || chain.iter_joints().count() != dof(&sub) {
            return viol("final-dof", format!("subtree of j{}: {}, expected {}", i, chain.dof(), dof(&sub)));
        }
        for x in 0..n {
            let f = chain.find(&fin.nodes[x].name).map(|y| sw.id(y));
            let want = if sub.contains(&x) { Some(x) } else { None };
            if f != want {
                return viol("final-find", format!("j{} in the subtree of j{}: {:?}", x, i, f));
            }
        }
        if ["nobody", "", "J1", "j", "J", "j1 ", "1", "*", "a", "A1", "a10", " a", "arm", "arm_", "rm"]
            .iter()
            .any(|x| !fin.nodes.iter().any(|n| n.name == *x) && chain.find(x).is_some())
        {
            return viol("final-find", "an unknown name was found".into());
        }
        // the movable joints and the links in the order of the chain
        for c in [&chain, &c2] {
            let idx = sw.list(c.iter());
            let want: Vec<String> = idx.iter().filter(|x| fin.nodes[**x].kind != JK::Fixed).map(|x| fin.nodes[*x].name.clone()).collect();
            let got: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
            if got != want {
                return viol("final-joints", format!("movable joints of the chain {:?}: {:?}, expected {:?}", idx, got, want));
            }
            let want: Vec<(String, f64)> = idx.iter().filter_map(|x| fin.nodes[*x].link.as_ref().map(|l| (l.name.clone(), l.mass))).collect();
            let got: Vec<(String, f64)> = c.iter_links().map(|l| (l.name.clone(), l.inertial.mass)).collect();
            if got != want {
                return viol("final-links", format!("links of the chain {:?}: {:?}, expected {:?}", idx, got, want));
            }
        }
        // printing: every joint of the chain on a line of its own, below its parent and further in
        for (c, want) in [(&c2, fin.path(i)), (&chain, sub.clone())] {
            check_print(&fin, &c.to_string(), &want)?;
        }
        // forward kinematics over the new tree
        let q: Vec<f64> = w.nodes.iter().map(|x| x.joint_position().unwrap_or(0.0)).collect();
        let world = fin.world(&q);
        let idx = sw.list(chain.iter());
        for (k, t) in chain.update_transforms().iter().enumerate() {
            if !of_na(t).near(&world[idx[k]]) {
                return viol(
                    "final-pose",
                    format!("pose of j{} in the chain from j{}: {:?}, expected {:?}", idx[k], i, of_na(t), world[idx[k]]),
                );
            }
        }
        // a chain of some of them
        let some: Vec<usize> = idx.iter().enumerate().filter(|(k, _)| *k == 0 || rng.chance(0.6)).map(|(_, x)| *x).collect();
        let c3 = Chain::from_nodes(some.iter().map(|x| w.nodes[*x].clone()).collect());
        if sw.list(c3.iter()) != some || c3.dof() != dof(&some) || (0..n).any(|x| c3.find(&fin.nodes[x].name).is_some() != some.contains(&x)) {
            return viol("final-list", format!("chain of {:?}: {:?} with {} degrees of freedom", some, sw.list(c3.iter()), c3.dof()));
        }
        check_print(&fin, &c3.to_string(), &some)?;
        // ... also in another order, with joints before the ones that they hang below
        let mut some = some;
        let mut c3 = c3;
        if rng.chance(0.5) {
            for k in (1..some.len()).rev() {
                some.swap(k, rng.below(k + 1));
            }
            c3 = Chain::from_nodes(some.iter().map(|x| w.nodes[*x].clone()).collect());
            if sw.list(c3.iter()) != some {
                return viol("final-list", format!("chain of {:?}: {:?}", some, sw.list(c3.iter())));
            }
        }
        for (k, t) in c3.update_transforms().iter().enumerate() {
            if !of_na(t).near(&world[some[k]]) {
                return viol("final-pose", format!("pose of j{} in the chain of {:?}: {:?}, expected {:?}", some[k], some, of_na(t), world[some[k]]));
            }
        }
        let serial = sub.iter().all(|x| kids[*x].len() <= 1);
        let t = SerialChain::try_new(chain);
        if t.is_some() != serial {
            return viol("final-serial", format!("try_new of the subtree of j{}: {}, children {:?}", i, t.is_some(), kids));
        }
        if let Some(t) = t {
            if sw.list(t.iter()).len() != sub.len() {
                return viol("final-serial", "try_new changed the chain".into());
            }
        }
    }
    // the chains which were made before the joints moved compute the poses in the tree as it is now
    let q: Vec<f64> = w.nodes.iter().map(|x| x.joint_position().unwrap_or(0.0)).collect();
    let world = fin.world(&q);
    let mut vel: BTreeMap<usize, k::joint::Velocity<f64>> = BTreeMap::new();
    for i in (0..n).filter(|i| fin.nodes[*i].parent.is_none()) {
        let c = Chain::from_root(w.nodes[i].clone());
        let ids = sw.list(c.iter());
        vel.extend(ids.into_iter().zip(c.update_velocities()));
    }
    for (k, c) in w.chains.iter().enumerate() {
        let c = c.c();
        let idx = sw.list(c.iter());
        for x in &idx {
            if rng.chance(0.5) {
                // a chain below it computed it, or nobody did since it changed
                w.nodes[*x].set_joint_position_unchecked(q[*x]);
            }
        }
        let step = rng.below(3);
        let got: Vec<Iso> = match step {
            0 => c.update_transforms().iter().map(of_na).collect(),
            1 => {
                for (x, v) in idx.iter().zip(c.update_velocities()) {
                    let e = &vel[x];
                    if !((v.translation - e.translation).norm() < 1e-9 && (v.rotation - e.rotation).norm() < 1e-9) {
                        return viol("final-velocity", format!("velocity of j{} in chain {} {:?}: {:?}, expected {:?}", x, k, idx, v, e));
                    }
                }
                idx.iter().filter_map(|x| w.nodes[*x].world_transform().map(|t| of_na(&t))).collect()
            }
            _ => {
                c.update_link_transforms();
                idx.iter().filter_map(|x| w.nodes[*x].world_transform().map(|t| of_na(&t))).collect()
            }
        };
        if got.len() != idx.len() {
            return viol("final-pose", format!("{} poses for the {} joints of chain {}", got.len(), idx.len(), k));
        }
        for (x, t) in idx.iter().zip(&got) {
            if !t.near(&world[*x]) {
                return viol("final-pose", format!("pose of j{} in chain {} {:?}, which was made before the moves: {:?}, expected {:?}", x, k, idx, t, world[*x]));
            }
        }
    }
    let _ = &sw.ids;
    ex.count("moves", moves);
    ex.count("moves of attached joints", again);
    ex.count("reads", reads);
    ex.nontrivial = moves > 0 && (nt == 1 || ex.preemptions() > 0);
    Ok(())
}

// ================================================================== C14
/// unique, recognisable allocation sizes for the strings owned by one joint
fn jname(i: usize) -> String {
    let mut s = format!("j{}", i);
    s.push_str(&"x".repeat(alloc::BASE + alloc::STEP * i - s.len()));
    s
}
fn lname(i: usize) -> String {
    let mut s = format!("l{}", i);
    s.push_str(&"x".repeat(alloc::BASE + alloc::STEP * (i + LINK) - s.len()));
    s
}
const LINK: usize = 32;
/// the joint named root of a loaded robot
const UROOT: usize = 24;
fn nid(n: &Node<f64>) -> usize {
    let l = n.joint().name.len();
    if l < alloc::BASE {
        return UROOT;
    }
    (l - alloc::BASE) / alloc::STEP
}
#[derive(Clone, Debug)]
enum LOp {
    Clone(usize),
    Down(usize, usize),
    Up(usize),
    Leader(usize),
    Root(usize),
    End(usize),
    Sub(usize, usize),
    Find(usize, usize),
    Inner(usize, usize),
    TrySerial(usize),
    Drop(usize),
    Use(usize, usize),
    /// panics while holding access to a joint (and a handle)
    Die(usize, usize),
    Load,
    Attach(usize, usize),
    Detach(usize),
}
enum Hd {
    N(Node<f64>),
    C(Chain<f64>),
    S(SerialChain<f64>),
}
struct Han {
    id: usize,
    tree: usize,
    /// directly held nodes
    held: Vec<usize>,
    h: Hd,
}
#[derive(Clone, Debug)]
struct New {
    id: usize,
    tree: usize,
    held: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
struct LR {
    new: Option<New>,
    dropped: Option<usize>,
    /// (tree, node asked for, was it there)
    seen: Option<(usize, usize, bool)>,
    /// a listing which must equal the other
    got: Option<(Vec<usize>, Vec<usize>)>,
    note: Option<String>,
}
#[derive(Clone, Debug)]
struct Tree {
    nodes: BTreeSet<usize>,
    parent: BTreeMap<usize, usize>,
    leader: BTreeMap<usize, usize>,
    links: BTreeSet<usize>,
}
impl Tree {
    fn owned(&self, held: &[usize]) -> BTreeSet<usize> {
        self.nodes
            .iter()
            .copied()
            .filter(|x| {
                let mut c = *x;
                loop {
                    if held.contains(&c) {
                        return true;
                    }
                    match self.parent.get(&c) {
                        Some(p) => c = *p,
                        None => return false,
                    }
                }
            })
            .collect()
    }
    fn sub(&self, nodes: &[usize]) -> Tree {
        let s: BTreeSet<usize> = nodes.iter().copied().collect();
        let keep = |m: &BTreeMap<usize, usize>| {
            m.iter().filter(|(a, b)| s.contains(a) && s.contains(b)).map(|(a, b)| (*a, *b)).collect()
        };
        Tree {
            parent: keep(&self.parent),
            leader: keep(&self.leader),
            links: self.links.intersection(&s).copied().collect(),
            nodes: s,
        }
    }
    fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut c = i;
        while let Some(p) = self.parent.get(&c) {
            v.push(*p);
            c = *p;
        }
        v
    }
}
struct LW {
    spec_lim: Vec<Option<(f64, f64)>>,
    slots: Vec<Mutex<Vec<Option<Han>>>>,
    trees: Mutex<Vec<Tree>>,
    next: std::sync::atomic::AtomicUsize,
    movers: Vec<Mutex<Option<Node<f64>>>>,
    cur: Mutex<Vec<Option<usize>>>,
    urdf: String,
    utree: Tree,
    /// results during the run can be checked (no moves, no poisoned joints)
    strict: bool,
}
fn lw_chain(h: &Hd) -> Option<&Chain<f64>> {
    match h {
        Hd::C(c) => Some(c),
        Hd::S(s) => Some(s),
        Hd::N(_) => None,
    }
}
fn ids(c: &Chain<f64>) -> Vec<usize> {
    c.iter().map(nid).collect()
}
impl LW {
    fn fresh(&self) -> usize {
        self.next.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    }
    /// takes a handle out of its slot for the duration of an operation (private to the thread)
    fn take(&self, t: usize, k: usize) -> Option<(usize, Han)> {
        let mut s = self.slots[t].lock().unwrap();
        let live: Vec<usize> = (0..s.len()).filter(|i| s[*i].is_some()).collect();
        if live.is_empty() {
            return None;
        }
        let i = live[k % live.len()];
        s[i].take().map(|h| (i, h))
    }
    fn put(&self, t: usize, i: usize, h: Han) {
        self.slots[t].lock().unwrap()[i] = Some(h);
    }
    fn add(&self, t: usize, tree: usize, held: Vec<usize>, h: Hd) -> New {
        let id = self.fresh();
        let n = New { id, tree, held: held.clone() };
        self.slots[t].lock().unwrap().push(Some(Han { id, tree, held, h }));
        n
    }
    fn tree(&self, t: usize) -> Tree {
        self.trees.lock().unwrap()[t].clone()
    }
    fn apply(&self, t: usize, op: &LOp) -> LR {
        let mut r = LR::default();
        match op {
            LOp::Load => {
                let robot = urdf_rs::read_from_string(&self.urdf).unwrap();
                let c = Chain::<f64>::from(&robot);
                drop(robot);
                let tree = {
                    let mut ts = self.trees.lock().unwrap();
                    ts.push(self.utree.clone());
                    ts.len() - 1
                };
                let held = ids(&c);
                r.new = Some(self.add(t, tree, held, Hd::C(c)));
                return r;
            }
            LOp::Attach(i, p) => {
                if self.cur.lock().unwrap()[*i].is_none() {
                    let (a, b) = (self.mover(*i), self.mover(*p));
                    a.set_parent(&b);
                    self.cur.lock().unwrap()[*i] = Some(*p);
                }
                return r;
            }
            LOp::Detach(i) => {
                let p = self.cur.lock().unwrap()[*i];
                if let Some(p) = p {
                    let (a, b) = (self.mover(*i), self.mover(p));
                    a.remove_parent(&b);
                    self.cur.lock().unwrap()[*i] = None;
                }
                return r;
            }
            _ => {}
        }
        let k = match op {
            LOp::Clone(k) | LOp::Down(k, _) | LOp::Up(k) | LOp::Leader(k) | LOp::Root(k) | LOp::End(k)
            | LOp::Sub(k, _) | LOp::Find(k, _) | LOp::Inner(k, _) | LOp::TrySerial(k) | LOp::Drop(k)
            | LOp::Use(k, _) | LOp::Die(k, _) => *k,
            _ => unreachable!(),
        };
        let (slot, han) = match self.take(t, k) {
            Some(x) => x,
            None => return r,
        };
        if let LOp::Drop(_) = op {
            r.dropped = Some(han.id);
            drop(han);
            return r;
        }
        if let LOp::TrySerial(_) = op {
            if let Hd::C(c) = han.h {
                let (held, tree, id) = (han.held, han.tree, han.id);
                r.dropped = Some(id);
                if let Some(s) = SerialChain::try_new(c) {
                    r.new = Some(self.add(t, tree, held, Hd::S(s)));
                }
            } else {
                self.put(t, slot, han);
            }
            return r;
        }
        // the handle goes back even if the call panics
        struct Back<'a>(&'a LW, usize, usize, Option<Han>);
        impl Drop for Back<'_> {
            fn drop(&mut self) {
                if let Some(h) = self.3.take() {
                    self.0.put(self.1, self.2, h);
                }
            }
        }
        let back = Back(self, t, slot, Some(han));
        let han = back.3.as_ref().unwrap();
        let tr = self.tree(han.tree);
        let tree = han.tree;
        // a node of the handle
        let node = |x: usize| -> Node<f64> {
            match &han.h {
                Hd::N(n) => n.clone(),
                Hd::C(c) => c.iter().nth(x % han.held.len()).unwrap().clone(),
                Hd::S(c) => c.iter().nth(x % han.held.len()).unwrap().clone(),
            }
        };
        match op {
            LOp::Clone(_) => match &han.h {
                Hd::N(n) => r.new = Some(self.add(t, tree, han.held.clone(), Hd::N(n.clone()))),
                Hd::C(_) | Hd::S(_) if !self.strict => {}
                Hd::C(c) => {
                    if !tr.parent.contains_key(&nid(c.iter().next().unwrap())) {
                        let l = ids(c);
                        let nt = self.tree_sub(&tr, &l);
                        r.new = Some(self.add(t, nt, l, Hd::C(c.clone())));
                    }
                }
                Hd::S(c) => {
                    if !tr.parent.contains_key(&nid(c.iter().next().unwrap())) {
                        let l = ids(c);
                        let nt = self.tree_sub(&tr, &l);
                        r.new = Some(self.add(t, nt, l, Hd::S(c.clone())));
                    }
                }
            },
            LOp::Down(_, x) => {
                let n = node(*x);
                let c = {
                    let g = n.children();
                    if g.is_empty() {
                        None
                    } else {
                        Some(g[x % g.len()].clone())
                    }
                };
                if let Some(c) = c {
                    let i = nid(&c);
                    r.new = Some(self.add(t, tree, vec![i], Hd::N(c)));
                }
            }
            LOp::Up(_) => {
                let n = node(0);
                let i = nid(&n);
                let p = n.parent();
                drop(n);
                if let Some(want) = tr.parent.get(&i) {
                    r.seen = Some((tree, *want, p.is_some()));
                    if let Some(p) = &p {
                        r.got = Some((vec![nid(p)], vec![*want]));
                    }
                }
                if let Some(p) = p {
                    let i = nid(&p);
                    r.new = Some(self.add(t, tree, vec![i], Hd::N(p)));
                }
            }
            LOp::Leader(_) => {
                let n = node(0);
                let i = nid(&n);
                let p = n.mimic_parent();
                drop(n);
                if let Some(want) = tr.leader.get(&i) {
                    r.seen = Some((tree, *want, p.is_some()));
                    if let Some(p) = &p {
                        r.got = Some((vec![nid(p)], vec![*want]));
                    }
                } else if p.is_some() {
                    r.got = Some((vec![nid(p.as_ref().unwrap())], vec![]));
                }
                if let Some(p) = p {
                    let i = nid(&p);
                    r.new = Some(self.add(t, tree, vec![i], Hd::N(p)));
                }
            }
            LOp::Root(_) => {
                let n = node(0);
                let c = Chain::from_root(n.clone());
                let l = ids(&c);
                let mut s = l.clone();
                s.sort();
                let want: Vec<usize> = tr.owned(&[nid(&n)]).into_iter().collect();
                r.got = Some((s, want));
                r.new = Some(self.add(t, tree, l, Hd::C(c)));
            }
            LOp::End(x) => {
                let n = node(*x);
                let i = nid(&n);
                let c = SerialChain::from_end(&n);
                let l = ids(&c);
                r.note = self.prefix(&tr, i, &l);
                r.new = Some(self.add(t, tree, l, Hd::S(c)));
            }
            LOp::Sub(_, x) => {
                let n = node(*x);
                let i = nid(&n);
                if let Some(p) = n.parent() {
                    let c = SerialChain::from_end_to_root(&n, &p);
                    let l = ids(&c);
                    drop(p);
                    r.got = Some((l.clone(), vec![tr.parent.get(&i).copied().unwrap_or(999), i]));
                    r.new = Some(self.add(t, tree, l, Hd::S(c)));
                }
            }
            LOp::Find(_, x) => {
                if let Some(c) = lw_chain(&han.h) {
                    let f = c.find(&jname(*x)).cloned();
                    if f.is_some() != han.held.contains(x) {
                        r.note = Some(format!("find of joint {} in {:?}: {}", x, han.held, f.is_some()));
                    }
                    if let Some(n) = f {
                        r.new = Some(self.add(t, tree, vec![*x], Hd::N(n)));
                    }
                }
            }
            LOp::Inner(_, x) => {
                let n = node(*x);
                let i = nid(&n);
                r.new = Some(self.add(t, tree, vec![i], Hd::N(n)));
            }
            LOp::Use(_, x) => r.note = self.use_(han, &tr, *x, &node),
            LOp::Die(_, x) => {
                let n = node(*x);
                let _copy = n.clone();
                let _g = n.joint();
                if let Some(h) = rt::current() {
                    h.point(Kind::Callback, 3);
                }
                panic!("injected panic");
            }
            _ => {}
        }
        if !self.strict {
            r.note = None;
            r.got = None;
            r.seen = None;
        }
        r
    }
    fn mover(&self, i: usize) -> Node<f64> {
        self.movers[i].lock().unwrap().as_ref().unwrap().clone()
    }
    fn tree_sub(&self, tr: &Tree, l: &[usize]) -> usize {
        let mut ts = self.trees.lock().unwrap();
        ts.push(tr.sub(l));
        ts.len() - 1
    }
    /// a chain up from a node is a part of its path, starting at the node
    fn prefix(&self, tr: &Tree, i: usize, l: &[usize]) -> Option<String> {
        let p = tr.path(i);
        let mut l = l.to_vec();
        l.reverse();
        if l.is_empty() || !p.starts_with(&l) {
            Some(format!("chain up from {}: {:?}, the path is {:?}", i, l, p))
        } else {
            None
        }
    }
    /// the robot below a handle works
    fn use_(&self, han: &Han, tr: &Tree, x: usize, node: &dyn Fn(usize) -> Node<f64>) -> Option<String> {
        let n = node(x);
        let i = nid(&n);
        match x % 7 {
            0 => {
                let mut d: Vec<usize> = n.iter_descendants().map(|n| nid(&n)).collect();
                d.sort();
                let want: Vec<usize> = tr.owned(&[i]).into_iter().collect();
                if self.strict && d != want {
                    return Some(format!("descendants of {}: {:?}, expected {:?}", i, d, want));
                }
            }
            1 => {
                let l: Vec<usize> = n.iter_ancestors().map(|n| nid(&n)).collect();
                if self.strict && !tr.path(i).starts_with(&l) {
                    return Some(format!("ancestors of {}: {:?}, expected {:?}", i, l, tr.path(i)));
                }
            }
            2 => {
                // within or outside the limits: an error must not keep anything
                let _ = n.set_joint_position(if x % 2 == 0 { 0.01 } else { 99.0 });
            }
            3 => {
                let l = n.link().as_ref().map(|l| l.name.len());
                let has = l == Some(alloc::BASE + alloc::STEP * (i + LINK));
                if self.strict && has != tr.links.contains(&i) {
                    return Some(format!("link of {}: {:?}", i, l));
                }
            }
            4 => {
                if let Some(c) = lw_chain(&han.h) {
                    let k = c.update_transforms().len();
                    if k != han.held.len() {
                        return Some(format!("{} poses for {:?}", k, han.held));
                    }
                    c.update_velocities();
                }
            }
            5 => {
                if let Some(c) = lw_chain(&han.h) {
                    let _ = c.set_joint_positions(&vec![0.01; c.dof() + x % 2]);
                    c.update_link_transforms();
                    let _ = k::center_of_mass(c);
                }
                if let Hd::S(c) = &han.h {
                    if c.dof() > 0 {
                        use k::InverseKinematicsSolver;
                        let mut o = c.end_transform();
                        o.translation.vector[0] += 5.0;
                        let s = k::JacobianIkSolver::new(1e-3, 5e-3, 0.5, 1);
                        let _ = s.solve(c, &o);
                    }
                }
            }
            _ => {
                let _ = format!("{}", n).len();
                if let Some(c) = lw_chain(&han.h) {
                    let _ = format!("{}", c).len();
                }
            }
        }
        None
    }
}
/// the expected number of live copies of every joint and link name
fn expected(trees: &[Tree], hs: &[&Han]) -> Vec<i64> {
    let mut c = vec![0i64; alloc::N];
    let mut own: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for h in hs {
        own.entry(h.tree).or_default().extend(trees[h.tree].owned(&h.held));
    }
    for (t, s) in own {
        for i in s {
            if i != UROOT {
                c[i] += 1;
            }
            if trees[t].links.contains(&i) {
                c[i + LINK] += 1;
            }
        }
    }
    c
}
fn compare(base: &[i64], want: &[i64], when: &str) -> Res {
    let live = alloc::live();
    for i in 0..alloc::N {
        let l = live[i] - base[i];
        if l != want[i] {
            let what = if i < LINK { format!("joint {}", i) } else { format!("link of joint {}", i - LINK) };
            if l > want[i] {
                return viol("leak", format!("{}: {} live copies of {}, but only {} have an owner", when, l, what, want[i]));
            }
            return viol("freed-early", format!("{}: {} live copies of {}, but {} have an owner", when, l, what, want[i]));
        }
    }
    Ok(())
}

pub fn c14(ex: &mut Exec) -> Res {
    let mut rng = ex.rng.clone();
    let sc = Scale::pick(&mut rng);
    let mode = rng.below(10); // 0,1: moves; 2: panics; otherwise strict
    let moves = mode < 2;
    let dies = mode == 2;
    let g = Gen {
        n: { let (a, b) = sc.n([(1, 4), (3, 8)][rng.below(2)]); (a.min(UROOT - 4), b.min(UROOT - 4)) },
        movable: 0.8,
        limits: 0.4,
        links: 0.5,
        mimic: [0.0, 0.5][rng.below(2)],
        serial: [0.4, 0.8][rng.below(2)],
        ..Gen::default()
    };
    let mut spec = Spec::random(&mut rng, &g);
    ex.setup = spec.describe();
    let n = spec.nodes.len();
    for (i, s) in spec.nodes.iter_mut().enumerate() {
        s.name = jname(i);
        if let Some(l) = &mut s.link {
            l.name = lname(i);
        }
    }
    // a robot in a file: a root link, a joint with a coupled sibling, one below
    let urdf = {
        let l = |i: usize| format!("<link name=\"{}\"/>", lname(i));
        let j = |i: usize, p: usize, x: &str| {
            format!(
                "<joint name=\"{}\" type=\"revolute\"><parent link=\"{}\"/><child link=\"{}\"/><limit lower=\"-1\" upper=\"1\" effort=\"0\" velocity=\"0\"/>{}</joint>",
                jname(i), lname(p), lname(i), x
            )
        };
        format!(
            "<robot name=\"r\">{}{}{}{}{}{}{}</robot>",
            l(UROOT), l(21), l(22), l(23),
            j(21, UROOT, ""), j(22, UROOT, &format!("<mimic joint=\"{}\"/>", jname(21))), j(23, 22, "")
        )
    };
    let utree = Tree {
        nodes: [21, 22, 23, UROOT].into_iter().collect(),
        parent: [(21, UROOT), (22, UROOT), (23, 22)].into_iter().collect(),
        leader: [(22, 21)].into_iter().collect(),
        links: [21, 22, 23, UROOT].into_iter().collect(),
    };
    let nt = sc.threads(&mut rng, 1, 4);
    // ---------------- operations
    let mut cur: Vec<Option<usize>> = spec.nodes.iter().map(|x| x.parent).collect();
    let owner: Vec<usize> = (0..n).map(|_| rng.below(nt)).collect();
    let mut lists: Vec<Vec<LOp>> = vec![];
    for t in 0..nt {
        let mut l = vec![];
        for _ in 0..sc.ops(&mut rng, 2, 9) {
            let k = rng.below(64);
            let x = rng.below(64);
            if moves && rng.chance(0.5) {
                let mine: Vec<usize> = (1..n).filter(|i| owner[*i] == t).collect();
                if !mine.is_empty() {
                    let i = mine[rng.below(mine.len())];
                    if cur[i].is_some() {
                        l.push(LOp::Detach(i));
                        cur[i] = None;
                    }
                    if rng.chance(0.7) {
                        let p = rng.below(i);
                        l.push(LOp::Attach(i, p));
                        cur[i] = Some(p);
                    }
                    continue;
                }
            }
            if dies && rng.chance(0.15) {
                l.push(LOp::Die(k, x));
                continue;
            }
            l.push(if moves {
                match rng.below(4) {
                    0 => LOp::Clone(k),
                    1 => LOp::Drop(k),
                    2 => LOp::Use(k, x),
                    _ => LOp::Leader(k),
                }
            } else {
                match rng.below(26) {
                    0..=2 => LOp::Clone(k),
                    3 | 4 => LOp::Down(k, x),
                    5..=7 => LOp::Up(k),
                    8 | 9 => LOp::Leader(k),
                    10 => LOp::Root(k),
                    11 => LOp::End(k),
                    12 => LOp::Sub(k, x),
                    13 => LOp::Find(k, rng.below(n)),
                    14 => LOp::Inner(k, x),
                    15 => LOp::TrySerial(k),
                    16..=19 => LOp::Drop(k),
                    20 if !dies => LOp::Load,
                    _ => LOp::Use(k, x),
                }
            });
        }
        lists.push(l);
    }
    let plan = ex.plan(lists);
    // ---------------- the first handles
    let base = alloc::live();
    let circular = rng.chance(0.1);
    let lw = {
        let nodes = spec.build();
        let mut leader: BTreeMap<usize, usize> = BTreeMap::new();
        for i in 0..n {
            if let Some((l, _, _)) = spec.nodes[i].mimic {
                leader.insert(i, l);
            }
        }
        if circular && n > 1 {
            // couplings in a circle, or of a joint to itself, do not keep anything alive either
            let m = rng.range(1, n.min(3));
            for i in 0..m {
                let l = (i + 1) % m;
                nodes[i].set_mimic_parent(&nodes[l], k::joint::Mimic::new(0.5, 0.0));
                leader.insert(i, l);
            }
        }
        let tree = Tree {
            nodes: (0..n).collect(),
            parent: (0..n).filter_map(|i| spec.nodes[i].parent.map(|p| (i, p))).collect(),
            leader,
            links: (0..n).filter(|i| spec.nodes[*i].link.is_some()).collect(),
        };
        let lw = LW {
            spec_lim: spec.nodes.iter().map(|x| x.limits).collect(),
            slots: (0..nt).map(|_| Mutex::new(vec![])).collect(),
            trees: Mutex::new(vec![tree.clone()]),
            next: std::sync::atomic::AtomicUsize::new(0),
            movers: (0..n).map(|i| Mutex::new(if moves { Some(nodes[i].clone()) } else { None })).collect(),
            cur: Mutex::new(spec.nodes.iter().map(|x| x.parent).collect()),
            urdf,
            utree,
            strict: !moves && !dies,
        };
        for t in 0..nt {
            for _ in 0..rng.range(1, 2) {
                let i = if rng.chance(0.4) { 0 } else { rng.below(n) };
                match rng.below(if moves { 1 } else { 4 }) {
                    0 => {
                        lw.add(t, 0, vec![i], Hd::N(nodes[i].clone()));
                    }
                    1 => {
                        let c = Chain::from_root(nodes[i].clone());
                        lw.add(t, 0, ids(&c), Hd::C(c));
                    }
                    2 => {
                        let c = SerialChain::from_end(&nodes[i]);
                        lw.add(t, 0, ids(&c), Hd::S(c));
                    }
                    _ => {
                        let p = spec.path(i);
                        let c = SerialChain::from_end_to_root(&nodes[i], &nodes[p[rng.below(p.len())]]);
                        lw.add(t, 0, ids(&c), Hd::S(c));
                    }
                }
            }
        }
        lw
    };
    let _ = &lw.spec_lim;
    // every handle: (created, dropped, tree, held)
    struct Life {
        from: u64,
        from_ret: u64,
        to: u64,
        to_ret: u64,
        tree: usize,
        held: Vec<usize>,
    }
    let mut life: BTreeMap<usize, Life> = BTreeMap::new();
    for s in &lw.slots {
        for h in s.lock().unwrap().iter().flatten() {
            life.insert(
                h.id,
                Life { from: 0, from_ret: 0, to: u64::MAX, to_ret: u64::MAX, tree: h.tree, held: h.held.clone() },
            );
        }
    }
    if !moves {
        let s0 = lw.slots.iter().map(|s| s.lock().unwrap()).collect::<Vec<_>>();
        let hs: Vec<&Han> = s0.iter().flat_map(|s| s.iter().flatten()).collect();
        compare(&base, &expected(&lw.trees.lock().unwrap(), &hs), "before the run")?;
    }
    let lw = Arc::new(lw);
    let l2 = lw.clone();
    let h = ex.run_ops(plan, None, Arc::new(move |t, op: &LOp| l2.apply(t, op)))?;
    let lw = Arc::try_unwrap(lw).map_err(|_| Violation { class: "harness".into(), msg: "world still shared".into() })?;
    if !dies {
        no_panics(&h)?;
    }
    let mut died = 0;
    let mut drops = 0;
    for e in &h {
        match &e.res {
            Ok(r) => {
                if let Some(x) = &r.new {
                    life.insert(
                        x.id,
                        Life { from: e.inv, from_ret: e.ret, to: u64::MAX, to_ret: u64::MAX, tree: x.tree, held: x.held.clone() },
                    );
                }
                if let Some(s) = &r.note {
                    return viol("unusable", format!("t{} {:?}: {}", e.tid, e.op, s));
                }
                if let Some((a, b)) = &r.got {
                    if a != b {
                        return viol("wrong-relation", format!("t{} {:?}: {:?}, expected {:?}", e.tid, e.op, a, b));
                    }
                }
            }
            Err(_) => died += 1,
        }
    }
    for e in &h {
        if let Ok(r) = &e.res {
            if let Some(d) = r.dropped {
                drops += 1;
                let l = life.get_mut(&d).unwrap();
                l.to = e.inv;
                l.to_ret = e.ret;
            }
        }
    }
    let trees = lw.trees.lock().unwrap().clone();
    // a handle obtained from a weak reference
    if lw.strict {
        for e in &h {
            if let Ok(LR { seen: Some((t, i, there)), .. }) = &e.res {
                let own: Vec<&Life> =
                    life.values().filter(|l| l.tree == *t && trees[*t].owned(&l.held).contains(i)).collect();
                if !there && own.iter().any(|l| l.from_ret <= e.inv && l.to >= e.ret) {
                    return viol(
                        "relation-lost",
                        format!("t{} {:?}: the related joint {} reads as none, though it is held", e.tid, e.op, i),
                    );
                }
                if *there {
                    // it is gone if no handle and no call can have held it at the start of the call
                    let me = life.values().find(|l| l.from == e.inv && l.from_ret == e.ret);
                    let mut gone = true;
                    let mut end = 0;
                    for l in own.iter().filter(|l| !me.map(|m| std::ptr::eq(m, **l)).unwrap_or(false)) {
                        if l.from < e.ret {
                            end = end.max(l.to_ret);
                        }
                    }
                    loop {
                        let m = h.iter().filter(|x| x.tid != e.tid && x.inv <= end && x.ret > end).map(|x| x.ret).max();
                        match m {
                            Some(x) => end = x,
                            None => break,
                        }
                    }
                    if end >= e.inv {
                        gone = false;
                    }
                    if gone {
                        return viol(
                            "relation-of-the-dead",
                            format!("t{} {:?}: the related joint {} is there, though nobody held it", e.tid, e.op, i),
                        );
                    }
                }
            }
        }
    }
    drop(h);
    // ---------------- quiet: what is left, then drop it one by one
    let LW { slots, movers, cur, .. } = lw;
    let mut trees = trees;
    if moves {
        let cur = cur.into_inner().unwrap();
        trees[0].parent = (0..n).filter_map(|i| cur[i].map(|p| (i, p))).collect();
    }
    let mut left: Vec<Han> = slots.into_iter().flat_map(|s| s.into_inner().unwrap()).flatten().collect();
    let mut id = 1_000_000;
    for (i, m) in movers.into_iter().enumerate() {
        if let Some(m) = m.into_inner().unwrap() {
            id += 1;
            left.push(Han { id, tree: 0, held: vec![i], h: Hd::N(m) });
        }
    }
    let mut first = true;
    let mut extra = 0;
    loop {
        let hs: Vec<&Han> = left.iter().collect();
        let want = expected(&trees, &hs);
        compare(&base, &want, if first { "after the run" } else { "after dropping a handle" })?;
        if left.is_empty() {
            break;
        }
        if !dies {
            // relations of what is left
            for a in &left {
                let tr = &trees[a.tree];
                let own: BTreeSet<usize> =
                    left.iter().filter(|b| b.tree == a.tree).flat_map(|b| tr.owned(&b.held)).collect();
                let nodes: Vec<Node<f64>> = match &a.h {
                    Hd::N(n) => vec![n.clone()],
                    Hd::C(c) => c.iter().cloned().collect(),
                    Hd::S(c) => c.iter().cloned().collect(),
                };
                for (x, i) in nodes.iter().zip(&a.held) {
                    if nid(x) != *i {
                        return viol("wrong-relation", format!("joint {} of a chain is {}", i, nid(x)));
                    }
                    let alive = |m: &BTreeMap<usize, usize>| m.get(i).copied().filter(|p| own.contains(p));
                    let p = x.parent().map(|p| nid(&p));
                    if p != alive(&tr.parent) {
                        return viol("wrong-relation", format!("parent of {}: {:?}, expected {:?}", i, p, alive(&tr.parent)));
                    }
                    if x.is_root() != p.is_none() {
                        return viol("wrong-relation", format!("joint {}: is_root() is {}, its parent is {:?}", i, x.is_root(), p));
                    }
                    let p = x.mimic_parent().map(|p| nid(&p));
                    if p != alive(&tr.leader) {
                        return viol("wrong-relation", format!("leader of {}: {:?}, expected {:?}", i, p, alive(&tr.leader)));
                    }
                    // a joint whose leader is gone follows nobody, others do not move by themselves
                    if p.is_some() || tr.leader.contains_key(i) {
                        let q = x.joint_position().unwrap_or(0.0);
                        let limits = x.joint().limits.clone();
                        let to = if q > 0.1 { q - 0.003 } else { q + 0.003 };
                        if x.joint().is_movable() && limits.map_or(true, |l| l.is_valid(to)) {
                            let r = x.set_joint_position(to);
                            let now = x.joint_position().unwrap_or(0.0);
                            let expected = if p.is_some() { q } else { to };
                            if now != expected && (p.is_some() || r.is_ok()) {
                                return viol("wrong-relation", format!("joint {} with leader {:?} set from {} to {}: at {}", i, p, q, to, now));
                            }
                        }
                    }
                    let mut d: Vec<usize> = x.iter_descendants().map(|n| nid(&n)).collect();
                    d.sort();
                    let w: Vec<usize> = tr.owned(&[*i]).into_iter().collect();
                    if d != w {
                        return viol("wrong-relation", format!("descendants of {}: {:?}, expected {:?}", i, d, w));
                    }
                    if x.link().is_some() != tr.links.contains(i) {
                        return viol("wrong-relation", format!("link of {}", i));
                    }
                }
            }
        }
        first = false;
        // sometimes derive another handle first
        if extra < 4 && !dies && rng.chance(0.3) {
            extra += 1;
            let a = &left[rng.below(left.len())];
            let (t, i) = (a.tree, a.held[0]);
            let x = match &a.h {
                Hd::N(n) => n.clone(),
                Hd::C(c) => c.iter().next().unwrap().clone(),
                Hd::S(c) => c.iter().next().unwrap().clone(),
            };
            {
                id += 1;
                match rng.below(3) {
                    0 => {
                        let c = Chain::from_root(x);
                        left.push(Han { id, tree: t, held: ids(&c), h: Hd::C(c) });
                    }
                    1 if x.is_root() => {
                        let c = Chain::from_root(x).clone();
                        let l = ids(&c);
                        let s = trees[t].sub(&l);
                        trees.push(s);
                        left.push(Han { id, tree: trees.len() - 1, held: l, h: Hd::C(c) });
                    }
                    _ => left.push(Han { id, tree: t, held: vec![i], h: Hd::N(x) }),
                }
                continue;
            }
        }
        let i = rng.below(left.len());
        left.swap_remove(i);
    }
    ex.count("handles dropped by threads", drops);
    ex.fault("thread panic", died);
    ex.nontrivial = nt == 1 || ex.preemptions() > 0;
    Ok(())
}
