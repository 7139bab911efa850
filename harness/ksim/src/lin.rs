//! Linearizability of small multi-cell registers (Wing & Gong search with memoisation).
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum What {
    /// assigns the given cells at once
    Write(Vec<(usize, u64)>),
    /// like Write, but may also have had no effect (or never take effect)
    MaybeWrite(Vec<(usize, u64)>),
    /// observed value of a cell
    Read(usize, u64),
}
#[derive(Clone, Debug)]
pub struct LOp {
    pub inv: u64,
    pub ret: u64,
    pub what: What,
    pub name: String,
}
const MAX_OPS: usize = 126;
const MAX_STATES: usize = 100_000;
/// None: linearizable; Some(explanation) otherwise.
pub fn check(init: &[u64], ops: &[LOp]) -> Option<String> {
    let n = ops.len();
    if n > MAX_OPS {
        return None;
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| ops[*i].inv);
    let ops: Vec<LOp> = order.iter().map(|i| ops[*i].clone()).collect();
    let mut seen: HashSet<(u128, Vec<u64>)> = HashSet::new();
    let mut best = (0usize, 0u128);
    fn go(
        ops: &[LOp],
        done: u128,
        st: &mut Vec<u64>,
        seen: &mut HashSet<(u128, Vec<u64>)>,
        best: &mut (usize, u128),
    ) -> bool {
        let n = ops.len();
        if done.count_ones() as usize == n {
            return true;
        }
        if seen.len() > MAX_STATES {
            return true; // given up
        }
        if !seen.insert((done, st.clone())) {
            return false;
        }
        if done.count_ones() as usize >= best.0 {
            *best = (done.count_ones() as usize, done);
        }
        let min_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || ops[i].inv > min_ret {
                continue;
            }
            match &ops[i].what {
                What::Read(c, v) => {
                    if st[*c] == *v && go(ops, done | 1u128 << i, st, seen, best) {
                        return true;
                    }
                }
                What::Write(w) | What::MaybeWrite(w) => {
                    let old = st.clone();
                    for (c, v) in w {
                        st[*c] = *v;
                    }
                    if go(ops, done | 1u128 << i, st, seen, best) {
                        return true;
                    }
                    *st = old;
                    if let What::MaybeWrite(_) = ops[i].what {
                        if go(ops, done | 1u128 << i, st, seen, best) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }
    let mut st = init.to_vec();
    if go(&ops, 0, &mut st, &mut seen, &mut best) {
        return None;
    }
    let rest: Vec<String> = (0..n)
        .filter(|i| best.1 >> i & 1 == 0)
        .map(|i| format!("[{}..{}] {}", ops[i].inv, ops[i].ret, ops[i].name))
        .collect();
    let pre: Vec<String> = (0..n)
        .filter(|i| best.1 >> i & 1 == 1)
        .map(|i| format!("[{}..{}] {}", ops[i].inv, ops[i].ret, ops[i].name))
        .collect();
    Some(format!(
        "no order explains the history; longest explained prefix: {}; not explainable after it: {}",
        pre.join(", "),
        rest.join(", ")
    ))
}
