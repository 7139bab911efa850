//! The deterministic scheduler.  Simulated threads are real OS threads, but exactly one of
//! them runs at any time; who runs is decided here, at every synchronisation point, by a
//! seeded PRNG (or by a recorded choice list in replay).
use ::std::cell::Cell;
use ::std::collections::HashMap;
use ::std::prelude::v1::*;
use ::std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use ::std::sync::{Arc, Mutex as RMutex, OnceLock as ROnce};
use ::std::thread::Thread;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn fr(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32) ^ 0xA5A5);
    r.next() ^ r.next().rotate_left(17)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Op = 0,
    Lock = 1,
    TryLock = 2,
    Atomic = 3,
    Yield = 4,
    Io = 5,
    Callback = 6,
    Sleep = 7,
    Unlock = 8,
    Wait = 9,
    /// reference counts
    Count = 10,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// switch with probability p at every point, uniformly among the runnable threads
    Random(f64),
    /// random priorities with `d` priority-change points among the first `k` steps (PCT)
    Pct { d: usize, k: u64 },
    /// never preempt except at `n` uniformly placed points
    FewPreempt { n: usize, k: u64 },
    /// Random(p), but one thread is stalled for a window of steps
    Stall { p: f64, victim: usize, from: u64, len: u64 },
    /// switch often at lock points on a pseudo-random subset of the objects only
    Hot { salt: u64, p: f64 },
    /// run the threads one after another
    Serial,
}

pub struct Cfg {
    pub seed: u64,
    pub strategy: Strategy,
    pub replay: Option<Vec<u8>>,
    pub max_steps: u64,
    pub verbose: bool,
    pub io: Option<Arc<dyn IoHooks>>,
}

pub trait IoHooks: Send + Sync {
    /// None: not a simulated path (fall through to the real file system)
    fn open(&self, path: &::std::path::Path) -> Option<::std::io::Result<Box<dyn SimRead>>>;
    fn command(&self, program: &str, args: &[String]) -> ::std::io::Result<::std::process::Output>;
}
pub trait SimRead: Send {
    fn read(&mut self, buf: &mut [u8]) -> ::std::io::Result<usize>;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Blocked(u32),
    Sleeping(u64),
    BlockedUntil(u32, u64),
    Done,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Completed,
    /// per blocked thread: (thread, object, holder)
    Deadlock(Vec<(usize, u32, Option<usize>)>),
    StepLimit,
}

struct State {
    status: Vec<Status>,
    rng: Rng,
    strategy: Strategy,
    prio: Vec<i64>,
    change: Vec<u64>,
    replay: Option<Vec<u8>>,
    choices: Vec<u8>,
    decisions: usize,
    steps: u64,
    max_steps: u64,
    now_us: u64,
    back_us: u64,
    jumps: u64,
    switches: u64,
    preemptions: u64,
    contended: u64,
    blocks: u64,
    per_kind: [u64; 11],
    hash: u64,
    stamp: u64,
    holders: HashMap<u32, usize>,
    next_obj: u32,
    outcome: Option<Outcome>,
    verbose: bool,
    log: Vec<String>,
}

pub const MAX_THREADS: usize = 250;
const JOIN_OBJ: u32 = 0x4000_0000;

struct Slot {
    go: AtomicBool,
    exit: AtomicBool,
    th: ROnce<Thread>,
}

pub struct Rt {
    st: RMutex<State>,
    slots: Vec<Slot>,
    main: Thread,
    main_go: AtomicBool,
    epoch: u64,
    io: Option<Arc<dyn IoHooks>>,
    /// threads started during the run
    extra: RMutex<Vec<(usize, ::std::thread::JoinHandle<()>)>>,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub outcome: Outcome,
    pub choices: Vec<u8>,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub contended: u64,
    pub now_us: u64,
    pub jumps: u64,
    pub per_kind: [u64; 11],
    pub hash: u64,
    pub log: Vec<String>,
}

::std::thread_local! {
    static CTX: Cell<(*const Rt, usize)> = const { Cell::new((::std::ptr::null(), 0)) };
}
static EPOCH: AtomicU64 = AtomicU64::new(1);

#[derive(Clone, Copy)]
pub struct Handle {
    rt: *const Rt,
    pub tid: usize,
}

/// The simulation context of the calling thread, if it is a simulated thread.
#[inline]
pub fn current() -> Option<Handle> {
    match CTX.try_with(|c| c.get()) {
        Ok((p, tid)) if !p.is_null() => Some(Handle { rt: p, tid }),
        _ => None,
    }
}

impl Handle {
    #[inline]
    fn rt(&self) -> &Rt {
        unsafe { &*self.rt }
    }
    /// id of a synchronisation object, numbered per run in order of first use
    pub fn obj_id(&self, cell: &AtomicU64) -> u32 {
        let v = cell.load(SeqCst);
        let e = self.rt().epoch & 0xffff_ffff;
        if v >> 32 == e {
            return v as u32;
        }
        let mut s = self.rt().st.lock().unwrap();
        s.next_obj += 1;
        let id = s.next_obj;
        cell.store(e << 32 | id as u64, SeqCst);
        id
    }
    /// A scheduling point.
    pub fn point(&self, kind: Kind, obj: u32) {
        if ::std::thread::panicking() {
            return;
        }
        let next = {
            let mut s = self.rt().st.lock().unwrap();
            s.step(self.tid, kind, obj);
            if s.steps > s.max_steps {
                s.outcome = Some(Outcome::StepLimit);
                drop(s);
                self.halt();
            }
            s.choose(self.tid, kind, obj, false)
        };
        if next != self.tid {
            self.transfer(next);
        }
    }
    pub fn yield_now(&self) {
        if ::std::thread::panicking() {
            return;
        }
        let next = {
            let mut s = self.rt().st.lock().unwrap();
            s.step(self.tid, Kind::Yield, 0);
            if s.steps > s.max_steps {
                s.outcome = Some(Outcome::StepLimit);
                drop(s);
                self.halt();
            }
            s.choose(self.tid, Kind::Yield, 0, true)
        };
        if next != self.tid {
            self.transfer(next);
        }
    }
    pub fn sleep_us(&self, us: u64) {
        if ::std::thread::panicking() {
            return;
        }
        let next = {
            let mut s = self.rt().st.lock().unwrap();
            s.step(self.tid, Kind::Sleep, 0);
            if s.steps > s.max_steps {
                s.outcome = Some(Outcome::StepLimit);
                drop(s);
                self.halt();
            }
            let t = s.now_us + us.max(1);
            s.status[self.tid] = Status::Sleeping(t);
            match s.pick_blocked(self.tid) {
                Some(n) => n,
                None => unreachable!(),
            }
        };
        if next != self.tid {
            self.transfer(next);
        }
    }
    /// Block on an object until somebody releases it.
    pub fn block(&self, obj: u32) {
        let next = {
            let mut s = self.rt().st.lock().unwrap();
            s.blocks += 1;
            s.contended += 1;
            s.status[self.tid] = Status::Blocked(obj);
            if s.verbose {
                let h = s.holders.get(&obj).copied();
                let l = format!("      t{} blocks on o{} held by {:?}", self.tid, obj, h);
                s.log.push(l);
            }
            match s.pick_blocked(self.tid) {
                Some(n) => n,
                None => {
                    let d = s.deadlock();
                    s.outcome = Some(d);
                    drop(s);
                    self.halt();
                }
            }
        };
        if next != self.tid {
            self.transfer(next);
        }
    }
    /// Block on an object until somebody wakes it or the clock reaches `end`.
    pub fn block_until(&self, obj: u32, end: u64) {
        let next = {
            let mut s = self.rt().st.lock().unwrap();
            s.blocks += 1;
            s.status[self.tid] = Status::BlockedUntil(obj, end);
            match s.pick_blocked(self.tid) {
                Some(n) => n,
                None => unreachable!(),
            }
        };
        if next != self.tid {
            self.transfer(next);
        }
    }
    /// Start another simulated thread in this run.
    pub fn spawn(&self, body: Box<dyn FnOnce() + Send>) -> usize {
        let rt: &'static Rt = unsafe { &*self.rt };
        let tid = {
            let mut s = rt.st.lock().unwrap();
            let tid = s.status.len();
            assert!(tid < MAX_THREADS, "simulator: too many threads");
            s.status.push(Status::Ready);
            let p = s.rng.next() as i64 % 200;
            s.prio.push(p);
            tid
        };
        let j = start(rt, tid, body);
        rt.extra.lock().unwrap().push((tid, j));
        self.point(Kind::Op, 0);
        tid
    }
    pub fn join(&self, tid: usize) {
        let obj = JOIN_OBJ + tid as u32;
        if !::std::thread::panicking() {
            self.point(Kind::Lock, obj);
        }
        while self.rt().st.lock().unwrap().status[tid] != Status::Done {
            self.block(obj);
        }
    }
    pub fn thread_of(&self, tid: usize) -> Thread {
        self.rt().slots[tid].th.get().unwrap().clone()
    }
    pub fn acquired(&self, obj: u32) {
        let mut s = self.rt().st.lock().unwrap();
        s.holders.insert(obj, self.tid);
    }
    pub fn released(&self, obj: u32) {
        let mut s = self.rt().st.lock().unwrap();
        s.holders.remove(&obj);
        s.wake(obj);
    }
    pub fn wake(&self, obj: u32) {
        self.rt().st.lock().unwrap().wake(obj);
    }
    /// strictly increasing global event number
    pub fn stamp(&self) -> u64 {
        let mut s = self.rt().st.lock().unwrap();
        s.stamp += 1;
        s.stamp
    }
    pub fn now_us(&self) -> u64 {
        self.rt().st.lock().unwrap().now_us
    }
    /// what a clock shows: the thread may have been stalled for long before it looks
    pub fn read_clock(&self) -> u64 {
        let mut s = self.rt().st.lock().unwrap();
        let r = s.rng.next();
        if r % 12 == 0 {
            s.now_us += 1u64 << ((r >> 8) % 25);
            s.jumps += 1;
        }
        s.now_us
    }
    /// how far the wall clock has been set back
    pub fn set_back(&self) -> u64 {
        let mut s = self.rt().st.lock().unwrap();
        let r = s.rng.next();
        if r % 24 == 0 {
            s.back_us += 1u64 << ((r >> 8) % 33);
            s.jumps += 1;
        }
        s.back_us
    }
    pub fn verbose(&self) -> bool {
        self.rt().st.lock().unwrap().verbose
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose() {
            let l = f();
            self.rt().st.lock().unwrap().log.push(l);
        }
    }
    /// mix a value into the event-log hash of this run (used for the determinism check)
    pub fn mix(&self, v: u64) {
        let mut s = self.rt().st.lock().unwrap();
        s.hash = mix(s.hash, v);
    }
    pub fn rand(&self) -> u64 {
        self.rt().st.lock().unwrap().rng.next()
    }
    pub fn io(&self) -> Option<Arc<dyn IoHooks>> {
        self.rt().io.clone()
    }

    fn transfer(&self, next: usize) {
        let rt = self.rt();
        rt.slots[next].go.store(true, SeqCst);
        rt.slots[next].th.get().unwrap().unpark();
        self.wait();
    }
    fn wait(&self) {
        let slot = &self.rt().slots[self.tid];
        while !slot.go.swap(false, SeqCst) {
            ::std::thread::park();
        }
    }
    /// End the run abnormally: wake the main thread and stop here for good.
    fn halt(&self) -> ! {
        let rt = self.rt();
        rt.main_go.store(true, SeqCst);
        rt.main.unpark();
        loop {
            ::std::thread::park();
        }
    }
    fn finish(&self) {
        let rt = self.rt();
        let next = {
            let mut s = rt.st.lock().unwrap();
            s.status[self.tid] = Status::Done;
            s.wake(JOIN_OBJ + self.tid as u32);
            if s.status.iter().all(|x| *x == Status::Done) {
                s.outcome = Some(Outcome::Completed);
                None
            } else {
                match s.pick_blocked(self.tid) {
                    Some(n) => Some(n),
                    None => {
                        let d = s.deadlock();
                        s.outcome = Some(d);
                        None
                    }
                }
            }
        };
        match next {
            Some(n) => {
                rt.slots[n].go.store(true, SeqCst);
                rt.slots[n].th.get().unwrap().unpark();
            }
            None => {
                rt.main_go.store(true, SeqCst);
                rt.main.unpark();
            }
        }
    }
}

impl State {
    fn step(&mut self, tid: usize, kind: Kind, obj: u32) {
        self.steps += 1;
        self.now_us += 1;
        self.per_kind[kind as usize] += 1;
        self.hash = mix(self.hash, (tid as u64) << 48 | (kind as u64) << 40 | obj as u64);
        if self.verbose {
            let l = format!("    [{}] t{} {:?} o{}", self.steps, tid, kind, obj);
            self.log.push(l);
        }
        // due sleepers
        let now = self.now_us;
        for st in self.status.iter_mut() {
            if let Status::Sleeping(t) = *st {
                if t <= now {
                    *st = Status::Ready;
                }
            } else if let Status::BlockedUntil(_, t) = *st {
                if t <= now {
                    *st = Status::Ready;
                }
            }
        }
    }
    fn wake(&mut self, obj: u32) {
        for st in self.status.iter_mut() {
            match *st {
                Status::Blocked(o) | Status::BlockedUntil(o, _) if o == obj => *st = Status::Ready,
                _ => {}
            }
        }
    }
    fn deadlock(&self) -> Outcome {
        Outcome::Deadlock(
            self.status
                .iter()
                .enumerate()
                .filter_map(|(i, s)| match s {
                    Status::Blocked(o) => Some((i, *o, self.holders.get(o).copied())),
                    _ => None,
                })
                .collect(),
        )
    }
    /// the calling thread cannot go on: pick another one (advancing the clock if all sleep)
    fn pick_blocked(&mut self, tid: usize) -> Option<usize> {
        loop {
            if self.status.iter().any(|s| *s == Status::Ready) {
                return Some(self.choose(tid, Kind::Wait, 0, true));
            }
            let t = self
                .status
                .iter()
                .filter_map(|s| match s {
                    Status::Sleeping(t) | Status::BlockedUntil(_, t) => Some(*t),
                    _ => None,
                })
                .min()?;
            self.now_us = self.now_us.max(t);
            for st in self.status.iter_mut() {
                match *st {
                    Status::Sleeping(x) | Status::BlockedUntil(_, x) if x <= t => *st = Status::Ready,
                    _ => {}
                }
            }
        }
    }
    fn choose(&mut self, tid: usize, kind: Kind, obj: u32, leave: bool) -> usize {
        let cur_ready = self.status[tid] == Status::Ready;
        let mut runnable = [0u8; MAX_THREADS];
        let mut n = 0;
        for (i, s) in self.status.iter().enumerate() {
            if *s == Status::Ready {
                runnable[n] = i as u8;
                n += 1;
            }
        }
        let r = &runnable[..n];
        if n == 1 {
            let x = r[0] as usize;
            if x != tid {
                self.switches += 1;
            }
            return x;
        }
        let d = self.decisions;
        self.decisions += 1;
        let pick = if let Some(rep) = &self.replay {
            let want = rep.get(d).copied().unwrap_or(255);
            if r.contains(&want) {
                want as usize
            } else if cur_ready && !leave {
                tid
            } else {
                // default: next runnable thread after the current one
                *r.iter().find(|x| **x as usize > tid).unwrap_or(&r[0]) as usize
            }
        } else {
            self.decide(tid, cur_ready && !leave, kind, obj, r)
        };
        self.choices.push(pick as u8);
        if pick != tid {
            self.switches += 1;
            if cur_ready {
                self.preemptions += 1;
            }
        }
        pick
    }
    fn decide(&mut self, tid: usize, can_stay: bool, kind: Kind, obj: u32, r: &[u8]) -> usize {
        let others = |rng: &mut Rng| loop {
            let x = r[rng.below(r.len())] as usize;
            if x != tid || r.len() == 1 {
                return x;
            }
        };
        match self.strategy.clone() {
            Strategy::Random(p) => {
                if can_stay && !self.rng.chance(p) {
                    tid
                } else {
                    others(&mut self.rng)
                }
            }
            Strategy::Pct { .. } => {
                if self.change.contains(&self.steps) || !can_stay && kind == Kind::Yield {
                    let m = self.prio.iter().copied().min().unwrap_or(0);
                    self.prio[tid] = m - 1;
                }
                let prio = &self.prio;
                *r.iter().max_by_key(|x| prio[**x as usize]).unwrap() as usize
            }
            Strategy::FewPreempt { .. } => {
                if can_stay && !self.change.contains(&self.steps) {
                    tid
                } else {
                    others(&mut self.rng)
                }
            }
            Strategy::Stall { p, victim, from, len } => {
                let stalled = self.steps >= from && self.steps < from + len;
                if stalled {
                    let alt: Vec<u8> = r.iter().copied().filter(|x| *x as usize != victim).collect();
                    if alt.is_empty() {
                        return victim;
                    }
                    if can_stay && tid != victim && !self.rng.chance(p) {
                        return tid;
                    }
                    return alt[self.rng.below(alt.len())] as usize;
                }
                if can_stay && !self.rng.chance(p) {
                    tid
                } else {
                    others(&mut self.rng)
                }
            }
            Strategy::Hot { salt, p } => {
                let hot = kind == Kind::Lock && mix(salt, obj as u64) % 4 == 0;
                let q = if hot { p } else { 0.02 };
                if can_stay && !self.rng.chance(q) {
                    tid
                } else {
                    others(&mut self.rng)
                }
            }
            Strategy::Serial => {
                if can_stay {
                    tid
                } else {
                    r[0] as usize
                }
            }
        }
    }
}

pub fn random_strategy(rng: &mut Rng, nthreads: usize) -> Strategy {
    match rng.below(12) {
        0 | 1 => Strategy::Random(0.5),
        2 | 3 => Strategy::Random(0.2),
        4 => Strategy::Random(0.05),
        5 => Strategy::Random(0.9),
        6 | 7 => Strategy::Pct { d: rng.range(1, 4), k: [40, 120, 400, 1200][rng.below(4)] },
        8 => Strategy::FewPreempt { n: rng.range(1, 4), k: [40, 120, 400, 1200][rng.below(4)] },
        9 => Strategy::Stall {
            p: 0.3,
            victim: rng.below(nthreads),
            from: rng.below(150) as u64,
            len: rng.range(20, 400) as u64,
        },
        10 => Strategy::Hot { salt: rng.next(), p: 0.6 },
        _ => Strategy::Random(0.35),
    }
}

/// Start the OS thread of a simulated thread; returns when it waits for its turn.
fn start(rt: &'static Rt, tid: usize, body: Box<dyn FnOnce() + Send>) -> ::std::thread::JoinHandle<()> {
    let up = Arc::new((AtomicBool::new(false), ::std::thread::current()));
    let up2 = up.clone();
    let h = ::std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            let h = Handle { rt, tid };
            let _ = rt.slots[tid].th.set(::std::thread::current());
            CTX.with(|c| c.set((rt, tid)));
            up2.0.store(true, SeqCst);
            up2.1.unpark();
            drop(up2);
            h.wait();
            body();
            CTX.with(|c| c.set((::std::ptr::null(), 0)));
            h.finish();
            while !rt.slots[tid].exit.load(SeqCst) {
                ::std::thread::park();
            }
        })
        .expect("spawn");
    while !up.0.load(SeqCst) {
        ::std::thread::park();
    }
    h
}

/// Run the given thread bodies to completion under the simulated scheduler.
/// On deadlock or step limit the threads are left parked for ever (the caller is a
/// forked worker process that exits afterwards).
pub fn run(cfg: Cfg, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = bodies.len();
    assert!(n > 0 && n < MAX_THREADS);
    let mut rng = Rng::new(cfg.seed);
    let mut prio: Vec<i64> = (0..n as i64).map(|x| x + 100).collect();
    for i in (1..n).rev() {
        let j = rng.below(i + 1);
        prio.swap(i, j);
    }
    let change: Vec<u64> = match cfg.strategy {
        Strategy::Pct { d, k } => (0..d).map(|_| 1 + rng.next() % k).collect(),
        Strategy::FewPreempt { n, k } => (0..n).map(|_| 1 + rng.next() % k).collect(),
        _ => ::std::vec![],
    };
    let first = match &cfg.replay {
        Some(r) => r.first().copied().map(|x| x as usize).filter(|x| *x < n).unwrap_or(0),
        None => match cfg.strategy {
            Strategy::Serial => 0,
            Strategy::Pct { .. } => (0..n).max_by_key(|i| prio[*i]).unwrap(),
            _ => rng.below(n),
        },
    };
    let rt: &'static Rt = Box::leak(Box::new(Rt {
        st: RMutex::new(State {
            status: ::std::vec![Status::Ready; n],
            rng,
            strategy: cfg.strategy,
            prio,
            change,
            replay: cfg.replay,
            choices: ::std::vec![first as u8],
            decisions: 1,
            steps: 0,
            max_steps: cfg.max_steps,
            now_us: 0,
            back_us: 0,
            jumps: 0,
            switches: 0,
            preemptions: 0,
            contended: 0,
            blocks: 0,
            per_kind: [0; 11],
            hash: first as u64,
            stamp: 0,
            holders: HashMap::new(),
            next_obj: 0,
            outcome: None,
            verbose: cfg.verbose,
            log: ::std::vec![],
        }),
        slots: (0..MAX_THREADS)
            .map(|_| Slot { go: AtomicBool::new(false), exit: AtomicBool::new(false), th: ROnce::new() })
            .collect(),
        main: ::std::thread::current(),
        main_go: AtomicBool::new(false),
        epoch: EPOCH.fetch_add(1, SeqCst),
        io: cfg.io,
        extra: RMutex::new(Vec::new()),
    }));
    let mut joins = Vec::new();
    for (tid, body) in bodies.into_iter().enumerate() {
        let h = start(rt, tid, body);
        joins.push((tid, h));
    }
    rt.slots[first].go.store(true, SeqCst);
    rt.slots[first].th.get().unwrap().unpark();
    while !rt.main_go.swap(false, SeqCst) {
        ::std::thread::park();
    }
    let mut s = rt.st.lock().unwrap();
    let outcome = s.outcome.clone().unwrap();
    let rep = Report {
        outcome: outcome.clone(),
        choices: ::std::mem::take(&mut s.choices),
        steps: s.steps,
        decisions: s.decisions as u64,
        switches: s.switches,
        preemptions: s.preemptions,
        contended: s.contended,
        now_us: s.now_us,
        jumps: s.jumps,
        per_kind: s.per_kind,
        hash: s.hash,
        log: ::std::mem::take(&mut s.log),
    };
    drop(s);
    if outcome == Outcome::Completed {
        joins.append(&mut rt.extra.lock().unwrap());
        for (i, j) in joins {
            rt.slots[i].exit.store(true, SeqCst);
            rt.slots[i].th.get().unwrap().unpark();
            let _ = j.join();
        }
        unsafe {
            drop(Box::from_raw(rt as *const Rt as *mut Rt));
        }
    }
    rep
}

/// State of the simulated OS randomness (hash seeds); see `getrandom` in the harness.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
