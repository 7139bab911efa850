//! Cases, runs, the forked exploration loop, minimisation, replay files and evidence.
use simstd::rt::{self, mix, Cfg, Handle, IoHooks, Kind, Outcome, Report, Rng, Strategy};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

// ------------------------------------------------------------------ panics
#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub loc: String,
}
thread_local! { static LAST: RefCell<Option<Panic>> = const { RefCell::new(None) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = Some(Panic { msg, loc }));
    }));
}
/// Runs `f`, turning a panic into an error.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST
            .with(|l| l.borrow_mut().take())
            .unwrap_or(Panic { msg: "?".into(), loc: "?".into() })),
    }
}

// ------------------------------------------------------------------ cases and violations
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol<T>(class: &str, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg })
}
pub fn panic_viol<T>(what: &str, p: &Panic) -> Result<T, Violation> {
    let short: String = p.msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    viol(&format!("panic({})", short), format!("{} panicked at {}: {}", what, p.loc, p.msg))
}

#[derive(Clone, Debug)]
pub struct Case {
    pub prop: &'static str,
    pub seed: u64,
    pub sched: u64,
    pub keep: Option<Vec<Vec<bool>>>,
    pub choices: Option<Vec<u8>>,
    pub verbose: bool,
    pub hash_results: bool,
    /// runs to execute before this one in the same process (only if k keeps state between runs):
    /// their VERIF_SEED and indices
    pub before: (u64, Vec<u64>),
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
}
pub struct Exec {
    pub case: Case,
    /// workload generator (never used for scheduling)
    pub rng: Rng,
    pub shape: Vec<usize>,
    pub desc: Vec<Vec<String>>,
    pub setup: String,
    pub report: Option<Report>,
    pub stats: Stats,
    pub nontrivial: bool,
    pub max_steps: u64,
    pub serial_only: bool,
    pub partial: String,
}
impl Exec {
    pub fn new(case: Case) -> Exec {
        let rng = Rng::new(mix(case.seed, 1));
        Exec {
            case,
            rng,
            shape: vec![],
            desc: vec![],
            setup: String::new(),
            report: None,
            stats: Stats::default(),
            nontrivial: false,
            max_steps: 60_000,
            serial_only: false,
            partial: String::new(),
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.counts.entry(k.into()).or_default() += n;
        }
    }
    pub fn fault(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.faults.entry(k.into()).or_default() += n;
        }
    }
    /// Registers the operation lists (one per thread; a trailing list may hold faults) and
    /// applies the minimiser's mask.
    pub fn plan<O: Clone + Debug>(&mut self, lists: Vec<Vec<O>>) -> Vec<Vec<(usize, O)>> {
        let base = self.shape.len();
        let mut out = vec![];
        for (t, l) in lists.into_iter().enumerate() {
            self.shape.push(l.len());
            self.desc.push(l.iter().map(|o| format!("{:?}", o)).collect());
            let keep = self.case.keep.as_ref().and_then(|k| k.get(base + t)).cloned();
            out.push(
                l.into_iter()
                    .enumerate()
                    .filter(|(i, _)| keep.as_ref().map(|k| k.get(*i).copied().unwrap_or(true)).unwrap_or(true))
                    .collect(),
            );
        }
        out
    }
    pub fn sim(
        &mut self,
        io: Option<Arc<dyn IoHooks>>,
        bodies: Vec<Box<dyn FnOnce() + Send>>,
    ) -> Result<(), Violation> {
        let mut srng = Rng::new(mix(self.case.sched, 2));
        let strategy = if self.serial_only {
            Strategy::Serial
        } else {
            rt::random_strategy(&mut srng, bodies.len())
        };
        let rep = rt::run(
            Cfg {
                seed: mix(self.case.sched, 3),
                strategy,
                replay: self.case.choices.clone(),
                max_steps: self.max_steps,
                verbose: self.case.verbose,
                io,
            },
            bodies,
        );
        let out = rep.outcome.clone();
        self.report = Some(rep);
        match out {
            Outcome::Completed => Ok(()),
            Outcome::Deadlock(b) => viol(
                "deadlock",
                format!(
                    "no thread can make progress: {}",
                    b.iter()
                        .map(|(t, o, h)| format!(
                            "thread {} waits for lock {} held by {}",
                            t,
                            o,
                            h.map(|x| format!("thread {}", x)).unwrap_or("nobody".into())
                        ))
                        .collect::<Vec<_>>()
                        .join(", ")
                ),
            ),
            Outcome::StepLimit => viol(
                "no-progress",
                format!("the run did not finish within {} scheduling points", self.max_steps),
            ),
        }
    }
    /// Runs one operation list per simulated thread; returns the history in return order.
    pub fn run_ops<O, R>(
        &mut self,
        lists: Vec<Vec<(usize, O)>>,
        io: Option<Arc<dyn IoHooks>>,
        f: Arc<dyn Fn(usize, &O) -> R + Send + Sync>,
    ) -> Result<Vec<Ev<O, R>>, Violation>
    where
        O: Clone + Debug + Send + 'static,
        R: Debug + Send + 'static,
    {
        let hist: Arc<Mutex<Vec<Ev<O, R>>>> = Arc::new(Mutex::new(vec![]));
        let started: Arc<Mutex<BTreeMap<usize, String>>> = Arc::new(Mutex::new(BTreeMap::new()));
        let hash = self.case.hash_results;
        let bodies: Vec<Box<dyn FnOnce() + Send>> = lists
            .into_iter()
            .enumerate()
            .map(|(tid, ops)| {
                let hist = hist.clone();
                let started = started.clone();
                let f = f.clone();
                Box::new(move || {
                    let h = rt::current().unwrap();
                    for (idx, op) in ops {
                        h.point(Kind::Op, 0);
                        let inv = h.stamp();
                        h.note(|| format!("  t{} op{} {:?}", tid, idx, op));
                        started.lock().unwrap().insert(tid, format!("{:?}", op));
                        let res = call(|| f(tid, &op));
                        let ret = h.stamp();
                        h.note(|| {
                            let mut s = format!("{:?}", res);
                            s.truncate(400);
                            format!("  t{} op{} => {}", tid, idx, s)
                        });
                        if hash {
                            h.mix(fnv(&format!("{:?}", res)));
                        }
                        started.lock().unwrap().remove(&tid);
                        hist.lock().unwrap().push(Ev { tid, idx, op, inv, ret, res });
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        match self.sim(io, bodies) {
            Ok(()) => Ok(std::mem::take(&mut *hist.lock().unwrap())),
            Err(mut v) => {
                let s = started.lock().unwrap();
                v.msg.push_str(&format!(
                    "; calls that never returned: {}",
                    s.iter().map(|(t, o)| format!("t{} {}", t, o)).collect::<Vec<_>>().join(", ")
                ));
                // after an earlier panic the hang is usually its consequence
                if let Some(p) = hist.lock().unwrap().iter().find_map(|e| e.res.as_ref().err().cloned()) {
                    v.msg.push_str(&format!("; earlier panic at {}: {}", p.loc, p.msg));
                }
                Err(v)
            }
        }
    }
    pub fn preemptions(&self) -> u64 {
        self.report.as_ref().map(|r| r.preemptions).unwrap_or(0)
    }
}
#[derive(Clone, Debug)]
pub struct Ev<O, R> {
    pub tid: usize,
    pub idx: usize,
    pub op: O,
    pub inv: u64,
    pub ret: u64,
    pub res: Result<R, Panic>,
}
pub fn handle() -> Option<Handle> {
    rt::current()
}
pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct PropDef {
    pub id: &'static str,
    pub run: fn(&mut Exec) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// An expectation of the harness itself about what k returns did not hold.
pub const SURPRISE: &str = "unexpected result";
pub struct RunOut {
    pub res: Res,
    pub ex: Exec,
    pub harness_panic: Option<Panic>,
}
/// One run, in a fresh thread (thread-local state of std, such as hash keys, starts afresh).
pub fn run_case(def: &PropDef, case: Case) -> RunOut {
    rt::HASH_SEED.store(mix(case.seed, 77), SeqCst);
    let f = def.run;
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ex = Exec::new(case);
            match call(|| f(&mut ex)) {
                Ok(res) => RunOut { res, ex, harness_panic: None },
                Err(p) => {
                    // A panic that escapes: raised in the code under test outside a guarded
                    // operation (setup or final observation), or a bug of the harness.
                    if p.loc.contains("ksim/src") || p.loc.starts_with("src/") {
                        RunOut { res: Ok(()), ex, harness_panic: Some(p) }
                    } else {
                        let r = panic_viol("setup or observation", &p);
                        RunOut { res: r, ex, harness_panic: None }
                    }
                }
            }
        })
        .unwrap()
        .join()
        .unwrap()
}
pub fn case_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(verif_seed, fnv(prop)), idx)
}
pub fn case_for(def: &PropDef, verif_seed: u64, idx: u64) -> Case {
    let s = case_seed(verif_seed, def.id, idx);
    Case {
        prop: def.id,
        seed: s,
        sched: mix(s, 5),
        keep: None,
        choices: None,
        verbose: false,
        hash_results: false,
        before: (verif_seed, vec![]),
    }
}

// ------------------------------------------------------------------ child processes
pub enum Child {
    Text(String),
    Crash(String),
    Hang,
}
fn cpu_ticks(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    if f.len() > 13 {
        f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
    } else {
        0
    }
}
struct Proc {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    slot: usize,
    lo: u64,
    last: u64,
    last_cpu: u64,
    last_wall: Instant,
}
fn shared(n: usize) -> &'static [std::sync::atomic::AtomicU64] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const std::sync::atomic::AtomicU64, n)
    }
}
fn spawn(slot: usize, lo: u64, f: impl FnOnce() -> String) -> Proc {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let out = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(s) => s,
                Err(_) => {
                    let p = LAST.with(|l| l.borrow_mut().take());
                    format!("harness {}\n", esc(&format!("{:?}", p)))
                }
            };
            let b = out.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(if o == b.len() { 0 } else { 3 });
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        Proc { pid, fd: fds[0], buf: vec![], slot, lo, last: u64::MAX, last_cpu: 0, last_wall: Instant::now() }
    }
}
impl Proc {
    /// drains the pipe; true at end of file
    fn pump(&mut self) -> bool {
        let mut b = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(self.fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n > 0 {
                self.buf.extend_from_slice(&b[..n as usize]);
            } else if n == 0 {
                return true;
            } else {
                return false;
            }
        }
    }
    fn reap(&mut self) -> i32 {
        let mut st = 0;
        unsafe {
            libc::waitpid(self.pid, &mut st, 0);
            libc::close(self.fd);
        }
        st
    }
    fn kill(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
        self.reap();
    }
    fn hung(&mut self, progress: u64) -> bool {
        let cpu = cpu_ticks(self.pid);
        if progress != self.last {
            self.last = progress;
            self.last_cpu = cpu;
            self.last_wall = Instant::now();
            return false;
        }
        let w = self.last_wall.elapsed().as_secs();
        (cpu.saturating_sub(self.last_cpu) > 100 * HANG_CPU_S && w >= HANG_CPU_S) || w > HANG_WALL_S
    }
}
const HANG_CPU_S: u64 = 15;
const HANG_WALL_S: u64 = 60;
fn poll(fds: &[i32], ms: i32) {
    let mut p: Vec<libc::pollfd> =
        fds.iter().map(|f| libc::pollfd { fd: *f, events: libc::POLLIN, revents: 0 }).collect();
    unsafe {
        libc::poll(p.as_mut_ptr(), p.len() as u64, ms);
    }
}
/// Runs `f` in a forked child.
pub fn in_child(f: impl FnOnce() -> String) -> Child {
    in_child_beat(|_| f())
}
/// The same; `f` may say that it makes progress.
pub fn in_child_beat(f: impl FnOnce(&std::sync::atomic::AtomicU64) -> String) -> Child {
    static BEAT: OnceLock<&'static [std::sync::atomic::AtomicU64]> = OnceLock::new();
    let beat = &BEAT.get_or_init(|| shared(1))[0];
    let mut p = spawn(0, 0, || f(beat));
    loop {
        poll(&[p.fd], 200);
        if p.pump() {
            let st = p.reap();
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                return Child::Text(String::from_utf8_lossy(&p.buf).into_owned());
            }
            return Child::Crash(crash_text(st));
        }
        if p.hung(beat.load(SeqCst)) {
            p.kill();
            return Child::Hang;
        }
    }
}
fn crash_text(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        format!("process killed by signal {}", libc::WTERMSIG(st))
    } else {
        format!("process exited with status {}", libc::WEXITSTATUS(st))
    }
}

// ------------------------------------------------------------------ text encoding
pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------------ exploration
#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub switches: u64,
    pub preempt: u64,
    pub contended: u64,
    pub multi: u64,
    pub kinds: [u64; 11],
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub nt_hashes: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub found: Vec<(u64, Violation)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub harness: Vec<String>,
}
impl Agg {
    fn absorb(&mut self, text: &str) {
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let u = || v.parse::<u64>().unwrap_or(0);
            match k {
                "runs" => self.runs += u(),
                "steps" => self.steps += u(),
                "sim" => self.sim_us += u(),
                "switches" => self.switches += u(),
                "preempt" => self.preempt += u(),
                "contended" => self.contended += u(),
                "multi" => self.multi += u(),
                "nontrivial" => self.nontrivial += u(),
                "kinds" => {
                    for (i, x) in v.split(' ').enumerate().take(10) {
                        self.kinds[i] += x.parse::<u64>().unwrap_or(0);
                    }
                }
                "h" => {
                    let (nt, x) = v.split_once(' ').unwrap_or(("0", "0"));
                    let x = u64::from_str_radix(x, 16).unwrap_or(0);
                    self.hashes.insert(x);
                    if nt == "1" {
                        self.nt_hashes.insert(x);
                    }
                }
                "c" | "f" => {
                    let (n, name) = v.split_once(' ').unwrap_or(("0", "?"));
                    let m = if k == "c" { &mut self.counts } else { &mut self.faults };
                    *m.entry(name.into()).or_default() += n.parse::<u64>().unwrap_or(0);
                }
                "sample" => {
                    if self.samples.len() < 4 {
                        self.samples.push(unesc(v))
                    }
                }
                "viol" => {
                    let mut it = v.splitn(3, ' ');
                    let idx = it.next().unwrap_or("0").parse().unwrap_or(0);
                    let class = unesc(&it.next().unwrap_or("").replace('\u{1}', " "));
                    let msg = unesc(it.next().unwrap_or(""));
                    self.found.push((idx, Violation { class, msg }));
                }
                "known" => {
                    let (class, msg) = v.split_once(' ').unwrap_or((v, ""));
                    let e = self
                        .known
                        .entry(unesc(&class.replace('\u{1}', " ")))
                        .or_insert((0, unesc(msg)));
                    e.0 += 1;
                }
                "harness" => self.harness.push(unesc(v)),
                _ => {}
            }
        }
    }
}
fn class_field(c: &str) -> String {
    esc(c).replace(' ', "\u{1}")
}
fn run_batch(
    def: &PropDef,
    vs: u64,
    lo: u64,
    hi: u64,
    known: &[String],
    beat: &std::sync::atomic::AtomicU64,
) -> String {
    let mut o = String::new();
    let mut a = Agg::default();
    let mut extra = String::new();
    for idx in lo..hi {
        beat.store(idx, SeqCst);
        let out = run_case(def, case_for(def, vs, idx));
        a.runs += 1;
        if let Some(p) = &out.harness_panic {
            extra.push_str(&format!("viol {} {} {}\n", idx, class_field(SURPRISE), esc(&format!("{:?}", p))));
            break;
        }
        if let Some(r) = &out.ex.report {
            a.steps += r.steps;
            a.sim_us += r.now_us;
            if r.jumps > 0 {
                *a.faults.entry("jumps of the clocks".into()).or_default() += r.jumps;
            }
            a.switches += r.switches;
            a.preempt += r.preemptions;
            a.contended += r.contended;
            if r.preemptions > 0 {
                a.multi += 1;
            }
            for i in 0..a.kinds.len() {
                a.kinds[i] += r.per_kind[i];
            }
            let hh = mix(r.hash, fnv(&out.ex.setup));
            extra.push_str(&format!("h {} {:x}\n", out.ex.nontrivial as u8, hh));
        }
        if out.ex.nontrivial {
            a.nontrivial += 1;
        }
        for (k, v) in &out.ex.stats.counts {
            *a.counts.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &out.ex.stats.faults {
            *a.faults.entry(k.clone()).or_default() += v;
        }
        if idx < 3 {
            extra.push_str(&format!("sample {}\n", esc(&describe(&out.ex, idx))));
        }
        if let Err(v) = &out.res {
            if known.iter().any(|k| v.class.contains(k.as_str())) {
                extra.push_str(&format!("known {} {}\n", class_field(&v.class), esc(&v.msg)));
                continue;
            }
            extra.push_str(&format!("viol {} {} {}\n", idx, class_field(&v.class), esc(&v.msg)));
            break;
        }
    }
    o.push_str(&format!(
        "runs {}\nsteps {}\nsim {}\nswitches {}\npreempt {}\ncontended {}\nmulti {}\nnontrivial {}\n",
        a.runs, a.steps, a.sim_us, a.switches, a.preempt, a.contended, a.multi, a.nontrivial
    ));
    o.push_str("kinds");
    for k in a.kinds {
        o.push_str(&format!(" {}", k));
    }
    o.push('\n');
    for (k, v) in &a.counts {
        o.push_str(&format!("c {} {}\n", v, k));
    }
    for (k, v) in &a.faults {
        o.push_str(&format!("f {} {}\n", v, k));
    }
    o.push_str(&extra);
    o
}
pub fn describe(ex: &Exec, idx: u64) -> String {
    let mut s = format!("run {} seed {:#x}: {}", idx, ex.case.seed, ex.setup);
    for (t, l) in ex.desc.iter().enumerate() {
        s.push_str(&format!(" | t{}: {}", t, l.join("; ")));
    }
    if let Some(r) = &ex.report {
        s.push_str(&format!(
            " | {:?}, {} points, {} preemptions, schedule {}",
            r.outcome,
            r.steps,
            r.preemptions,
            compress(&r.choices)
        ));
    }
    s
}
pub fn compress(c: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && c[j] == c[i] {
            j += 1;
        }
        let n = j - i;
        let x = if c[i] == 255 { "-".to_string() } else { format!("t{}", c[i]) };
        if n > 1 {
            s.push_str(&format!("{}x{} ", x, n));
        } else {
            s.push_str(&format!("{} ", x));
        }
        i = j;
        if s.len() > 600 {
            s.push_str("...");
            break;
        }
    }
    s.trim_end().to_string()
}

pub fn batch_size(total: u64) -> u64 {
    (total / 200).clamp(8, 200)
}
pub fn explore(def: &'static PropDef, vs: u64, total: u64, wall_cap: u64, known: &[String]) -> Agg {
    let workers: usize = std::env::var("KSIM_WORKERS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8));
    let beats = shared(workers);
    let batch = batch_size(total);
    let mut agg = Agg::default();
    let mut next = 0u64;
    let mut active: Vec<Proc> = vec![];
    let t0 = Instant::now();
    let mut hangs: Vec<u64> = vec![];
    loop {
        let stop = !agg.found.is_empty() || !agg.harness.is_empty() || t0.elapsed().as_secs() > wall_cap;
        while !stop && active.len() < workers && next < total {
            let slot = (0..workers).find(|s| !active.iter().any(|p| p.slot == *s)).unwrap();
            let (lo, hi) = (next, (next + batch).min(total));
            next = hi;
            beats[slot].store(lo, SeqCst);
            active.push(spawn(slot, lo, || run_batch(def, vs, lo, hi, known, &beats[slot])));
        }
        if active.is_empty() {
            break;
        }
        let fds: Vec<i32> = active.iter().map(|p| p.fd).collect();
        poll(&fds, 100);
        let mut i = 0;
        while i < active.len() {
            let p = &mut active[i];
            if p.pump() {
                let st = p.reap();
                let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
                if ok {
                    agg.absorb(&String::from_utf8_lossy(&p.buf));
                } else {
                    let idx = beats[p.slot].load(SeqCst);
                    agg.found.push((
                        idx,
                        Violation { class: "crash".into(), msg: crash_text(st) },
                    ));
                }
                active.swap_remove(i);
                continue;
            }
            let b = beats[p.slot].load(SeqCst);
            if p.hung(b) {
                p.kill();
                let lo = p.lo;
                active.swap_remove(i);
                if hangs.contains(&b) {
                    continue;
                }
                hangs.push(b);
                // confirm before reporting
                let mut c = case_for(def, vs, b);
                c.before.1 = (lo..b).collect();
                match in_child_beat(|beat| {
                    prelude(def, &c, beat);
                    run_case(def, c);
                    String::new()
                }) {
                    Child::Hang => agg.found.push((
                        b,
                        Violation {
                            class: "hang".into(),
                            msg: "a call computes for ever (no scheduling point, no return)".into(),
                        },
                    )),
                    _ => *agg.counts.entry("slow batch retried".into()).or_default() += 1,
                }
                continue;
            }
            i += 1;
        }
    }
    agg.found.sort_by_key(|x| x.0);
    agg
}

// ------------------------------------------------------------------ minimisation
pub struct Min {
    pub case: Case,
    pub viol: Violation,
    pub tried: u64,
    pub exact: bool,
    pub index: u64,
}
fn prelude(def: &PropDef, c: &Case, beat: &std::sync::atomic::AtomicU64) {
    for i in &c.before.1 {
        beat.fetch_add(1, SeqCst);
        run_case(def, case_for(def, c.before.0, *i));
    }
    beat.fetch_add(1, SeqCst);
}
fn probe(def: &PropDef, c: &Case) -> (Option<Violation>, Vec<u8>, Vec<usize>) {
    let cc = c.clone();
    match in_child_beat(|beat| {
        prelude(def, &cc, beat);
        let out = run_case(def, cc);
        let mut s = String::new();
        if let Some(p) = &out.harness_panic {
            s.push_str(&format!("viol 0 {} {}\n", class_field(SURPRISE), esc(&format!("{:?}", p))));
        }
        if let Err(v) = &out.res {
            s.push_str(&format!("viol 0 {} {}\n", class_field(&v.class), esc(&v.msg)));
        }
        if let Some(r) = &out.ex.report {
            s.push_str(&format!("choices {}\n", hex(&r.choices)));
        }
        s.push_str(&format!(
            "shape {}\n",
            out.ex.shape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        ));
        s
    }) {
        Child::Text(t) => {
            let mut a = Agg::default();
            a.absorb(&t);
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let ch = unhex(&get("choices "));
            let shape = get("shape ").split(',').filter_map(|x| x.parse().ok()).collect();
            (a.found.pop().map(|x| x.1), ch, shape)
        }
        Child::Crash(m) => (Some(Violation { class: "crash".into(), msg: m }), vec![], vec![]),
        Child::Hang => (
            Some(Violation { class: "hang".into(), msg: "a call computes for ever".into() }),
            vec![],
            vec![],
        ),
    }
}
pub fn minimise(def: &PropDef, vs: u64, idx: u64, batch: u64, v0: Violation, budget_s: u64) -> Min {
    let t0 = Instant::now();
    let base = case_for(def, vs, idx);
    let mut tried = 1;
    let (v, ch, shape) = probe(def, &base);
    let mut m = Min { case: base.clone(), viol: v0.clone(), tried: 0, exact: false, index: idx };
    let same = |v: &Option<Violation>| v.as_ref().map_or(false, |v| v.class == v0.class);
    let (mut ch, mut shape) = (ch, shape);
    if same(&v) {
        m.viol = v.unwrap();
        m.exact = true;
    } else {
        // k keeps state between runs: execute the runs before it in the same process
        m.case.before.1 = (idx - idx % batch..idx).collect();
        let (v, c2, s2) = probe(def, &m.case);
        tried += 1;
        if !same(&v) {
            m.case.before.1.clear();
            return m;
        }
        m.viol = v.unwrap();
        m.exact = true;
        (ch, shape) = (c2, s2);
        let mut size = (m.case.before.1.len() + 1) / 2;
        while size > 0 && t0.elapsed().as_secs() < budget_s / 2 {
            let mut i = 0;
            while i < m.case.before.1.len() && t0.elapsed().as_secs() < budget_s / 2 {
                let mut c = m.case.clone();
                let end = (i + size).min(c.before.1.len());
                c.before.1.drain(i..end);
                tried += 1;
                let (v, c2, s2) = probe(def, &c);
                if same(&v) {
                    m.case = c;
                    m.viol = v.unwrap();
                    (ch, shape) = (c2, s2);
                } else {
                    i = end;
                }
            }
            size /= 2;
        }
    }
    if v0.class == "hang" || v0.class == "crash" {
        return m; // no schedule was recorded: the seed is the replay
    }
    m.case.choices = Some(ch);
    // the recorded schedule must reproduce it
    let (v, _, _) = probe(def, &m.case);
    tried += 1;
    if v.as_ref().map(|x| &x.class) != Some(&v0.class) {
        m.case.choices = None;
        m.tried = tried;
        return m;
    }
    m.case.keep = Some(shape.iter().map(|n| vec![true; *n]).collect());
    let class = v0.class.clone();
    // keep-mask candidates: first with the current schedule, then searching other schedules
    let try_mask = |m: &mut Min, keep: Vec<Vec<bool>>, tried: &mut u64, extra: u64| -> bool {
        for s in 0..=extra {
            if t0.elapsed().as_secs() >= budget_s {
                return false;
            }
            let mut c = m.case.clone();
            c.keep = Some(keep.clone());
            if s > 0 {
                c.choices = None;
                c.sched = mix(m.case.seed, 1000 + s);
            }
            *tried += 1;
            let (v, ch, _) = probe(def, &c);
            if let Some(v) = v {
                if v.class == class {
                    c.choices = Some(ch);
                    m.case = c;
                    m.viol = v;
                    return true;
                }
            }
        }
        false
    };
    let mut progress = true;
    while progress && t0.elapsed().as_secs() < budget_s {
        progress = false;
        let k = m.case.keep.clone().unwrap();
        for t in 0..k.len() {
            let cur = m.case.keep.clone().unwrap();
            if cur[t].iter().any(|x| *x) {
                let mut kk = cur;
                kk[t].iter_mut().for_each(|x| *x = false);
                if try_mask(&mut m, kk, &mut tried, 40) {
                    progress = true;
                }
            }
        }
        for t in 0..k.len() {
            for i in 0..k[t].len() {
                let cur = m.case.keep.clone().unwrap();
                if cur[t][i] {
                    let mut kk = cur;
                    kk[t][i] = false;
                    if try_mask(&mut m, kk, &mut tried, 25) {
                        progress = true;
                    }
                }
            }
        }
    }
    // schedule: turn forced switches into the default (stay on the running thread)
    let mut c = m.case.choices.clone().unwrap_or_default();
    let mut size = (c.len() / 2).max(1);
    while t0.elapsed().as_secs() < budget_s + 10 && !c.is_empty() {
        let mut i = 0;
        let mut changed = false;
        while i < c.len() && t0.elapsed().as_secs() < budget_s + 10 {
            let end = (i + size).min(c.len());
            if c[i..end].iter().any(|x| *x != 255) {
                let mut n = c.clone();
                n[i..end].iter_mut().for_each(|x| *x = 255);
                while n.last() == Some(&255) {
                    n.pop();
                }
                let mut cc = m.case.clone();
                cc.choices = Some(n.clone());
                tried += 1;
                if let (Some(v), _, _) = probe(def, &cc) {
                    if v.class == class {
                        m.case = cc;
                        m.viol = v;
                        c = n;
                        changed = true;
                        continue;
                    }
                }
            }
            i = end;
        }
        if size == 1 && !changed {
            break;
        }
        size = (size / 2).max(1);
    }
    m.tried = tried;
    m
}

// ------------------------------------------------------------------ replay files
pub fn replay_text(def: &PropDef, m: &Min) -> String {
    let c = &m.case;
    let mut s = String::new();
    s.push_str("# ksim replay file: `check.sh replay <this file>` re-executes it exactly\n");
    s.push_str(&format!("property {}\n", def.id));
    s.push_str(&format!("seed {:#x}\nsched {:#x}\nindex {}\n", c.seed, c.sched, m.index));
    if !c.before.1.is_empty() {
        let l: Vec<String> = c.before.1.iter().map(|x| x.to_string()).collect();
        s.push_str(&format!("before {:#x} {}\n", c.before.0, l.join(",")));
    }
    s.push_str(&format!("class {}\n", esc(&m.viol.class)));
    s.push_str(&format!("message {}\n", esc(&m.viol.msg)));
    if let Some(k) = &c.keep {
        let t: Vec<String> =
            k.iter().map(|l| l.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()).collect();
        s.push_str(&format!("keep {}\n", t.join(",")));
    }
    if let Some(ch) = &c.choices {
        s.push_str(&format!("choices {}\n", hex(ch)));
    }
    // human-readable trace of the minimised run
    let mut cc = c.clone();
    cc.verbose = true;
    if let Child::Text(t) = in_child_beat(|beat| {
        prelude(def, &cc, beat);
        let out = run_case(def, cc);
        let mut s = format!("setup: {}\n", out.ex.setup);
        if let Some(r) = &out.ex.report {
            for l in collapse(&r.log).iter().take(600) {
                s.push_str(l);
                s.push('\n');
            }
        }
        s
    }) {
        for l in t.lines() {
            s.push_str("# ");
            s.push_str(l);
            s.push('\n');
        }
    }
    s
}
/// `[step] thread kind object` lines of one thread in a row, on one line
fn collapse(log: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut who = String::new();
    for l in log {
        let t = l.trim_start();
        let f: Vec<&str> = t.split(' ').collect();
        let point = t.starts_with('[') && f.len() >= 4 && f[2] != "Op";
        if !point {
            who.clear();
            out.push(l.clone());
            continue;
        }
        let rest = f[2..].join(" ");
        match out.last_mut() {
            Some(o) if who == f[1] && o.len() < 150 => {
                o.push_str(", ");
                o.push_str(&rest);
            }
            _ => out.push(l.clone()),
        }
        who = f[1].to_string();
    }
    out
}
pub struct Replay {
    pub prop: String,
    pub seed: u64,
    pub sched: u64,
    pub class: String,
    pub keep: Option<Vec<Vec<bool>>>,
    pub choices: Option<Vec<u8>>,
    pub before: (u64, Vec<u64>),
}
pub fn parse_replay(t: &str) -> Replay {
    let m: HashMap<&str, &str> =
        t.lines().filter(|l| !l.starts_with('#')).map(|l| l.split_once(' ').unwrap_or((l, ""))).collect();
    let n = |k: &str| u64::from_str_radix(m.get(k).unwrap_or(&"0x0").trim_start_matches("0x"), 16).unwrap_or(0);
    Replay {
        prop: m.get("property").unwrap_or(&"").to_string(),
        seed: n("seed"),
        sched: n("sched"),
        class: unesc(m.get("class").unwrap_or(&"")),
        keep: m
            .get("keep")
            .map(|k| k.split(',').map(|l| l.chars().map(|c| c == '1').collect()).collect()),
        choices: m.get("choices").map(|c| unhex(c)),
        before: match m.get("before").and_then(|b| b.split_once(' ')) {
            Some((a, b)) => (
                u64::from_str_radix(a.trim_start_matches("0x"), 16).unwrap_or(0),
                b.split(',').filter_map(|x| x.parse().ok()).collect(),
            ),
            None => (0, vec![]),
        },
    }
}
pub fn replay(def: &'static PropDef, r: &Replay) -> Option<Violation> {
    let c = Case {
        prop: def.id,
        seed: r.seed,
        sched: r.sched,
        keep: r.keep.clone(),
        choices: r.choices.clone(),
        verbose: false,
        hash_results: false,
        before: r.before.clone(),
    };
    probe(def, &c).0
}
