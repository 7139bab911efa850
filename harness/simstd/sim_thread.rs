//! Threads started by the code under test, inside a simulation: scheduled like the others.
use crate::rt;
use ::std::any::Any;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::prelude::v1::*;
use ::std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use ::std::sync::{Arc, Condvar, Mutex};
use ::std::thread as rt_real;

static REAL: AtomicUsize = AtomicUsize::new(0);
/// Threads started outside of a simulation are running.
pub fn real_threads() -> bool {
    REAL.load(SeqCst) > 0
}
struct Live;
impl Live {
    fn new() -> Live {
        REAL.fetch_add(1, SeqCst);
        Live
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        REAL.fetch_sub(1, SeqCst);
    }
}
fn live<T, F: FnOnce() -> T>(f: F) -> impl FnOnce() -> T {
    let l = Live::new();
    move || {
        let _l = l;
        f()
    }
}

pub type Result<T> = ::std::result::Result<T, Box<dyn Any + Send + 'static>>;

struct Task<T> {
    tid: usize,
    out: Arc<Mutex<Option<Result<T>>>>,
}
impl<T> Task<T> {
    fn join(self) -> Result<T> {
        if let Some(h) = rt::current() {
            h.join(self.tid);
        }
        self.out.lock().unwrap().take().expect("joined thread has a result")
    }
    fn finished(&self) -> bool {
        rt::current().map(|h| h.yield_now());
        self.out.lock().unwrap().is_some()
    }
}
/// Safety: the caller keeps everything `f` borrows alive until the thread has ended.
unsafe fn start<'a, T: Send + 'a, F: FnOnce() -> T + Send + 'a>(h: rt::Handle, f: F) -> Task<T> {
    let out = Arc::new(Mutex::new(None));
    let o = out.clone();
    let body = move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        *o.lock().unwrap() = Some(r);
    };
    let b: Box<dyn FnOnce() + Send + 'a> = Box::new(body);
    let b: Box<dyn FnOnce() + Send + 'static> = ::std::mem::transmute(b);
    Task { tid: h.spawn(b), out }
}

enum Inner<T> {
    Sim(Task<T>, rt_real::Thread),
    Real(rt_real::JoinHandle<T>),
}
pub struct JoinHandle<T>(Inner<T>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        match self.0 {
            Inner::Sim(t, _) => t.join(),
            Inner::Real(j) => j.join(),
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Inner::Sim(t, _) => t.finished(),
            Inner::Real(j) => j.is_finished(),
        }
    }
    pub fn thread(&self) -> &rt_real::Thread {
        match &self.0 {
            Inner::Sim(_, t) => t,
            Inner::Real(j) => j.thread(),
        }
    }
}
pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
    match rt::current() {
        Some(h) => {
            let t = unsafe { start(h, f) };
            let th = h.thread_of(t.tid);
            JoinHandle(Inner::Sim(t, th))
        }
        None => JoinHandle(Inner::Real(rt_real::spawn(live(f)))),
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> io::Result<JoinHandle<T>> {
        if rt::current().is_some() {
            return Ok(spawn(f));
        }
        let mut b = rt_real::Builder::new();
        if let Some(n) = self.name {
            b = b.name(n);
        }
        if let Some(n) = self.stack {
            b = b.stack_size(n);
        }
        b.spawn(live(f)).map(|j| JoinHandle(Inner::Real(j)))
    }
}

/// Scoped threads.
pub struct Scope<'scope, 'env: 'scope> {
    tids: Mutex<Vec<usize>>,
    done: Arc<(Mutex<Vec<()>>, Condvar)>,
    panicked: Arc<AtomicBool>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T>(SInner<T>, Arc<AtomicBool>, PhantomData<&'scope ()>);
enum SInner<T> {
    Sim(Task<T>),
    Real(rt_real::JoinHandle<()>, Arc<Mutex<Option<Result<T>>>>),
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        let r = match self.0 {
            SInner::Sim(t) => t.join(),
            SInner::Real(j, o) => {
                let _ = j.join();
                let r = o.lock().unwrap().take();
                r.expect("joined thread has a result")
            }
        };
        if r.is_err() {
            self.1.store(false, SeqCst);
        }
        r
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            SInner::Sim(t) => t.finished(),
            SInner::Real(j, _) => j.is_finished(),
        }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F: FnOnce() -> T + Send + 'scope, T: Send + 'scope>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> {
        let p = self.panicked.clone();
        let g = move || match catch_unwind(AssertUnwindSafe(f)) {
            Ok(t) => t,
            Err(e) => {
                p.store(true, SeqCst);
                resume_unwind(e)
            }
        };
        let inner = match rt::current() {
            Some(h) => {
                let t = unsafe { start(h, g) };
                self.tids.lock().unwrap().push(t.tid);
                SInner::Sim(t)
            }
            None => {
                let out = Arc::new(Mutex::new(None));
                let o = out.clone();
                let done = self.done.clone();
                done.0.lock().unwrap().push(());
                let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
                    *o.lock().unwrap() = Some(catch_unwind(AssertUnwindSafe(g)));
                    drop(o);
                    done.0.lock().unwrap().pop();
                    done.1.notify_all();
                });
                // the scope waits for the thread
                let b: Box<dyn FnOnce() + Send + 'static> = unsafe { ::std::mem::transmute(b) };
                SInner::Real(rt_real::spawn(live(b)), out)
            }
        };
        ScopedJoinHandle(inner, self.panicked.clone(), PhantomData)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        tids: Mutex::new(Vec::new()),
        done: Arc::new((Mutex::new(Vec::new()), Condvar::new())),
        panicked: Arc::new(AtomicBool::new(false)),
        scope: PhantomData,
        env: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&s)));
    if let Some(h) = rt::current() {
        loop {
            let t = s.tids.lock().unwrap().pop();
            match t {
                Some(t) => h.join(t),
                None => break,
            }
        }
    }
    let mut g = s.done.0.lock().unwrap();
    while !g.is_empty() {
        g = s.done.1.wait(g).unwrap();
    }
    drop(g);
    match r {
        Err(e) => resume_unwind(e),
        Ok(_) if s.panicked.load(SeqCst) => panic!("a scoped thread panicked"),
        Ok(r) => r,
    }
}
