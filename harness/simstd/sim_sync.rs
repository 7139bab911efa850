use crate::rt::{self, Kind};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::prelude::v1::*;
use ::std::sync as rs;
use ::std::sync::atomic::{AtomicU64, AtomicU8, Ordering::SeqCst};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    id: AtomicU64,
    inner: rs::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: Option<rs::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: AtomicU64::new(0), inner: rs::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard<'a>(&'a self, g: rs::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, inner: Some(g) }
    }
    fn lock_raw(&self, point: bool) -> LockResult<MutexGuard<'_, T>> {
        match rt::current() {
            Some(h) => {
                let id = h.obj_id(&self.id);
                if point {
                    h.point(Kind::Lock, id);
                }
                loop {
                    match self.inner.try_lock() {
                        Ok(g) => {
                            h.acquired(id);
                            return Ok(self.guard(g));
                        }
                        Err(TryLockError::Poisoned(e)) => {
                            h.acquired(id);
                            return Err(PoisonError::new(self.guard(e.into_inner())));
                        }
                        Err(TryLockError::WouldBlock) => h.block(id),
                    }
                }
            }
            None if crate::sim_thread::real_threads() => match self.inner.lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(e) => Err(PoisonError::new(self.guard(e.into_inner()))),
            },
            // one thread only outside of a simulation: a lock which is held stays held for ever
            None => match self.inner.try_lock() {
                Ok(g) => Ok(self.guard(g)),
                Err(TryLockError::Poisoned(e)) => Err(PoisonError::new(self.guard(e.into_inner()))),
                Err(TryLockError::WouldBlock) => panic!("deadlock: the lock is held by its own thread"),
            },
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.lock_raw(true)
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        let h = rt::current();
        if let Some(h) = h {
            let id = h.obj_id(&self.id);
            h.point(Kind::TryLock, id);
        }
        match self.inner.try_lock() {
            Ok(g) => {
                if let Some(h) = h {
                    h.acquired(h.obj_id(&self.id));
                }
                Ok(self.guard(g))
            }
            Err(TryLockError::Poisoned(e)) => {
                if let Some(h) = h {
                    h.acquired(h.obj_id(&self.id));
                }
                Err(TryLockError::Poisoned(PoisonError::new(self.guard(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("Mutex");
        match self.try_lock() {
            Ok(g) => {
                d.field("data", &&*g);
            }
            Err(TryLockError::Poisoned(e)) => {
                d.field("data", &&**e.get_ref());
            }
            Err(TryLockError::WouldBlock) => {
                d.field("data", &format_args!("<locked>"));
            }
        }
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() {
            if let Some(h) = rt::current() {
                h.released(h.obj_id(&self.lock.id));
            }
        }
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized> {
    id: AtomicU64,
    writers: AtomicU64,
    inner: rs::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a AtomicU64,
    inner: Option<rs::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a AtomicU64,
    inner: Option<rs::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { id: AtomicU64::new(0), writers: AtomicU64::new(0), inner: rs::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($meth:ident, $try:ident, $guard:ident, $writer:expr) => {
        pub fn $meth(&self) -> LockResult<$guard<'_, T>> {
            match rt::current() {
                Some(h) => {
                    let id = h.obj_id(&self.id);
                    h.point(Kind::Lock, id);
                    // readers queue behind waiting writers, as in std
                    while !$writer && self.writers.load(SeqCst) > 0 {
                        h.block(id);
                    }
                    struct Waits<'a>(&'a AtomicU64, bool);
                    impl<'a> Drop for Waits<'a> {
                        fn drop(&mut self) {
                            if self.1 {
                                self.0.fetch_sub(1, SeqCst);
                            }
                        }
                    }
                    let mut waits = Waits(&self.writers, false);
                    loop {
                        match self.inner.$try() {
                            Ok(g) => return Ok($guard { lock: &self.id, inner: Some(g) }),
                            Err(TryLockError::Poisoned(e)) => {
                                return Err(PoisonError::new($guard {
                                    lock: &self.id,
                                    inner: Some(e.into_inner()),
                                }))
                            }
                            Err(TryLockError::WouldBlock) => {
                                if $writer && !waits.1 {
                                    waits.1 = true;
                                    self.writers.fetch_add(1, SeqCst);
                                }
                                h.block(id)
                            }
                        }
                    }
                }
                None if crate::sim_thread::real_threads() => match self.inner.$meth() {
                    Ok(g) => Ok($guard { lock: &self.id, inner: Some(g) }),
                    Err(e) => Err(PoisonError::new($guard {
                        lock: &self.id,
                        inner: Some(e.into_inner()),
                    })),
                },
                None => match self.inner.$try() {
                    Ok(g) => Ok($guard { lock: &self.id, inner: Some(g) }),
                    Err(TryLockError::Poisoned(e)) => Err(PoisonError::new($guard {
                        lock: &self.id,
                        inner: Some(e.into_inner()),
                    })),
                    Err(TryLockError::WouldBlock) => {
                        panic!("deadlock: the lock is held by its own thread")
                    }
                },
            }
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            if let Some(h) = rt::current() {
                let id = h.obj_id(&self.id);
                h.point(Kind::TryLock, id);
            }
            match self.inner.$try() {
                Ok(g) => Ok($guard { lock: &self.id, inner: Some(g) }),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                    $guard { lock: &self.id, inner: Some(e.into_inner()) },
                ))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard, false);
    rw!(write, try_write, RwLockWriteGuard, true);
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut d = f.debug_struct("RwLock");
        match self.try_read() {
            Ok(g) => {
                d.field("data", &&*g);
            }
            Err(TryLockError::Poisoned(e)) => {
                d.field("data", &&**e.get_ref());
            }
            Err(TryLockError::WouldBlock) => {
                d.field("data", &format_args!("<locked>"));
            }
        }
        d.field("poisoned", &self.is_poisoned());
        d.finish_non_exhaustive()
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() {
            if let Some(h) = rt::current() {
                h.released(h.obj_id(self.lock));
            }
        }
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        if self.inner.take().is_some() {
            if let Some(h) = rt::current() {
                h.released(h.obj_id(self.lock));
            }
        }
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------------ Condvar
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
#[derive(Debug, Default)]
pub struct Condvar {
    id: AtomicU64,
    gen: AtomicU64,
    inner: rs::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: AtomicU64::new(0), gen: AtomicU64::new(0), inner: rs::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        match rt::current() {
            Some(h) => {
                let id = h.obj_id(&self.id);
                let lock = g.lock;
                let gen = self.gen.load(SeqCst);
                drop(g);
                while self.gen.load(SeqCst) == gen {
                    h.block(id);
                }
                lock.lock_raw(false)
            }
            None => {
                let lock = g.lock;
                let r = g.inner.take().unwrap();
                match self.inner.wait(r) {
                    Ok(r) => Ok(lock.guard(r)),
                    Err(e) => Err(PoisonError::new(lock.guard(e.into_inner()))),
                }
            }
        }
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: ::std::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        match rt::current() {
            Some(h) => {
                let id = h.obj_id(&self.id);
                let lock = g.lock;
                let gen = self.gen.load(SeqCst);
                drop(g);
                let end = h.now_us() + d.as_micros() as u64;
                while self.gen.load(SeqCst) == gen && h.now_us() < end {
                    h.block_until(id, end);
                }
                let r = WaitTimeoutResult(self.gen.load(SeqCst) == gen);
                match lock.lock_raw(false) {
                    Ok(g) => Ok((g, r)),
                    Err(e) => Err(PoisonError::new((e.into_inner(), r))),
                }
            }
            None => {
                let lock = g.lock;
                let r = g.inner.take().unwrap();
                match self.inner.wait_timeout(r, d) {
                    Ok((g, r)) => Ok((lock.guard(g), WaitTimeoutResult(r.timed_out()))),
                    Err(e) => {
                        let (g, r) = e.into_inner();
                        Err(PoisonError::new((lock.guard(g), WaitTimeoutResult(r.timed_out()))))
                    }
                }
            }
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        self.notify_all() // spurious wake-ups are legal
    }
    pub fn notify_all(&self) {
        self.gen.fetch_add(1, SeqCst);
        match rt::current() {
            Some(h) => h.wake(h.obj_id(&self.id)),
            None => self.inner.notify_all(),
        }
    }
}

// ------------------------------------------------------------------ Once / OnceLock / LazyLock
/// Serialises initialisation without ever blocking the OS thread inside a simulation.
struct Gate {
    id: AtomicU64,
    state: AtomicU8, // 0 idle, 1 running
}
impl Gate {
    const fn new() -> Self {
        Gate { id: AtomicU64::new(0), state: AtomicU8::new(0) }
    }
    /// run f unless `done()`; wait while somebody else initialises
    fn enter<R>(&self, done: impl Fn() -> bool, f: impl FnOnce() -> R) -> Option<R> {
        let h = match rt::current() {
            Some(h) => h,
            None => return if done() { None } else { Some(f()) },
        };
        let id = h.obj_id(&self.id);
        h.point(Kind::Lock, id);
        loop {
            if done() {
                return None;
            }
            if self.state.swap(1, SeqCst) == 0 {
                struct Reset<'a>(&'a Gate, rt::Handle, u32);
                impl<'a> Drop for Reset<'a> {
                    fn drop(&mut self) {
                        self.0.state.store(0, SeqCst);
                        self.1.released(self.2);
                    }
                }
                h.acquired(id);
                let _r = Reset(self, h, id);
                return Some(f());
            }
            h.block(id);
        }
    }
}
pub struct OnceLock<T> {
    gate: Gate,
    inner: rs::OnceLock<T>,
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { gate: Gate::new(), inner: rs::OnceLock::new() }
    }
    pub fn get(&self) -> Option<&T> {
        if let Some(h) = rt::current() {
            let id = h.obj_id(&self.gate.id);
            h.point(Kind::Atomic, id);
        }
        self.inner.get()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.inner.get_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        if let Some(h) = rt::current() {
            let id = h.obj_id(&self.gate.id);
            h.point(Kind::Atomic, id);
        }
        self.inner.set(t)
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.gate.enter(
            || self.inner.get().is_some(),
            || {
                let v = f();
                let _ = self.inner.set(v);
            },
        );
        self.inner.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.inner.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.inner.take()
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: UnsafeCell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: UnsafeCell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = unsafe { (*this.init.get()).take() };
            match f {
                Some(f) => f(),
                None => panic!("LazyLock instance has previously been poisoned"),
            }
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
pub struct Once {
    gate: Gate,
    inner: rs::Once,
}
impl Once {
    pub const fn new() -> Self {
        Once { gate: Gate::new(), inner: rs::Once::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.gate.enter(
            || self.inner.is_completed(),
            || {
                f();
                self.inner.call_once(|| {});
            },
        );
    }
    pub fn is_completed(&self) -> bool {
        self.inner.is_completed()
    }
}
