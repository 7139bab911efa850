//! Channels and barriers made of the simulated lock and condition variable.
use crate::sim_sync::{Condvar, Mutex};
use ::std::collections::VecDeque;
use ::std::prelude::v1::*;
use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::sync::Arc;
use ::std::time::Duration;

#[derive(Debug)]
struct Chan<T> {
    st: Mutex<St<T>>,
    cv: Condvar,
}
#[derive(Debug)]
struct St<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    taken: u64,
    senders: usize,
    receiver: bool,
}
#[derive(Debug)]
pub struct Sender<T>(Arc<Chan<T>>);
#[derive(Debug)]
pub struct SyncSender<T>(Arc<Chan<T>>);
#[derive(Debug)]
pub struct Receiver<T>(Arc<Chan<T>>);

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan {
        st: Mutex::new(St { q: VecDeque::new(), cap, taken: 0, senders: 1, receiver: true }),
        cv: Condvar::new(),
    })
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(n));
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Chan<T> {
    fn lock(&self) -> crate::sim_sync::MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn send(&self, t: T, wait: bool) -> Result<(), TrySendError<T>> {
        let mut g = self.lock();
        // a capacity of zero hands over to a receiver: queue one, then wait until it is taken
        while g.receiver && g.cap.map_or(false, |c| g.q.len() >= c.max(1)) {
            if !wait {
                return Err(TrySendError::Full(t));
            }
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        g.q.push_back(t);
        let mine = g.taken + g.q.len() as u64;
        self.cv.notify_all();
        if wait && g.cap == Some(0) {
            while g.receiver && g.taken < mine {
                g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        Ok(())
    }
    fn add(&self) {
        self.lock().senders += 1;
    }
    fn gone(&self) {
        self.lock().senders -= 1;
        self.cv.notify_all();
    }
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t, true).map_err(|e| match e {
            TrySendError::Full(t) | TrySendError::Disconnected(t) => SendError(t),
        })
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t, true).map_err(|e| match e {
            TrySendError::Full(t) | TrySendError::Disconnected(t) => SendError(t),
        })
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.send(t, false)
    }
}
macro_rules! ends {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.add();
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                self.0.gone()
            }
        }
    };
}
ends!(Sender);
ends!(SyncSender);
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let old = {
            let mut g = self.0.lock();
            g.receiver = false;
            ::std::mem::take(&mut g.q)
        };
        self.0.cv.notify_all();
        drop(old);
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.lock();
        match g.q.pop_front() {
            Some(t) => {
                g.taken += 1;
                self.0.cv.notify_all();
                Ok(t)
            }
            None if g.senders == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.lock();
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let mut g = self.0.lock();
        let mut late = false;
        loop {
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            if late {
                return Err(RecvTimeoutError::Timeout);
            }
            let (x, r) = self.0.cv.wait_timeout(g, d).unwrap_or_else(|e| e.into_inner());
            g = x;
            late = r.timed_out();
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}

#[derive(Debug)]
pub struct Barrier {
    st: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { st: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.st.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 >= self.n {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            return BarrierWaitResult(true);
        }
        while g.1 == gen {
            g = self.cv.wait(g).unwrap();
        }
        BarrierWaitResult(false)
    }
}
