//! `simstd`: a drop-in `std` for the crates under simulation.
//!
//! The crates `k` and `urdf_rs` are compiled UNCHANGED but with
//! `--extern std=libsimstd.rlib`, so every `std::...` path in them resolves here.
//! Everything is re-exported from the real `std` except the sources of
//! nondeterminism: locks, condition variables, once-cells, channels, atomics, reference counts,
//! threads, clocks, file reads and child processes.  Outside a simulation
//! (no simulation context on the calling thread) every replacement behaves like the real one.
#![allow(clippy::all, deprecated, internal_features)]
#![feature(coerce_unsized, unsize, dispatch_from_dyn, legacy_receiver_trait)]
pub use ::std::*;

pub mod rt;
mod sim_sync;
mod sim_atomic;
mod sim_arc;
mod sim_io;
mod sim_mpsc;
mod sim_thread;

pub mod sync {
    pub use crate::sim_sync::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };
    pub use crate::sim_arc::{Arc, Weak};
    pub use crate::sim_mpsc::{Barrier, BarrierWaitResult};
    pub mod mpsc {
        pub use crate::sim_mpsc::{
            channel, sync_channel, IntoIter, Iter, Receiver, Sender, SyncSender, TryIter,
        };
        pub use ::std::sync::mpsc::*;
    }
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::sim_atomic::{
            AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32,
            AtomicU64, AtomicU8, AtomicUsize,
        };
        pub use ::std::sync::atomic::*;
    }
}

pub mod thread {
    pub use crate::sim_thread::{scope, spawn, Builder, JoinHandle, Scope, ScopedJoinHandle};
    pub use ::std::thread::*;
    pub fn available_parallelism() -> ::std::io::Result<::std::num::NonZeroUsize> {
        match crate::rt::current() {
            Some(_) => Ok(::std::num::NonZeroUsize::new(4).unwrap()),
            None => ::std::thread::available_parallelism(),
        }
    }
    pub fn yield_now() {
        match crate::rt::current() {
            Some(h) => h.yield_now(),
            None => ::std::thread::yield_now(),
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        match crate::rt::current() {
            Some(h) => h.sleep_us(d.as_micros() as u64),
            None => ::std::thread::sleep(d),
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        match crate::rt::current() {
            Some(h) => h.yield_now(),
            None => ::std::hint::spin_loop(),
        }
    }
}

pub mod time {
    pub use crate::sim_io::{Instant, SystemTime};
    pub use ::std::time::{Duration, SystemTimeError, TryFromFloatSecsError, UNIX_EPOCH};
}

pub mod fs {
    pub use crate::sim_io::{read, read_to_string, File};
    pub use ::std::fs::*;
}

pub mod process {
    pub use crate::sim_io::Command;
    pub use ::std::process::*;
}
