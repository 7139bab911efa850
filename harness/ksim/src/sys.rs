//! Process-level seams: hash seeds, address-space layout, logging.
use simstd::rt::{self, Kind};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

static CALLS: AtomicU64 = AtomicU64::new(0);
/// Interposes libc's `getrandom`: std's hash keys become a function of the run's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    let mut x = rt::HASH_SEED.load(SeqCst);
    CALLS.fetch_add(1, SeqCst);
    let p = buf as *mut u8;
    for i in 0..len {
        if i % 8 == 0 {
            x = rt::mix(x, i as u64 + 11);
        }
        *p.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    len as isize
}
pub fn hash_seed_calls() -> u64 {
    CALLS.load(SeqCst)
}

/// Re-executes the program with address-space randomisation off (best effort).
pub fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("KSIM_NOASLR").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                use std::os::unix::process::CommandExt;
                let mut a = std::env::args_os();
                a.next();
                let _ = std::process::Command::new("/proc/self/exe").args(a).env("KSIM_NOASLR", "1").exec();
            }
        }
    }
}

struct Log;
/// 0 off, 1 error .. 5 trace; formatted length is kept so that formatting is not elided
pub static LOGGED: AtomicU64 = AtomicU64::new(0);
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // formatting runs the Display implementations of k, which take locks
        let s = format!("{}", r.args());
        LOGGED.fetch_add(s.len() as u64, SeqCst);
        if let Some(h) = rt::current() {
            h.point(Kind::Callback, 0);
        }
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    static L: Log = Log;
    let _ = log::set_logger(&L);
    log::set_max_level(log::LevelFilter::Off);
}
pub fn set_level(l: u8) {
    log::set_max_level(match l {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Error,
        2 => log::LevelFilter::Warn,
        3 => log::LevelFilter::Info,
        4 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}
