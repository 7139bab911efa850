use crate::rt::{self, Kind};
use ::std::ffi::{OsStr, OsString};
use ::std::io::{self, Read, Seek, Write};
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use ::std::path::Path;
use ::std::prelude::v1::*;
use ::std::time::{self as rtime, Duration, SystemTimeError};

// ------------------------------------------------------------------ files
/// Only reading through `open`/`read*` is simulated; everything else is passed through.
pub struct File(Inner);
enum Inner {
    Real(::std::fs::File),
    Sim(Box<dyn rt::SimRead>),
}
impl ::std::fmt::Debug for File {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("File")
    }
}
fn wrong() -> io::Error {
    io::Error::new(io::ErrorKind::Unsupported, "not simulated")
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let p = p.as_ref();
        if let Some(h) = rt::current() {
            if let Some(io) = h.io() {
                h.point(Kind::Io, 0);
                if let Some(r) = io.open(p) {
                    return r.map(|f| File(Inner::Sim(f)));
                }
            }
        }
        ::std::fs::File::open(p).map(|f| File(Inner::Real(f)))
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        ::std::fs::File::create(p).map(|f| File(Inner::Real(f)))
    }
    pub fn metadata(&self) -> io::Result<::std::fs::Metadata> {
        match &self.0 {
            Inner::Real(f) => f.metadata(),
            Inner::Sim(_) => Err(wrong()),
        }
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match &mut self.0 {
            Inner::Real(f) => f.read(buf),
            Inner::Sim(f) => {
                if let Some(h) = rt::current() {
                    h.point(Kind::Io, 1);
                }
                f.read(buf)
            }
        }
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match &mut self.0 {
            Inner::Real(f) => f.write(buf),
            Inner::Sim(_) => Err(wrong()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        match &mut self.0 {
            Inner::Real(f) => f.seek(p),
            Inner::Sim(_) => Err(wrong()),
        }
    }
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut s = String::new();
    File::open(p)?.read_to_string(&mut s)?;
    Ok(s)
}

// ------------------------------------------------------------------ child processes
#[derive(Debug)]
pub struct Command {
    program: OsString,
    args: Vec<String>,
    real: ::std::process::Command,
}
impl Command {
    pub fn new<S: AsRef<OsStr>>(s: S) -> Self {
        Command {
            program: s.as_ref().to_owned(),
            args: Vec::new(),
            real: ::std::process::Command::new(s.as_ref()),
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, s: S) -> &mut Self {
        self.args.push(s.as_ref().to_string_lossy().into_owned());
        self.real.arg(s);
        self
    }
    pub fn args<I: IntoIterator<Item = S>, S: AsRef<OsStr>>(&mut self, i: I) -> &mut Self {
        for s in i {
            self.arg(s);
        }
        self
    }
    pub fn output(&mut self) -> io::Result<::std::process::Output> {
        if let Some(h) = rt::current() {
            h.point(Kind::Io, 2);
            return match h.io() {
                Some(io) => io.command(&self.program.to_string_lossy(), &self.args),
                None => Err(io::Error::from(io::ErrorKind::NotFound)),
            };
        }
        self.real.output()
    }
}

// ------------------------------------------------------------------ clocks
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
fn real_base() -> rtime::Instant {
    static B: ::std::sync::OnceLock<rtime::Instant> = ::std::sync::OnceLock::new();
    *B.get_or_init(rtime::Instant::now)
}
impl Instant {
    pub fn now() -> Self {
        match rt::current() {
            Some(h) => {
                h.point(Kind::Atomic, 0);
                Instant(Duration::from_secs(1000) + Duration::from_micros(h.read_clock()))
            }
            None => Instant(Duration::from_secs(1000) + real_base().elapsed()),
        }
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.checked_sub(o.0).unwrap_or_default()
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(rtime::SystemTime);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(rtime::UNIX_EPOCH);
    pub fn now() -> Self {
        match rt::current() {
            Some(h) => {
                h.point(Kind::Atomic, 0);
                let now = rtime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + Duration::from_micros(h.read_clock());
                SystemTime(now - Duration::from_micros(h.set_back()))
            }
            None => SystemTime(rtime::SystemTime::now()),
        }
    }
    pub fn duration_since(&self, o: rtime::SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(o)
    }
}
