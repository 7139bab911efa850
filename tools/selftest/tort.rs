// Exercises the simulated std from inside k (see selftest.sh): every primitive must behave like the
// real one under every schedule.
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, sync_channel};
use std::sync::*;
use std::time::{Duration, Instant};
static N: AtomicUsize = AtomicUsize::new(0);
static O: OnceLock<String> = OnceLock::new();
static L: LazyLock<Mutex<HashMap<usize, usize>>> = LazyLock::new(|| Mutex::new(HashMap::new()));
static RW: RwLock<Vec<usize>> = RwLock::new(Vec::new());
static ONCE: Once = Once::new();
thread_local!(static TL: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) });
struct S(usize);
impl S {
    fn me(self: Arc<Self>) -> usize {
        self.0
    }
}
trait Tr: Send + Sync {
    fn go(self: Arc<Self>) -> usize;
}
impl Tr for S {
    fn go(self: Arc<Self>) -> usize {
        self.0
    }
}
#[derive(Debug, Clone, PartialEq, Default)]
struct D(Arc<str>, Arc<Vec<u8>>);
pub fn tort(n: usize) {
    N.fetch_add(1, Ordering::Relaxed);
    assert_eq!(O.get_or_init(|| "a".to_owned()), "a");
    ONCE.call_once(|| {});
    *L.lock().unwrap().entry(n).or_insert(0) += 1;
    RW.write().unwrap().push(n);
    drop(RW.read().unwrap());
    RW.write().unwrap().truncate(3);
    TL.with(|t| t.borrow_mut().push(n));
    let f: Arc<dyn Fn(usize) -> usize + Send + Sync> = Arc::new(|x| x + 1);
    let o: Arc<dyn Tr> = Arc::new(S(n));
    assert_eq!(o.go(), n);
    assert_eq!(Arc::new(S(n)).me(), n);
    let d = D(Arc::from("abc"), Arc::new(vec![1]));
    assert_eq!(d.clone(), d);
    assert_eq!(&*d.0, "abc");
    let (tx, rx) = channel();
    let m = Mutex::new(0);
    let cv = Condvar::new();
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for i in 0..3 {
            let tx = tx.clone();
            let (f, m, cv) = (f.clone(), &m, &cv);
            s.spawn(move || {
                tx.send(f(i)).unwrap();
                *m.lock().unwrap() += 1;
                cv.notify_one();
            });
        }
        let mut g = m.lock().unwrap();
        while *g < 3 {
            g = cv.wait(g).unwrap();
        }
        let (g, r) = cv.wait_timeout(g, Duration::from_millis(5)).unwrap();
        let _ = r.timed_out();
        drop(g);
    });
    drop(tx);
    let mut v: Vec<usize> = rx.iter().collect();
    v.sort();
    assert_eq!(v, vec![1, 2, 3]);
    let (stx, srx) = sync_channel(0);
    let h = std::thread::spawn(move || {
        for i in 0..3 {
            stx.send(i).unwrap();
        }
        std::thread::sleep(Duration::from_millis(1));
        7
    });
    assert_eq!(srx.recv().unwrap(), 0);
    assert_eq!(srx.iter().count(), 2);
    assert_eq!(h.join().unwrap(), 7);
    let bar = Arc::new(Barrier::new(2));
    let b2 = bar.clone();
    let h = std::thread::Builder::new().name("x".into()).spawn(move || b2.wait().is_leader()).unwrap();
    let a = bar.wait().is_leader();
    assert!(a != h.join().unwrap());
    let _ = t0.elapsed() < Duration::from_secs(1);
    let w = Arc::downgrade(&bar);
    assert_eq!(w.strong_count(), 1);
    assert!(Arc::try_unwrap(bar).is_ok());
    assert!(w.upgrade().is_none());
    let r = std::panic::catch_unwind(|| std::thread::spawn(|| if true { panic!("p") }).join().is_err());
    assert!(r.unwrap());
}
