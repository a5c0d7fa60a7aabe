//! Uses the binding; writes a record of what it yields to stdout. Arguments: seed rounds scratch mutator.
use futures::Stream;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use wtr_watcher::{EffectType, Event, PathType, Watch};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

struct Rng(u64);
impl Rng {
    fn n(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
    fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len() as u64) as usize] }
}
struct Unpark(std::thread::Thread, AtomicBool);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) { self.1.store(true, Ordering::SeqCst); self.0.unpark(); }
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
struct Used { id: u64, w: Option<Watch>, n: u64 }
struct Drive { opened: u64, rng: Rng, scratch: String, mutator: String }

fn record(id: u64, e: &Event) {
    // the names of the variants, and that they are of these types
    let (et, pt): (&EffectType, &PathType) = (&e.effect_type, &e.path_type);
    let a = e.associated_path_name.as_ref().map(|a| format!("x{}", hex(a))).unwrap_or("-".into());
    writeln!(std::io::stdout().lock(), "E {id} {} {et:?} {pt:?} x{} {a}", e.effect_time, hex(&e.path_name)).unwrap();
}
/// Until the C library delivered all of a made-up watch's events.
fn delivered(id: u64) {
    use std::io::{Read, Seek, SeekFrom};
    let (start, line) = (Instant::now(), format!("Q {id}\n"));
    while start.elapsed() < Duration::from_secs(20) {
        let mut end = String::new();
        if let Ok(mut f) = std::fs::File::open(std::env::var("VP_LOG").unwrap()) {
            let _ = f.seek(SeekFrom::End(-(line.len() as i64)));
            let _ = f.read_to_string(&mut end);
        }
        if end == line { return }
        std::thread::sleep(Duration::from_millis(5));
    }
}
impl Used {
    /// Polls, sleeping until woken, until n events came or nothing happens for a long time.
    fn until(&mut self, n: u64) {
        let flag = Arc::new(Unpark(std::thread::current(), AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let mut start = Instant::now(); // of nothing happening
        while self.n < n && start.elapsed() < Duration::from_secs(20) {
            flag.1.store(false, Ordering::SeqCst);
            match Pin::new(self.w.as_mut().unwrap()).poll_next(&mut cx) {
                Poll::Ready(Some(e)) => { self.n += 1; record(self.id, &e); start = Instant::now() }
                Poll::Ready(None) => { println!("N {}", self.id); return }
                Poll::Pending => while !flag.1.load(Ordering::SeqCst) && start.elapsed() < Duration::from_secs(20) { std::thread::park_timeout(Duration::from_millis(500)) }
            }
        }
        if self.n < n { println!("T {} {}", self.id, n); }
    }
    /// What is there, without waiting.
    fn now(&mut self) {
        let mut cx = Context::from_waker(Waker::noop());
        loop {
            match Pin::new(self.w.as_mut().unwrap()).poll_next(&mut cx) {
                Poll::Ready(Some(e)) => { self.n += 1; record(self.id, &e) }
                Poll::Ready(None) => { println!("N {}", self.id); return }
                Poll::Pending => return,
            }
        }
    }
    fn close(&mut self) { println!("C {} {}", self.id, self.w.as_ref().unwrap().close().is_ok() as u8) }
    fn all(&mut self) { self.now(); println!("A {}", self.id) }
}
impl Drive {
    fn open(&mut self, p: &str) -> Used {
        self.opened += 1;
        Used { id: self.opened, w: Some(Watch::try_new(p).expect("try_new")), n: 0 }
    }
    fn fake(&mut self, n: u64, flags: &str) -> Used { let p = format!("fake:{}:{n}:{flags}", self.rng.n(1000000000)); self.open(&p) }
    fn one(&mut self, kind: &str) {
        println!("K {kind}");
        match kind {
            "all" => {
                let n = *self.rng.of(&[0, 1, 50, 3000, 20000]);
                let f = *self.rng.of(&["u", "u", "x"]);
                let mut w = self.fake(n, f);
                w.until(n + 1);
                for _ in 0..1 + self.rng.n(3) { w.close() }
                w.all();
                if self.rng.n(2) == 0 { w.close(); w.all(); }
            }
            "late" => { // everything piles up before the first poll
                let few = 1 + self.rng.n(5000);
                let n = *self.rng.of(&[few, 20000, 60000]);
                let mut w = self.fake(n, "u");
                if n == few { std::thread::sleep(Duration::from_millis(self.rng.n(60))) } else { delivered(w.id) }
                if self.rng.n(2) == 0 { w.until(n + 1) }
                w.close(); w.all();
            }
            "early" => {
                let mut w = self.fake(50000, "u");
                if self.rng.n(2) == 0 { let n = self.rng.n(100); w.until(n) }
                w.close();
                if self.rng.n(2) == 0 { w.all() }
                if self.rng.n(2) == 0 { w.close() }
            }
            "drop" => {
                let f = *self.rng.of(&["u", "us", "ud"]);
                let n = *self.rng.of(&[0, 20000]);
                let mut w = self.fake(n, f);
                if self.rng.n(2) == 0 { w.until(1) }
                drop(w)
            }
            "moved" => {
                let n = 1 + self.rng.n(500);
                let (mut a, mut b) = (self.fake(n, "us"), self.fake(n, "u"));
                a.until(n / 2);
                let mut v: Vec<Used> = Vec::with_capacity(1);
                v.push(a);
                for _ in 0..9 { let w = self.fake(3, "u"); v.push(w) }
                std::mem::swap(&mut v[0], &mut b);
                v.reverse();
                b.until(n + 1);
                let boxed = Box::new(v.pop().unwrap());
                let mut c = *boxed;
                c.until(n + 1);
                c.close(); b.close(); c.all(); b.all();
                for mut w in v.drain(..) { if self.rng.n(2) == 0 { w.until(4); w.close(); w.all() } }
            }
            "dies" => { let n = self.rng.n(100); let mut w = self.fake(n, "ud"); w.until(n + 2); w.close(); w.close(); w.all() }
            "real" => {
                let d = format!("{}/d{}{}", self.scratch, self.opened, self.rng.of(&["", "é世", " b"]));
                std::fs::create_dir(&d).unwrap();
                let mut w = self.open(&d);
                w.until(1);
                let n = 20 + self.rng.n(100);
                let s = self.rng.n(1000000);
                let mut c = std::process::Command::new("python3").args([&self.mutator, &d, &n.to_string(), &s.to_string()]).env_remove("LD_PRELOAD").spawn().unwrap();
                while c.try_wait().unwrap().is_none() { w.now(); std::thread::sleep(Duration::from_millis(2)) }
                std::thread::sleep(Duration::from_millis(30));
                if self.rng.n(2) == 0 { w.now() }
                w.close(); w.all();
            }
            "bad" => {
                let mut w = self.open(&format!("{}/no/such", self.scratch));
                w.until(2); w.close(); w.close(); w.all();
                if Watch::try_new("a\0b").is_ok() { println!("Z"); self.opened += 1 }
            }
            "never" => { let mut w = self.fake(10, "u"); if self.rng.n(2) == 0 { w.close(); } }
            _ => unreachable!(),
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut d = Drive { opened: 0, rng: Rng(a[1].parse().unwrap()), scratch: a[3].clone(), mutator: a[4].clone() };
    let kinds = ["all", "late", "early", "drop", "moved", "dies", "real", "bad", "never"];
    for i in 0..a[2].parse::<usize>().unwrap() { d.one(kinds[i % kinds.len()]) }
    let cycle = |d: &mut Drive| for k in ["early", "drop", "moved", "dies", "bad", "never"] { d.one(k) };
    cycle(&mut d);
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..4 { cycle(&mut d) }
    println!("B {}", LIVE.load(Ordering::SeqCst) - before);
    println!("D");
}
