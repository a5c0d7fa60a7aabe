//! The binding over a C library made up in Rust, so that the whole of it can be interpreted (by
//! Miri), which sees every use of freed or shared memory. Argument: seed.
use futures::Stream;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use wtr_watcher::Watch;

// as in watcher_c_made_up.rs
fn expected(i: usize) -> (i64, String, Option<String>, i8, i8) {
    (i as i64 * 1234567890123 - 5, format!("/p/é{i}"), (i % 3 == 0).then(|| format!("/q/{i}")), (i % 6) as i8, (i / 2 % 6) as i8)
}
struct Used { w: Watch, n: usize }
impl Used {
    fn poll(&mut self) -> bool {
        let mut cx = Context::from_waker(Waker::noop());
        match Pin::new(&mut self.w).poll_next(&mut cx) {
            Poll::Ready(Some(e)) => {
                let (t, p, a, et, pt) = expected(self.n);
                let ets = ["Rename", "Modify", "Create", "Destroy", "Owner", "Other"];
                let pts = ["Dir", "File", "HardLink", "SymLink", "Watcher", "Other"];
                assert_eq!((e.effect_time, e.path_name, e.associated_path_name, format!("{:?}", e.effect_type), format!("{:?}", e.path_type)), (t, p, a, ets[et as usize].to_string(), pts[pt as usize].to_string()));
                self.n += 1;
                true
            }
            _ => false,
        }
    }
}
fn main() {
    let mut s: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rnd = move |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    let mut live: Vec<Used> = vec![];
    let (mut events, mut closes) = (0, 0);
    for _ in 0..60 {
        match rnd(8) {
            0 | 1 | 2 => live.push(Used { w: Watch::try_new(&rnd(30).to_string()).unwrap(), n: 0 }),
            3 if !live.is_empty() => { let i = rnd(live.len() as u64) as usize; let w = live.swap_remove(i); events += w.n; drop(w) }
            4 if !live.is_empty() => { // close, and again
                let i = rnd(live.len() as u64) as usize;
                let mut w = live.swap_remove(i);
                assert!(w.w.close().is_ok());
                for _ in 0..rnd(3) { assert!(w.w.close().is_err()); w.poll(); }
                while w.poll() {}
                events += w.n; closes += 1;
                if rnd(4) == 0 { std::mem::forget(w.n) }
            }
            5 if live.len() > 1 => { let n = live.len(); live.swap(0, n - 1) }
            6 => { let b: Box<[Used]> = std::mem::take(&mut live).into_boxed_slice(); live = b.into_vec() }
            _ => for w in live.iter_mut() { for _ in 0..rnd(10) { w.poll(); } },
        }
    }
    for w in &mut live { while w.poll() {} events += w.n }
    drop(live);
    println!("I {events} {closes}");
}
