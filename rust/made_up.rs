// A C library made up in Rust: for a path "n", n events.
mod made_up {
    use super::*;
    use std::collections::HashMap;
    use std::ffi::{c_char, c_void, CStr, CString};
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex, OnceLock};
    struct Ctx(*mut c_void);
    unsafe impl Send for Ctx {}
    struct Open { stop: Arc<AtomicBool>, th: std::thread::JoinHandle<()> }
    static IDS: AtomicUsize = AtomicUsize::new(0);
    fn all() -> &'static Mutex<HashMap<usize, Open>> { static A: OnceLock<Mutex<HashMap<usize, Open>>> = OnceLock::new(); A.get_or_init(Default::default) }
    // as in interpreted.rs
    fn expected(i: usize) -> (i64, String, Option<String>, i8, i8) {
        (i as i64 * 1234567890123 - 5, format!("/p/é{i}"), (i % 3 == 0).then(|| format!("/q/{i}")), (i % 6) as i8, (i / 2 % 6) as i8)
    }
    pub unsafe extern "C" fn wtr_watcher_open(path: *const c_char, cb: wtr_watcher_callback, cx: *mut c_void) -> *mut c_void {
        let n: usize = CStr::from_ptr(path).to_str().unwrap().parse().unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let (s, cx) = (stop.clone(), Ctx(cx));
        let th = std::thread::spawn(move || {
            let cx = cx;
            for i in 0..n {
                if s.load(Ordering::Relaxed) { break }
                let (t, p, a, et, pt) = expected(i);
                let (p, a) = (CString::new(p).unwrap(), a.map(|a| CString::new(a).unwrap()));
                cb.unwrap()(wtr_watcher_event { effect_time: t, path_name: p.as_ptr(), associated_path_name: a.as_ref().map_or(core::ptr::null(), |a| a.as_ptr()), effect_type: et, path_type: pt }, cx.0);
            }
        });
        let id = IDS.fetch_add(1, Ordering::Relaxed) + 1;
        all().lock().unwrap().insert(id, Open { stop, th });
        id as *mut c_void
    }
    pub unsafe extern "C" fn wtr_watcher_close(w: *mut c_void) -> bool {
        let o = all().lock().unwrap().remove(&(w as usize));
        match o {
            Some(o) => { o.stop.store(true, Ordering::Relaxed); o.th.join().unwrap(); true }
            None => false,
        }
    }
}
pub use made_up::{wtr_watcher_close, wtr_watcher_open};
