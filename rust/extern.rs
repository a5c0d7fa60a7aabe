extern "C" {
    pub fn wtr_watcher_open(
        path: *const ::std::os::raw::c_char,
        callback: wtr_watcher_callback,
        context: *mut ::std::os::raw::c_void,
    ) -> *mut ::std::os::raw::c_void;
}
extern "C" {
    pub fn wtr_watcher_close(watcher: *mut ::std::os::raw::c_void) -> bool;
}
