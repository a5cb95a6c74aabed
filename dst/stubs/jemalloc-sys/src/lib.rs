use std::os::raw::{c_char, c_void};
pub type WriteCb = Option<unsafe extern "C" fn(*mut c_void, *const c_char)>;
#[allow(clippy::missing_safety_doc)]
pub unsafe fn malloc_stats_print(_cb: Option<extern "C" fn(*mut c_void, *const c_char)>, _p: *mut c_void, _o: *const c_char) {}
