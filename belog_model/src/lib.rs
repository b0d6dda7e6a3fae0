//! A logger that keeps what is logged.
use std::cell::UnsafeCell;

struct Kept(UnsafeCell<Vec<String>>);
unsafe impl Sync for Kept {}
static KEPT: Kept = Kept(UnsafeCell::new(Vec::new()));

impl log::Log for Kept {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = r.args().to_string();
        unsafe { (*self.0.get()).push(s) }
    }
    fn flush(&self) {}
}

pub fn init() {
    // natively there may be a run before this one
    let _ = log::set_logger(&KEPT);
    log::set_max_level(log::LevelFilter::Trace);
}
/// What has been logged since this was last asked.
pub fn take() -> Vec<String> {
    unsafe { std::mem::take(&mut *KEPT.0.get()) }
}
