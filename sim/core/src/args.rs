//! The program arguments a simulated process sees.
use std::sync::atomic::{AtomicUsize, Ordering};

static ARGV: AtomicUsize = AtomicUsize::new(0);
static ARGC: AtomicUsize = AtomicUsize::new(0);

extern "C" fn capture(argc: i32, argv: *const *const u8, _env: *const *const u8) {
    ARGC.store(argc as usize, Ordering::SeqCst);
    ARGV.store(argv as usize, Ordering::SeqCst);
}
#[used]
#[link_section = ".init_array.00001"]
static INIT: extern "C" fn(i32, *const *const u8, *const *const u8) = capture;

/// Overwrite argv in place: the standard library reads it up to the first null.
pub fn set(args: &[String]) {
    let argv = ARGV.load(Ordering::SeqCst) as *mut *const u8;
    let argc = ARGC.load(Ordering::SeqCst);
    assert!(argc > args.len(), "not enough placeholder arguments");
    unsafe {
        for (i, a) in args.iter().enumerate() {
            let c = std::ffi::CString::new(a.as_str()).unwrap();
            *argv.add(i) = c.into_raw() as *const u8;
        }
        *argv.add(args.len()) = std::ptr::null();
    }
}
