//! A clock that a check can set, for its own thread.
//!
//! The standard library reads the clocks with `clock_gettime`; this definition takes the place of the one in libc.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static READ: Cell<u64> = const { Cell::new(0) };
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

unsafe extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if id == 0 && let Ok(Some((sec, nsec))) = NOW.try_with(|n| n.get()) {
        let _ = READ.try_with(|r| r.set(r.get() + 1));
        unsafe { ts.write(Timespec { sec, nsec }) };
        return 0;
    }
    unsafe { syscall(228, id as i64, ts) as i32 }
}

/// Runs `f` at a time given in seconds since 1970 and nanoseconds.
pub fn at<X>(sec: i64, nsec: u32, f: impl FnOnce() -> X) -> X {
    struct Reset(Option<(i64, i64)>);
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|n| n.set(self.0));
        }
    }
    let _reset = Reset(NOW.with(|n| n.replace(Some((sec, nsec as i64)))));
    f()
}

/// Whether the clock can be set.
pub fn works() -> bool {
    at(86400, 0, || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok_and(|d| d.as_secs() == 86400))
}
