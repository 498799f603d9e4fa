//! Counting, fault-injecting global allocator (per thread accounting).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

#[derive(Debug)]
pub struct Meter;

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub live_bytes: i64,
    pub live_blocks: i64,
    pub requests: u64,
    pub peak: i64,
    /// Largest single request.
    pub largest: usize,
    /// Fail the request with this ordinal (0: never).
    pub fail_at: u64,
    /// Keep failing after `fail_at`.
    pub persistent: bool,
    pub failures: u64,
}

thread_local! {
    static STATS: Cell<Stats> = const { Cell::new(Stats {
        live_bytes: 0, live_blocks: 0, requests: 0, peak: 0, largest: 0,
        fail_at: 0, persistent: false, failures: 0,
    }) };
}

/// Single requests above this are refused, so runaway sizes fail fast.
pub const MAX_REQUEST: usize = 1 << 30;
/// A thread holding more than this is refused further memory.
pub const MAX_LIVE: i64 = 3 << 30;

pub fn get() -> Stats {
    STATS.with(Cell::get)
}
fn update<R>(f: impl FnOnce(&mut Stats) -> R) -> R {
    STATS.with(|s| {
        let mut v = s.get();
        let r = f(&mut v);
        s.set(v);
        r
    })
}
pub fn reset_peak() {
    update(|s| {
        s.peak = s.live_bytes;
        s.largest = 0;
    });
}
/// Restarts the request count and arms a failure at the `nth` request from now.
pub fn arm(nth: u64, persistent: bool) {
    update(|s| {
        s.requests = 0;
        s.failures = 0;
        s.fail_at = nth;
        s.persistent = persistent;
    });
}
pub fn disarm() -> Stats {
    update(|s| {
        s.fail_at = 0;
        s.persistent = false;
        *s
    })
}

fn admit(size: usize, grows: bool) -> bool {
    STATS
        .try_with(|c| {
            let mut s = c.get();
            s.requests += 1;
            s.largest = s.largest.max(size);
            let fail = s.fail_at != 0
                && (s.requests == s.fail_at || (s.persistent && s.requests >= s.fail_at));
            let too_big = grows && (size > MAX_REQUEST || s.live_bytes > MAX_LIVE);
            if fail {
                s.failures += 1;
            }
            c.set(s);
            !fail && !too_big
        })
        .unwrap_or(true)
}
thread_local! {
    static ACCOUNT: Cell<*const AtomicI64> = const { Cell::new(std::ptr::null()) };
}
/// While `f` runs, this thread's memory also counts towards `account`, which
/// any number of threads may share.
pub fn on_account<R>(account: &AtomicI64, f: impl FnOnce() -> R) -> R {
    struct Back(*const AtomicI64);
    impl Drop for Back {
        fn drop(&mut self) {
            ACCOUNT.with(|c| c.set(self.0));
        }
    }
    let _back = Back(ACCOUNT.with(|c| c.replace(account)));
    f()
}

fn note(bytes: i64, blocks: i64) {
    let _ = ACCOUNT.try_with(|c| {
        if let Some(a) = unsafe { c.get().as_ref() } {
            a.fetch_add(bytes, Ordering::Relaxed);
        }
    });
    let _ = STATS.try_with(|c| {
        let mut s = c.get();
        s.live_bytes += bytes;
        s.live_blocks += blocks;
        s.peak = s.peak.max(s.live_bytes);
        c.set(s);
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !admit(layout.size(), true) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(layout) };
        if !p.is_null() {
            note(layout.size() as i64, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !admit(layout.size(), true) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(layout) };
        if !p.is_null() {
            note(layout.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unsafe { System.dealloc(ptr, layout) };
        note(-(layout.size() as i64), -1);
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // Giving some back is a request too: it may need another place.
        if !admit(new_size, new_size > layout.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.realloc(ptr, layout, new_size) };
        if !p.is_null() {
            note(new_size as i64 - layout.size() as i64, 0);
        }
        p
    }
}

#[global_allocator]
static METER: Meter = Meter;
