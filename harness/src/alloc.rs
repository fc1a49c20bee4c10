//! Counting allocator: live and peak bytes, bytes and calls, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// A single request beyond this fails (the process aborts and the parent
/// reports the case), so a hostile size cannot take the sandbox down.
const MAX_ONE: usize = 3 << 30;

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        TOTAL.with(|t| t.set(t.get() + n as u64));
        CALLS.with(|t| t.set(t.get() + 1));
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ONE {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ONE {
            return std::ptr::null_mut();
        }
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub peak: u64,
    pub total: u64,
    pub calls: u64,
}

pub struct Meter {
    base: i64,
    total: u64,
    calls: u64,
}
pub fn start() -> Meter {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    Meter {
        base,
        total: TOTAL.with(|t| t.get()),
        calls: CALLS.with(|t| t.get()),
    }
}
impl Meter {
    pub fn read(&self) -> Usage {
        Usage {
            peak: (PEAK.with(|p| p.get()) - self.base).max(0) as u64,
            total: TOTAL.with(|t| t.get()) - self.total,
            calls: CALLS.with(|t| t.get()) - self.calls,
        }
    }
}
