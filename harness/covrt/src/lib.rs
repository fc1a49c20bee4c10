//! Run-time side of the edge instrumentation (`-C passes=sancov-module`,
//! `trace-pc-guard`) that `tools/rustc-wrap.sh` adds to the crate under test.
//!
//! Two uses, both deterministic:
//!  * a work meter: the number of edges executed by this thread since `reset`;
//!    past `HARD_BUDGET` the process ends with `EXIT_BUDGET`, so a
//!    non-terminating parse is reported by count and not by wall clock;
//!  * an edge map, for coverage-guided input generation.
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const MAP: usize = 1 << 16;
pub const EXIT_BUDGET: i32 = 70;
static NEXT: AtomicU32 = AtomicU32::new(0);
pub static HARD_BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
/// Shard whose budget ran out (read by the parent through the exit status file).
pub static BLOWN: AtomicU32 = AtomicU32::new(u32::MAX);

struct Map(UnsafeCell<[u8; MAP]>);
thread_local! {
    static EDGES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static SHARD: Cell<u32> = const { Cell::new(0) };
    static COUNT_MAP: Cell<bool> = const { Cell::new(false) };
    static COV: Map = const { Map(UnsafeCell::new([0; MAP])) };
}

pub fn set_shard(i: u32) {
    SHARD.with(|s| s.set(i));
}
pub fn reset() {
    EDGES.with(|e| e.set(0));
    LIMIT.with(|l| l.set(HARD_BUDGET.load(Ordering::Relaxed)));
}
pub fn edges() -> u64 {
    EDGES.with(|e| e.get())
}
pub fn enable_map(on: bool) {
    COUNT_MAP.with(|c| c.set(on));
}
pub fn clear_map() {
    COV.with(|m| unsafe { (*m.0.get()).fill(0) });
}
pub fn with_map<R>(f: impl FnOnce(&mut [u8; MAP]) -> R) -> R {
    COV.with(|m| f(unsafe { &mut *m.0.get() }))
}
/// Number of instrumented edges in the process (0: instrumentation is missing).
pub fn total_edges() -> u32 {
    NEXT.load(Ordering::Relaxed)
}

/// # Safety
/// Called by the compiler-inserted constructor with the bounds of a guard array.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = NEXT.fetch_add(1, Ordering::Relaxed) + 1;
        p = p.add(1);
    }
}

/// # Safety
/// Called by compiler-inserted code with a pointer to an initialised guard.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let n = EDGES.with(|e| {
        let n = e.get() + 1;
        e.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        blown();
    }
    if COUNT_MAP.with(|c| c.get()) {
        COV.with(|m| {
            let c = &mut (*m.0.get())[(*guard as usize) & (MAP - 1)];
            *c = c.saturating_add(1);
        });
    }
}

#[cold]
fn blown() -> ! {
    BLOWN.store(SHARD.with(|s| s.get()), Ordering::SeqCst);
    let msg = format!("BUDGET shard={}\n", SHARD.with(|s| s.get()));
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::_exit(EXIT_BUDGET + 0)
    }
}
