//! Counting allocator: live bytes, peak, number and volume of allocations of the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

extern "C" {
    fn _exit(code: i32) -> !;
}

static PERTURB: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}

/// On average every `n`th allocation gives way to another thread or waits a little; 0: never.
pub fn perturb(n: u32) {
    PERTURB.store(n, Relaxed);
}

static ARMED: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static POINTS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTION: Cell<Option<fn() -> u64>> = const { Cell::new(None) };
}

/// Calls `f` when this thread has allocated or freed `n` times from now; `f` must not allocate. What it returns is the
/// number at which it is called again.
pub fn arm(n: u64, f: fn() -> u64) {
    POINTS.with(|p| p.set(0));
    NEXT.with(|p| p.set(n));
    ACTION.with(|a| a.set(Some(f)));
    ARMED.fetch_add(1, Relaxed);
}

/// Ends it; the number of allocations and frees since.
pub fn disarm() -> u64 {
    ARMED.fetch_sub(1, Relaxed);
    ACTION.with(|a| a.set(None));
    POINTS.with(|p| p.get())
}

fn act() {
    let _ = POINTS.try_with(|p| {
        let n = p.get() + 1;
        p.set(n);
        NEXT.with(|x| {
            if n >= x.get() {
                x.set(u64::MAX);
                if let Some(f) = ACTION.with(|a| a.get()) {
                    x.set(f());
                }
            }
        });
    });
}

fn disturb() {
    if ARMED.load(Relaxed) > 0 {
        act();
    }
    let n = PERTURB.load(Relaxed) as u64;
    if n == 0 {
        return;
    }
    let _ = STATE.try_with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = s as *const _ as u64 | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        if x % n == 0 {
            match (x >> 20) % 16 {
                0 => std::thread::sleep(std::time::Duration::from_micros((x >> 32) % 200)),
                1..=5 => {
                    for _ in 0..(x >> 32) % 4000 {
                        std::hint::spin_loop();
                    }
                }
                _ => std::thread::yield_now(),
            }
        }
    });
}

fn add(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(live, Relaxed);
    TOTAL.fetch_add(n, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    if live > CAP.load(Relaxed) {
        unsafe { _exit(crate::sup::EXIT_MEMORY) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        disturb();
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        disturb();
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        disturb();
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            add(n);
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub live: usize,
    pub total: usize,
    pub count: usize,
}

pub fn snap() -> Snap {
    Snap {
        live: LIVE.load(Relaxed),
        total: TOTAL.load(Relaxed),
        count: COUNT.load(Relaxed),
    }
}

/// Starts a new peak measurement and returns the current live bytes.
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}

pub fn peak() -> usize {
    PEAK.load(Relaxed)
}

pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}
