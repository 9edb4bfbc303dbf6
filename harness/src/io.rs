//! Faults of opening and reading files, by standing in for the C library's functions. A thread that has not asked for
//! faults gets what the system gives.
use std::cell::Cell;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// every read gives at most this many bytes
    Pieces(usize),
    /// every `n`th call is interrupted by a signal; reads give at most 100 bytes
    Interrupted(u64),
    /// the read of this number fails, and so do the later ones unless it is once
    Read(u64, c_int, bool),
    /// the opening of this number fails
    Open(u64, c_int, bool),
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Seen {
    pub opens: u64,
    pub reads: u64,
    /// calls that were given an error
    pub failed: u64,
    pub bytes: u64,
    /// reads that told the end of a file
    pub ends: u64,
}

thread_local! {
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static SEEN: Cell<Seen> = const { Cell::new(Seen { opens: 0, reads: 0, failed: 0, bytes: 0, ends: 0 }) };
    static ON: Cell<bool> = const { Cell::new(false) };
}

pub fn during<T>(f: Fault, run: impl FnOnce() -> T) -> (T, Seen) {
    FAULT.with(|x| x.set(f));
    SEEN.with(|x| x.set(Seen::default()));
    ON.with(|x| x.set(true));
    let r = run();
    ON.with(|x| x.set(false));
    (r, SEEN.with(|x| x.get()))
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_READ: c_long = 0;
const SYS_OPENAT: c_long = 257;
const AT_FDCWD: c_int = -100;
const EINTR: c_int = 4;

fn change(f: impl FnOnce(&mut Seen)) -> Seen {
    SEEN.with(|x| {
        let mut s = x.get();
        f(&mut s);
        x.set(s);
        s
    })
}

unsafe fn fail(e: c_int) -> isize {
    change(|s| s.failed += 1);
    *__errno_location() = e;
    -1
}

unsafe fn reading(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !ON.try_with(|x| x.get()).unwrap_or(false) {
        return syscall(SYS_READ, fd, buf, n) as isize;
    }
    let s = change(|s| s.reads += 1);
    let mut max = n;
    match FAULT.with(|f| f.get()) {
        Fault::Pieces(k) => max = k.min(n),
        Fault::Interrupted(k) => {
            max = n.min(100);
            if s.reads % k == 0 {
                return fail(EINTR);
            }
        }
        Fault::Read(k, e, once) => {
            // small pieces, so that there are several places where it can fail
            max = n.min(64);
            if s.reads == k || (s.reads > k && !once) {
                return fail(e);
            }
        }
        _ => {}
    }
    let r = syscall(SYS_READ, fd, buf, max) as isize;
    change(|s| {
        if r > 0 {
            s.bytes += r as u64;
        } else if r == 0 && max > 0 {
            s.ends += 1;
        }
    });
    r
}

unsafe fn opening(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ON.try_with(|x| x.get()).unwrap_or(false) {
        let s = change(|s| s.opens += 1);
        match FAULT.with(|f| f.get()) {
            Fault::Open(k, e, once) if s.opens == k || (s.opens > k && !once) => return fail(e) as c_int,
            _ => {}
        }
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int
}

#[cfg(all(not(miri), not(vmon_tsan), target_arch = "x86_64"))]
#[allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod stand_ins {
    use super::*;
    #[no_mangle]
    unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
        reading(fd, buf, n)
    }
    #[no_mangle]
    unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
        opening(path, flags, mode)
    }
}
