//! File-system calls of this process pass through here (the definitions below take precedence over libc's), so that a
//! thread can make its k-th call fail, stop short, or be the last thing its "process" ever does.
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the call fails with this errno and has no effect
    Fail(i32),
    /// a write stores only this many bytes and reports that
    Short(usize),
    /// a write stores only this many bytes, then every later write fails with this errno
    FailAfter(usize, i32),
    /// the process dies after this many bytes of the write (0: before the call takes effect)
    Crash(usize),
    /// the process dies right after the call took effect
    CrashAfter,
    /// the power fails right after the call took effect: of what was written to files since they were last synced,
    /// this many halves survive
    PowerAfter(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Call {
    pub kind: &'static str,
    pub len: usize,
}

const MAX: usize = 4096;
struct St {
    on: Cell<bool>,
    fds: [Cell<i32>; 16],
    /// files opened for writing: number, a second descriptor, length that is safe from a power failure
    dirty: [Cell<(i32, i32, i64)>; 16],
    n: Cell<usize>,
    log: [Cell<Call>; MAX],
    at: Cell<usize>,
    fault: Cell<Option<Fault>>,
    /// no call has an effect any more
    dead: Cell<bool>,
    /// writes fail from now on
    full: Cell<i32>,
    /// limit on the size of each read
    read_limit: Cell<usize>,
    fired: Cell<bool>,
}
const NOFD: Cell<i32> = Cell::new(-1);
const NODIRTY: Cell<(i32, i32, i64)> = Cell::new((-1, -1, 0));
const NOCALL: Cell<Call> = Cell::new(Call { kind: "", len: 0 });
thread_local! {
    static ST: St = const {
        St {
            on: Cell::new(false), fds: [NOFD; 16], dirty: [NODIRTY; 16], n: Cell::new(0), log: [NOCALL; MAX], at: Cell::new(0),
            fault: Cell::new(None), dead: Cell::new(false), full: Cell::new(0), read_limit: Cell::new(0), fired: Cell::new(false),
        }
    };
}

/// Runs `f` with the `at`-th call (writes to files opened by `f`, opens, renames, ...) replaced by `fault`.
/// Returns the calls made and whether the fault was reached.
pub fn with<T>(at: usize, fault: Option<Fault>, read_limit: usize, f: impl FnOnce() -> T) -> (T, Vec<Call>, bool) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ST.with(|s| {
                s.on.set(false);
                for c in s.dirty.iter().filter(|c| c.get().1 >= 0) {
                    unsafe { libc::syscall(libc::SYS_close, c.get().1) };
                    c.set((-1, -1, 0));
                }
            })
        }
    }
    ST.with(|s| {
        s.fds.iter().for_each(|c| c.set(-1));
        s.n.set(0);
        s.at.set(at);
        s.fault.set(fault);
        s.dead.set(false);
        s.full.set(0);
        s.read_limit.set(read_limit);
        s.fired.set(false);
        s.on.set(true);
    });
    let off = Off;
    let r = f();
    drop(off);
    ST.with(|s| (r, (0..s.n.get().min(MAX)).map(|i| s.log[i].get()).collect(), s.fired.get()))
}

unsafe fn fail(e: i32) -> libc::c_long {
    *libc::__errno_location() = e;
    -1
}

/// One call: `go(limit)` performs it for real, on at most `limit` bytes.
unsafe fn call(kind: &'static str, len: usize, fd: i32, go: &dyn Fn(usize) -> libc::c_long) -> libc::c_long {
    ST.try_with(|s| {
        if !s.on.get() || (fd >= 0 && !s.fds.iter().any(|c| c.get() == fd)) {
            return go(len);
        }
        if s.dead.get() {
            return fail(libc::EIO);
        }
        let i = s.n.get();
        s.n.set(i + 1);
        if i < MAX {
            s.log[i].set(Call { kind, len });
        }
        if kind == "write" && s.full.get() != 0 {
            return fail(s.full.get());
        }
        if i == s.at.get() {
            if let Some(f) = s.fault.get() {
                s.fired.set(true);
                match f {
                    Fault::Fail(e) => return fail(e),
                    Fault::Short(n) => return go(n.min(len)),
                    Fault::FailAfter(n, e) => {
                        s.full.set(e);
                        return if n == 0 { fail(e) } else { go(n.min(len)) };
                    }
                    Fault::Crash(n) => {
                        s.dead.set(true);
                        if n > 0 {
                            go(n.min(len));
                        }
                        return fail(libc::EIO);
                    }
                    Fault::CrashAfter => {
                        s.dead.set(true);
                        go(len);
                        return fail(libc::EIO);
                    }
                    Fault::PowerAfter(halves) => {
                        s.dead.set(true);
                        go(len);
                        for c in s.dirty.iter().filter(|c| c.get().1 >= 0) {
                            let (_, fd, safe) = c.get();
                            let now = size(fd);
                            if now > safe {
                                libc::syscall(libc::SYS_ftruncate, fd, safe + (now - safe) * halves as i64 / 2);
                            }
                        }
                        return fail(libc::EIO);
                    }
                }
            }
        }
        go(len)
    })
    .unwrap_or_else(|_| go(len))
}

unsafe fn size(fd: i32) -> i64 {
    libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_END)
}

/// `fd` was opened for writing: remembers it under a descriptor of its own (with its own offset), whatever it is renamed to.
unsafe fn watch(fd: i32) {
    let _ = ST.try_with(|s| {
        if fd >= 0 && s.on.get() && !s.dead.get() {
            if let Some(c) = s.dirty.iter().find(|c| c.get().1 < 0) {
                let p = format!("/proc/self/fd/{}\0", fd);
                let own = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC, 0) as i32;
                if own >= 0 {
                    c.set((fd, own, size(own)));
                }
            }
        }
    });
}

unsafe fn synced(fd: i32) {
    let _ = ST.try_with(|s| {
        for c in s.dirty.iter().filter(|c| c.get().1 >= 0 && c.get().0 == fd) {
            let (_, own, _) = c.get();
            c.set((fd, own, size(own)));
        }
    });
}

unsafe fn opened(fd: libc::c_long) -> i32 {
    if fd >= 0 {
        let _ = ST.try_with(|s| {
            if s.on.get() {
                if let Some(c) = s.fds.iter().find(|c| c.get() == -1) {
                    c.set(fd as i32)
                }
            }
        });
    }
    fd as i32
}

use libc::{c_char, c_int, c_long, c_void, mode_t, size_t, ssize_t};

/// Opening for reading changes nothing on disk.
unsafe fn open_impl(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let kind = if flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) == 0 { "open for reading" } else { "open" };
    let fd = opened(call(kind, 0, -1, &|_| libc::syscall(libc::SYS_openat, dir, p, flags, mode as c_long)));
    if kind == "open" && flags & libc::O_DSYNC == 0 {
        watch(fd);
    }
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = ST.try_with(|s| {
        s.fds.iter().filter(|c| c.get() == fd).for_each(|c| c.set(-1));
        s.dirty.iter().filter(|c| c.get().0 == fd).for_each(|c| c.set((-1, c.get().1, c.get().2)));
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    call("write", n, fd, &|m| libc::syscall(libc::SYS_write, fd, b, m)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: i64) -> ssize_t {
    call("write", n, fd, &|m| libc::syscall(libc::SYS_pwrite64, fd, b, m, o)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    let total: usize = (0..n as usize).map(|i| (*v.add(i)).iov_len).sum();
    call("write", total, fd, &|m| {
        if m == total {
            libc::syscall(libc::SYS_writev, fd, v, n)
        } else {
            // a short one: the first buffers only
            let first = &*v;
            libc::syscall(libc::SYS_write, fd, first.iov_base, m.min(first.iov_len))
        }
    }) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let lim = ST.try_with(|s| if s.on.get() && s.fds.iter().any(|c| c.get() == fd) && s.read_limit.get() > 0 { s.read_limit.get() } else { n }).unwrap_or(n);
    let n = n.min(lim);
    call("read", n, fd, &|m| libc::syscall(libc::SYS_read, fd, b, m)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    call("rename", 0, -1, &|_| libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a, libc::AT_FDCWD, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    call("unlink", 0, -1, &|_| libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: c_int) -> c_int {
    call("link", 0, -1, &|_| libc::syscall(libc::SYS_linkat, d1, a, d2, b, f)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    call("truncate", 0, fd, &|_| libc::syscall(libc::SYS_ftruncate, fd, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    call("sync", 0, fd, &|_| {
        let r = libc::syscall(libc::SYS_fsync, fd);
        if r == 0 {
            synced(fd);
        }
        r
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    call("sync", 0, fd, &|_| {
        let r = libc::syscall(libc::SYS_fdatasync, fd);
        if r == 0 {
            synced(fd);
        }
        r
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: size_t, f: u32) -> ssize_t {
    call("write", n, b, &|m| libc::syscall(libc::SYS_copy_file_range, a, oa, b, ob, m, f)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    call("write", n, o, &|m| libc::syscall(libc::SYS_sendfile, o, i, off, m)) as ssize_t
}
