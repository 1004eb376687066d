//! Seams below the code under test: the clock and the disk, as libc functions that this program
//! defines itself. They are active on the thread of a run only, and only when asked for.
use std::cell::{Cell, RefCell};

// ---------------------------------------------------------------------------------------------
// Clock

thread_local! {
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static DISK_ON: Cell<bool> = const { Cell::new(false) };
    static DISK: RefCell<Disk> = const { RefCell::new(Disk::new()) };
}

const EPOCH_SECS: u64 = 1_750_000_000;

/// Simulated clock on this thread, starting at zero; every reading advances it by a microsecond.
pub fn clock_start() {
    CLOCK.with(|c| c.set(1_000_000_000));
}

pub fn clock_stop() {
    CLOCK.with(|c| c.set(0));
}

pub fn clock_advance(ms: u64) {
    crate::core::sim_time(ms);
    CLOCK.with(|c| {
        if c.get() != 0 {
            c.set(c.get() + ms * 1_000_000)
        }
    });
}

/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    let now = CLOCK.try_with(|c| c.get()).unwrap_or(0);
    if now == 0 || tp.is_null() {
        return libc::syscall(libc::SYS_clock_gettime, clk, tp) as libc::c_int;
    }
    let _ = CLOCK.try_with(|c| c.set(now + 1_000));
    let base = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => EPOCH_SECS,
        _ => 1_000,
    };
    (*tp).tv_sec = (base + now / 1_000_000_000) as libc::time_t;
    (*tp).tv_nsec = (now % 1_000_000_000) as _;
    0
}

// ---------------------------------------------------------------------------------------------
// Disk

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DiskFault {
    /// The process dies during the operation: a prefix of the write is on the disk, nothing after
    /// it ever gets there.
    Crash,
    /// The disk is full from here on; a prefix of the write fits.
    Full,
    /// This one operation fails and leaves nothing.
    Error,
}

#[derive(Debug)]
struct Disk {
    fault: Option<(u64, DiskFault)>,
    /// Decides where writes are cut.
    cut: u64,
    /// Every write may be cut short or interrupted, which callers must cope with.
    nasty: bool,
    dead: bool,
    full: bool,
    ops: u64,
    hit: bool,
    interrupted: bool,
}

impl Disk {
    const fn new() -> Self {
        Self { fault: None, cut: 0, nasty: false, dead: false, full: false, ops: 0, hit: false, interrupted: false }
    }
}

/// Start simulating the disk on this thread: the `n`-th changing operation from now suffers the
/// fault.
pub fn disk_start(fault: Option<(u64, DiskFault)>, cut: u64, nasty: bool) {
    DISK.with(|d| *d.borrow_mut() = Disk { fault, cut, nasty, ..Disk::new() });
    DISK_ON.with(|d| d.set(true));
}

pub struct DiskReport {
    /// Changing operations attempted.
    pub ops: u64,
    /// The fault struck.
    pub hit: bool,
    pub died: bool,
}

pub fn disk_stop() -> DiskReport {
    DISK_ON.with(|d| d.set(false));
    DISK.with(|d| {
        let d = d.borrow();
        DiskReport { ops: d.ops, hit: d.hit, died: d.dead }
    })
}

/// The simulated process has died at a disk operation.
pub fn disk_dead() -> bool {
    active() && DISK.with(|d| d.borrow().dead)
}

/// The simulated process is killed: whatever is left of it changes nothing on the disk any more.
pub fn disk_kill() {
    if active() {
        DISK.with(|d| d.borrow_mut().dead = true);
    }
}

enum Verdict {
    Real,
    /// Fail with this error.
    Fail(libc::c_int),
    /// Do this many bytes only; with an error: report it although they are written.
    Part(usize, Option<libc::c_int>),
}

fn active() -> bool {
    DISK_ON.try_with(|d| d.get()).unwrap_or(false)
}

fn verdict(len: Option<usize>) -> Verdict {
    DISK.try_with(|d| {
        let Ok(mut d) = d.try_borrow_mut() else { return Verdict::Real };
        if d.dead {
            return Verdict::Fail(libc::EIO);
        }
        d.ops += 1;
        let r = crate::core::mix(d.cut ^ crate::core::mix(d.ops));
        if let Some((n, kind)) = d.fault {
            if d.ops == n {
                d.hit = true;
                return match kind {
                    DiskFault::Crash => {
                        d.dead = true;
                        match len {
                            Some(l) => Verdict::Part((r % (l as u64 + 1)) as usize, Some(libc::EIO)),
                            // An operation without data happened or did not.
                            None if r % 2 == 0 => Verdict::Part(0, Some(libc::EIO)),
                            None => Verdict::Fail(libc::EIO),
                        }
                    }
                    DiskFault::Full => {
                        d.full = true;
                        match len {
                            Some(l) if l > 1 => Verdict::Part((r % l as u64) as usize, None),
                            _ => Verdict::Fail(libc::ENOSPC),
                        }
                    }
                    DiskFault::Error => Verdict::Fail(libc::EIO),
                };
            }
        }
        if d.full && len.is_some() {
            return Verdict::Fail(libc::ENOSPC);
        }
        if d.nasty {
            if let Some(l) = len {
                if r % 17 == 3 && !d.interrupted {
                    d.interrupted = true;
                    return Verdict::Fail(libc::EINTR);
                }
                d.interrupted = false;
                if r % 5 == 1 && l > 1 {
                    return Verdict::Part(1 + (r / 64 % (l as u64 - 1)) as usize, None);
                }
            }
        }
        Verdict::Real
    })
    .unwrap_or(Verdict::Real)
}

unsafe fn set_errno(e: libc::c_int) {
    *libc::__errno_location() = e;
}

unsafe fn raw_ret(r: libc::c_long) -> libc::c_long {
    // `syscall` already sets errno.
    r
}

unsafe fn data_op(len: usize, op: impl Fn(usize) -> libc::c_long) -> libc::ssize_t {
    match verdict(Some(len)) {
        Verdict::Real => raw_ret(op(len)) as libc::ssize_t,
        Verdict::Fail(e) => {
            set_errno(e);
            -1
        }
        Verdict::Part(n, e) => {
            let mut done = 0;
            while done < n {
                // Writing a prefix may itself need several system calls.
                let r = op(n);
                if r < 0 {
                    return -1;
                }
                done = r as usize;
                if done < n {
                    return done as libc::ssize_t;
                }
            }
            match e {
                Some(e) => {
                    set_errno(e);
                    -1
                }
                None if n == 0 => {
                    set_errno(libc::ENOSPC);
                    -1
                }
                None => n as libc::ssize_t,
            }
        }
    }
}

unsafe fn meta_op(op: impl Fn() -> libc::c_long) -> libc::c_int {
    match verdict(None) {
        Verdict::Real => op() as libc::c_int,
        Verdict::Fail(e) => {
            set_errno(e);
            -1
        }
        Verdict::Part(_, e) => {
            let r = op() as libc::c_int;
            if let Some(e) = e {
                set_errno(e);
                return -1;
            }
            r
        }
    }
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t) -> libc::ssize_t {
    if fd <= 2 || !active() {
        return libc::syscall(libc::SYS_write, fd, buf, len) as libc::ssize_t;
    }
    data_op(len, |n| libc::syscall(libc::SYS_write, fd, buf, n))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t, off: libc::off64_t) -> libc::ssize_t {
    if !active() {
        return libc::syscall(libc::SYS_pwrite64, fd, buf, len, off) as libc::ssize_t;
    }
    data_op(len, |n| libc::syscall(libc::SYS_pwrite64, fd, buf, n, off))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: libc::off64_t) -> libc::c_int {
    if !active() {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as libc::c_int;
    }
    meta_op(|| libc::syscall(libc::SYS_ftruncate, fd, len))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: libc::c_int) -> libc::c_int {
    if !active() {
        return libc::syscall(libc::SYS_fsync, fd) as libc::c_int;
    }
    meta_op(|| libc::syscall(libc::SYS_fsync, fd))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: libc::c_int) -> libc::c_int {
    if !active() {
        return libc::syscall(libc::SYS_fdatasync, fd) as libc::c_int;
    }
    meta_op(|| libc::syscall(libc::SYS_fdatasync, fd))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> libc::c_int {
    if !active() {
        return libc::syscall(libc::SYS_rename, from, to) as libc::c_int;
    }
    meta_op(|| libc::syscall(libc::SYS_rename, from, to))
}

/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
    if !active() {
        return libc::syscall(libc::SYS_unlink, path) as libc::c_int;
    }
    meta_op(|| libc::syscall(libc::SYS_unlink, path))
}

/// # Safety
/// As the libc function of the same name, which is variadic; the mode is always passed on x86-64.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let real = || libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint);
    if !active() || flags & (libc::O_CREAT | libc::O_TRUNC) == 0 {
        return real() as libc::c_int;
    }
    match verdict(None) {
        Verdict::Real => real() as libc::c_int,
        Verdict::Fail(e) => {
            set_errno(e);
            -1
        }
        Verdict::Part(_, e) => {
            // Created, but the process does not live to use it.
            let fd = real() as libc::c_int;
            if fd >= 0 {
                libc::syscall(libc::SYS_close, fd);
            }
            set_errno(e.unwrap_or(libc::EIO));
            -1
        }
    }
}

/// Copying between files inside the kernel would go around the simulated disk: refuse it, as old
/// kernels do, so that the caller falls back to reading and writing.
///
/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    fd_in: libc::c_int,
    off_in: *mut libc::loff_t,
    fd_out: libc::c_int,
    off_out: *mut libc::loff_t,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    if !active() {
        return libc::syscall(libc::SYS_copy_file_range, fd_in, off_in, fd_out, off_out, len, flags) as libc::ssize_t;
    }
    set_errno(libc::ENOSYS);
    -1
}

/// See [`copy_file_range`].
///
/// # Safety
/// As the libc function of the same name.
#[no_mangle]
pub unsafe extern "C" fn sendfile64(out: libc::c_int, inp: libc::c_int, off: *mut libc::off64_t, count: libc::size_t) -> libc::ssize_t {
    if !active() {
        return libc::syscall(libc::SYS_sendfile, out, inp, off, count) as libc::ssize_t;
    }
    set_errno(libc::EINVAL);
    -1
}
