//! System calls of the process under simulation: randomness, blocking sleeps, and the disk under
//! each node's directory. Symbols defined here take the place of libc's in the simulator's binary.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;

use libc::{c_char, c_int, c_uint, c_void, off_t, size_t, ssize_t, timespec};

use crate::{mix, rt};

thread_local! {
    static OS_RANDOM: Cell<u64> = const { Cell::new(0) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    static DISK: RefCell<Disk> = RefCell::new(Disk::default());
}

/// Seeds what `getrandom` returns on this thread.
pub fn seed_os_random(seed: u64) {
    OS_RANDOM.with(|c| c.set(mix(seed ^ 0xABCD)));
}

pub fn in_sim(on: bool) {
    IN_SIM.with(|c| c.set(on));
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let _ = OS_RANDOM.try_with(|c| {
        let mut s = c.get();
        for i in 0..len {
            s = mix(s);
            *buf.add(i) = s as u8;
        }
        c.set(s);
    });
    len as isize
}

/// A thread of a simulated process that sleeps holds up its process: the time is charged to the
/// next thing the process asks of the world.
///
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        let t = &*req;
        rt::add_debt(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DiskKind {
    /// the process dies in the middle of this operation
    Crash,
    /// no space is left
    Full,
    /// the device reports an error
    Error,
    /// only part of the data is taken
    Short,
}

#[derive(Default)]
struct Disk {
    /// directory -> armed fault: (operations to let pass, kind)
    armed: BTreeMap<String, (u32, DiskKind)>,
    /// directories whose process died in an operation
    dead: BTreeSet<String>,
    read_error: BTreeSet<String>,
    fds: BTreeMap<c_int, String>,
    fired: Vec<(String, DiskKind)>,
}

pub fn reset_disk() {
    DISK.with(|d| *d.borrow_mut() = Disk::default());
}

/// the operation after `skip` further changes to files under `dir` fails this way
pub fn arm(dir: &str, skip: u32, kind: DiskKind) {
    DISK.with(|d| {
        d.borrow_mut().armed.insert(dir.into(), (skip, kind));
    });
}

pub fn disarm(dir: &str) {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        d.armed.remove(dir);
        d.dead.remove(dir);
    });
}

pub fn fail_reads(dir: &str, on: bool) {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        if on {
            d.read_error.insert(dir.into());
        } else {
            d.read_error.remove(dir);
        }
    });
}

pub fn died(dir: &str) -> bool {
    DISK.with(|d| d.borrow().dead.contains(dir))
}

pub fn take_fired() -> Vec<(String, DiskKind)> {
    DISK.with(|d| std::mem::take(&mut d.borrow_mut().fired))
}

pub fn take_fired_in(dir: &str) -> Vec<DiskKind> {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        let (mine, rest) = std::mem::take(&mut d.fired).into_iter().partition(|f: &(String, DiskKind)| f.0 == dir);
        d.fired = rest;
        let mine: Vec<(String, DiskKind)> = mine;
        mine.into_iter().map(|f| f.1).collect()
    })
}

enum Verdict {
    Go,
    Fail(c_int),
    /// do half of it, then the process is dead
    Half,
    Part,
}

fn dir_of(p: &str) -> Option<String> {
    DISK.try_with(|d| {
        let d = d.try_borrow().ok()?;
        d.armed.keys().chain(d.dead.iter()).chain(d.read_error.iter()).find(|x| p.starts_with(x.as_str())).cloned()
    })
    .ok()
    .flatten()
}

fn judge(dir: &str, is_write: bool) -> Verdict {
    DISK.with(|d| {
        let mut d = d.borrow_mut();
        if d.dead.contains(dir) {
            return Verdict::Fail(libc::EIO);
        }
        let Some((skip, kind)) = d.armed.get(dir).copied() else { return Verdict::Go };
        if skip > 0 {
            d.armed.insert(dir.into(), (skip - 1, kind));
            return Verdict::Go;
        }
        // only writes can be short or find the disk full
        if matches!(kind, DiskKind::Full | DiskKind::Short) && !is_write {
            return Verdict::Go;
        }
        d.fired.push((dir.into(), kind));
        match kind {
            DiskKind::Crash => {
                d.dead.insert(dir.into());
                Verdict::Half
            }
            DiskKind::Full => Verdict::Fail(libc::ENOSPC),
            DiskKind::Error => {
                d.armed.remove(dir);
                Verdict::Fail(libc::EIO)
            }
            DiskKind::Short => {
                d.armed.remove(dir);
                Verdict::Part
            }
        }
    })
}

unsafe fn fail(e: c_int) {
    *libc::__errno_location() = e;
}

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let raw = |p: *const c_char| unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int };
    if !IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        return raw(path);
    }
    let p = CStr::from_ptr(path).to_string_lossy().to_string();
    let Some(dir) = dir_of(&p) else { return raw(path) };
    let writes = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    if !writes {
        if DISK.with(|d| d.borrow().read_error.contains(&dir)) {
            fail(libc::EIO);
            return -1;
        }
        return raw(path);
    }
    match judge(&dir, false) {
        Verdict::Fail(e) => {
            fail(e);
            -1
        }
        // the file was opened (and truncated) but the process is dead now
        Verdict::Half => {
            let fd = raw(path);
            if fd >= 0 {
                libc::syscall(libc::SYS_close, fd);
            }
            fail(libc::EIO);
            -1
        }
        _ => {
            let fd = raw(path);
            if fd >= 0 {
                DISK.with(|d| d.borrow_mut().fds.insert(fd, dir));
            }
            fd
        }
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(path, flags | libc::O_LARGEFILE, mode)
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_impl(path, flags, mode)
}

unsafe fn write_impl(fd: c_int, buf: *const c_void, n: size_t, raw: impl Fn(size_t) -> ssize_t) -> ssize_t {
    let _ = buf;
    let dir = if IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        DISK.try_with(|d| d.try_borrow().ok().and_then(|d| d.fds.get(&fd).cloned())).ok().flatten()
    } else {
        None
    };
    let Some(dir) = dir else { return raw(n) };
    match judge(&dir, true) {
        Verdict::Go => raw(n),
        Verdict::Fail(e) => {
            fail(e);
            -1
        }
        Verdict::Half => {
            raw(n / 2);
            fail(libc::EIO);
            -1
        }
        Verdict::Part => raw(n.div_ceil(2)),
    }
}

trait DivCeil {
    fn div_ceil(self, d: usize) -> usize;
}
impl DivCeil for usize {
    fn div_ceil(self, d: usize) -> usize {
        (self + d - 1) / d
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    write_impl(fd, buf, n, |n| unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t })
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    write_impl(fd, buf, n, |n| unsafe { libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t })
}

unsafe fn sync_impl(fd: c_int, nr: libc::c_long) -> c_int {
    let dir = if IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        DISK.try_with(|d| d.try_borrow().ok().and_then(|d| d.fds.get(&fd).cloned())).ok().flatten()
    } else {
        None
    };
    let Some(dir) = dir else { return libc::syscall(nr, fd) as c_int };
    match judge(&dir, false) {
        Verdict::Fail(e) => {
            fail(e);
            -1
        }
        Verdict::Half => {
            fail(libc::EIO);
            -1
        }
        _ => 0,
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fsync)
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync_impl(fd, libc::SYS_fdatasync)
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _ = DISK.try_with(|d| {
        if let Ok(mut d) = d.try_borrow_mut() {
            d.fds.remove(&fd);
        }
    });
    libc::syscall(libc::SYS_close, fd) as c_int
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    let raw = || unsafe { libc::syscall(libc::SYS_rename, from, to) as c_int };
    if !IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        return raw();
    }
    match dir_of(&CStr::from_ptr(to).to_string_lossy()).map(|d| judge(&d, false)) {
        None | Some(Verdict::Go) | Some(Verdict::Part) => raw(),
        Some(Verdict::Fail(e)) => {
            fail(e);
            -1
        }
        // a rename is atomic: it happened
        Some(Verdict::Half) => {
            raw();
            fail(libc::EIO);
            -1
        }
    }
}

/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let raw = || unsafe { libc::syscall(libc::SYS_unlink, path) as c_int };
    if !IN_SIM.try_with(|c| c.get()).unwrap_or(false) {
        return raw();
    }
    match dir_of(&CStr::from_ptr(path).to_string_lossy()).map(|d| judge(&d, false)) {
        None | Some(Verdict::Go) | Some(Verdict::Part) => raw(),
        Some(Verdict::Fail(e)) => {
            fail(e);
            -1
        }
        Some(Verdict::Half) => {
            raw();
            fail(libc::EIO);
            -1
        }
    }
}
