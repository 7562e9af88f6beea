//! Interposed libc symbols: the simulated wall clock, the hash seed, and an
//! in-memory disk. Anything that is not part of a simulation goes to the kernel.
use crate::engine::*;
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

// ---- hash seed -------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: libc::c_uint) -> ssize_t {
    let key = HASH_KEY.try_with(|k| k.get()).unwrap_or(None);
    match key {
        Some(k) => {
            let mut x = k;
            let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
            for c in out.chunks_mut(8) {
                let v = splitmix(&mut x).to_le_bytes();
                c.copy_from_slice(&v[..c.len()]);
            }
            len as ssize_t
        }
        None => libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t,
    }
}

// ---- clock -----------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Clock {
    pub sec: i64,
    pub nsec: i64,
    pub reads: u64,
    /// the clock moves on by this much with every look at it
    pub tick: i64,
}
thread_local! {
    static CLOCK: Cell<Option<Clock>> = const { Cell::new(None) };
}
pub fn clock_set(sec: i64, nsec: i64) {
    CLOCK.with(|c| {
        let (reads, tick) = c.get().map(|x| (x.reads, x.tick)).unwrap_or((0, 0));
        c.set(Some(Clock { sec, nsec, reads, tick }))
    });
}
pub fn clock_tick(tick: i64) {
    CLOCK.with(|c| {
        if let Some(mut k) = c.get() {
            k.tick = tick;
            c.set(Some(k));
        }
    });
}
/// The clock's current (sec, nsec), without counting as a look at it.
pub fn clock_peek() -> (i64, i64) {
    CLOCK.with(|c| c.get().map(|k| (k.sec, k.nsec)).unwrap_or((0, 0)))
}
pub fn clock_reads() -> u64 {
    CLOCK.with(|c| c.get().map(|x| x.reads).unwrap_or(0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if clk == libc::CLOCK_REALTIME {
        let c = CLOCK.try_with(|c| c.get()).unwrap_or(None);
        if let Some(mut c) = c {
            (*ts).tv_sec = c.sec;
            (*ts).tv_nsec = c.nsec as c_long;
            c.reads += 1;
            let n = c.nsec + c.tick;
            c.sec += n.div_euclid(1_000_000_000);
            c.nsec = n.rem_euclid(1_000_000_000);
            let _ = CLOCK.try_with(|k| k.set(Some(c)));
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int
}

// ---- disk ------------------------------------------------------------------
pub const DISK_PREFIX: &str = "/simdisk/";
const FD_BASE: c_int = 1_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DiskOp {
    Open,
    Stat,
    Read,
    Seek,
}
/// One planted disk error: the `nth` operation of that kind fails with `errno`.
#[derive(Clone, Copy, Debug)]
pub struct DiskFault {
    pub op: DiskOp,
    pub nth: u64,
    pub errno: c_int,
}
pub struct Inode {
    pub data: RefCell<Vec<u8>>,
}
struct OpenFile {
    inode: Rc<Inode>,
    pos: u64,
}
#[derive(Default)]
pub struct Disk {
    files: BTreeMap<String, Rc<Inode>>,
    open: BTreeMap<c_int, OpenFile>,
    next_fd: c_int,
    counts: [u64; 4],
    faults: Vec<DiskFault>,
    /// 0: full reads; otherwise each read may be cut short
    short_reads: u64,
    max_chunk: u64,
    /// errors that were really returned, in order
    pub fired: Vec<DiskFault>,
    pub opened: u64,
    pub closed: u64,
}
thread_local! {
    static DISK: RefCell<Option<Disk>> = const { RefCell::new(None) };
}
pub fn disk_init(short_reads: u64, max_chunk: u64, faults: Vec<DiskFault>) {
    DISK.with(|d| {
        *d.borrow_mut() = Some(Disk { next_fd: FD_BASE, faults, short_reads, max_chunk: max_chunk.max(1), ..Default::default() })
    });
}
pub fn disk_put(path: &str, data: Vec<u8>) -> Rc<Inode> {
    let i = Rc::new(Inode { data: RefCell::new(data) });
    DISK.with(|d| d.borrow_mut().as_mut().unwrap().files.insert(path.to_string(), i.clone()));
    i
}
pub fn disk_fired() -> Vec<DiskFault> {
    DISK.with(|d| d.borrow().as_ref().map(|d| d.fired.clone()).unwrap_or_default())
}
pub fn disk_open_files() -> usize {
    DISK.with(|d| d.borrow().as_ref().map(|d| d.open.len()).unwrap_or(0))
}
pub fn disk_drop() {
    DISK.with(|d| *d.borrow_mut() = None);
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
fn with_disk<R>(f: impl FnOnce(&mut Disk) -> R) -> Option<R> {
    DISK.try_with(|d| d.try_borrow_mut().ok().and_then(|mut d| d.as_mut().map(f))).ok().flatten()
}
impl Disk {
    /// Counts the operation; returns the errno to fail with, if planted.
    fn step(&mut self, op: DiskOp) -> Option<c_int> {
        let n = self.counts[op as usize];
        self.counts[op as usize] += 1;
        let f = self.faults.iter().find(|f| f.op == op && f.nth == n).copied();
        if let Some(f) = f {
            self.fired.push(f);
            fault(match f.errno {
                libc::EINTR => "disk_eintr",
                libc::EIO => "disk_eio",
                libc::ENOSPC => "disk_enospc",
                libc::ESTALE => "disk_estale",
                _ => "disk_error",
            });
            ev("disk_error", op as u64, f.errno as u64);
            return Some(f.errno);
        }
        None
    }
}
fn is_sim_path(path: *const c_char) -> Option<String> {
    if path.is_null() {
        return None;
    }
    let s = unsafe { std::ffi::CStr::from_ptr(path) }.to_bytes();
    if s.starts_with(DISK_PREFIX.as_bytes()) {
        Some(String::from_utf8_lossy(s).into_owned())
    } else {
        None
    }
}
unsafe fn do_open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(p) = is_sim_path(path) {
        let r = with_disk(|d| {
            if let Some(e) = d.step(DiskOp::Open) {
                return Err(e);
            }
            match d.files.get(&p) {
                Some(i) => {
                    let fd = d.next_fd;
                    d.next_fd += 1;
                    let inode = i.clone();
                    d.open.insert(fd, OpenFile { inode, pos: 0 });
                    d.opened += 1;
                    ev("disk_open", 0, 0);
                    Ok(fd)
                }
                None => Err(libc::ENOENT),
            }
        });
        return match r {
            Some(Ok(fd)) => fd,
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            None => {
                set_errno(libc::ENOENT);
                -1
            }
        };
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as c_int) as c_int
}
// open64 is variadic in C; on this ABI a fixed third argument is compatible.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        with_disk(|d| {
            if d.open.remove(&fd).is_some() {
                d.closed += 1;
            }
        });
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    let r = with_disk(|d| {
        if let Some(e) = d.step(DiskOp::Read) {
            return Err(e);
        }
        let (short, maxc) = (d.short_reads, d.max_chunk);
        let f = match d.open.get_mut(&fd) {
            Some(f) => f,
            None => return Err(libc::EBADF),
        };
        let data = f.inode.data.borrow();
        let pos = at.unwrap_or(f.pos) as usize;
        let avail = data.len().saturating_sub(pos);
        let mut k = avail.min(n);
        if k > 1 && short > 0 && chance(short, 8) {
            let cut = 1 + choose((k as u64).min(maxc)) as usize;
            if cut < k {
                k = cut;
                fault("disk_short_read");
            }
        }
        if k > 0 {
            std::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf as *mut u8, k);
        }
        if at.is_none() {
            f.pos += k as u64;
        }
        advance_us(50);
        ev("disk_read", n as u64, k as u64);
        Ok(k)
    });
    match r.unwrap_or(Err(libc::EBADF)) {
        Ok(k) => k as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD_BASE {
        return do_read(fd, buf, n, None);
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if fd >= FD_BASE {
        return do_read(fd, buf, n, Some(off as u64));
    }
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if fd >= FD_BASE {
        let r = with_disk(|d| {
            if let Some(e) = d.step(DiskOp::Seek) {
                return Err(e);
            }
            let f = match d.open.get_mut(&fd) {
                Some(f) => f,
                None => return Err(libc::EBADF),
            };
            let len = f.inode.data.borrow().len() as i64;
            let p = match whence {
                libc::SEEK_SET => off,
                libc::SEEK_CUR => f.pos as i64 + off,
                _ => len + off,
            };
            if p < 0 {
                return Err(libc::EINVAL);
            }
            f.pos = p as u64;
            ev("disk_seek", whence as u64, p as u64);
            Ok(p)
        });
        return match r {
            Some(Ok(p)) => p,
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            None => -1,
        };
    }
    libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t
}
fn stat_len(fd: c_int) -> Option<Result<u64, c_int>> {
    with_disk(|d| {
        if let Some(e) = d.step(DiskOp::Stat) {
            return Err(e);
        }
        let r = match d.open.get(&fd) {
            Some(f) => Ok(f.inode.data.borrow().len() as u64),
            None => Err(libc::EBADF),
        };
        ev("disk_stat", 0, *r.as_ref().unwrap_or(&0));
        r
    })
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, out: *mut libc::statx) -> c_int {
    if dirfd >= FD_BASE {
        return match stat_len(dirfd) {
            Some(Ok(l)) => {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_size = l;
                (*out).stx_mode = (libc::S_IFREG | 0o644) as u16;
                (*out).stx_nlink = 1;
                0
            }
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            None => {
                set_errno(libc::EBADF);
                -1
            }
        };
    }
    if let Some(p) = is_sim_path(path) {
        let r = with_disk(|d| {
            if let Some(e) = d.step(DiskOp::Stat) {
                return Err(e);
            }
            let r = d.files.get(&p).map(|i| i.data.borrow().len() as u64).ok_or(libc::ENOENT);
            ev("disk_stat", 1, *r.as_ref().unwrap_or(&0));
            r
        });
        return match r.unwrap_or(Err(libc::ENOENT)) {
            Ok(l) => {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                (*out).stx_size = l;
                (*out).stx_mode = (libc::S_IFREG | 0o644) as u16;
                (*out).stx_nlink = 1;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, out) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if fd >= FD_BASE {
        return match stat_len(fd) {
            Some(Ok(l)) => {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::stat64>());
                (*out).st_size = l as i64;
                (*out).st_mode = libc::S_IFREG | 0o644;
                0
            }
            Some(Err(e)) => {
                set_errno(e);
                -1
            }
            None => -1,
        };
    }
    libc::syscall(libc::SYS_fstat, fd, out) as c_int
}
// std asks whether a descriptor is still open before closing it.
// (variadic in C; a fixed third argument is compatible on this ABI)
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd >= FD_BASE {
        let open = with_disk(|d| d.open.contains_key(&fd)).unwrap_or(true);
        if !open {
            set_errno(libc::EBADF);
            return -1;
        }
        return 0;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
