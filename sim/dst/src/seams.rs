//! The seams below the code under test: libc entry points that read the clock, sleep, wait on
//! futexes, draw random bytes and touch files.  Outside a simulation (and on threads that are
//! not part of one) every function is a plain system call.

use crate::rng::Rng;
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, off_t, size_t, ssize_t, timespec};
use rayon_core::sim;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};

thread_local! {
    static SEAM: Cell<bool> = const { Cell::new(false) };
}

/// Marks the calling thread as belonging to the simulated world.
pub fn set_seam(on: bool) {
    let _ = SEAM.try_with(|s| s.set(on));
}

fn seamed() -> bool {
    (SEAM.try_with(|s| s.get()).unwrap_or(false) || sim::active()) && !sim::inside()
}

pub struct Inside;
impl Inside {
    pub fn new() -> Inside {
        sim::enter_sim_code();
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        sim::leave_sim_code();
    }
}

// ---------------------------------------------------------------------------------- raw calls

#[inline]
unsafe fn sys6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
            options(nostack));
    }
    r
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

unsafe fn fail(errno: c_int) -> isize {
    unsafe { *libc::__errno_location() = errno };
    -1
}

// -------------------------------------------------------------------------------------- clock

static CLOCK_ON: AtomicBool = AtomicBool::new(false);
static NOW: AtomicU64 = AtomicU64::new(0);
static WALL: AtomicU64 = AtomicU64::new(0);
static CLOCK: Mutex<Option<ClockSt>> = Mutex::new(None);

struct ClockSt {
    rng: Rng,
    jump: u32,
    reads: u64,
    jumps: u64,
    backward: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ClockStats {
    pub reads: u64,
    pub jumps: u64,
    pub backward: u64,
    pub simulated_ns: u64,
}

/// `jump`: chance in 1/4096 that a reading is preceded by a jump of up to about a day.
pub fn clock_start(seed: u64, jump: u32) {
    let _i = Inside::new();
    let mut rng = Rng::new(seed ^ 0xc10c);
    NOW.store(rng.below(1 << 50), SeqCst);
    WALL.store(946_684_800_000_000_000 + rng.below(1 << 60), SeqCst);
    *CLOCK.lock().unwrap_or_else(|e| e.into_inner()) = Some(ClockSt { rng, jump, reads: 0, jumps: 0, backward: 0 });
    CLOCK_ON.store(true, SeqCst);
}

pub fn clock_stop() -> ClockStats {
    let _i = Inside::new();
    CLOCK_ON.store(false, SeqCst);
    match CLOCK.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(c) => ClockStats { reads: c.reads, jumps: c.jumps, backward: c.backward, simulated_ns: NOW.load(SeqCst) },
        None => ClockStats::default(),
    }
}

fn clock_advance(min: u64) {
    if let Some(c) = CLOCK.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        c.reads += 1;
        let mut d = min + 1 + c.rng.below(200_000);
        if c.rng.below(4096) < c.jump as u64 {
            c.jumps += 1;
            d += c.rng.below(100_000_000_000_000);
            // The wall clock may also go back.
            if c.rng.chance(0.5) {
                c.backward += 1;
                let b = c.rng.below(400_000_000_000_000_000);
                let _ = WALL.try_update(SeqCst, SeqCst, |w| Some(w.saturating_sub(b)));
            }
        }
        NOW.fetch_add(d, SeqCst);
        WALL.fetch_add(d, SeqCst);
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if !CLOCK_ON.load(SeqCst) || !seamed() || !matches!(clk, 0 | 1 | 4 | 5 | 6 | 7) {
        return unsafe { ret(sys6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int };
    }
    sim::yield_point(sim::Kind::Clock);
    let _i = Inside::new();
    clock_advance(0);
    let v = if clk == 0 || clk == 5 { WALL.load(SeqCst) } else { NOW.load(SeqCst) };
    unsafe {
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
    }
    0
}

unsafe fn sleep_sim(req: *const timespec) {
    let _i = Inside::new();
    let d = unsafe { (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64 };
    clock_advance(d);
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if CLOCK_ON.load(SeqCst) && seamed() {
        unsafe { sleep_sim(req) };
        sim::yield_point(sim::Kind::Clock);
        return 0;
    }
    unsafe { ret(sys6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if CLOCK_ON.load(SeqCst) && seamed() && flags == 0 {
        unsafe { sleep_sim(req) };
        sim::yield_point(sim::Kind::Clock);
        return 0;
    }
    let r = unsafe { sys6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) };
    -r as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim::active() && !sim::inside() {
        sim::yield_point(sim::Kind::User);
        return 0;
    }
    unsafe { ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int }
}

// ------------------------------------------------------------------------------- random bytes

static HASH: Mutex<Option<Rng>> = Mutex::new(None);
static HASH_DRAWS: AtomicU64 = AtomicU64::new(0);

pub fn hash_start(seed: u64) {
    let _i = Inside::new();
    HASH_DRAWS.store(0, SeqCst);
    *HASH.lock().unwrap_or_else(|e| e.into_inner()) = Some(Rng::new(seed ^ 0x4a54));
}

pub fn hash_stop() -> u64 {
    let _i = Inside::new();
    HASH.lock().unwrap_or_else(|e| e.into_inner()).take();
    HASH_DRAWS.load(SeqCst)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if seamed() {
        let _i = Inside::new();
        if let Some(r) = HASH.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            HASH_DRAWS.fetch_add(1, SeqCst);
            let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
            for b in out.iter_mut() {
                *b = (r.u64() >> 24) as u8;
            }
            return len as ssize_t;
        }
    }
    unsafe { ret(sys6(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) }
}

// -------------------------------------------------------------------------------------- futex

/// std's mutexes, condition variables and parking all end in `syscall(SYS_futex, ..)`.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sim::active() && !sim::inside() && n == libc::SYS_futex {
        let op = (b as c_int) & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let cur = unsafe { (*(a as *const AtomicI32)).load(SeqCst) };
            if cur != c as i32 {
                return unsafe { fail(libc::EAGAIN) } as c_long;
            }
            if d != 0 {
                clock_advance(1_000_000);
                sim::yield_point(sim::Kind::Futex);
                return unsafe { fail(libc::ETIMEDOUT) } as c_long;
            }
            sim::idle(sim::Kind::Futex);
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            sim::notify();
        }
    }
    if n == libc::SYS_getrandom && seamed() {
        return unsafe { getrandom(a as *mut c_void, b, c as c_uint) } as c_long;
    }
    unsafe { ret(sys6(n, a, b, c, d, e, f)) as c_long }
}

// --------------------------------------------------------------------------------------- disk

/// What happened to a file, enough to rebuild any crash state.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Open { file: usize, trunc: bool, create: bool },
    Write { file: usize, off: u64, data: Vec<u8> },
    Truncate { file: usize, len: u64 },
    Close { file: usize },
    Sync { file: usize },
    Unlink { file: usize },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// Perform only the first `n` bytes (at least one).
    Short(u64),
    /// Fail with EINTR once, doing nothing.
    Eintr,
    /// Fail with this errno, doing nothing; sticky: all later calls of this class fail too.
    Errno(i32, bool),
    /// Write the first n bytes, then fail everything with ENOSPC from now on.
    Full(u64),
}

/// Counted operations: the class decides which calls the plan's positions refer to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Open,
    Write,
    Read,
    Truncate,
    Close,
    Sync,
}

#[derive(Clone, Debug, Default)]
pub struct DiskStats {
    pub ops: BTreeMap<Class, u64>,
    pub injected: BTreeMap<&'static str, u64>,
    pub by_file_opened: Vec<String>,
}

#[derive(Default)]
struct Disk {
    root: String,
    fds: BTreeMap<c_int, (usize, bool)>,
    files: Vec<String>,
    log: Vec<Op>,
    plan: Vec<(Class, u64, FaultKind)>,
    sticky: Vec<(Class, i32)>,
    counts: BTreeMap<Class, u64>,
    injected: BTreeMap<&'static str, u64>,
    keep_log: bool,
    /// Counts only files with this suffix (others are logged, not counted or faulted).
    only: Option<String>,
}

static DISK_ON: AtomicBool = AtomicBool::new(false);
static DISK: Mutex<Option<Disk>> = Mutex::new(None);

pub fn disk_start(root: &str, plan: Vec<(Class, u64, FaultKind)>, keep_log: bool, only: Option<String>) {
    let _i = Inside::new();
    *DISK.lock().unwrap_or_else(|e| e.into_inner()) =
        Some(Disk { root: root.to_string(), plan, keep_log, only, ..Default::default() });
    DISK_ON.store(true, SeqCst);
}

pub fn disk_stop() -> (Vec<Op>, Vec<String>, DiskStats) {
    let _i = Inside::new();
    DISK_ON.store(false, SeqCst);
    match DISK.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(d) => {
            let st = DiskStats { ops: d.counts, injected: d.injected, by_file_opened: d.files.clone() };
            (d.log, d.files, st)
        }
        None => (vec![], vec![], DiskStats::default()),
    }
}

enum Act {
    Go,
    Short(u64),
    Fail(i32),
    /// Do n bytes only.
    Part(u64),
}

impl Disk {
    fn decide(&mut self, class: Class, file: usize) -> Act {
        if let Some(o) = &self.only {
            if !self.files[file].ends_with(o.as_str()) {
                return Act::Go;
            }
        }
        let k = *self.counts.entry(class).and_modify(|c| *c += 1).or_insert(1) - 1;
        if let Some((_, e)) = self.sticky.iter().find(|(c, _)| *c == class) {
            return Act::Fail(*e);
        }
        for (c, at, f) in self.plan.clone() {
            if c == class && at == k {
                return match f {
                    FaultKind::Short(n) => {
                        *self.injected.entry("short").or_default() += 1;
                        Act::Short(n)
                    }
                    FaultKind::Eintr => {
                        *self.injected.entry("eintr").or_default() += 1;
                        Act::Fail(libc::EINTR)
                    }
                    FaultKind::Errno(e, sticky) => {
                        let name = match (class, e) {
                            (Class::Open, _) => "open-error",
                            (Class::Read, _) => "read-error",
                            (Class::Write, libc::ENOSPC) => "no-space",
                            (Class::Write, _) => "write-error",
                            (Class::Truncate, _) => "truncate-error",
                            (Class::Close, _) => "close-error",
                            (Class::Sync, _) => "sync-error",
                        };
                        *self.injected.entry(name).or_default() += 1;
                        if sticky {
                            self.sticky.push((class, e));
                        }
                        Act::Fail(e)
                    }
                    FaultKind::Full(n) => {
                        *self.injected.entry("disk-full").or_default() += 1;
                        self.sticky.push((Class::Write, libc::ENOSPC));
                        self.sticky.push((Class::Truncate, libc::ENOSPC));
                        if n == 0 { Act::Fail(libc::ENOSPC) } else { Act::Part(n) }
                    }
                };
            }
        }
        Act::Go
    }

    fn log(&mut self, op: Op) {
        if self.keep_log {
            self.log.push(op);
        }
    }
}

fn with_disk<R>(f: impl FnOnce(&mut Disk) -> R) -> Option<R> {
    if !DISK_ON.load(SeqCst) || !seamed() {
        return None;
    }
    let _i = Inside::new();
    DISK.lock().unwrap_or_else(|e| e.into_inner()).as_mut().map(f)
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let go = || unsafe { ret(sys6(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int };
    let p = unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned();
    let r = with_disk(|d| {
        if !p.starts_with(&d.root) {
            return None;
        }
        let file = match d.files.iter().position(|f| *f == p) {
            Some(i) => i,
            None => {
                d.files.push(p.clone());
                d.files.len() - 1
            }
        };
        match d.decide(Class::Open, file) {
            Act::Fail(e) => return Some(unsafe { fail(e) } as c_int),
            _ => {}
        }
        let existed = std::path::Path::new(&p).exists();
        let fd = go();
        if fd >= 0 {
            let w = flags & libc::O_ACCMODE != libc::O_RDONLY;
            d.fds.insert(fd, (file, flags & libc::O_APPEND != 0));
            if w {
                d.log(Op::Open { file, trunc: flags & libc::O_TRUNC != 0, create: !existed });
            }
        }
        Some(fd)
    });
    match r {
        Some(Some(fd)) => fd,
        _ => go(),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(dir, path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    unsafe { do_open(dir, path, flags, mode) }
}

unsafe fn do_write(fd: c_int, buf: *const u8, len: usize, off: Option<i64>) -> isize {
    let raw = |n: usize| unsafe {
        match off {
            None => ret(sys6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)),
            Some(o) => ret(sys6(libc::SYS_pwrite64, fd as usize, buf as usize, n, o as usize, 0, 0)),
        }
    };
    let r = with_disk(|d| {
        let (file, append) = *d.fds.get(&fd)?;
        let n = match d.decide(Class::Write, file) {
            Act::Go => len,
            Act::Short(n) if len > 1 => (n as usize % (len - 1)) + 1,
            Act::Short(_) => len,
            Act::Fail(e) => return Some(unsafe { fail(e) }),
            Act::Part(n) => {
                let n = n as usize % (len + 1);
                if n == 0 {
                    return Some(unsafe { fail(libc::ENOSPC) });
                }
                n
            }
        };
        let at = match off {
            Some(o) => o as u64,
            None if append => unsafe {
                sys6(libc::SYS_lseek, fd as usize, 0, libc::SEEK_END as usize, 0, 0, 0) as u64
            },
            None => unsafe { sys6(libc::SYS_lseek, fd as usize, 0, libc::SEEK_CUR as usize, 0, 0, 0) as u64 },
        };
        let w = raw(n);
        if w > 0 {
            let data = unsafe { std::slice::from_raw_parts(buf, w as usize) }.to_vec();
            d.log(Op::Write { file, off: at, data });
        }
        Some(w)
    });
    match r {
        Some(Some(w)) => w,
        _ => raw(len),
    }
}

unsafe fn do_read(fd: c_int, buf: *mut u8, len: usize, off: Option<i64>) -> isize {
    let raw = |n: usize| unsafe {
        match off {
            None => ret(sys6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)),
            Some(o) => ret(sys6(libc::SYS_pread64, fd as usize, buf as usize, n, o as usize, 0, 0)),
        }
    };
    let r = with_disk(|d| {
        let (file, _) = *d.fds.get(&fd)?;
        let n = match d.decide(Class::Read, file) {
            Act::Go => len,
            Act::Short(n) | Act::Part(n) if len > 1 => (n as usize % (len - 1)) + 1,
            Act::Short(_) | Act::Part(_) => len,
            Act::Fail(e) => return Some(unsafe { fail(e) }),
        };
        Some(raw(n))
    });
    match r {
        Some(Some(w)) => w,
        _ => raw(len),
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    unsafe { do_write(fd, buf as *const u8, len, None) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, len: size_t, off: off_t) -> ssize_t {
    unsafe { do_write(fd, buf as *const u8, len, Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: i64) -> ssize_t {
    unsafe { do_write(fd, buf as *const u8, len, Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    unsafe { do_read(fd, buf as *mut u8, len, None) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, len: size_t, off: off_t) -> ssize_t {
    unsafe { do_read(fd, buf as *mut u8, len, Some(off)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: i64) -> ssize_t {
    unsafe { do_read(fd, buf as *mut u8, len, Some(off)) }
}

fn tracked(fd: c_int) -> bool {
    with_disk(|d| d.fds.contains_key(&fd)).unwrap_or(false)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if tracked(fd) {
        let v = unsafe { std::slice::from_raw_parts(iov, n as usize) };
        let all: Vec<u8> =
            v.iter().flat_map(|i| unsafe { std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len) }.to_vec()).collect();
        return unsafe { do_write(fd, all.as_ptr(), all.len(), None) };
    }
    unsafe { ret(sys6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if tracked(fd) && n > 0 {
        let v = unsafe { std::slice::from_raw_parts(iov, n as usize) };
        if let Some(i) = v.iter().find(|i| i.iov_len > 0) {
            return unsafe { do_read(fd, i.iov_base as *mut u8, i.iov_len, None) };
        }
    }
    unsafe { ret(sys6(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0)) }
}

unsafe fn do_trunc(fd: c_int, len: i64) -> c_int {
    let r = with_disk(|d| {
        let (file, _) = *d.fds.get(&fd)?;
        if let Act::Fail(e) = d.decide(Class::Truncate, file) {
            return Some(unsafe { fail(e) } as c_int);
        }
        let r = unsafe { ret(sys6(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) } as c_int;
        if r == 0 {
            d.log(Op::Truncate { file, len: len as u64 });
        }
        Some(r)
    });
    match r {
        Some(Some(x)) => x,
        _ => unsafe { ret(sys6(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    unsafe { do_trunc(fd, len) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    unsafe { do_trunc(fd, len) }
}

unsafe fn do_sync(fd: c_int, n: c_long) -> c_int {
    let r = with_disk(|d| {
        let (file, _) = *d.fds.get(&fd)?;
        if let Act::Fail(e) = d.decide(Class::Sync, file) {
            return Some(unsafe { fail(e) } as c_int);
        }
        d.log(Op::Sync { file });
        Some(0)
    });
    match r {
        Some(Some(x)) => x,
        _ => unsafe { ret(sys6(n, fd as usize, 0, 0, 0, 0, 0)) as c_int },
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fsync) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    unsafe { do_sync(fd, libc::SYS_fdatasync) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let mut err = 0;
    with_disk(|d| {
        if let Some((file, _)) = d.fds.remove(&fd) {
            if let Act::Fail(e) = d.decide(Class::Close, file) {
                err = e;
            }
            d.log(Op::Close { file });
        }
    });
    let r = unsafe { ret(sys6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int };
    // As on Linux: the descriptor is gone even when close reports an error.
    if err != 0 {
        return unsafe { fail(err) } as c_int;
    }
    r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let p = unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned();
    with_disk(|d| {
        if let Some(file) = d.files.iter().position(|f| *f == p) {
            d.log(Op::Unlink { file });
        }
    });
    unsafe { ret(sys6(libc::SYS_unlink, path as usize, 0, 0, 0, 0, 0)) as c_int }
}

/// Rebuilds the contents of every file after the first `n` logged operations, the last of which
/// is torn after `torn` bytes if it is a write.  `before`: contents at the start.
pub fn crash_state(
    log: &[Op],
    files: &[String],
    n: usize,
    torn: Option<usize>,
    before: &BTreeMap<String, Vec<u8>>,
) -> BTreeMap<String, Vec<u8>> {
    let mut m = before.clone();
    for (i, op) in log.iter().take(n).enumerate() {
        match op {
            Op::Open { file, trunc, .. } => {
                let e = m.entry(files[*file].clone()).or_default();
                if *trunc {
                    e.clear();
                }
            }
            Op::Write { file, off, data } => {
                let mut data = &data[..];
                if i + 1 == n {
                    if let Some(t) = torn {
                        data = &data[..t.min(data.len())];
                    }
                }
                let e = m.entry(files[*file].clone()).or_default();
                let end = *off as usize + data.len();
                if e.len() < end {
                    e.resize(end, 0);
                }
                e[*off as usize..end].copy_from_slice(data);
            }
            Op::Truncate { file, len } => m.entry(files[*file].clone()).or_default().resize(*len as usize, 0),
            Op::Unlink { file } => {
                m.remove(&files[*file]);
            }
            _ => {}
        }
    }
    m
}

/// libstdc++ asks this for `hardware_concurrency`: HiGHS, which starts its own (uncontrolled)
/// threads otherwise, is kept on the calling thread.
#[unsafe(no_mangle)]
pub extern "C" fn get_nprocs() -> libc::c_int {
    1
}
