//! Process-wide seams, by symbol interposition in this binary: the library
//! (through std, hifitime and flate2) asks libc for entropy, for the time and
//! for files; here the simulator answers. Outside a simulated run everything is
//! passed through to the kernel.
#![allow(non_camel_case_types)]
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Mutex;

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
const SYS_READ: i64 = 0;
const SYS_WRITE: i64 = 1;
const SYS_CLOSE: i64 = 3;
const SYS_LSEEK: i64 = 8;
const SYS_WRITEV: i64 = 20;
const SYS_OPENAT: i64 = 257;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_GETRANDOM: i64 = 318;
const AT_FDCWD: i64 = -100;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const ENOENT: i32 = 2;
pub const EACCES: i32 = 13;
pub const ENOSPC: i32 = 28;
pub const EMFILE: i32 = 24;
pub const EISDIR: i32 = 21;

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static SIM: Cell<bool> = const { Cell::new(false) };
    static HASH_CALLS: Cell<u64> = const { Cell::new(0) };
    static CLOCK: RefCell<Clock> = const { RefCell::new(Clock { script: Vec::new(), reads: 0 }) };
}

struct Clock {
    script: Vec<(i64, i64)>,
    reads: usize,
}

/// Puts the calling thread under simulation: its hash seed and its clock.
pub fn enter(hash_seed: u64) {
    SIM.with(|s| s.set(true));
    HASH_SEED.with(|s| s.set(hash_seed));
    HASH_CALLS.with(|s| s.set(0));
    set_clock(vec![(1_700_000_000, 0)]);
}
/// Successive clock readings (the last one repeats).
pub fn set_clock(script: Vec<(i64, i64)>) {
    CLOCK.with(|c| {
        let mut c = c.borrow_mut();
        c.script = script;
        c.reads = 0;
    });
}
pub fn clock_reads() -> usize {
    CLOCK.with(|c| c.borrow().reads)
}
pub fn hash_calls() -> u64 {
    HASH_CALLS.with(|c| c.get())
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if SIM.try_with(|s| s.get()).unwrap_or(false) {
        let mut x = HASH_SEED.with(|s| s.get());
        HASH_CALLS.with(|s| s.set(s.get() + 1));
        for i in 0..len {
            *buf.add(i) = crate::source::splitmix(&mut x) as u8;
        }
        HASH_SEED.with(|s| s.set(x));
        return len as isize;
    }
    syscall(SYS_GETRANDOM, buf, len, flags) as isize
}

#[repr(C)]
pub struct timespec {
    tv_sec: i64,
    tv_nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut timespec) -> i32 {
    if id == 0 && SIM.try_with(|s| s.get()).unwrap_or(false) {
        let r = CLOCK.try_with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                let i = c.reads.min(c.script.len().saturating_sub(1));
                c.reads += 1;
                c.script.get(i).copied()
            } else {
                None
            }
        });
        if let Ok(Some((s, n))) = r {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32
}

// ---------------------------------------------------------------- disk

/// Fault plan of one open file, by operation index within that file.
#[derive(Clone, Debug, Default)]
pub struct FilePlan {
    /// errno for open itself
    pub open_errno: i32,
    /// per-call directives; after the end of the list calls are plain
    pub ops: Vec<Op>,
    /// bytes that fit before ENOSPC (None: no limit)
    pub capacity: Option<usize>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Plain,
    Short(usize),
    Err(i32),
}

#[derive(Default)]
struct Disk {
    files: BTreeMap<String, Vec<u8>>,
    plans: BTreeMap<String, FilePlan>,
    open: BTreeMap<i32, Handle>,
    next_fd: i32,
    fired: BTreeMap<&'static str, u64>,
    crashed: bool,
    /// after this many more successful write syscalls, the machine dies
    crash_after_writes: Option<usize>,
    log: Vec<String>,
}
struct Handle {
    path: String,
    pos: usize,
    opn: usize,
    plan: FilePlan,
    tid: u64,
}

static DISKS: Mutex<BTreeMap<u64, Disk>> = Mutex::new(BTreeMap::new());
pub const ROOT: &str = "/simdisk/";
const FD_BASE: i32 = 1 << 20;

thread_local! { static DISK_ID: Cell<u64> = const { Cell::new(0) }; }

/// Attaches the calling thread to simulated disk `id` (created empty).
pub fn mount(id: u64) {
    DISK_ID.with(|d| d.set(id));
    let mut g = DISKS.lock().unwrap();
    g.insert(id, Disk { next_fd: FD_BASE + ((id as i32 & 0x3ff) << 16), ..Default::default() });
}
pub fn attach(id: u64) {
    DISK_ID.with(|d| d.set(id));
}
pub fn unmount() {
    let id = DISK_ID.with(|d| d.get());
    DISKS.lock().unwrap().remove(&id);
}
fn with_disk<T>(f: impl FnOnce(&mut Disk) -> T) -> Option<T> {
    let id = DISK_ID.try_with(|d| d.get()).ok()?;
    let mut g = DISKS.lock().ok()?;
    g.get_mut(&id).map(f)
}
pub fn put(path: &str, data: Vec<u8>) {
    with_disk(|d| d.files.insert(path.to_string(), data));
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    with_disk(|d| d.files.get(path).cloned()).flatten()
}
pub fn plan(path: &str, p: FilePlan) {
    with_disk(|d| d.plans.insert(path.to_string(), p));
}
pub fn fired() -> BTreeMap<&'static str, u64> {
    with_disk(|d| std::mem::take(&mut d.fired)).unwrap_or_default()
}
pub fn disk_log() -> Vec<String> {
    with_disk(|d| std::mem::take(&mut d.log)).unwrap_or_default()
}
pub fn open_handles() -> usize {
    with_disk(|d| d.open.len()).unwrap_or(0)
}
pub fn crash_after_writes(n: Option<usize>) {
    with_disk(|d| {
        d.crash_after_writes = n;
        d.crashed = false
    });
}
pub fn crashed() -> bool {
    with_disk(|d| d.crashed).unwrap_or(false)
}
/// machine restarts: handles are gone, the content of files stays
pub fn restart() {
    with_disk(|d| {
        d.open.clear();
        d.plans.clear();
        d.crashed = false;
        d.crash_after_writes = None;
    });
}

unsafe fn sim_open(path: &str, flags: i32) -> i32 {
    with_disk(|d| {
        if d.crashed {
            return Err(EIO);
        }
        let plan = d.plans.get(path).cloned().unwrap_or_default();
        if plan.open_errno != 0 {
            *d.fired.entry("open_error").or_default() += 1;
            d.log.push(format!("open {path} -> errno {}", plan.open_errno));
            return Err(plan.open_errno);
        }
        let creat = flags & 0o100 != 0;
        let trunc = flags & 0o1000 != 0;
        let excl = flags & 0o200 != 0;
        if !d.files.contains_key(path) {
            if !creat {
                return Err(ENOENT);
            }
            d.files.insert(path.to_string(), Vec::new());
        } else if creat && excl {
            return Err(17);
        } else if trunc {
            d.files.insert(path.to_string(), Vec::new());
        }
        d.next_fd += 1;
        let fd = d.next_fd;
        let pos = if flags & 0o2000 != 0 { d.files[path].len() } else { 0 };
        d.open.insert(fd, Handle { path: path.to_string(), pos, opn: 0, plan, tid: 0 });
        d.log.push(format!("open {path} flags {flags:o} -> fd#{}", d.open.len()));
        Ok(fd)
    })
    .unwrap_or(Err(ENOENT))
    .unwrap_or_else(|e| {
        set_errno(e);
        -1
    })
}

unsafe fn open_common(path: *const i8, flags: i32, mode: u32) -> i32 {
    if SIM.try_with(|s| s.get()).unwrap_or(false) {
        if let Ok(p) = std::ffi::CStr::from_ptr(path).to_str() {
            if p.starts_with(ROOT) {
                return sim_open(p, flags);
            }
        }
    }
    syscall(SYS_OPENAT, AT_FDCWD, path, flags as i64, mode as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    open_common(path, flags, mode)
}
fn io<T>(fd: i32, f: impl FnOnce(&mut Disk, &mut Handle) -> Result<T, i32>) -> Result<T, i32> {
    with_disk(|d| {
        if d.crashed {
            return Err(EIO);
        }
        let mut h = d.open.remove(&fd).ok_or(9)?;
        let r = f(d, &mut h);
        d.open.insert(fd, h);
        r
    })
    .unwrap_or(Err(9))
}

fn next_op(d: &mut Disk, h: &mut Handle) -> Op {
    let op = h.plan.ops.get(h.opn).copied().unwrap_or(Op::Plain);
    h.opn += 1;
    if h.opn > 2_000_000 {
        // nobody needs that many operations on files of this size
        *d.fired.entry("runaway").or_default() += 1;
        std::process::exit(97);
    }
    op
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_READ, fd as i64, buf, n) as isize;
    }
    let r = io(fd, |d, h| {
        let mut n = n;
        match next_op(d, h) {
            Op::Plain => {},
            Op::Short(k) => {
                if k.max(1) < n {
                    n = k.max(1);
                    *d.fired.entry("disk_short_read").or_default() += 1;
                }
            },
            Op::Err(e) => {
                *d.fired.entry(if e == EINTR { "disk_read_eintr" } else { "disk_read_error" }).or_default() += 1;
                d.log.push(format!("read {} @{} -> errno {e}", h.path, h.pos));
                return Err(e);
            },
        }
        let data = d.files.get(&h.path).ok_or(EIO)?;
        let n = n.min(data.len().saturating_sub(h.pos));
        std::ptr::copy_nonoverlapping(data.as_ptr().wrapping_add(h.pos), buf, n);
        h.pos += n;
        Ok(n)
    });
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        },
    }
}

unsafe fn sim_write(fd: i32, data: &[u8]) -> isize {
    let r = io(fd, |d, h| {
        let mut n = data.len();
        match next_op(d, h) {
            Op::Plain => {},
            Op::Short(k) => {
                if k.max(1) < n {
                    n = k.max(1);
                    *d.fired.entry("disk_short_write").or_default() += 1;
                }
            },
            Op::Err(e) => {
                *d.fired.entry(if e == EINTR { "disk_write_eintr" } else { "disk_write_error" }).or_default() += 1;
                d.log.push(format!("write {} @{} -> errno {e}", h.path, h.pos));
                return Err(e);
            },
        }
        if let Some(cap) = h.plan.capacity {
            let room = cap.saturating_sub(h.pos);
            if room == 0 && n > 0 {
                *d.fired.entry("disk_full").or_default() += 1;
                d.log.push(format!("write {} @{} -> ENOSPC", h.path, h.pos));
                return Err(ENOSPC);
            }
            n = n.min(room);
        }
        if let Some(c) = d.crash_after_writes {
            if c == 0 {
                // the machine dies inside this write: part of it may be durable
                let keep = n / 2;
                let f = d.files.get_mut(&h.path).ok_or(EIO)?;
                f.truncate(h.pos);
                f.extend_from_slice(&data[..keep]);
                d.crashed = true;
                *d.fired.entry("crash_in_write").or_default() += 1;
                d.log.push(format!("crash inside write {} @{}", h.path, h.pos));
                return Err(EIO);
            }
            d.crash_after_writes = Some(c - 1);
        }
        let f = d.files.get_mut(&h.path).ok_or(EIO)?;
        if f.len() < h.pos + n {
            f.resize(h.pos + n, 0);
        }
        f[h.pos..h.pos + n].copy_from_slice(&data[..n]);
        h.pos += n;
        Ok(n)
    });
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        },
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_WRITE, fd as i64, buf, n) as isize;
    }
    sim_write(fd, std::slice::from_raw_parts(buf, n))
}

#[repr(C)]
pub struct iovec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const iovec, cnt: i32) -> isize {
    if fd < FD_BASE {
        return syscall(SYS_WRITEV, fd as i64, iov, cnt as i64) as isize;
    }
    let mut v = Vec::new();
    for i in 0..cnt as usize {
        let e = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(e.base, e.len));
    }
    sim_write(fd, &v)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < FD_BASE {
        return syscall(SYS_CLOSE, fd as i64) as i32;
    }
    with_disk(|d| d.open.remove(&fd));
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if fd < FD_BASE {
        let r = syscall(SYS_LSEEK, fd as i64, off, whence as i64);
        return r;
    }
    let r = io(fd, |d, h| {
        let len = d.files.get(&h.path).map(|f| f.len()).unwrap_or(0) as i64;
        let p = match whence {
            0 => off,
            1 => h.pos as i64 + off,
            _ => len + off,
        };
        if p < 0 {
            return Err(22);
        }
        h.pos = p as usize;
        Ok(p)
    });
    r.unwrap_or_else(|e| {
        set_errno(e);
        -1
    })
}
