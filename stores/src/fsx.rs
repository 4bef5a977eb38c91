//! The seam below the persistent stores: the system calls that write to their files. While a run is armed,
//! every write or flush by the store is an event; at a chosen event the process "dies" (the files are copied
//! as a restart would find them) or the call fails or is cut short.

use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::path::Path;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicI64;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

use libc::c_int;
use libc::c_void;
use libc::off64_t;
use libc::size_t;
use libc::ssize_t;

use crate::rng::Rng;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static MAIN: AtomicI64 = AtomicI64::new(0);
static ST: Mutex<Option<Fs>> = Mutex::new(None);
thread_local! { static INSIDE: Cell<bool> = const { Cell::new(false) } }

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Mode {
    CrashBefore,
    CrashTorn,
    CrashAfter,
    Eio,
    Enospc,
    Short,
}

pub struct Fs {
    dir: PathBuf,
    copy: PathBuf,
    /// only calls of the thread that runs the simulation count
    only_main: bool,
    /// the store is being opened, and opening it is not under test
    waiting: bool,
    /// writes that were not flushed may be lost
    lose_unsynced: bool,
    pub count: u64,
    at: Option<(u64, Mode)>,
    pub frozen: bool,
    pub done: Vec<&'static str>,
    synced: HashMap<PathBuf, u64>,
    rng: Rng,
    pub probe: Option<Box<dyn FnMut() -> Option<bool> + Send>>,
    /// the append in flight had been reported as flushed when the process died
    pub acked_in_flight: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Ev {
    Write,
    Sync,
}
enum Act {
    Do,
    Torn,
    FreezeAfter,
    Fail(c_int),
    Short,
}

fn tid() -> i64 {
    unsafe { libc::syscall(libc::SYS_gettid) }
}

pub fn arm(dir: &Path, copy: &Path, waiting: bool, only_main: bool, lose_unsynced: bool, at: Option<(u64, Mode)>, seed: u64) {
    MAIN.store(tid(), Ordering::SeqCst);
    // what a restart found is on the disk
    let mut synced = HashMap::new();
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Ok(m) = e.metadata() {
            if m.is_file() {
                synced.insert(e.path(), m.len());
            }
        }
    }
    *ST.lock().unwrap() = Some(Fs {
        dir: dir.to_path_buf(),
        copy: copy.to_path_buf(),
        only_main,
        waiting,
        lose_unsynced,
        count: 0,
        at,
        frozen: false,
        done: vec![],
        synced,
        rng: Rng::new(seed),
        probe: None,
        acked_in_flight: false,
    });
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Faults strike from here on.
pub fn start() {
    with(|f| f.waiting = false);
}

pub fn disarm() -> Option<Fs> {
    ACTIVE.store(false, Ordering::SeqCst);
    ST.lock().unwrap().take()
}

pub fn with<R>(f: impl FnOnce(&mut Fs) -> R) -> Option<R> {
    INSIDE.with(|i| {
        let old = i.replace(true);
        let r = ST.lock().unwrap().as_mut().map(f);
        i.set(old);
        r
    })
}

pub fn frozen() -> bool {
    ACTIVE.load(Ordering::SeqCst) && with(|f| f.frozen).unwrap_or(false)
}

/// The process dies here, between two operations.
pub fn freeze_now() {
    with(|f| f.freeze(None));
}

impl Fs {
    /// `partial`: a file and the length it has in this instant, when in the middle of a write
    fn freeze(&mut self, _partial: Option<()>) {
        if self.frozen {
            return;
        }
        self.frozen = true;
        if let Some(p) = &mut self.probe {
            self.acked_in_flight = p() == Some(true);
        }
        let (dir, copy) = (self.dir.clone(), self.copy.clone());
        self.copy_dir(&dir, &copy);
    }
    fn copy_dir(&mut self, from: &Path, to: &Path) {
        let _ = std::fs::create_dir_all(to);
        let mut v: Vec<_> = match std::fs::read_dir(from) {
            Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        v.sort();
        for p in v {
            let q = to.join(p.file_name().unwrap());
            if p.is_dir() {
                self.copy_dir(&p, &q);
                continue;
            }
            if p.file_name().and_then(|x| x.to_str()) == Some("LOCK") {
                continue;
            }
            let _ = std::fs::copy(&p, &q);
            if self.lose_unsynced && p.extension().and_then(|x| x.to_str()) == Some("log") {
                let len = std::fs::metadata(&q).map(|m| m.len()).unwrap_or(0);
                let s = self.synced.get(&p).copied().unwrap_or(0).min(len);
                if len > s {
                    let keep = match self.rng.below(4) {
                        0 => s,
                        1 => len,
                        _ => self.rng.range(s, len),
                    };
                    if keep < len {
                        self.done.push("crash loses unflushed bytes");
                        if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&q) {
                            let _ = f.set_len(keep);
                        }
                    }
                }
            }
        }
    }
    fn event(&mut self, p: &Path, ev: Ev) -> Act {
        if self.only_main && tid() != MAIN.load(Ordering::SeqCst) {
            return Act::Do;
        }
        let name = p.file_name().and_then(|x| x.to_str()).unwrap_or("");
        if name.starts_with("LOG") {
            return Act::Do;
        }
        if self.waiting {
            return Act::Do;
        }
        self.count += 1;
        let Some((n, mode)) = self.at else { return Act::Do };
        if self.count < n {
            return Act::Do;
        }
        // errors and short writes only in the log of the store, where the result reaches the caller
        let wal = p.extension().and_then(|x| x.to_str()) == Some("log");
        let hit = match mode {
            Mode::CrashTorn | Mode::Short => ev == Ev::Write && (mode == Mode::CrashTorn || wal),
            Mode::Eio | Mode::Enospc => wal,
            _ => true,
        };
        if !hit {
            return Act::Do;
        }
        self.at = None;
        match mode {
            Mode::CrashBefore => {
                self.done.push("crash before a write or flush");
                self.freeze(None);
                Act::Do
            }
            Mode::CrashTorn => {
                self.done.push("crash in the middle of a write");
                Act::Torn
            }
            Mode::CrashAfter => {
                self.done.push("crash after a write or flush");
                Act::FreezeAfter
            }
            Mode::Eio => {
                self.done.push("I/O error");
                Act::Fail(libc::EIO)
            }
            Mode::Enospc => {
                self.done.push("disk full");
                Act::Fail(libc::ENOSPC)
            }
            Mode::Short => {
                self.done.push("short write");
                Act::Short
            }
        }
    }
}

fn path_of(fd: c_int) -> Option<PathBuf> {
    let l = format!("/proc/self/fd/{}\0", fd);
    let mut b = [0u8; 512];
    let k = unsafe { libc::syscall(libc::SYS_readlink, l.as_ptr(), b.as_mut_ptr(), b.len()) };
    if k <= 0 {
        return None;
    }
    Some(PathBuf::from(std::ffi::OsStr::new(std::str::from_utf8(&b[..k as usize]).ok()?)))
}

fn size_of(fd: c_int) -> u64 {
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    unsafe { libc::fstat64(fd, &mut st) };
    st.st_size as u64
}

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

/// `io(n)` does the call with the first n bytes.
unsafe fn hooked(fd: c_int, n: usize, ev: Ev, io: impl Fn(usize) -> i64) -> i64 {
    if !ACTIVE.load(Ordering::Relaxed) || INSIDE.with(|i| i.get()) {
        return io(n);
    }
    let Some(p) = path_of(fd) else { return io(n) };
    INSIDE.with(|i| i.set(true));
    let mut g = ST.lock().unwrap();
    let r = match g.as_mut() {
        Some(f) if p.starts_with(&f.dir) && !f.frozen => {
            let r = match f.event(&p, ev) {
                Act::Do => io(n),
                Act::Torn => {
                    let k = f.rng.below(n as u64 + 1) as usize;
                    let a = if k > 0 { io(k) } else { 0 };
                    f.freeze(None);
                    // the rest is of no interest any more, but the caller should not notice
                    a.max(0).max(1).min(n as i64)
                }
                Act::FreezeAfter => {
                    let r = io(n);
                    if ev == Ev::Sync && r == 0 {
                        f.synced.insert(p.clone(), size_of(fd));
                    }
                    f.freeze(None);
                    r
                }
                Act::Fail(e) => {
                    INSIDE.with(|i| i.set(false));
                    drop(g);
                    set_errno(e);
                    return -1;
                }
                Act::Short => io((n / 2).max(1)),
            };
            if ev == Ev::Sync && r == 0 {
                f.synced.insert(p, size_of(fd));
            }
            r
        }
        _ => io(n),
    };
    drop(g);
    INSIDE.with(|i| i.set(false));
    r
}

fn ret(r: i64) -> ssize_t {
    r as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    ret(hooked(fd, n, Ev::Write, |k| libc::syscall(libc::SYS_write, fd, buf, k)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    ret(hooked(fd, n, Ev::Write, |k| libc::syscall(libc::SYS_pwrite64, fd, buf, k, off)))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    ret(hooked(fd, n, Ev::Write, |k| libc::syscall(libc::SYS_pwrite64, fd, buf, k, off)))
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    hooked(fd, 0, Ev::Sync, |_| libc::syscall(libc::SYS_fsync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    hooked(fd, 0, Ev::Sync, |_| libc::syscall(libc::SYS_fdatasync, fd)) as c_int
}

/// Does the interception work in this build?
pub fn self_check(dir: &Path) -> Result<(), String> {
    use std::io::Write;
    let _ = std::fs::create_dir_all(dir);
    arm(dir, &dir.join("none"), false, false, false, None, 1);
    let r = std::fs::File::create(dir.join("x")).and_then(|mut f| {
        f.write_all(b"x")?;
        f.sync_data()
    });
    let n = disarm().map(|f| f.count).unwrap_or(0);
    let _ = std::fs::remove_file(dir.join("x"));
    let _ = CStr::from_bytes_with_nul(b"\0");
    if r.is_err() || n != 2 {
        return Err(format!("file system calls are not intercepted: {} of 2, {:?}", n, r));
    }
    Ok(())
}
