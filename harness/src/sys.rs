//! The environment of the code under test: file system calls on the armed
//! scratch directory go through here, are logged in their global order, and can
//! be made to fail, to be partial, or to wait. Calls on other files pass through.
//!
//! The functions below take precedence over those of libc because they are
//! defined in the executable; they issue the raw system calls.

use libc::{c_char, c_int, c_uint, c_void, iovec, mode_t, off64_t, off_t, size_t, ssize_t};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

static ARMED: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct Fault {
    /// file name suffix
    pub file: String,
    /// open, write, read, sync
    pub call: String,
    /// the n-th such call on the file (from 1), or for reads the file offset
    pub nth: u64,
    pub forever: bool,
    /// errno name, "short" (with `arg` bytes), "zero", "wait" (until `arg`
    /// further calls on other files or 150 ms)
    pub kind: String,
    pub arg: u64,
}

#[derive(Default)]
struct St {
    dir: String,
    faults: Vec<Fault>,
    counts: std::collections::HashMap<(String, String), u64>,
    log: Vec<Value>,
    /// reads wait to be released
    gate_reads: bool,
    reads: Vec<Gated>,
    /// offsets at which an interrupted or short read goes on
    passes: Vec<u64>,
    max_out: usize,
    /// zeros are not written, and writes are not logged
    sparse: bool,
}

struct Gated {
    off: u64,
    released: bool,
    action: String,
    arg: u64,
    done: bool,
}

static ST: Mutex<Option<St>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

pub fn arm(dir: &std::path::Path, faults: Vec<Fault>, gate_reads: bool) {
    let mut g = ST.lock().unwrap();
    *g = Some(St {
        dir: dir.canonicalize().unwrap().to_string_lossy().to_string() + "/",
        faults,
        gate_reads,
        ..Default::default()
    });
    ARMED.store(true, Ordering::SeqCst);
}

/// Zeros become holes of the files, so that they can be large.
pub fn set_sparse(on: bool) {
    if let Some(st) = ST.lock().unwrap().as_mut() {
        st.sparse = on;
    }
}

unsafe fn write_sparse(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let b = buf as *const u8;
    let zeros = n > 4096 && *b == 0 && libc::memcmp(buf, b.add(1) as *const c_void, n - 1) == 0;
    if !zeros {
        return libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    }
    let pos = libc::syscall(libc::SYS_lseek, fd, n as i64, libc::SEEK_CUR) as i64;
    if pos < 0 || (pos > size_of_fd(fd) && libc::syscall(libc::SYS_ftruncate, fd, pos) != 0) {
        return -1;
    }
    n as ssize_t
}

pub fn disarm() -> Vec<Value> {
    ARMED.store(false, Ordering::SeqCst);
    let mut g = ST.lock().unwrap();
    let st = g.take();
    CV.notify_all();
    st.map(|s| s.log).unwrap_or_default()
}

/// Adds a line of the caller to the log (API calls and their results).
pub fn note(v: Value) {
    if let Some(st) = ST.lock().unwrap().as_mut() {
        st.log.push(v);
    }
}

pub fn log_len() -> usize {
    ST.lock().unwrap().as_ref().map(|s| s.log.len()).unwrap_or(0)
}

// ---- gated reads -----------------------------------------------------------

/// offsets of the reads that started, in order of their start
pub fn started() -> Vec<u64> {
    let g = ST.lock().unwrap();
    g.as_ref().map(|s| s.reads.iter().map(|r| r.off).collect()).unwrap_or_default()
}

pub fn max_outstanding() -> usize {
    ST.lock().unwrap().as_ref().map(|s| s.max_out).unwrap_or(0)
}

pub fn outstanding() -> usize {
    let g = ST.lock().unwrap();
    g.as_ref().map(|s| s.reads.iter().filter(|r| !r.done).count()).unwrap_or(0)
}

/// Waits until `n` reads started; false on timeout.
pub fn wait_started(n: usize, timeout: Duration) -> bool {
    let t = Instant::now();
    let mut g = ST.lock().unwrap();
    loop {
        match g.as_ref() {
            Some(s) if s.reads.len() >= n => return true,
            _ => {}
        }
        let left = timeout.checked_sub(t.elapsed()).unwrap_or_default();
        if left == Duration::default() {
            return false;
        }
        g = CV.wait_timeout(g, left).unwrap().0;
    }
}

/// Releases the first waiting read at `off`; false if there is none.
pub fn release(off: u64, action: &str, arg: u64) -> bool {
    let mut g = ST.lock().unwrap();
    if let Some(s) = g.as_mut() {
        if let Some(r) = s.reads.iter_mut().find(|r| r.off == off && !r.released) {
            r.released = true;
            r.action = action.to_string();
            r.arg = arg;
            CV.notify_all();
            return true;
        }
    }
    false
}

/// From now on reads do not wait, and those waiting go on.
pub fn open_gate() {
    let mut g = ST.lock().unwrap();
    if let Some(s) = g.as_mut() {
        s.gate_reads = false;
        for r in s.reads.iter_mut() {
            r.released = true;
        }
        CV.notify_all();
    }
}

// ---- interposition ---------------------------------------------------------

fn fd_path(fd: c_int) -> Option<String> {
    let link = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 4096];
    let n = unsafe {
        libc::syscall(
            libc::SYS_readlink,
            link.as_ptr(),
            buf.as_mut_ptr(),
            buf.len(),
        )
    };
    if n <= 0 {
        return None;
    }
    Some(String::from_utf8_lossy(&buf[..n as usize]).to_string())
}

/// The file name relative to the armed directory.
fn armed_name(st: &St, path: &str) -> Option<String> {
    path.strip_prefix(st.dir.as_str()).map(|s| s.to_string())
}

fn errno_of(kind: &str) -> Option<c_int> {
    Some(match kind {
        "EIO" => libc::EIO,
        "ENOSPC" => libc::ENOSPC,
        "EINTR" => libc::EINTR,
        "EACCES" => libc::EACCES,
        "EDQUOT" => libc::EDQUOT,
        "EFBIG" => libc::EFBIG,
        "EMFILE" => libc::EMFILE,
        "EINVAL" => libc::EINVAL,
        "EROFS" => libc::EROFS,
        "ENOSYS" => libc::ENOSYS,
        "EOPNOTSUPP" => libc::EOPNOTSUPP,
        "EAGAIN" => libc::EAGAIN,
        "EPIPE" => libc::EPIPE,
        "EBADF" => libc::EBADF,
        "ENOMEM" => libc::ENOMEM,
        "ETIMEDOUT" => libc::ETIMEDOUT,
        "ESTALE" => libc::ESTALE,
        "ENXIO" => libc::ENXIO,
        "EPERM" => libc::EPERM,
        "EBUSY" => libc::EBUSY,
        _ => return None,
    })
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn name_of_fd(fd: c_int) -> Option<String> {
    if !ARMED.load(Ordering::SeqCst) || fd < 3 {
        return None;
    }
    let p = fd_path(fd)?;
    let g = ST.lock().unwrap();
    armed_name(g.as_ref()?, &p)
}

/// Counts the call and returns the fault planned for it.
fn planned(name: &str, call: &str, off: Option<u64>) -> Option<Fault> {
    let mut g = ST.lock().unwrap();
    let st = g.as_mut()?;
    let n = st.counts.entry((name.to_string(), call.to_string())).or_insert(0);
    *n += 1;
    let n = off.unwrap_or(*n);
    let i = st.faults.iter().position(|f| {
        name.ends_with(&f.file)
            && f.call == call
            && if f.forever && off.is_none() { f.nth <= n } else { f.nth == n }
    })?;
    let f = st.faults[i].clone();
    if !f.forever {
        st.faults.remove(i);
    }
    if f.kind == "wait" {
        // until the other files saw `arg` more calls, or a timeout
        let total = |st: &St| -> u64 {
            st.log.iter().filter(|e| e["f"].is_string() && e["f"] != name).count() as u64
        };
        let goal = total(st) + f.arg;
        let t = Instant::now();
        let limit = Duration::from_millis(150);
        loop {
            let left = limit.checked_sub(t.elapsed()).unwrap_or_default();
            let reached = match g.as_ref() {
                Some(s) => total(s) >= goal,
                None => true,
            };
            if reached || left == Duration::default() {
                break;
            }
            g = CV.wait_timeout(g, left).unwrap().0;
        }
        return None;
    }
    Some(f)
}

fn size_of_fd(fd: c_int) -> i64 {
    let mut st: libc::stat64 = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat64(fd, &mut st) } == 0 {
        st.st_size
    } else {
        -1
    }
}

fn log(call: &str, name: &str, arg: i64, ret: i64) {
    log_size(call, name, arg, ret, -1)
}

fn log_size(call: &str, name: &str, arg: i64, ret: i64, size: i64) {
    let mut g = ST.lock().unwrap();
    if let Some(st) = g.as_mut() {
        st.log.push(json!({"op": "sys", "call": call, "f": name, "arg": arg, "ret": ret, "size": size}));
        CV.notify_all();
    }
}

unsafe fn do_write(fd: c_int, buf: *const c_void, count: size_t) -> ssize_t {
    let name = match name_of_fd(fd) {
        None => return libc::syscall(libc::SYS_write, fd, buf, count) as ssize_t,
        Some(n) => n,
    };
    let mut n = count;
    if let Some(f) = planned(&name, "write", None) {
        if let Some(e) = errno_of(&f.kind) {
            log("write", &name, count as i64, -1);
            set_errno(e);
            return -1;
        }
        match f.kind.as_str() {
            "zero" => {
                log("write", &name, count as i64, 0);
                return 0;
            }
            "short" => n = (f.arg as usize).min(count).max(1),
            _ => {}
        }
    }
    // the write and its log entry are one step with respect to the other files
    let mut g = ST.lock().unwrap();
    if g.as_ref().map(|s| s.sparse).unwrap_or(false) {
        drop(g);
        return write_sparse(fd, buf, n);
    }
    let r = libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t;
    let e = *libc::__errno_location();
    if let Some(st) = g.as_mut() {
        st.log.push(json!({"op": "sys", "call": "write", "f": name, "arg": count, "ret": r, "size": size_of_fd(fd)}));
        CV.notify_all();
    }
    drop(g);
    set_errno(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: size_t) -> ssize_t {
    do_write(fd, buf, count)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if ARMED.load(Ordering::SeqCst) && n > 0 && name_of_fd(fd).is_some() {
        // a partial write of the first non-empty buffer is a legal outcome
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 || i + 1 == n as usize {
                return do_write(fd, v.iov_base, v.iov_len);
            }
        }
    }
    libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t
}

unsafe fn do_pwrite(fd: c_int, buf: *const c_void, count: size_t, off: i64) -> ssize_t {
    if let Some(name) = name_of_fd(fd) {
        let mut n = count;
        if let Some(f) = planned(&name, "write", None) {
            if let Some(e) = errno_of(&f.kind) {
                log("pwrite", &name, off, -1);
                set_errno(e);
                return -1;
            }
            if f.kind == "short" {
                n = (f.arg as usize).min(count).max(1);
            }
        }
        let r = libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t;
        let e = *libc::__errno_location();
        log_size("pwrite", &name, off, r as i64, size_of_fd(fd));
        set_errno(e);
        return r;
    }
    libc::syscall(libc::SYS_pwrite64, fd, buf, count, off) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(
    fd: c_int,
    buf: *const c_void,
    count: size_t,
    off: off64_t,
) -> ssize_t {
    do_pwrite(fd, buf, count, off)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite(
    fd: c_int,
    buf: *const c_void,
    count: size_t,
    off: off_t,
) -> ssize_t {
    do_pwrite(fd, buf, count, off)
}

unsafe fn do_sync(call: &str, nr: i64, fd: c_int) -> c_int {
    if let Some(name) = name_of_fd(fd) {
        if let Some(f) = planned(&name, "sync", None) {
            if let Some(e) = errno_of(&f.kind) {
                // an interrupted synchronisation is repeated; it did not fail
                log(if e == libc::EINTR { "interrupted" } else { call }, &name, 0, -1);
                set_errno(e);
                return -1;
            }
        }
        let r = libc::syscall(nr, fd) as c_int;
        let e = *libc::__errno_location();
        log(call, &name, 0, r as i64);
        set_errno(e);
        return r;
    }
    libc::syscall(nr, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync("fsync", libc::SYS_fsync as i64, fd)
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync("fdatasync", libc::SYS_fdatasync as i64, fd)
}

/// The absolute path, without `.` and `..`.
unsafe fn absolute(dirfd: c_int, path: *const c_char) -> String {
    let p = std::ffi::CStr::from_ptr(path).to_string_lossy().to_string();
    let full = if p.starts_with('/') {
        p
    } else if dirfd == libc::AT_FDCWD {
        format!("{}/{}", std::env::current_dir().unwrap_or_default().display(), p)
    } else {
        format!("{}/{}", fd_path(dirfd).unwrap_or_default(), p)
    };
    let mut parts: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    format!("/{}", parts.join("/"))
}

/// Whether the code under test must not change what is at this path: only the
/// scratch directory is its own. The attempt is recorded.
unsafe fn outside(call: &str, dirfd: c_int, path: *const c_char) -> bool {
    if !ARMED.load(Ordering::SeqCst) {
        return false;
    }
    let p = absolute(dirfd, path);
    if p.starts_with("/dev/") || p.starts_with("/proc/") {
        return false;
    }
    let inside = {
        let g = ST.lock().unwrap();
        match g.as_ref() {
            Some(s) => (p.clone() + "/").starts_with(s.dir.as_str()),
            None => true,
        }
    };
    if !inside {
        log(call, &p, 0, -1);
        set_errno(libc::EACCES);
    }
    !inside
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if ARMED.load(Ordering::SeqCst) {
        let p = absolute(dirfd, path);
        let name = {
            let g = ST.lock().unwrap();
            g.as_ref().and_then(|s| armed_name(s, &p))
        };
        if name.is_none()
            && flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0
            && outside("open", dirfd, path)
        {
            return -1;
        }
        if let Some(name) = name {
            if let Some(f) = planned(&name, "open", None) {
                if let Some(e) = errno_of(&f.kind) {
                    log("open", &name, flags as i64, -1);
                    set_errno(e);
                    return -1;
                }
            }
            let r = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int;
            let e = *libc::__errno_location();
            log("open", &name, flags as i64, if r < 0 { -1 } else { 0 });
            set_errno(e);
            return r;
        }
    }
    libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int
}

// open is variadic in C; the third argument is always readable here
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(
    dirfd: c_int,
    path: *const c_char,
    flags: c_int,
    mode: mode_t,
) -> c_int {
    do_open(dirfd, path, flags, mode)
}

unsafe fn seek(fd: c_int, off: i64, whence: c_int) -> i64 {
    let r = libc::syscall(libc::SYS_lseek, fd, off, whence) as i64;
    let e = *libc::__errno_location();
    // reading the position or going to the end of an append-only file is harmless
    if !(off == 0 && (whence == libc::SEEK_CUR || whence == libc::SEEK_END)) {
        if let Some(name) = name_of_fd(fd) {
            log("seek", &name, off, r);
        }
    }
    set_errno(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    seek(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    seek(fd, off, whence)
}

unsafe fn truncate_fd(fd: c_int, len: i64) -> c_int {
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    let e = *libc::__errno_location();
    if let Some(name) = name_of_fd(fd) {
        log_size("truncate", &name, len, r as i64, size_of_fd(fd));
    }
    set_errno(e);
    r
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    truncate_fd(fd, len)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    truncate_fd(fd, len)
}

unsafe fn do_pread(fd: c_int, buf: *mut c_void, count: size_t, off: i64) -> ssize_t {
    let name = match name_of_fd(fd) {
        None => return libc::syscall(libc::SYS_pread64, fd, buf, count, off) as ssize_t,
        Some(n) => n,
    };
    let mut n = count;
    let mut action = String::new();
    let mut arg = 0;
    let mut slot = None;
    {
        let mut g = ST.lock().unwrap();
        if let Some(st) = g.as_mut() {
            if let Some(k) = st.passes.iter().position(|o| *o == off as u64) {
                st.passes.remove(k);
                drop(g);
                return libc::syscall(libc::SYS_pread64, fd, buf, count, off) as ssize_t;
            }
            let gated = st.gate_reads;
            st.reads.push(Gated {
                off: off as u64,
                released: !gated,
                action: String::new(),
                arg: 0,
                done: false,
            });
            let i = st.reads.len() - 1;
            slot = Some(i);
            let out = st.reads.iter().filter(|r| !r.done).count();
            st.max_out = st.max_out.max(out);
            CV.notify_all();
            let t = Instant::now();
            loop {
                match g.as_ref() {
                    None => break,
                    Some(s) if s.reads.len() <= i || s.reads[i].released => break,
                    _ => {}
                }
                if t.elapsed() > Duration::from_secs(30) {
                    break;
                }
                g = CV.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
            }
            if let Some(s) = g.as_ref() {
                if i < s.reads.len() {
                    action = s.reads[i].action.clone();
                    arg = s.reads[i].arg;
                }
            }
        }
    }
    let gated_action = !action.is_empty();
    if !gated_action {
        if let Some(f) = planned(&name, "read", Some(off as u64)) {
            action = f.kind;
            arg = f.arg;
        }
    }
    let finish = |ret: i64| {
        let mut g = ST.lock().unwrap();
        if let Some(st) = g.as_mut() {
            st.log.push(json!({"op": "sys", "call": "read", "f": name, "arg": off, "ret": ret, "size": -1}));
            if let Some(i) = slot {
                if i < st.reads.len() {
                    st.reads[i].done = true;
                }
            }
            CV.notify_all();
        }
    };
    if gated_action && (action == "EINTR" || action == "short") {
        if let Some(st) = ST.lock().unwrap().as_mut() {
            let done = if action == "short" { (arg as usize).min(count).max(1) } else { 0 };
            if done < count {
                st.passes.push(off as u64 + done as u64);
            }
        }
    }
    if let Some(e) = errno_of(&action) {
        finish(-1);
        set_errno(e);
        return -1;
    }
    match action.as_str() {
        "zero" => {
            finish(0);
            return 0;
        }
        "short" => n = (arg as usize).min(count).max(1),
        _ => {}
    }
    let r = libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t;
    let e = *libc::__errno_location();
    finish(r as i64);
    set_errno(e);
    r
}

/// A read at the file's position, gated like one at an offset.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: size_t) -> ssize_t {
    if name_of_fd(fd).is_none() {
        return libc::syscall(libc::SYS_read, fd, buf, count) as ssize_t;
    }
    let pos = libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as i64;
    let r = do_pread(fd, buf, count, pos);
    if r > 0 {
        let e = *libc::__errno_location();
        libc::syscall(libc::SYS_lseek, fd, pos + r as i64, libc::SEEK_SET);
        set_errno(e);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pread64(
    fd: c_int,
    buf: *mut c_void,
    count: size_t,
    off: off64_t,
) -> ssize_t {
    do_pread(fd, buf, count, off)
}

#[no_mangle]
pub unsafe extern "C" fn pread(
    fd: c_int,
    buf: *mut c_void,
    count: size_t,
    off: off_t,
) -> ssize_t {
    do_pread(fd, buf, count, off)
}

// Removing or renaming files of the armed directory is recorded as well, and
// not possible elsewhere.
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, 0)
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if outside("unlink", dirfd, path) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_unlinkat, dirfd, path, flags) as c_int;
    path_event("unlink", dirfd, path, r);
    r
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if outside("mkdir", libc::AT_FDCWD, path) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode) as c_int;
    path_event("mkdir", libc::AT_FDCWD, path, r);
    r
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if outside("rename", libc::AT_FDCWD, from) || outside("rename", libc::AT_FDCWD, to) {
        return -1;
    }
    let r = libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, from, libc::AT_FDCWD, to) as c_int;
    path_event("rename", libc::AT_FDCWD, to, r);
    r
}

unsafe fn path_event(call: &str, dirfd: c_int, path: *const c_char, r: c_int) {
    if ARMED.load(Ordering::SeqCst) {
        let e = *libc::__errno_location();
        let p = absolute(dirfd, path);
        let name = {
            let g = ST.lock().unwrap();
            g.as_ref().and_then(|s| armed_name(s, &p))
        };
        if let Some(name) = name {
            log(call, &name, 0, r as i64);
        }
        set_errno(e);
    }
}

pub fn faults_of(v: &Value) -> Vec<Fault> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|f| Fault {
                    file: f["file"].as_str().unwrap().to_string(),
                    call: f["call"].as_str().unwrap().to_string(),
                    nth: f["nth"].as_u64().unwrap(),
                    forever: f["forever"].as_bool().unwrap_or(false),
                    kind: f["kind"].as_str().unwrap().to_string(),
                    arg: f["arg"].as_u64().unwrap_or(0),
                })
                .collect()
        })
        .unwrap_or_default()
}
