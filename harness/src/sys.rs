//! Interposed file system calls: crash points and faults inside of one directory.
//!
//! The functions below take precedence over those of libc in this executable.  Outside of the
//! armed directory they only pass the call on.
use std::cell::UnsafeCell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ_LINK: c_long = 89;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_MMAP: c_long = 9;
const SYS_MUNMAP: c_long = 11;
const SYS_PWRITE: c_long = 18;
const SYS_WRITEV: c_long = 20;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const SYS_FTRUNCATE: c_long = 77;
const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83;
const SYS_RMDIR: c_long = 84;
const SYS_UNLINK: c_long = 87;
const SYS_OPENAT: c_long = 257;
const SYS_ACCESS: c_long = 21;
const SYS_UNLINKAT: c_long = 263;
const SYS_FALLOCATE: c_long = 285;
const MAP_ANONYMOUS: c_int = 0x20;
const MAP_NORESERVE: c_int = 0x4000;
const AT_FDCWD: c_int = -100;
pub const EINTR: c_int = 4;
pub const EROFS: c_int = 30;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    Write,
    /// changes the file system otherwise
    Change,
    /// does not change the file system
    Other,
}

#[derive(Default)]
pub struct State {
    /// Directory with trailing slash; empty: not armed
    root: Vec<u8>,
    /// Take a snapshot before each change
    pub snapshots: bool,
    pub taken: Vec<String>,
    snap_dir: String,
    /// Countdown to the fault among all calls or among writes only; 0: no fault
    pub fault_at: usize,
    pub writes_only: bool,
    /// Error number, 0: short write
    pub errno: c_int,
    /// All further calls which change something fail too
    pub sticky: bool,
    /// A failing write writes a part of the data
    pub torn: bool,
    pub failing: bool,
    pub fired: usize,
    pub calls: usize,
}

struct Global(UnsafeCell<Option<State>>);
// The harness has a single thread
unsafe impl Sync for Global {}
static GLOBAL: Global = Global(UnsafeCell::new(None));

pub fn state() -> &'static mut State {
    unsafe { (*GLOBAL.0.get()).get_or_insert_with(State::default) }
}
fn armed() -> bool {
    unsafe { (*GLOBAL.0.get()).as_ref().map_or(false, |s| !s.root.is_empty()) }
}

pub fn arm(root: &str, snap_dir: &str) {
    let s = state();
    *s = State::default();
    s.root = format!("{}/", root).into_bytes();
    s.snap_dir = snap_dir.into();
}
pub fn disarm() {
    *state() = State::default();
}

/// Nothing fails and no snapshots are taken
pub fn aside<T>(f: impl FnOnce() -> T) -> T {
    let root = std::mem::replace(&mut state().root, vec![]);
    let r = f();
    state().root = root;
    r
}

enum What {
    Pass,
    Fail(c_int),
    Short,
}

/// Called before each call inside of the directory.
fn event(class: Class, torn: Option<(c_int, *const u8, usize)>) -> What {
    let s = state();
    s.calls += 1;
    if s.snapshots && class != Class::Other {
        // no recursion
        let root = std::mem::replace(&mut s.root, vec![]);
        let dir = String::from_utf8(root[..root.len() - 1].to_vec()).unwrap();
        let name = format!("{}/{}", s.snap_dir, s.taken.len());
        copy_dir(&dir, &name);
        s.taken.push(name);
        if let Some((fd, data, n)) = torn {
            let pos = unsafe { syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long) };
            if let (Some(path), true) = (path_of(fd), pos >= 0 && n >= 2) {
                if path.starts_with(&root) && !path.ends_with(b" (deleted)") {
                    let name = format!("{}/{}", s.snap_dir, s.taken.len());
                    copy_dir(&dir, &name);
                    let file = format!("{}/{}", name, String::from_utf8_lossy(&path[root.len()..]));
                    write_at(&file, pos as u64, unsafe { std::slice::from_raw_parts(data, n / 2) });
                    s.taken.push(name);
                }
            }
        }
        s.root = root;
    }
    if s.failing && class != Class::Other {
        s.fired += 1;
        return What::Fail(s.errno);
    }
    if s.fault_at > 0 && (class == Class::Write || !s.writes_only) {
        s.fault_at -= 1;
        if s.fault_at == 0 {
            s.fired += 1;
            if s.errno == 0 {
                return What::Short;
            }
            s.failing = s.sticky;
            return What::Fail(s.errno);
        }
    }
    What::Pass
}

fn write_at(file: &str, pos: u64, data: &[u8]) {
    use std::io::{Seek, SeekFrom, Write};
    let mut f = std::fs::OpenOptions::new().write(true).open(file).unwrap();
    f.seek(SeekFrom::Start(pos)).unwrap();
    f.write_all(data).unwrap();
}

pub fn copy_dir(from: &str, to: &str) {
    std::fs::create_dir_all(to).unwrap();
    if let Ok(d) = std::fs::read_dir(from) {
        for e in d {
            let e = e.unwrap();
            let name = e.file_name().into_string().unwrap();
            let (f, t) = (format!("{}/{}", from, name), format!("{}/{}", to, name));
            if e.file_type().unwrap().is_dir() {
                copy_dir(&f, &t);
            } else {
                std::fs::copy(&f, &t).unwrap();
            }
        }
    }
}

fn path_of(fd: c_int) -> Option<Vec<u8>> {
    let link = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 4096];
    let n = unsafe { syscall(SYS_READ_LINK, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if n < 0 {
        None
    } else {
        Some(buf[..n as usize].to_vec())
    }
}
fn fd_inside(fd: c_int) -> bool {
    armed() && path_of(fd).map_or(false, |p| p.starts_with(&state().root))
}
fn path_inside(p: *const c_char) -> bool {
    if !armed() {
        return false;
    }
    let p = unsafe { CStr::from_ptr(p) }.to_bytes();
    let r = &state().root;
    p.starts_with(r) || p == &r[..r.len() - 1]
}
fn exists(p: *const c_char) -> bool {
    unsafe { syscall(SYS_ACCESS, p, 0 as c_long) == 0 }
}
unsafe fn fail(e: c_int) -> c_long {
    *__errno_location() = e;
    -1
}

macro_rules! call {
    ($inside:expr, $class:expr, $($a:expr),*) => {
        if $inside {
            match event($class, None) {
                What::Fail(e) => fail(e),
                _ => syscall($($a),*),
            }
        } else {
            syscall($($a),*)
        }
    };
}

/// Large writes of zeros at the end of a file leave holes, which have the same content.
unsafe fn write_sparse(fd: c_int, buf: *const c_void, n: usize) -> Option<isize> {
    const CHUNK: usize = 1 << 20;
    static ZERO: [u8; CHUNK] = [0; CHUNK];
    let pos = syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long);
    let end = syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 2 as c_long);
    if pos < 0 || end < 0 {
        return None;
    }
    syscall(SYS_LSEEK, fd as c_long, pos, 0 as c_long);
    if pos < end {
        return None;
    }
    // as much as the system call would write at once
    let data = std::slice::from_raw_parts(buf as *const u8, n.min(0x7fff_f000));
    let mut at = 0;
    for c in data.chunks(CHUNK) {
        if *c == ZERO[..c.len()] && at + c.len() < data.len() {
            syscall(SYS_LSEEK, fd as c_long, c.len() as c_long, 1 as c_long);
        } else if syscall(SYS_WRITE, fd as c_long, c.as_ptr(), c.len()) != c.len() as c_long {
            crate::json::tool_error("cannot write");
        }
        at += c.len();
    }
    Some(at as isize)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if n >= 1 << 24 && !armed() {
        if let Some(n) = write_sparse(fd, buf, n) {
            return n;
        }
    }
    if fd_inside(fd) {
        match event(Class::Write, Some((fd, buf as *const u8, n))) {
            What::Fail(e) => {
                if state().torn && n > 1 {
                    syscall(SYS_WRITE, fd as c_long, buf, n / 2);
                }
                return fail(e) as isize;
            }
            What::Short => n = if n > 1 { n / 2 } else { n },
            What::Pass => {}
        }
    }
    syscall(SYS_WRITE, fd as c_long, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: c_long) -> isize {
    call!(fd_inside(fd), Class::Write, SYS_PWRITE, fd as c_long, buf, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const c_void, n: c_int) -> isize {
    call!(fd_inside(fd), Class::Write, SYS_WRITEV, fd as c_long, iov, n as c_long) as isize
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let class = if flags & 0o3 != 0 || flags & 0o1100 != 0 { Class::Change } else { Class::Other };
    call!(path_inside(path), class, SYS_OPENAT, AT_FDCWD as c_long, path, flags as c_long, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: c_long, whence: c_int) -> c_long {
    call!(fd_inside(fd), Class::Other, SYS_LSEEK, fd as c_long, off, whence as c_long)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: c_long) -> c_int {
    call!(fd_inside(fd), Class::Change, SYS_FTRUNCATE, fd as c_long, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: c_long, n: c_long) -> c_int {
    call!(fd_inside(fd), Class::Change, SYS_FALLOCATE, fd as c_long, mode as c_long, off, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    call!(fd_inside(fd), Class::Change, SYS_FSYNC, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    call!(fd_inside(fd), Class::Change, SYS_FDATASYNC, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    // calls which fail anyway are not of interest
    call!(path_inside(path) && exists(path), Class::Change, SYS_UNLINK, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, path: *const c_char, flags: c_int) -> c_int {
    call!(path_inside(path), Class::Change, SYS_UNLINKAT, fd as c_long, path, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    call!(path_inside(a) || path_inside(b), Class::Change, SYS_RENAME, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    call!(path_inside(path) && !exists(path), Class::Change, SYS_MKDIR, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    call!(path_inside(path), Class::Change, SYS_RMDIR, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, off: c_long) -> *mut c_void {
    let r = call!(fd >= 0 && fd_inside(fd), Class::Other, SYS_MMAP, a, n, p as c_long, f as c_long, fd as c_long, off);
    // not those of the harness itself
    if f & MAP_ANONYMOUS != 0 && f & MAP_NORESERVE == 0 && r != -1 {
        crate::heap::mapped(r as usize, n);
    }
    r as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: usize) -> c_int {
    crate::heap::unmapped(a as usize);
    let r = syscall(SYS_MUNMAP, a, n);
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, off: c_long) -> *mut c_void {
    mmap64(a, n, p, f, fd, off)
}
