//! A file system the scenarios control: the system calls the code under test makes end up here.
//!
//! Symbolically these definitions are what the program links against; natively they take precedence
//! over the C library's, and pass everything the scenario does not own on to the kernel. No call made
//! on behalf of the code under test reaches a real file while a scenario's file system is installed.
#![allow(static_mut_refs)]
use std::ffi::{c_char, c_int, c_long, c_void};
use sym::*;

pub const ENOENT: u8 = 2;
pub const EINTR: u8 = 4;
const EFAULT: u8 = 14;

/// What opening a path yields.
pub enum Found {
    Errno(u8),
    File(Content),
}

#[derive(Clone)]
pub struct Content {
    pub data: Vec<u8>,
    /// the size the file claims to have
    pub size: u64,
    /// error of fstat
    pub stat_errno: u8,
    /// which read fails, and how
    pub read_errno: Option<(usize, u8)>,
    /// how many reads may return less than they could
    pub short: usize,
    /// how many reads may be interrupted
    pub eintr: usize,
}

impl Content {
    pub fn new(data: &[u8]) -> Content {
        Content { data: data.to_vec(), size: data.len() as u64, stat_errno: 0, read_errno: None, short: 0, eintr: 0 }
    }
}

struct Fd {
    c: Content,
    pos: usize,
    reads: usize,
    open: bool,
    write: bool,
    path: Vec<u8>,
    written: Vec<u8>,
}

/// Looks a path up; the flag says whether it is opened for writing.
pub type Lookup = Box<dyn FnMut(&[u8], bool) -> Found>;

struct Vfs {
    look: Lookup,
    fds: Vec<Fd>,
    fired: bool,
}

static mut FS: Option<Vfs> = None;
const BASE: usize = 100_000;

pub fn install(look: Lookup) {
    unsafe { FS = Some(Vfs { look, fds: vec![], fired: false }) }
}

/// Takes the file system down; the files written meanwhile.
pub fn remove() -> Vec<(Vec<u8>, Vec<u8>)> {
    let fs = unsafe { FS.take() };
    fs.map(|f| f.fds.into_iter().filter(|f| f.write).map(|f| (f.path, f.written)).collect()).unwrap_or_default()
}

/// How many files are open.
pub fn open_files() -> usize {
    unsafe { FS.as_ref() }.map(|f| f.fds.iter().filter(|f| f.open).count()).unwrap_or(0)
}

/// Has a read failed as arranged?
pub fn read_failed() -> bool {
    unsafe { FS.as_ref() }.is_some_and(|f| f.fired)
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

fn set_errno(e: u8) {
    unsafe { *__errno_location() = e as c_int }
}

fn fd_of(fd: c_int) -> Option<&'static mut Fd> {
    let k = (fd as usize).wrapping_sub(BASE);
    unsafe { FS.as_mut() }.and_then(|f| f.fds.get_mut(k))
}

#[no_mangle]
unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if FS.is_none() {
        return syscall(2, path, flags, mode) as c_int;
    }
    let mut p = vec![];
    let mut q = path as *const u8;
    while *q != 0 {
        p.push(*q);
        q = q.add(1);
    }
    let write = flags & 3 != 0;
    let fs = FS.as_mut().unwrap();
    let r = (fs.look)(&p, write);
    match r {
        Found::Errno(e) => {
            set_errno(e);
            -1
        }
        Found::File(c) => {
            let fs = FS.as_mut().unwrap();
            fs.fds.push(Fd { c, pos: 0, reads: 0, open: true, write, path: p, written: vec![] });
            (BASE + fs.fds.len() - 1) as c_int
        }
    }
}

#[no_mangle]
unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let Some(f) = fd_of(fd) else { return syscall(0, fd, buf, n) as isize };
    f.reads += 1;
    if let Some((k, e)) = f.c.read_errno {
        if f.reads > k {
            FS.as_mut().unwrap().fired = true;
            set_errno(e);
            return -1;
        }
    }
    if f.c.eintr > 0 && flag() {
        f.c.eintr -= 1;
        set_errno(EINTR);
        return -1;
    }
    let mut k = n.min(f.c.data.len() - f.pos);
    if f.c.short > 0 && k > 1 && flag() {
        f.c.short -= 1;
        k = 1 + choice(k - 1);
    }
    std::ptr::copy_nonoverlapping(f.c.data.as_ptr().add(f.pos), buf as *mut u8, k);
    f.pos += k;
    k as isize
}

#[no_mangle]
unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if FS.is_some() && (fd == 1 || fd == 2) {
        // messages are not observed
        return n as isize;
    }
    let Some(f) = fd_of(fd) else { return syscall(1, fd, buf, n) as isize };
    let mut k = n;
    if f.c.short > 0 && n > 1 && flag() {
        f.c.short -= 1;
        k = 1 + choice(n.min(4) - 1);
    }
    f.written.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, k));
    k as isize
}

#[no_mangle]
unsafe extern "C" fn close(fd: c_int) -> c_int {
    let Some(f) = fd_of(fd) else { return syscall(3, fd) as c_int };
    f.open = false;
    0
}

#[no_mangle]
unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let Some(f) = fd_of(fd) else { return syscall(8, fd, off, whence) as i64 };
    match whence {
        0 => f.pos = off as usize,
        1 => f.pos = (f.pos as i64 + off) as usize,
        _ => f.pos = (f.c.data.len() as i64 + off) as usize,
    }
    f.pos as i64
}

#[no_mangle]
unsafe extern "C" fn fstat64(fd: c_int, out: *mut u8) -> c_int {
    let Some(f) = fd_of(fd) else { return syscall(5, fd, out) as c_int };
    if f.c.stat_errno != 0 {
        set_errno(f.c.stat_errno);
        return -1;
    }
    std::ptr::write_bytes(out, 0, 144);
    *(out.add(24) as *mut u32) = 0o100644;
    *(out.add(48) as *mut u64) = f.c.size;
    0
}

#[no_mangle]
unsafe extern "C" fn statx(fd: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut u8) -> c_int {
    if out.is_null() {
        // how the standard library finds out whether the call exists
        set_errno(EFAULT);
        return -1;
    }
    let Some(f) = fd_of(fd) else { return syscall(332, fd, path, flags, mask, out) as c_int };
    if f.c.stat_errno != 0 {
        set_errno(f.c.stat_errno);
        return -1;
    }
    std::ptr::write_bytes(out, 0, 256);
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = 0o100644;
    *(out.add(40) as *mut u64) = f.c.size;
    0
}

// the standard library asks whether a descriptor it closes is open
#[no_mangle]
unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fd_of(fd).is_some() {
        return 0;
    }
    syscall(72, fd, cmd, arg) as c_int
}

#[no_mangle]
unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
