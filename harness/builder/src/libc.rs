//! The operating system as the builder sees it: a few files, three open descriptors, an
//! environment, and at any call a fault that the solver picks.  Under the engine these
//! definitions are the only ones; natively they stand in for libc's while `ACTIVE`.

use std::ptr::{addr_of, addr_of_mut};

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EISDIR: i32 = 21;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EAGAIN: i32 = 11;
pub const EPIPE: i32 = 32;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOSYS: i32 = 38;

pub struct File {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub there: bool,
}

pub struct Fd {
    pub file: usize,
    pub pos: usize,
    pub open: bool,
    pub read: bool,
    pub write: bool,
    pub append: bool,
}

pub struct World {
    pub files: Vec<File>,
    pub fds: Vec<Fd>,
    pub out: Vec<u8>,
    pub err: usize,
    /// Calls that may fail so far, and which of them do.
    pub calls: u32,
    pub faults: Vec<u32>,
    pub hit: u32,
    /// A fault that the build may not survive has been injected.
    pub failed: bool,
    /// Reading was disturbed or the input is no config: nothing but the input may be touched.
    pub input_bad: bool,
    pub input: usize,
    pub env: [Option<Vec<u8>>; 2],
    pub at_exit: Option<fn(i32)>,
    pub any_error: bool,
}

static mut WORLD: Option<World> = None;
static mut ACTIVE: bool = false;

pub fn world() -> &'static mut World {
    unsafe { (*addr_of_mut!(WORLD)).as_mut().unwrap() }
}

pub fn start(w: World) {
    unsafe {
        WORLD = Some(w);
        ACTIVE = true;
    }
}

pub fn stop() {
    unsafe { ACTIVE = false }
}

fn active() -> bool {
    unsafe { *addr_of!(ACTIVE) }
}

impl World {
    pub fn new() -> World {
        World { files: vec![], fds: vec![], out: vec![], err: 0, calls: 0, faults: vec![], hit: 0, failed: false, input_bad: false, input: usize::MAX, env: [None, None], at_exit: None, any_error: false }
    }

    /// One of `n` ways for a call to go wrong, or none.
    fn fault(&mut self, n: u32) -> u32 {
        self.calls += 1;
        if !self.faults.contains(&(self.calls - 1)) {
            return 0;
        }
        self.hit += 1;
        sym::choose(n) + 1
    }

    pub fn find(&mut self, path: &[u8]) -> usize {
        let p = normal(path);
        for i in 0..self.files.len() {
            if crate::same(&self.files[i].path, &p) {
                return i;
            }
        }
        self.files.push(File { path: p, data: vec![], there: false });
        self.files.len() - 1
    }

    fn touch(&mut self, f: usize) {
        sym::check(!self.input_bad || f == self.input, "a file is touched although the input is no config");
    }
}

/// Absolute, without empty and '.' parts.
pub fn normal(path: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(path.len() + 8);
    if path.is_empty() || path[0] != b'/' {
        v.extend_from_slice(b"/cwd");
    }
    let mut i = 0;
    while i < path.len() {
        if path[i] == b'/' {
            i += 1;
            continue;
        }
        let s = i;
        while i < path.len() && path[i] != b'/' {
            i += 1;
        }
        if i - s == 1 && path[s] == b'.' {
            continue;
        }
        v.push(b'/');
        v.extend_from_slice(&path[s..i]);
    }
    if v.is_empty() {
        v.push(b'/');
    }
    v
}

#[cfg(feature = "engine")]
mod errno {
    static mut ERRNO: i32 = 0;
    #[no_mangle]
    pub extern "C" fn __errno_location() -> *mut i32 {
        std::ptr::addr_of_mut!(ERRNO)
    }
}
#[cfg(not(feature = "engine"))]
mod errno {
    extern "C" {
        pub fn __errno_location() -> *mut i32;
    }
}
#[allow(unused_unsafe)]
fn fail(e: i32) -> i32 {
    unsafe { *errno::__errno_location() = e }
    -1
}

/// Any of Linux's error numbers, except the one that only means 'again' and the one std takes for success; or a common one.
fn some_error() -> i32 {
    let e = sym::u8();
    if world().any_error {
        sym::assume((e >= 1) & (e <= 133) & (e != EINTR as u8) & (e != EBADF as u8));
    } else {
        let mut ok = false;
        for k in [ENOENT, EIO, EAGAIN, EACCES, EISDIR, ENOSPC, EPIPE] {
            ok |= e == k as u8;
        }
        sym::assume(ok);
    }
    e as i32
}

#[cfg(not(feature = "engine"))]
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(feature = "engine")]
unsafe fn real() -> i64 {
    sym::fail("a system call outside the build")
}

macro_rules! real {
    ($n:expr $(, $a:expr)*) => {
        if !active() {
            #[cfg(not(feature = "engine"))]
            return syscall($n $(, $a)*) as _;
            #[cfg(feature = "engine")]
            return real() as _;
        }
    };
}

unsafe fn cstr(p: *const u8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

const O_WRONLY: i32 = 1;
const O_RDWR: i32 = 2;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;

unsafe fn open(path: &[u8], flags: i32) -> i32 {
    let w = world();
    let f = w.find(path);
    let writes = flags & (O_WRONLY | O_RDWR) != 0;
    if writes {
        w.touch(f);
    }
    match w.fault(2) {
        0 => {}
        1 => return fail(EINTR),
        _ => {
            w.failed = true;
            if f == w.input && !writes {
                w.input_bad = true;
            }
            sym::panic_ok(true);
            return fail(some_error());
        }
    }
    let file = &mut w.files[f];
    if !file.there {
        if flags & O_CREAT == 0 {
            return fail(ENOENT);
        }
        file.there = true;
    } else if flags & O_EXCL != 0 {
        return fail(17);
    }
    if flags & O_TRUNC != 0 && writes {
        file.data.clear();
    }
    w.fds.push(Fd { file: f, pos: 0, open: true, read: flags & O_WRONLY == 0, write: writes, append: flags & O_APPEND != 0 });
    w.fds.len() as i32 + 2
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    real!(2, path, flags, mode);
    open(cstr(path), flags)
}

fn fd(n: i32) -> Option<&'static mut Fd> {
    if n < 3 {
        return None;
    }
    world().fds.get_mut(n as usize - 3).filter(|f| f.open)
}

#[no_mangle]
pub unsafe extern "C" fn close(n: i32) -> i32 {
    real!(3, n);
    match fd(n) {
        None => fail(EBADF),
        Some(f) => {
            f.open = false;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(n: i32, p: *mut u8, len: usize) -> isize {
    real!(0, n, p, len);
    let w = world();
    let f = match fd(n) {
        Some(f) if f.read => f,
        _ => return fail(EBADF) as isize,
    };
    let data = &world().files[f.file].data;
    let mut k = data.len().saturating_sub(f.pos).min(len);
    match w.fault(3) {
        0 => {}
        1 => return fail(EINTR) as isize,
        2 => k = k.min(1),
        _ => {
            w.failed = true;
            if f.file == w.input {
                w.input_bad = true;
            }
            sym::panic_ok(true);
            return fail(some_error()) as isize;
        }
    }
    std::ptr::copy_nonoverlapping(data.as_ptr().add(f.pos), p, k);
    f.pos += k;
    k as isize
}

unsafe fn put(n: i32, p: *const u8, len: usize) -> isize {
    let w = world();
    if n != 1 && n != 2 {
        match fd(n) {
            Some(f) if f.write => w.touch(f.file),
            _ => return fail(EBADF) as isize,
        }
    }
    let mut k = len;
    if n != 2 {
        match w.fault(4) {
            0 => {}
            1 => return fail(EINTR) as isize,
            2 => k = k.min(1),
            e => {
                w.failed = true;
                sym::panic_ok(true);
                return match e {
                    3 => fail(some_error()) as isize,
                    _ => 0,
                };
            }
        }
    }
    let bytes = std::slice::from_raw_parts(p, k);
    match n {
        1 => w.out.extend_from_slice(bytes),
        2 => w.err += k,
        _ => {
            let f = fd(n).unwrap();
            let data = &mut w.files[f.file].data;
            if f.append {
                f.pos = data.len();
            }
            if f.pos == data.len() {
                data.extend_from_slice(bytes);
            } else {
                for (i, b) in bytes.iter().enumerate() {
                    if f.pos + i < data.len() {
                        data[f.pos + i] = *b;
                    } else {
                        data.push(*b);
                    }
                }
            }
            f.pos += k;
        }
    }
    k as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(n: i32, p: *const u8, len: usize) -> isize {
    real!(1, n, p, len);
    put(n, p, len)
}

#[repr(C)]
pub struct Iovec {
    p: *const u8,
    n: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(n: i32, v: *const Iovec, c: i32) -> isize {
    real!(20, n, v, c);
    let mut sum = 0;
    for i in 0..c as usize {
        let x = &*v.add(i);
        if x.n == 0 {
            continue;
        }
        let k = put(n, x.p, x.n);
        if k < 0 {
            return if sum > 0 { sum } else { k };
        }
        sum += k;
        if (k as usize) < x.n {
            break;
        }
    }
    sum
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(n: i32, off: i64, whence: i32) -> i64 {
    real!(8, n, off, whence);
    match fd(n) {
        None => fail(EBADF) as i64,
        Some(f) => {
            let base = match whence {
                0 => 0,
                1 => f.pos as i64,
                _ => world().files[f.file].data.len() as i64,
            };
            if base + off < 0 {
                return fail(EINVAL) as i64;
            }
            f.pos = (base + off) as usize;
            f.pos as i64
        }
    }
}

unsafe fn stat(f: usize, st: *mut u8) -> i32 {
    std::ptr::write_bytes(st, 0, 144);
    *(st.add(16) as *mut u64) = 1;
    *(st.add(24) as *mut u32) = 0o100644;
    *(st.add(48) as *mut i64) = world().files[f].data.len() as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(n: i32, st: *mut u8) -> i32 {
    real!(5, n, st);
    match fd(n) {
        None => fail(EBADF),
        Some(f) => stat(f.file, st),
    }
}

unsafe fn stat_path(path: *const u8, st: *mut u8) -> i32 {
    let w = world();
    let f = w.find(cstr(path));
    if w.files[f].there {
        stat(f, st)
    } else {
        fail(ENOENT)
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, st: *mut u8) -> i32 {
    real!(4, path, st);
    stat_path(path, st)
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, st: *mut u8) -> i32 {
    real!(6, path, st);
    stat_path(path, st)
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, path: *const u8, flags: i32, mask: u32, st: *mut u8) -> i32 {
    real!(332, d, path, flags, mask, st);
    fail(ENOSYS)
}

#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    real!(82, a, b);
    let w = world();
    let (f, g) = (w.find(cstr(a)), w.find(cstr(b)));
    w.touch(g);
    if !w.files[f].there {
        return fail(ENOENT);
    }
    if w.fault(1) == 1 {
        w.failed = true;
        sym::panic_ok(true);
        return fail(EIO);
    }
    if f != g {
        w.files[g].data = std::mem::take(&mut w.files[f].data);
        w.files[g].there = true;
        w.files[f].there = false;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const u8) -> i32 {
    real!(87, a);
    let w = world();
    let f = w.find(cstr(a));
    w.touch(f);
    if !w.files[f].there {
        return fail(ENOENT);
    }
    w.files[f].there = false;
    w.files[f].data.clear();
    0
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: i32, len: i64) -> i32 {
    real!(77, n, len);
    match fd(n) {
        Some(f) if f.write => {
            world().touch(f.file);
            world().files[f.file].data.resize(len as usize, 0);
            0
        }
        _ => fail(EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(n: i32) -> i32 {
    real!(74, n);
    let w = world();
    if w.fault(1) == 1 {
        w.failed = true;
        sym::panic_ok(true);
        return fail(EIO);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: i32) -> i32 {
    real!(75, n);
    fsync(n)
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, m: u32) -> i32 {
    real!(83, p, m);
    fail(17)
}

/// Ends the process: what is left of it is judged here.
#[no_mangle]
pub unsafe extern "C" fn exit(status: i32) -> ! {
    if !active() {
        #[cfg(not(feature = "engine"))]
        syscall(231, status as i64);
        sym::fail("exit outside the build");
    }
    stop();
    if let Some(f) = world().at_exit {
        f(status);
    }
    sym::end()
}

static NAMES: [&[u8]; 2] = [b"CARGO_MANIFEST_DIR", b"OUT_DIR"];

#[cfg(feature = "engine")]
mod engine_only {
    use super::*;

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        super::environment(name)
    }
    #[no_mangle]
    pub unsafe extern "C" fn __xpg_strerror_r(_e: i32, buf: *mut u8, _n: usize) -> i32 {
        *buf = b'E';
        *buf.add(1) = 0;
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pthread_self() -> u64 {
        1
    }
    #[no_mangle]
    pub unsafe extern "C" fn gettid() -> i32 {
        1
    }
    #[no_mangle]
    pub unsafe extern "C" fn poll(_p: *mut u8, _n: u64, _t: i32) -> i32 {
        fail(ENOSYS)
    }
}

#[allow(dead_code)]
unsafe fn environment(name: *const u8) -> *const u8 {
    if !active() {
        return std::ptr::null();
    }
    for i in 0..2 {
        if cstr(name) == NAMES[i] {
            return match &world().env[i] {
                None => std::ptr::null(),
                Some(v) => v.as_ptr(),
            };
        }
    }
    std::ptr::null()
}

/// Natively the environment is the process's own (of its own fork).
#[cfg(not(feature = "engine"))]
pub fn set_environment() {
    use std::os::unix::ffi::OsStrExt;
    for i in 0..2 {
        let k = std::str::from_utf8(NAMES[i]).unwrap();
        match &world().env[i] {
            None => std::env::remove_var(k),
            Some(v) => std::env::set_var(k, std::ffi::OsStr::from_bytes(&v[..v.len() - 1])),
        }
    }
}
#[cfg(feature = "engine")]
pub fn set_environment() {}

/// Under the engine, stands in for the hash function of `HashMap`: every key collides, so that
/// only equality decides.
#[no_mangle]
pub unsafe extern "C" fn verif_hash(state: *mut u64, p: *const u8, n: usize) {
    if n == 1 && *p == 0xff {
        return;
    }
    for i in 0..9 {
        let w = state.add(i);
        *w = w.read().wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(1);
    }
}
