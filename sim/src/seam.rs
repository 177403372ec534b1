//! The seam: this executable defines the libc functions the Rust standard library calls for
//! files, clocks and randomness. On a session thread they go to the simulated World; on the
//! harness's own threads to the real system; on any other thread path access is refused.
use crate::world::*;
use libc::*;
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static CTX: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static REAL_OK: Cell<bool> = const { Cell::new(false) };
}

/// Marks this thread as the harness's own: real system calls allowed.
pub fn allow_real() {
    REAL_OK.with(|r| r.set(true));
}
/// Runs `f` with every system call of this thread served by `w`.
pub fn enter(w: *mut World) -> *mut World {
    CTX.with(|c| c.replace(w))
}

fn real_ok() -> bool {
    REAL_OK.try_with(|r| r.get()).unwrap_or(false)
}

fn sim<T>(f: impl FnOnce(&mut World) -> T) -> Option<T> {
    let p = CTX.try_with(|c| c.replace(std::ptr::null_mut())).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    let k = crate::alloc::set_fill(0);
    let l = crate::alloc::in_library(false);
    let r = f(unsafe { &mut *p });
    crate::alloc::in_library(l);
    crate::alloc::set_fill(k);
    CTX.with(|c| c.set(p));
    Some(r)
}

unsafe fn seterr(e: c_int) {
    sim(|w| w.errs.push(e));
    *__errno_location() = e;
}
unsafe fn ret<T: Into<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            seterr(e);
            -1
        }
    }
}
unsafe fn ret0(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            seterr(e);
            -1
        }
    }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    CStr::from_ptr(p).to_bytes()
}

macro_rules! real {
    ($name:expr, $ty:ty) => {{
        static PTR: AtomicUsize = AtomicUsize::new(0);
        let mut p = PTR.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            PTR.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}

/// Path access outside a session: only for the harness itself.
macro_rules! guard {
    ($fail:expr) => {
        if !real_ok() {
            seterr(EACCES);
            return $fail;
        }
    };
}

unsafe fn open_common(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(r) = sim(|w| w.sys_open(dirfd, bytes(path), flags, mode)) {
        return ret(r) as c_int;
    }
    guard!(-1);
    libc::syscall(SYS_openat, dirfd, path, flags, mode as c_int) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_common(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int {
    open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode)
}

unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, at: Option<u64>) -> ssize_t {
    if fd >= FD_BASE {
        if let Some(r) = sim(|w| {
            let out = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
            w.sys_read(fd, out, at)
        }) {
            return ret(r.map(|n| n as i64)) as ssize_t;
        }
        seterr(EBADF);
        return -1;
    }
    match at {
        None => libc::syscall(SYS_read, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(SYS_pread64, fd, buf, n, o) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    do_read(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(o as u64))
}
unsafe fn do_readv(fd: c_int, iov: *const iovec, cnt: c_int, at: Option<u64>) -> ssize_t {
    if fd < FD_BASE {
        return libc::syscall(SYS_readv, fd, iov, cnt) as ssize_t;
    }
    let iovs = std::slice::from_raw_parts(iov, cnt as usize);
    let total: usize = iovs.iter().map(|v| v.iov_len).sum();
    if let Some(r) = sim(|w| {
        let mut tmp = vec![0u8; total];
        let r = w.sys_read(fd, &mut tmp, at);
        if let Ok(n) = r {
            let mut off = 0;
            for v in iovs {
                let k = v.iov_len.min(n - off);
                std::ptr::copy_nonoverlapping(tmp.as_ptr().add(off), v.iov_base as *mut u8, k);
                off += k;
            }
        }
        r
    }) {
        return ret(r.map(|n| n as i64)) as ssize_t;
    }
    seterr(EBADF);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    do_readv(fd, iov, cnt, None)
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, cnt: c_int, o: off_t) -> ssize_t {
    do_readv(fd, iov, cnt, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const iovec, cnt: c_int, o: off64_t) -> ssize_t {
    do_readv(fd, iov, cnt, Some(o as u64))
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, at: Option<u64>) -> ssize_t {
    if fd >= FD_BASE {
        if let Some(r) = sim(|w| {
            let d = if n == 0 { &[][..] } else { std::slice::from_raw_parts(buf as *const u8, n) };
            w.sys_write(fd, d, at)
        }) {
            return ret(r.map(|n| n as i64)) as ssize_t;
        }
        seterr(EBADF);
        return -1;
    }
    match at {
        None => libc::syscall(SYS_write, fd, buf, n) as ssize_t,
        Some(o) => libc::syscall(SYS_pwrite64, fd, buf, n, o) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    do_write(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(o as u64))
}
unsafe fn do_writev(fd: c_int, iov: *const iovec, cnt: c_int, at: Option<u64>) -> ssize_t {
    if fd < FD_BASE {
        return libc::syscall(SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let iovs = std::slice::from_raw_parts(iov, cnt as usize);
    if let Some(r) = sim(|w| {
        let mut tmp = Vec::new();
        for v in iovs {
            if v.iov_len > 0 {
                tmp.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        w.sys_write(fd, &tmp, at)
    }) {
        return ret(r.map(|n| n as i64)) as ssize_t;
    }
    seterr(EBADF);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    do_writev(fd, iov, cnt, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const iovec, cnt: c_int, o: off_t) -> ssize_t {
    do_writev(fd, iov, cnt, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const iovec, cnt: c_int, o: off64_t) -> ssize_t {
    do_writev(fd, iov, cnt, Some(o as u64))
}

unsafe fn do_lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd >= FD_BASE {
        return match sim(|w| w.sys_lseek(fd, off, whence)) {
            Some(r) => ret(r),
            None => ret::<i64>(Err(EBADF)),
        };
    }
    libc::syscall(SYS_lseek, fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    do_lseek(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return match sim(|w| w.sys_close(fd)) {
            Some(r) => ret0(r),
            None => 0,
        };
    }
    libc::syscall(SYS_close, fd) as c_int
}

macro_rules! fd_op {
    ($name:ident, ($($a:ident : $t:ty),*), |$w:ident, $fd:ident| $body:expr, $real:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($fd: c_int $(, $a: $t)*) -> c_int {
            if $fd >= FD_BASE {
                return match sim(|$w| $body) {
                    Some(r) => ret0(r),
                    None => ret0(Err(EBADF)),
                };
            }
            $real
        }
    };
}
fd_op!(fsync, (), |w, fd| w.sys_sync(), libc::syscall(SYS_fsync, fd) as c_int);
fd_op!(fdatasync, (), |w, fd| w.sys_sync(), libc::syscall(SYS_fdatasync, fd) as c_int);
fd_op!(ftruncate, (len: off_t), |w, fd| w.sys_ftruncate(fd, len), libc::syscall(SYS_ftruncate, fd, len) as c_int);
fd_op!(ftruncate64, (len: off64_t), |w, fd| w.sys_ftruncate(fd, len), libc::syscall(SYS_ftruncate, fd, len) as c_int);
fd_op!(fchmod, (mode: mode_t), |w, fd| w.sys_chmod(Some(fd), b"", mode), libc::syscall(SYS_fchmod, fd, mode) as c_int);
fd_op!(fchown, (u: uid_t, g: gid_t), |w, fd| { let _ = (w, u, g); Ok(()) }, libc::syscall(SYS_fchown, fd, u, g) as c_int);
fd_op!(futimens, (ts: *const timespec), |w, fd| { let _ = (w, ts); Ok(()) }, libc::syscall(SYS_utimensat, fd, 0, ts, 0) as c_int);
fd_op!(flock, (how: c_int), |w, fd| { let _ = (w, how); Ok(()) }, libc::syscall(SYS_flock, fd, how) as c_int);
fd_op!(syncfs, (), |w, fd| w.sys_sync(), libc::syscall(SYS_syncfs, fd) as c_int);
fd_op!(fchdir, (), |w, fd| { let p = w.fds.get(&fd).map(|f| f.path.clone()); match p { Some(p) => w.sys_chdir(&p), None => Err(EBADF) } }, libc::syscall(SYS_fchdir, fd) as c_int);
fd_op!(posix_fadvise, (o: off_t, l: off_t, a: c_int), |w, fd| { let _ = (w, o, l, a); Ok(()) }, libc::syscall(SYS_fadvise64, fd, o, l, a) as c_int);

type St = (u64, u32, u64, u64, u32);
unsafe fn fill_stat(out: *mut stat64, s: St) {
    let mut st: stat64 = std::mem::zeroed();
    st.st_dev = 77;
    st.st_ino = s.0;
    st.st_mode = s.1;
    st.st_nlink = s.4 as u64;
    st.st_uid = 1000;
    st.st_gid = 1000;
    st.st_size = s.2 as i64;
    st.st_blksize = 4096;
    st.st_blocks = (s.2.min(1 << 40) as i64 + 511) / 512;
    st.st_mtime = (s.3 / 1_000_000_000) as i64;
    st.st_mtime_nsec = (s.3 % 1_000_000_000) as i64;
    st.st_ctime = st.st_mtime;
    st.st_ctime_nsec = st.st_mtime_nsec;
    st.st_atime = st.st_mtime;
    st.st_atime_nsec = st.st_mtime_nsec;
    *out = st;
}
unsafe fn do_stat(d: c_int, path: Option<*const c_char>, follow: bool, out: *mut stat64) -> c_int {
    if path.is_none() && d < FD_BASE && d != AT_FDCWD {
        return libc::syscall(SYS_fstat, d, out) as c_int;
    }
    if let Some(r) = sim(|w| w.sys_stat(d, path.map(|p| bytes(p)), follow)) {
        return match r {
            Ok(s) => {
                fill_stat(out, s);
                0
            }
            Err(e) => ret0(Err(e)),
        };
    }
    guard!(-1);
    let empty = b"\0".as_ptr() as *const c_char;
    let (p, fl) = match path {
        Some(p) => (p, if follow { 0 } else { AT_SYMLINK_NOFOLLOW }),
        None => (empty, AT_EMPTY_PATH),
    };
    libc::syscall(SYS_newfstatat, d, p, out, fl) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut stat64) -> c_int {
    do_stat(fd, None, true, out)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, out: *mut stat64) -> c_int {
    do_stat(fd, None, true, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut stat64) -> c_int {
    do_stat(AT_FDCWD, Some(p), true, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, out: *mut stat64) -> c_int {
    do_stat(AT_FDCWD, Some(p), true, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut stat64) -> c_int {
    do_stat(AT_FDCWD, Some(p), false, out)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, out: *mut stat64) -> c_int {
    do_stat(AT_FDCWD, Some(p), false, out)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, out: *mut stat64, fl: c_int) -> c_int {
    if *p == 0 && fl & AT_EMPTY_PATH != 0 {
        return do_stat(d, None, true, out);
    }
    do_stat(d, Some(p), fl & AT_SYMLINK_NOFOLLOW == 0, out)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, out: *mut stat64, fl: c_int) -> c_int {
    fstatat64(d, p, out, fl)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut statx) -> c_int {
    if p.is_null() {
        // std probes for availability with null pointers
        seterr(EFAULT);
        return -1;
    }
    let empty = *p == 0 && fl & AT_EMPTY_PATH != 0;
    if !(empty && d < FD_BASE && d != AT_FDCWD) {
        let path = if empty { None } else { Some(p) };
        if let Some(r) = sim(|w| w.sys_stat(d, path.map(|p| bytes(p)), fl & AT_SYMLINK_NOFOLLOW == 0)) {
            return match r {
                Err(e) => ret0(Err(e)),
                Ok(s) => {
                    let mut x: libc::statx = std::mem::zeroed();
                    x.stx_mask = STATX_BASIC_STATS | STATX_BTIME;
                    x.stx_ino = s.0;
                    x.stx_mode = s.1 as u16;
                    x.stx_nlink = s.4;
                    x.stx_uid = 1000;
                    x.stx_gid = 1000;
                    x.stx_size = s.2;
                    x.stx_blksize = 4096;
                    x.stx_blocks = s.2 / 512 + 1;
                    x.stx_mtime.tv_sec = (s.3 / 1_000_000_000) as i64;
                    x.stx_mtime.tv_nsec = (s.3 % 1_000_000_000) as u32;
                    x.stx_ctime = x.stx_mtime;
                    x.stx_atime = x.stx_mtime;
                    x.stx_btime = x.stx_mtime;
                    x.stx_dev_major = 1;
                    x.stx_dev_minor = 7;
                    *out = x;
                    0
                }
            };
        }
        guard!(-1);
    }
    libc::syscall(SYS_statx, d, p, fl, mask, out) as c_int
}

unsafe fn do_access(d: c_int, p: *const c_char, m: c_int) -> c_int {
    if let Some(r) = sim(|w| w.sys_access(d, bytes(p), m)) {
        return ret0(r);
    }
    guard!(-1);
    libc::syscall(SYS_faccessat, d, p, m) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    do_access(AT_FDCWD, p, m)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, _f: c_int) -> c_int {
    do_access(d, p, m)
}

unsafe fn malloced(b: &[u8]) -> *mut c_char {
    let p = malloc(b.len() + 1) as *mut u8;
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
    *p.add(b.len()) = 0;
    p as *mut c_char
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(r) = sim(|w| w.sys_realpath(bytes(p))) {
        return match r {
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
            Ok(b) => {
                if out.is_null() {
                    malloced(&b)
                } else {
                    std::ptr::copy_nonoverlapping(b.as_ptr(), out as *mut u8, b.len());
                    *out.add(b.len()) = 0;
                    out
                }
            }
        };
    }
    guard!(std::ptr::null_mut());
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
unsafe fn do_readlink(d: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if let Some(r) = sim(|w| w.sys_readlink(d, bytes(p))) {
        return match r {
            Err(e) => ret::<i64>(Err(e)) as ssize_t,
            Ok(b) => {
                let k = b.len().min(n);
                std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, k);
                k as ssize_t
            }
        };
    }
    guard!(-1);
    libc::syscall(SYS_readlinkat, d, p, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    do_readlink(AT_FDCWD, p, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, p: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    do_readlink(d, p, buf, n)
}

macro_rules! path_op {
    ($name:ident, ($($a:ident : $t:ty),*), |$w:ident| $body:expr, $real:expr) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if let Some(r) = sim(|$w| $body) {
                return ret0(r);
            }
            guard!(-1);
            $real
        }
    };
}
path_op!(rename, (a: *const c_char, b: *const c_char), |w| w.sys_rename(bytes(a), bytes(b), false),
    libc::syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0) as c_int);
path_op!(renameat, (d: c_int, a: *const c_char, e: c_int, b: *const c_char), |w| { let _ = (d, e); w.sys_rename(bytes(a), bytes(b), false) },
    libc::syscall(SYS_renameat2, d, a, e, b, 0) as c_int);
path_op!(renameat2, (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_uint), |w| { let _ = (d, e); w.sys_rename(bytes(a), bytes(b), f & 1 != 0) },
    libc::syscall(SYS_renameat2, d, a, e, b, f) as c_int);
path_op!(link, (a: *const c_char, b: *const c_char), |w| w.sys_link(bytes(a), bytes(b), false),
    libc::syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0) as c_int);
path_op!(linkat, (d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int), |w| { let _ = (d, e, f); w.sys_link(bytes(a), bytes(b), false) },
    libc::syscall(SYS_linkat, d, a, e, b, f) as c_int);
path_op!(symlink, (a: *const c_char, b: *const c_char), |w| w.sys_link(bytes(a), bytes(b), true),
    libc::syscall(SYS_symlinkat, a, AT_FDCWD, b) as c_int);
path_op!(symlinkat, (a: *const c_char, d: c_int, b: *const c_char), |w| { let _ = d; w.sys_link(bytes(a), bytes(b), true) },
    libc::syscall(SYS_symlinkat, a, d, b) as c_int);
path_op!(unlink, (a: *const c_char), |w| w.sys_unlink(AT_FDCWD, bytes(a), false),
    libc::syscall(SYS_unlinkat, AT_FDCWD, a, 0) as c_int);
path_op!(unlinkat, (d: c_int, a: *const c_char, f: c_int), |w| w.sys_unlink(d, bytes(a), f & AT_REMOVEDIR != 0),
    libc::syscall(SYS_unlinkat, d, a, f) as c_int);
path_op!(rmdir, (a: *const c_char), |w| w.sys_unlink(AT_FDCWD, bytes(a), true),
    libc::syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR) as c_int);
path_op!(mkdir, (a: *const c_char, m: mode_t), |w| w.sys_mkdir(bytes(a), m),
    libc::syscall(SYS_mkdirat, AT_FDCWD, a, m) as c_int);
path_op!(mkdirat, (d: c_int, a: *const c_char, m: mode_t), |w| { let _ = d; w.sys_mkdir(bytes(a), m) },
    libc::syscall(SYS_mkdirat, d, a, m) as c_int);
path_op!(chmod, (a: *const c_char, m: mode_t), |w| w.sys_chmod(None, bytes(a), m),
    libc::syscall(SYS_fchmodat, AT_FDCWD, a, m) as c_int);
path_op!(fchmodat, (d: c_int, a: *const c_char, m: mode_t, f: c_int), |w| { let _ = (d, f); w.sys_chmod(None, bytes(a), m) },
    libc::syscall(SYS_fchmodat, d, a, m) as c_int);
path_op!(chown, (a: *const c_char, u: uid_t, g: gid_t), |w| { let _ = (w, a, u, g); Ok(()) },
    libc::syscall(SYS_fchownat, AT_FDCWD, a, u, g, 0) as c_int);
path_op!(lchown, (a: *const c_char, u: uid_t, g: gid_t), |w| { let _ = (w, a, u, g); Ok(()) },
    libc::syscall(SYS_fchownat, AT_FDCWD, a, u, g, AT_SYMLINK_NOFOLLOW) as c_int);
path_op!(utimensat, (d: c_int, a: *const c_char, t: *const timespec, f: c_int), |w| { let _ = (w, d, a, t, f); Ok(()) },
    libc::syscall(SYS_utimensat, d, a, t, f) as c_int);
path_op!(chdir, (a: *const c_char), |w| w.sys_chdir(bytes(a)), libc::syscall(SYS_chdir, a) as c_int);
path_op!(truncate64, (a: *const c_char, n: off64_t), |w| {
    w.sys_open(AT_FDCWD, bytes(a), O_WRONLY, 0).and_then(|fd| { let r = w.sys_ftruncate(fd, n); let _ = w.sys_close(fd); r })
}, libc::syscall(SYS_truncate, a, n) as c_int);
path_op!(mkfifo, (a: *const c_char, m: mode_t), |w| { let _ = (w, a, m); Err(EPERM) }, {
    let _ = (a, m);
    ret0(Err(EPERM))
});

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if let Some(r) = sim(|w| w.sys_getcwd()) {
        return match r {
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
            Ok(b) => {
                if buf.is_null() {
                    return malloced(&b);
                }
                if b.len() + 1 > n {
                    seterr(ERANGE);
                    return std::ptr::null_mut();
                }
                std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, b.len());
                *buf.add(b.len()) = 0;
                buf
            }
        };
    }
    guard!(std::ptr::null_mut());
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n)
}

// ---- directories ------------------------------------------------------------------------
// A simulated DIR* is a boxed SimDir registered in the world under its address.

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if let Some(r) = sim(|w| {
        w.sys_opendir(bytes(p)).map(|d| {
            let fd = d.fd;
            let ptr = Box::into_raw(Box::new(d));
            w.dirs.insert(ptr as usize, fd);
            ptr
        })
    }) {
        return match r {
            Ok(p) => p as *mut DIR,
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
        };
    }
    guard!(std::ptr::null_mut());
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if fd >= FD_BASE {
        if let Some(r) = sim(|w| {
            let p = w.fds.get(&fd).map(|f| f.path.clone()).ok_or(EBADF)?;
            let d = w.sys_opendir(&p)?;
            let _ = w.fds.remove(&fd);
            let nfd = d.fd;
            let ptr = Box::into_raw(Box::new(d));
            w.dirs.insert(ptr as usize, nfd);
            Ok(ptr)
        }) {
            return match r {
                Ok(p) => p as *mut DIR,
                Err(e) => {
                    seterr(e);
                    std::ptr::null_mut()
                }
            };
        }
    }
    guard!(std::ptr::null_mut());
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if let Some(r) = sim(|w| {
        if !w.dirs.contains_key(&(d as usize)) {
            return None;
        }
        let sd = &mut *(d as *mut SimDir);
        Some(w.sys_readdir(sd))
    })
    .flatten()
    {
        return match r {
            Ok(true) => &mut (*(d as *mut SimDir)).ent,
            Ok(false) => std::ptr::null_mut(),
            Err(e) => {
                seterr(e);
                std::ptr::null_mut()
            }
        };
    }
    real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if let Some(r) = sim(|w| {
        let fd = w.dirs.remove(&(d as usize))?;
        drop(Box::from_raw(d as *mut SimDir));
        Some(w.sys_close(fd))
    })
    .flatten()
    {
        // Closing a directory cannot fail in practice (std panics if it does).
        let _ = r;
        return 0;
    }
    real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if let Some(fd) = sim(|w| w.dirs.get(&(d as usize)).copied()).flatten() {
        return fd;
    }
    real!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}

// ---- the rest ---------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if a >= FD_BASE || c >= FD_BASE {
        seterr(ENOSYS);
        return -1;
    }
    libc::syscall(SYS_copy_file_range, a, b, c, d, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    if a >= FD_BASE || b >= FD_BASE {
        seterr(ENOSYS);
        return -1;
    }
    libc::syscall(SYS_sendfile, a, b, o, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(a, b, o, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, b: *mut loff_t, c: c_int, d: *mut loff_t, n: size_t, f: c_uint) -> ssize_t {
    if a >= FD_BASE || c >= FD_BASE {
        seterr(EINVAL);
        return -1;
    }
    libc::syscall(SYS_splice, a, b, c, d, n, f) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= FD_BASE {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => match sim(|w| w.sys_dup(fd)) {
                Some(r) => ret(r) as c_int,
                None => ret::<i32>(Err(EBADF)) as c_int,
            },
            // (std asserts this works before closing a handle)
            F_GETFD => FD_CLOEXEC,
            _ => 0,
        };
    }
    libc::syscall(SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if fd >= FD_BASE {
        return match sim(|w| w.sys_dup(fd)) {
            Some(r) => ret(r) as c_int,
            None => ret::<i32>(Err(EBADF)) as c_int,
        };
    }
    libc::syscall(SYS_dup, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if fd >= FD_BASE {
        seterr(ENOTTY);
        return -1;
    }
    libc::syscall(SYS_ioctl, fd, req, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if n > 0 {
        if let Some(()) = sim(|w| w.rand_bytes(std::slice::from_raw_parts_mut(buf as *mut u8, n))) {
            return n as ssize_t;
        }
    }
    libc::syscall(SYS_getrandom, buf, n, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if let Some(now) = sim(|w| {
        w.now += 1000;
        w.now
    }) {
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(SYS_clock_gettime, clk, ts) as c_int
}
unsafe fn do_sleep(req: *const timespec) -> bool {
    sim(|w| w.now += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64).is_some()
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if do_sleep(req) {
        return 0;
    }
    libc::syscall(SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, fl: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if do_sleep(req) {
        return 0;
    }
    -libc::syscall(SYS_clock_nanosleep, clk, fl, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if sim(|_| ()).is_some() {
        return 4242;
    }
    libc::syscall(SYS_getpid) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if sim(|_| ()).is_some() || !real_ok() {
        seterr(EPERM);
        return -1;
    }
    real!("fork", unsafe extern "C" fn() -> pid_t)()
}
