//! libc interposition.  These symbols take precedence over glibc's for the
//! whole executable.  On simulated threads they call the simulator, elsewhere
//! they do the real thing.
#![allow(clippy::missing_safety_doc)]
use crate::rt::*;
use crate::sys;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

unsafe fn set(r: i64) -> i64 {
    ret(r)
}
unsafe fn cs(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}
fn fdsim(fd: i32) -> bool {
    active() && sys::is_sim_fd(fd)
}

// ------------------------------------------------------------------ files
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::open_at(d, &cs(p), flags, mode)) as c_int;
    }
    set(raw6(SYS_openat, d as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::close(fd)) as c_int;
    }
    set(raw6(SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if active() {
        if fd == 0 {
            return 0;
        }
        if sys::is_sim_fd(fd) {
            let _g = InGuard::new();
            return set(sys::pread_common(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), None)) as ssize_t;
        }
    }
    set(raw6(SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if active() {
        let _g = InGuard::new();
        let sl = std::slice::from_raw_parts(b as *const u8, n);
        if fd == 1 || fd == 2 {
            let s = sim();
            if s.stdout.len() < 1 << 20 {
                s.stdout.extend_from_slice(sl);
            }
            return n as ssize_t;
        }
        if sys::is_sim_fd(fd) {
            return set(sys::pwrite_common(fd, sl, None)) as ssize_t;
        }
    }
    set(raw6(SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::pread_common(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64))) as ssize_t;
    }
    set(raw6(SYS_pread64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: i64) -> ssize_t {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::pwrite_common(fd, std::slice::from_raw_parts(b as *const u8, n), Some(off as u64))) as ssize_t;
    }
    set(raw6(SYS_pwrite64, fd as i64, b as i64, n as i64, off, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if fdsim(fd) {
        let _g = InGuard::new();
        for i in 0..n as usize {
            let e = &*v.add(i);
            if e.iov_len > 0 {
                return set(sys::pread_common(fd, std::slice::from_raw_parts_mut(e.iov_base as *mut u8, e.iov_len), None)) as ssize_t;
            }
        }
        return 0;
    }
    set(raw6(SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if active() && (fd == 1 || fd == 2 || sys::is_sim_fd(fd)) {
        let mut buf = Vec::new();
        {
            let _g = InGuard::new();
            for i in 0..n as usize {
                let e = &*v.add(i);
                buf.extend_from_slice(std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
            }
        }
        return write(fd, buf.as_ptr() as *const c_void, buf.len());
    }
    set(raw6(SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::lseek(fd, off, wh));
    }
    set(raw6(SYS_lseek, fd as i64, off, wh as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

unsafe fn fill_stat(o: *mut stat64, r: Result<sys::StatOut, i32>) -> c_int {
    match r {
        Ok(s) => {
            std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<stat64>());
            (*o).st_mode = s.mode;
            (*o).st_size = s.size as i64;
            (*o).st_ino = s.ino;
            (*o).st_nlink = s.nlink as u64;
            (*o).st_blksize = 4096;
            (*o).st_dev = 42;
            (*o).st_mtime = s.mtime.div_euclid(1_000_000_000) as i64;
            0
        }
        Err(e) => set(-(e as i64)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, o: *mut stat64) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return fill_stat(o, sys::stat(fd, "", true, true));
    }
    set(raw6(SYS_fstat, fd as i64, o as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, o: *mut stat64) -> c_int {
    fstat64(fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, o: *mut stat64) -> c_int {
    fstatat64(AT_FDCWD, p, o, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, o: *mut stat64) -> c_int {
    fstatat64(AT_FDCWD, p, o, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, o: *mut stat64) -> c_int {
    fstatat64(AT_FDCWD, p, o, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, o: *mut stat64) -> c_int {
    fstatat64(AT_FDCWD, p, o, AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, o: *mut stat64, flags: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        let path = cs(p);
        return fill_stat(o, sys::stat(d, &path, flags & AT_SYMLINK_NOFOLLOW == 0, path.is_empty() && flags & AT_EMPTY_PATH != 0));
    }
    set(raw6(SYS_newfstatat, d as i64, p as i64, o as i64, flags as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, o: *mut libc::statx) -> c_int {
    if active() {
        let _g = InGuard::new();
        let path = if p.is_null() { String::new() } else { cs(p) };
        let fdonly = path.is_empty() && flags & AT_EMPTY_PATH != 0;
        if fdonly && !sys::is_sim_fd(d) {
            return set(raw6(SYS_statx, d as i64, p as i64, flags as i64, mask as i64, o as i64, 0)) as c_int;
        }
        return match sys::stat(d, &path, flags & AT_SYMLINK_NOFOLLOW == 0, fdonly) {
            Ok(s) => {
                std::ptr::write_bytes(o as *mut u8, 0, std::mem::size_of::<libc::statx>());
                (*o).stx_mask = 0x7ff;
                (*o).stx_blksize = 4096;
                (*o).stx_mode = s.mode as u16;
                (*o).stx_size = s.size;
                (*o).stx_ino = s.ino;
                (*o).stx_nlink = s.nlink;
                (*o).stx_blocks = s.size.div_ceil(512);
                (*o).stx_mtime.tv_sec = s.mtime.div_euclid(1_000_000_000) as i64;
                0
            }
            Err(e) => set(-(e as i64)) as c_int,
        };
    }
    set(raw6(SYS_statx, d as i64, p as i64, flags as i64, mask as i64, o as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::ftruncate(fd, len)) as c_int;
    }
    set(raw6(SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::fsync(fd)) as c_int;
    }
    set(raw6(SYS_fsync, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    unlinkat(AT_FDCWD, p, AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::unlink(d, &cs(p), flags)) as c_int;
    }
    set(raw6(SYS_unlinkat, d as i64, p as i64, flags as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    renameat(AT_FDCWD, a, AT_FDCWD, b)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, a: *const c_char, nd: c_int, b: *const c_char) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::rename(od, &cs(a), nd, &cs(b))) as c_int;
    }
    set(raw6(SYS_renameat2, od as i64, a as i64, nd as i64, b as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, a: *const c_char, nd: c_int, b: *const c_char, f: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::link(od, &cs(a), nd, &cs(b))) as c_int;
    }
    set(raw6(SYS_linkat, od as i64, a as i64, nd as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, p: *const c_char) -> c_int {
    if active() {
        let _g = InGuard::new();
        let (t, p) = (cs(t), cs(p));
        let r = match sim().fs.lookup(&p, false) {
            Ok((_, _, Some(_))) => -(EEXIST as i64),
            Ok((d, n, None)) => {
                sim().fs.symlink(&t, d, &n);
                0
            }
            Err(e) => -(e as i64),
        };
        return set(r) as c_int;
    }
    set(raw6(SYS_symlink, t as i64, p as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::mkdir(AT_FDCWD, &cs(p), mode)) as c_int;
    }
    set(raw6(SYS_mkdir, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::mkdir(d, &cs(p), mode)) as c_int;
    }
    set(raw6(SYS_mkdirat, d as i64, p as i64, mode as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, mode: mode_t) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::chmod(&cs(p), mode)) as c_int;
    }
    set(raw6(SYS_chmod, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::fchmod(fd, mode)) as c_int;
    }
    set(raw6(SYS_fchmod, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return match sys::stat(AT_FDCWD, &cs(p), true, false) {
            Ok(_) => 0,
            Err(e) => set(-(e as i64)) as c_int,
        };
    }
    set(raw6(SYS_access, p as i64, mode as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if active() {
        let _g = InGuard::new();
        return match sys::opendir(&cs(p)) {
            Ok(b) => Box::into_raw(b) as *mut DIR,
            Err(e) => {
                *__errno_location() = e;
                std::ptr::null_mut()
            }
        };
    }
    real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if fdsim(fd) {
        let _g = InGuard::new();
        return match sys::opendir_fd(fd) {
            Ok(b) => Box::into_raw(b) as *mut DIR,
            Err(e) => {
                *__errno_location() = e;
                std::ptr::null_mut()
            }
        };
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR)(fd)
}
unsafe fn is_simdir(d: *mut DIR) -> bool {
    active() && (*(d as *const sys::SimDir)).magic == sys::DIR_MAGIC
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    if is_simdir(d) {
        let _g = InGuard::new();
        return match sys::readdir(&mut *(d as *mut sys::SimDir)) {
            Ok(p) => p,
            Err(e) => {
                *__errno_location() = e;
                std::ptr::null_mut()
            }
        };
    }
    real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if is_simdir(d) {
        let _g = InGuard::new();
        let b = Box::from_raw(d as *mut sys::SimDir);
        sys::close(b.fd);
        return 0;
    }
    real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    if is_simdir(d) {
        return (*(d as *const sys::SimDir)).fd;
    }
    real!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if active() {
        let _g = InGuard::new();
        return match sys::realpath(&cs(p)) {
            Ok(s) => {
                let buf = if out.is_null() { malloc(4097) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len());
                *buf.add(s.len()) = 0;
                buf
            }
            Err(e) => {
                *__errno_location() = e;
                std::ptr::null_mut()
            }
        };
    }
    real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if active() {
        let _g = InGuard::new();
        return match sys::readlink(&cs(p)) {
            Ok(s) => {
                let k = s.len().min(n);
                std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, b, k);
                k as ssize_t
            }
            Err(e) => set(-(e as i64)) as ssize_t,
        };
    }
    set(raw6(SYS_readlink, p as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        let _g = InGuard::new();
        let c = &sim().fs.cwd;
        if n <= c.len() {
            *__errno_location() = ERANGE;
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
        *b.add(c.len()) = 0;
        return b;
    }
    real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(b, n)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if active() {
        let _g = InGuard::new();
        let s = sim();
        s.fs.cwd = s.fs.abs(&cs(p));
        return 0;
    }
    set(raw6(SYS_chdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    if fdsim(a) || fdsim(b) {
        return set(-(ENOSYS as i64)) as ssize_t;
    }
    set(raw6(SYS_copy_file_range, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: size_t) -> ssize_t {
    if fdsim(a) || fdsim(b) {
        return set(-(EINVAL as i64)) as ssize_t;
    }
    set(raw6(SYS_sendfile, a as i64, b as i64, o as i64, n as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: size_t, f: c_uint) -> ssize_t {
    if fdsim(a) || fdsim(b) {
        return set(-(EINVAL as i64)) as ssize_t;
    }
    set(raw6(SYS_splice, a as i64, ao as i64, b as i64, bo as i64, n as i64, f as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const timespec) -> c_int {
    if fdsim(fd) {
        return 0;
    }
    set(raw6(SYS_utimensat, fd as i64, 0, t as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if fdsim(fd) {
        return 0;
    }
    set(raw6(SYS_flock, fd as i64, op as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::fcntl(fd, cmd, arg)) as c_int;
    }
    set(raw6(SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_int) -> c_int {
    if active() {
        if sys::is_sim_fd(fd) {
            let _g = InGuard::new();
            if req == FIONBIO {
                return set(sys::set_nonblock(fd, *arg != 0)) as c_int;
            }
            return set(-(ENOTTY as i64)) as c_int;
        }
        // isatty / window size on stdio: never a terminal
        return set(-(ENOTTY as i64)) as c_int;
    }
    set(raw6(SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if active() {
        *__errno_location() = ENOTTY;
        return 0;
    }
    let mut t: [u8; 64] = [0; 64];
    (raw6(SYS_ioctl, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return set(sys::dup(fd)) as c_int;
    }
    set(raw6(SYS_dup, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return match sys::pipe2(flags) {
            Ok((r, w)) => {
                *p = r;
                *p.add(1) = w;
                0
            }
            Err(e) => set(-(e as i64)) as c_int,
        };
    }
    set(raw6(SYS_pipe2, p as i64, flags as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut pollfd, n: nfds_t, t: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::poll(std::slice::from_raw_parts_mut(p, n as usize), t)) as c_int;
    }
    set(raw6(SYS_poll, p as i64, n as i64, t as i64, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ entropy and time
fn fill_random(b: *mut u8, n: usize) {
    let s = sim();
    let mut i = 0;
    while i < n {
        let v = s.entropy.next().to_le_bytes();
        for x in v {
            if i < n {
                unsafe { *b.add(i) = x };
                i += 1;
            }
        }
    }
    log("getrandom", n as u64, 0);
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if active() {
        let _g = InGuard::new();
        fill_random(b as *mut u8, n);
        return n as ssize_t;
    }
    set(raw6(SYS_getrandom, b as i64, n as i64, f as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: *mut c_void, n: size_t) -> c_int {
    getrandom(b, n, 0);
    0
}
fn clock_value(id: clockid_t) -> i128 {
    match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => {
            let s = sim();
            s.wall_reads += 1;
            if s.faults.armed && s.faults.jump_rate > 0 {
                let r = s.faults.jump_rate;
                if s.streams[1].chance(r, 256) {
                    let d = s.streams[1].draw(10);
                    const SEC: i128 = 1_000_000_000;
                    let j: i128 = [
                        1 * SEC,
                        -1 * SEC,
                        3600 * SEC,
                        -3600 * SEC,
                        86400 * SEC,
                        -86400 * SEC,
                        366 * 86400 * SEC,
                        -366 * 86400 * SEC,
                        40 * 365 * 86400 * SEC,
                        -40 * 365 * 86400 * SEC,
                    ][d as usize];
                    let s = sim();
                    s.wall_base += j;
                    count("clock_jump");
                    note(&format!("clock jump {} s", j / SEC));
                }
            }
            sim().now += 1000;
            let v = wall_ns();
            if sim().wall_log.len() < 10_000 {
                sim().wall_log.push(v);
            }
            v
        }
        _ => {
            sim().now += 100;
            sim().now as i128
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, t: *mut timespec) -> c_int {
    if active() {
        let _g = InGuard::new();
        let v = clock_value(id);
        (*t).tv_sec = v.div_euclid(1_000_000_000) as i64;
        (*t).tv_nsec = v.rem_euclid(1_000_000_000) as i64;
        log("clock", id as u64, v as u64);
        return 0;
    }
    set(raw6(SYS_clock_gettime, id as i64, t as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut timeval, _z: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    (*t).tv_sec = ts.tv_sec;
    (*t).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, m: *mut timespec) -> c_int {
    clock_nanosleep(CLOCK_MONOTONIC, 0, r, m);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, r: *const timespec, m: *mut timespec) -> c_int {
    if active() {
        let _g = InGuard::new();
        let v = (*r).tv_sec as i128 * 1_000_000_000 + (*r).tv_nsec as i128;
        let s = sim();
        let dl = if flags & TIMER_ABSTIME != 0 {
            if id == CLOCK_REALTIME { v - s.wall_base } else { v }
        } else {
            s.now as i128 + v
        };
        log("sleep", v as u64, 0);
        block(Wait::Sleep, Some(dl.max(0) as u64));
        return 0;
    }
    -(raw6(SYS_clock_nanosleep, id as i64, flags as i64, r as i64, m as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if active() {
        return 4242;
    }
    raw6(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> pid_t {
    if active() {
        return 4242 + TID.with(|t| t.get());
    }
    raw6(SYS_gettid, 0, 0, 0, 0, 0, 0) as pid_t
}

// ------------------------------------------------------------------ threads
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        let _g = InGuard::new();
        log("yield", 0, 0);
        sched_yield_now();
        return 0;
    }
    set(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
}
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
unsafe extern "C" fn key_dtor(_: *mut c_void) {
    if on_sim_thread() {
        thread_end();
    }
}
pub fn init_key() {
    unsafe {
        let mut k: pthread_key_t = 0;
        pthread_key_create(&mut k, Some(key_dtor));
        KEY.store(k, Ordering::Relaxed);
    }
}
pub fn set_key() {
    unsafe {
        pthread_setspecific(KEY.load(Ordering::Relaxed), 1 as *const c_void);
    }
}
extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        IN.with(|i| i.set(1));
        let st = Box::from_raw(p as *mut Start);
        let Start { f, arg, id } = *st;
        thread_begin(id);
        pthread_setspecific(KEY.load(Ordering::Relaxed), 1 as *const c_void);
        log("thread_begin", id as u64, 0);
        IN.with(|i| i.set(0));
        f(arg)
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    a: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
    let r = real!("pthread_create", F);
    if active() {
        let _g = InGuard::new();
        let id = new_thread();
        let b = Box::into_raw(Box::new(Start { f, arg, id }));
        let e = r(t, a, trampoline, b as *mut c_void);
        assert_eq!(e, 0, "harness: pthread_create failed");
        sim().threads[id].pthread = *t as u64;
        log("thread_create", id as u64, 0);
        count("threads_created");
        yield_point();
        return 0;
    }
    r(t, a, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let r = real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int);
    if active() {
        let _g = InGuard::new();
        let s = sim();
        if let Some(id) = (0..s.threads.len()).rev().find(|&i| s.threads[i].pthread == t as u64) {
            if !matches!(s.threads[id].state, TState::Done) {
                block(Wait::Join(id), None);
            }
            log("join", id as u64, 0);
            if matches!(sim().threads[id].state, TState::Blocked(Wait::Dead, _)) {
                return ESRCH;
            }
        }
        return r(t, out);
    }
    r(t, out)
}
unsafe fn futex(uaddr: usize, op: i32, val: u32, t: *const timespec, val3: u32) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            yield_point();
            let cur = (*(uaddr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                log("futex_again", 0, 0);
                return -(EAGAIN as i64);
            }
            let s = sim();
            if s.faults.armed && s.faults.spurious_rate > 0 {
                let r = s.faults.spurious_rate;
                if s.streams[1].chance(r, 256) {
                    count("spurious_wakeup");
                    return 0;
                }
            }
            let dl = if t.is_null() {
                None
            } else {
                let v = (*t).tv_sec as i128 * 1_000_000_000 + (*t).tv_nsec as i128;
                let s = sim();
                Some(if cmd == 9 {
                    if op & FUTEX_CLOCK_REALTIME != 0 { (v - s.wall_base).max(0) as u64 } else { v as u64 }
                } else {
                    s.now + v as u64
                })
            };
            let bits = if cmd == 9 { val3 } else { !0 };
            log("futex_wait", dl.is_some() as u64, 0);
            if block(Wait::Futex { addr: uaddr, bits }, dl) { -(ETIMEDOUT as i64) } else { 0 }
        }
        1 | 10 => {
            let n = futex_wake(uaddr, val, if cmd == 10 { val3 } else { !0 });
            log("futex_wake", n as u64, 0);
            yield_point();
            n
        }
        _ => -(ENOSYS as i64),
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if active() {
        let _g = InGuard::new();
        match n {
            SYS_futex => return set(futex(a as usize, b as i32, c as u32, d as *const timespec, f as u32)),
            SYS_getrandom => {
                fill_random(a as *mut u8, b as usize);
                return b;
            }
            SYS_gettid => return 4242 + TID.with(|t| t.get()) as i64,
            SYS_pidfd_open | SYS_copy_file_range | SYS_close_range => return set(-(ENOSYS as i64)),
            SYS_statx => {
                drop(_g);
                return statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut libc::statx) as c_long;
            }
            _ => {
                count("unhandled_syscall");
                note(&format!("unhandled syscall {}", n));
            }
        }
    }
    set(raw6(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ network
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::epoll_create()) as c_int;
    }
    set(raw6(SYS_epoll_create1, f as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::epoll_ctl(ep, op, fd, ev)) as c_int;
    }
    set(raw6(SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, t: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::epoll_wait(ep, ev, max, t)) as c_int;
    }
    set(raw6(SYS_epoll_wait, ep as i64, ev as i64, max as i64, t as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(i: c_uint, f: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::eventfd(i, f)) as c_int;
    }
    set(raw6(SYS_eventfd2, i as i64, f as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        return set(sys::socket(d, t)) as c_int;
    }
    set(raw6(SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    if active() {
        return set(-(EOPNOTSUPP as i64)) as c_int;
    }
    set(raw6(SYS_socketpair, d as i64, t as i64, p as i64, sv as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        yield_point();
        let k = match sys::sock_of(fd) {
            Some(k) => k,
            None => return set(-(ENOTSOCK as i64)) as c_int,
        };
        if (*a).sa_family as i32 != AF_INET {
            return set(-(EAFNOSUPPORT as i64)) as c_int;
        }
        let sa = a as *const sockaddr_in;
        let ip = u32::from_be((*sa).sin_addr.s_addr);
        let port = u16::from_be((*sa).sin_port);
        log("connect", ip as u64, port as u64);
        let e = crate::simnet::start_connect(k, ip, port);
        return set(-(e as i64)) as c_int;
    }
    set(raw6(SYS_connect, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
unsafe fn fill_addr(ip: u32, port: u16, a: *mut sockaddr, l: *mut socklen_t) {
    let mut sa: sockaddr_in = std::mem::zeroed();
    sa.sin_family = AF_INET as u16;
    sa.sin_port = port.to_be();
    sa.sin_addr.s_addr = ip.to_be();
    let n = (*l as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of::<sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        return match sys::sock_of(fd) {
            Some(k) => {
                let sk = &sim().net.socks[k];
                if sk.state != crate::simnet::CState::Connected {
                    return set(-(ENOTCONN as i64)) as c_int;
                }
                fill_addr(sk.peer.0, sk.peer.1, a, l);
                0
            }
            None => set(-(ENOTSOCK as i64)) as c_int,
        };
    }
    set(raw6(SYS_getpeername, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fdsim(fd) {
        fill_addr(0x7f00_0001, 40000, a, l);
        return 0;
    }
    set(raw6(SYS_getsockname, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, o: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        if let Some(k) = sys::sock_of(fd) {
            let mut x = 0i32;
            if lv == SOL_SOCKET && o == SO_ERROR {
                x = sim().net.socks[k].err;
                sim().net.socks[k].err = 0;
            }
            *(v as *mut c_int) = x;
            *l = 4;
            return 0;
        }
        return set(-(ENOTSOCK as i64)) as c_int;
    }
    set(raw6(SYS_getsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, o: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if fdsim(fd) {
        return 0;
    }
    set(raw6(SYS_setsockopt, fd as i64, lv as i64, o as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fdsim(fd) {
        return 0;
    }
    set(raw6(SYS_bind, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if fdsim(fd) {
        let _g = InGuard::new();
        if let Some(k) = sys::sock_of(fd) {
            if how != SHUT_RD {
                sim().net.socks[k].wr_shut = true;
            }
        }
        return 0;
    }
    set(raw6(SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, f: c_int) -> ssize_t {
    sendto(fd, b, n, f, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, f: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if fdsim(fd) {
        return write(fd, b, n);
    }
    set(raw6(SYS_sendto, fd as i64, b as i64, n as i64, f as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, f: c_int) -> ssize_t {
    if fdsim(fd) {
        return writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int);
    }
    set(raw6(SYS_sendmsg, fd as i64, m as i64, f as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, f: c_int) -> ssize_t {
    if fdsim(fd) {
        if f & MSG_PEEK != 0 {
            let _g = InGuard::new();
            if let Some(k) = sys::sock_of(fd) {
                let sk = &sim().net.socks[k];
                if sk.rx.is_empty() {
                    return if sk.rx_eof { 0 } else { set(-(EAGAIN as i64)) as ssize_t };
                }
                let m = sk.rx.len().min(n);
                for i in 0..m {
                    *(b as *mut u8).add(i) = sk.rx[i];
                }
                return m as ssize_t;
            }
        }
        return read(fd, b, n);
    }
    set(raw6(SYS_recvfrom, fd as i64, b as i64, n as i64, f as i64, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if fdsim(fd) {
        return recv(fd, b, n, f);
    }
    set(raw6(SYS_recvfrom, fd as i64, b as i64, n as i64, f as i64, a as i64, l as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(h: *const c_char, s: *const c_char, hints: *const addrinfo, out: *mut *mut addrinfo) -> c_int {
    if active() {
        let _g = InGuard::new();
        yield_point();
        let host = if h.is_null() { "localhost".to_string() } else { cs(h) };
        let port: u16 = if s.is_null() { 0 } else { cs(s).parse().unwrap_or(0) };
        let mut pf = sim().net.dns_plan.take();
        let plan = match &mut pf {
            Some(f) => f(&host),
            None => crate::simnet::DnsPlan::NoName(1_000_000),
        };
        sim().net.dns_plan = pf;
        note(&format!("dns {} {:?}", host, plan));
        let (d, e) = match plan {
            crate::simnet::DnsPlan::Ok(d) => (d, 0),
            crate::simnet::DnsPlan::NoName(d) => {
                count("dns_noname");
                (d, EAI_NONAME)
            }
            crate::simnet::DnsPlan::TryAgain(d) => {
                count("dns_again");
                (d, EAI_AGAIN)
            }
        };
        if d > 0 {
            let dl = sim().now + d;
            block(Wait::Sleep, Some(dl));
        }
        if e != 0 {
            return e;
        }
        let ip = crate::simnet::ip_of(&host);
        #[repr(C)]
        struct R {
            ai: addrinfo,
            sa: sockaddr_in,
        }
        let r = calloc(1, std::mem::size_of::<R>()) as *mut R;
        (*r).sa.sin_family = AF_INET as u16;
        (*r).sa.sin_port = port.to_be();
        (*r).sa.sin_addr.s_addr = ip.to_be();
        (*r).ai.ai_family = AF_INET;
        (*r).ai.ai_socktype = SOCK_STREAM;
        (*r).ai.ai_addrlen = std::mem::size_of::<sockaddr_in>() as u32;
        (*r).ai.ai_addr = &mut (*r).sa as *mut _ as *mut sockaddr;
        *out = &mut (*r).ai;
        return 0;
    }
    type F = unsafe extern "C" fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int;
    real!("getaddrinfo", F)(h, s, hints, out)
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(a: *mut addrinfo) {
    if on_sim_thread() {
        free(a as *mut c_void);
        return;
    }
    real!("freeaddrinfo", unsafe extern "C" fn(*mut addrinfo))(a)
}

// ------------------------------------------------------------------ processes
static mut ACTIONS: Vec<(usize, Vec<(i32, i32)>)> = Vec::new();
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(a: *mut posix_spawn_file_actions_t) -> c_int {
    if active() {
        let _g = InGuard::new();
        ACTIONS.retain(|x| x.0 != a as usize);
        ACTIONS.push((a as usize, vec![]));
        return 0;
    }
    real!("posix_spawn_file_actions_init", unsafe extern "C" fn(*mut posix_spawn_file_actions_t) -> c_int)(a)
}
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(a: *mut posix_spawn_file_actions_t, x: c_int, y: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        if let Some(e) = ACTIONS.iter_mut().find(|e| e.0 == a as usize) {
            e.1.push((x, y));
        }
        return 0;
    }
    type F = unsafe extern "C" fn(*mut posix_spawn_file_actions_t, c_int, c_int) -> c_int;
    real!("posix_spawn_file_actions_adddup2", F)(a, x, y)
}
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(a: *mut posix_spawn_file_actions_t) -> c_int {
    if active() {
        let _g = InGuard::new();
        ACTIONS.retain(|x| x.0 != a as usize);
        return 0;
    }
    real!("posix_spawn_file_actions_destroy", unsafe extern "C" fn(*mut posix_spawn_file_actions_t) -> c_int)(a)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut posix_spawn_file_actions_t, p: *const c_char) -> c_int {
    if active() {
        return 0;
    }
    type F = unsafe extern "C" fn(*mut posix_spawn_file_actions_t, *const c_char) -> c_int;
    real!("posix_spawn_file_actions_addchdir_np", F)(a, p)
}
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut pid_t,
    file: *const c_char,
    fa: *const posix_spawn_file_actions_t,
    attr: *const posix_spawnattr_t,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    if active() {
        let _g = InGuard::new();
        let mut args = vec![];
        let mut i = 0;
        while !(*argv.add(i)).is_null() {
            args.push(cs(*argv.add(i)));
            i += 1;
        }
        if let Some(a) = args.first_mut() {
            *a = cs(file);
        }
        let acts = ACTIONS.iter().find(|e| e.0 == fa as usize).map(|e| e.1.clone()).unwrap_or_default();
        let o = acts.iter().find(|x| x.1 == 1).map(|x| x.0);
        let e = acts.iter().find(|x| x.1 == 2).map(|x| x.0);
        return match sys::spawn(args, o, e) {
            Ok(p) => {
                *pid = p;
                0
            }
            Err(e) => e,
        };
    }
    type F = unsafe extern "C" fn(
        *mut pid_t,
        *const c_char,
        *const posix_spawn_file_actions_t,
        *const posix_spawnattr_t,
        *const *mut c_char,
        *const *mut c_char,
    ) -> c_int;
    real!("posix_spawnp", F)(pid, file, fa, attr, argv, envp)
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, st: *mut c_int, opt: c_int) -> pid_t {
    if active() {
        let _g = InGuard::new();
        return match sys::waitpid(pid, opt & WNOHANG != 0) {
            Ok((p, s)) => {
                if !st.is_null() {
                    *st = s;
                }
                p
            }
            Err(e) => set(-(e as i64)) as pid_t,
        };
    }
    set(raw6(SYS_wait4, pid as i64, st as i64, opt as i64, 0, 0, 0)) as pid_t
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if active() {
        let _g = InGuard::new();
        if let Some(p) = sim().procs.get_mut(&pid) {
            if !p.exited {
                p.exited = true;
                p.status = sig;
            }
            return 0;
        }
        return set(-(ESRCH as i64)) as c_int;
    }
    set(raw6(SYS_kill, pid as i64, sig as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> pid_t {
    if active() {
        count("unhandled_fork");
        return set(-(ENOSYS as i64)) as pid_t;
    }
    real!("fork", unsafe extern "C" fn() -> pid_t)()
}

// ------------------------------------------------------------------ allocator
pub struct Alloc;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
#[inline]
fn alloc_hook(n: usize) {
    let l = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    if l > PEAK.load(Ordering::Relaxed) {
        PEAK.store(l, Ordering::Relaxed);
        if l > CAP.load(Ordering::Relaxed) && active() {
            CAP.store(usize::MAX, Ordering::Relaxed);
            let _g = InGuard::new();
            crate::report::finish_memory(l);
        }
    }
    if active() && sim_exists() {
        let s = sim();
        if s.alloc_yield > 0 && s.live > 1 {
            s.alloc_ctr += 1;
            if s.alloc_ctr % s.alloc_yield == 0 {
                let _g = InGuard::new();
                yield_point();
            }
        }
    }
}
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_hook(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_hook(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            alloc_hook(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        std::alloc::System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------ edges
/// The compiler put a call of this on every edge of the library's control flow (rustc.sh).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let n = EDGES.load(Ordering::Relaxed);
    if n != u32::MAX {
        if n > 1 && active() {
            EDGES.store(n - 1, Ordering::Relaxed);
        } else {
            edge_point();
        }
    }
}

// ------------------------------------------------------------ process exit
/// On a simulated thread this ends the simulated process.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if active() {
        sim().exit_code = Some(code);
        crash_here()
    }
    let f = real!("exit", unsafe extern "C" fn(c_int) -> !);
    f(code)
}

/// The arguments a simulated process sees.
static ARGV: AtomicUsize = AtomicUsize::new(0);
static ARGC: AtomicUsize = AtomicUsize::new(0);
extern "C" fn keep_argv(argc: c_int, argv: *mut *mut c_char, _: *mut *mut c_char) {
    ARGC.store(argc as usize, Ordering::Relaxed);
    ARGV.store(argv as usize, Ordering::Relaxed);
}
#[used]
#[link_section = ".init_array.00098"]
static KEEP_ARGV: extern "C" fn(c_int, *mut *mut c_char, *mut *mut c_char) = keep_argv;
pub const MAX_ARGS: usize = 40;
pub fn set_args(a: &[String]) {
    let (n, v) = (ARGC.load(Ordering::Relaxed), ARGV.load(Ordering::Relaxed) as *mut *mut c_char);
    assert!(a.len() < n, "not enough room for arguments");
    unsafe {
        for (i, s) in a.iter().enumerate() {
            *v.add(i) = std::ffi::CString::new(s.as_str()).unwrap().into_raw();
        }
        *v.add(a.len()) = std::ptr::null_mut();
    }
}
