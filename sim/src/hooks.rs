//! The libc boundary. Every function here replaces the one of the same name for the application (LD_PRELOAD); outside an
//! application process (driver, parent) they fall through to raw system calls.
#![allow(non_snake_case)]
use crate::net::{self, Kind};
use crate::sched::{self, Wait, Why};
use crate::sys::{self, ret, sc3, sc6};
use crate::vfs;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, off_t, size_t, sockaddr, socklen_t, ssize_t, timespec};

type Fd = c_int;

fn virt(fd: Fd) -> bool {
    app() && fd > 2
}
unsafe fn cs(p: *const c_char) -> String {
    cs_at(p, if app() && w().cfg.paths == 4 { "/data" } else { "" })
}
unsafe fn cs_at(p: *const c_char, base: &str) -> String {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    let s = std::slice::from_raw_parts(p as *const u8, n);
    let s = String::from_utf8_lossy(s).into_owned();
    if s.is_empty() {
        return "/no such file".into();
    }
    let s = if s.starts_with('/') { s } else { format!("{}/{}", base, s) };
    if !s.contains("/.") && !s.contains("//") {
        return s;
    }
    let mut v: Vec<&str> = Vec::new();
    for x in s.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            _ => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}
fn r32(r: i32) -> c_int {
    ret(r as i64) as c_int
}

// ---- output
fn capture(fd: Fd, b: &[u8]) -> i64 {
    let wd = w();
    if fd == 1 {
        if let Some((e, _)) = wd.vfs.fault("write", "stdout") {
            wd.stat("fault.stdout", 1);
            wd.excuse("stdout-error");
            wd.note(format!("writing to standard output fails with errno {}", e));
            return -e as i64;
        }
    }
    let o = if fd == 1 { &mut wd.app_out } else { &mut wd.app_err };
    if o.len() < 200_000 || fd == 2 {
        o.extend_from_slice(b);
    } else {
        let h = o.len() / 2;
        o.drain(..h);
    }
    wd.lg(10, fnv(b));
    sched::tick(300);
    b.len() as i64
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: Fd, p: *const c_void, n: size_t) -> ssize_t {
    if !app() {
        return ret(sc3(libc::SYS_write, fd as i64, p as i64, n as i64)) as ssize_t;
    }
    let b = std::slice::from_raw_parts(p as *const u8, n);
    if fd <= 2 {
        return ret(capture(fd, b)) as ssize_t;
    }
    ret(do_write(fd, b)) as ssize_t
}
unsafe fn do_write(fd: Fd, b: &[u8]) -> i64 {
    let Some(d) = net::desc_of(fd) else { return -libc::EBADF as i64 };
    match &mut net::desc(d).kind {
        Kind::EventFd { val } => {
            let x = u64::from_le_bytes(b[..8].try_into().unwrap());
            *val = val.saturating_add(x);
            net::notify(d);
            sched::yield_point(11);
            8
        }
        Kind::Conn { .. } => sock_send(d, b),
        Kind::File { .. } | Kind::Dir { .. } => vfs::write(fd, b, None),
        _ => -libc::EINVAL as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: Fd, p: *mut c_void, n: size_t) -> ssize_t {
    if !virt(fd) {
        return ret(sc3(libc::SYS_read, fd as i64, p as i64, n as i64)) as ssize_t;
    }
    let b = std::slice::from_raw_parts_mut(p as *mut u8, n);
    ret(do_read(fd, b)) as ssize_t
}
unsafe fn do_read(fd: Fd, b: &mut [u8]) -> i64 {
    let Some(d) = net::desc_of(fd) else { return -libc::EBADF as i64 };
    if matches!(net::desc(d).kind, Kind::EventFd { .. }) {
        sched::yield_point(12);
    }
    match &mut net::desc(d).kind {
        Kind::EventFd { val } => {
            if *val == 0 {
                return -libc::EAGAIN as i64;
            }
            b[..8].copy_from_slice(&val.to_le_bytes());
            *val = 0;
            8
        }
        Kind::Conn { .. } => sock_recv(d, b, false),
        Kind::File { .. } | Kind::Dir { .. } => vfs::read(fd, b, None),
        _ => -libc::EINVAL as i64,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: Fd, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !app() {
        return ret(sc3(libc::SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t;
    }
    let mut all = Vec::new();
    for i in 0..n as usize {
        let v = &*iov.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    if fd <= 2 {
        return ret(capture(fd, &all)) as ssize_t;
    }
    ret(do_write(fd, &all)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: Fd, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if !virt(fd) {
        return ret(sc3(libc::SYS_readv, fd as i64, iov as i64, n as i64)) as ssize_t;
    }
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            let b = std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len);
            return ret(do_read(fd, b)) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: Fd, p: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    if !virt(fd) {
        return ret(sc6(libc::SYS_pread64, fd as i64, p as i64, n as i64, off, 0, 0)) as ssize_t;
    }
    ret(vfs::read(fd, std::slice::from_raw_parts_mut(p as *mut u8, n), Some(off as u64))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: Fd, p: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    pread64(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: Fd, p: *const c_void, n: size_t, off: off_t) -> ssize_t {
    if !virt(fd) {
        return ret(sc6(libc::SYS_pwrite64, fd as i64, p as i64, n as i64, off, 0, 0)) as ssize_t;
    }
    ret(vfs::write(fd, std::slice::from_raw_parts(p as *const u8, n), Some(off as u64))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: Fd, p: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, p, n, off)
}

// ---- files
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_open, path as i64, flags as i64, mode as i64)) as c_int;
    }
    r32(vfs::open(&cs(path), flags))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}
unsafe fn at_path(dir: c_int, path: *const c_char) -> String {
    if *path as u8 == b'/' || dir == libc::AT_FDCWD {
        return cs(path);
    }
    if let Some(d) = net::desc_of(dir) {
        if let Kind::Dir { ino } = net::desc(d).kind {
            return cs_at(path, &w().vfs.path_of(ino));
        }
    }
    cs(path)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !app() {
        return ret(sc6(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int;
    }
    r32(vfs::open(&at_path(dir, path), flags))
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    openat64(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: c_uint) -> c_int {
    open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: Fd) -> c_int {
    if !virt(fd) {
        if app() {
            return 0;
        }
        return ret(sc3(libc::SYS_close, fd as i64, 0, 0)) as c_int;
    }
    sched::yield_point(13);
    r32(net::close(fd))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: Fd, off: off_t, wh: c_int) -> off_t {
    if !virt(fd) {
        return ret(sc3(libc::SYS_lseek, fd as i64, off, wh as i64));
    }
    ret(vfs::lseek(fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: Fd, off: off_t, wh: c_int) -> off_t {
    lseek64(fd, off, wh)
}
unsafe fn fill_stat(b: *mut libc::stat64, s: (usize, bool, u64)) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*b).st_ino = s.0 as u64;
    (*b).st_dev = 1;
    (*b).st_nlink = 1;
    (*b).st_mode = if s.1 { 0o040755 } else { 0o100644 };
    (*b).st_size = s.2 as i64;
    (*b).st_blksize = 4096;
    (*b).st_blocks = (s.2 as i64 + 511) / 512;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, b: *mut libc::stat64) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_stat, path as i64, b as i64, 0)) as c_int;
    }
    match vfs::stat(&cs(path)) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, b: *mut libc::stat64) -> c_int {
    stat64(path, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: Fd, b: *mut libc::stat64) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_fstat, fd as i64, b as i64, 0)) as c_int;
    }
    match vfs::fstat(fd) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: Fd, b: *mut libc::stat64) -> c_int {
    fstat64(fd, b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, b: *mut libc::stat64, flags: c_int) -> c_int {
    if !app() {
        return ret(sc6(libc::SYS_newfstatat, dir as i64, path as i64, b as i64, flags as i64, 0, 0)) as c_int;
    }
    match vfs::stat(&at_path(dir, path)) {
        Ok(s) => {
            fill_stat(b, s);
            0
        }
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if !app() {
        return ret(sc6(libc::SYS_statx, dir as i64, path as i64, flags as i64, mask as i64, b as i64, 0)) as c_int;
    }
    if path.is_null() {
        return r32(-libc::EFAULT);
    }
    let s = if flags & libc::AT_EMPTY_PATH != 0 && *path == 0 { vfs::fstat(dir) } else { vfs::stat(&at_path(dir, path)) };
    match s {
        Ok(s) => {
            std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*b).stx_mask = 0x7ff;
            (*b).stx_ino = s.0 as u64;
            (*b).stx_nlink = 1;
            (*b).stx_mode = if s.1 { 0o040755 } else { 0o100644 };
            (*b).stx_size = s.2;
            (*b).stx_blksize = 4096;
            (*b).stx_blocks = (s.2 + 511) / 512;
            0
        }
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: Fd) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_fsync, fd as i64, 0, 0)) as c_int;
    }
    r32(vfs::fsync(fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: Fd) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: Fd) -> c_int {
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if app() {
        sched::yield_point(47);
        w().vfs.sync_all();
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: Fd, n: off_t) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_ftruncate, fd as i64, n, 0)) as c_int;
    }
    r32(vfs::ftruncate(fd, n as u64))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: Fd, n: off_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(_fd: Fd, _m: c_int, _o: off_t, _n: off_t) -> c_int {
    r32(-libc::EOPNOTSUPP)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(_fd: Fd, _o: off_t, _n: off_t) -> c_int {
    libc::EOPNOTSUPP
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_rename, a as i64, b as i64, 0)) as c_int;
    }
    r32(vfs::rename(&cs(a), &cs(b)))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char) -> c_int {
    if !app() {
        return ret(sc6(libc::SYS_renameat, d1 as i64, a as i64, d2 as i64, b as i64, 0, 0)) as c_int;
    }
    r32(vfs::rename(&at_path(d1, a), &at_path(d2, b)))
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, _f: c_uint) -> c_int {
    renameat(d1, a, d2, b)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_unlink, a as i64, 0, 0)) as c_int;
    }
    r32(vfs::unlink(&cs(a), false))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_unlinkat, d as i64, a as i64, f as i64)) as c_int;
    }
    r32(vfs::unlink(&at_path(d, a), f & libc::AT_REMOVEDIR != 0))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_rmdir, a as i64, 0, 0)) as c_int;
    }
    r32(vfs::unlink(&cs(a), true))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: c_uint) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_mkdir, a as i64, m as i64, 0)) as c_int;
    }
    r32(vfs::mkdir(&cs(a)))
}
#[no_mangle]
pub unsafe extern "C" fn access(a: *const c_char, m: c_int) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_access, a as i64, m as i64, 0)) as c_int;
    }
    match vfs::stat(&cs(a)) {
        Ok(_) => 0,
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, a: *const c_char, _m: c_int, _f: c_int) -> c_int {
    match vfs::stat(&at_path(d, a)) {
        Ok(_) => 0,
        Err(e) => r32(-e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(_a: *const c_char, _m: c_uint) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(_a: c_int, _m: c_uint) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if app() {
        return 0;
    }
    ret(sc3(libc::SYS_flock, fd as i64, op as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !app() {
        return ret(sc3(libc::SYS_readlink, p as i64, b as i64, n as i64)) as ssize_t;
    }
    ret(-libc::ENOENT as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let s = cs(p);
    if app() && w().vfs.lookup(&s).is_err() {
        sys::set_errno(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let o = if out.is_null() { libc::malloc(4096) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, o, s.len());
    *o.add(s.len()) = 0;
    o
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !app() {
        let r = sc3(libc::SYS_getcwd, b as i64, n as i64, 0);
        return if r > 0 { b } else { std::ptr::null_mut() };
    }
    let d: &[u8] = if w().cfg.paths == 4 { b"/data\0" } else { b"/\0" };
    if n < d.len() {
        sys::set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(d.as_ptr() as *const c_char, b, d.len());
    b
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: size_t, _f: c_uint) -> ssize_t {
    ret(-libc::ENOSYS as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _c: *mut i64, _n: size_t) -> ssize_t {
    ret(-libc::ENOSYS as i64) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn link(_a: *const c_char, _b: *const c_char) -> c_int {
    r32(-libc::EPERM)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(_a: *const c_char, _b: *const c_char) -> c_int {
    r32(-libc::EPERM)
}

#[repr(C)]
struct SimDir {
    list: Vec<(String, bool, usize)>,
    pos: usize,
    ent: libc::dirent64,
    fd: c_int,
    blk: bool,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    if !app() {
        sys::set_errno(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let s = cs(p);
    sched::yield_point(55);
    let e = match vfs::readdir_fault() {
        Some(e) if vfs::class_of(&s) == "blk" => Err(e),
        _ => w().vfs.lookup(&s),
    };
    match e {
        Ok(i) if w().vfs.ino[&i].dir => mkdirp(i, -1, vfs::class_of(&s) == "blk"),
        Ok(_) => {
            sys::set_errno(libc::ENOTDIR);
            std::ptr::null_mut()
        }
        Err(e) => {
            sys::set_errno(e);
            std::ptr::null_mut()
        }
    }
}
unsafe fn mkdirp(ino: usize, fd: c_int, blk: bool) -> *mut c_void {
    let fd = if fd < 0 { net::install(Kind::Dir { ino }, false) } else { fd };
    let d = SimDir { list: vfs::list(ino), pos: 0, ent: std::mem::zeroed(), fd, blk };
    Box::into_raw(Box::new(d)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if let Some(d) = net::desc_of(fd) {
        if let Kind::Dir { ino } = net::desc(d).kind {
            return mkdirp(ino, fd, false);
        }
    }
    sys::set_errno(libc::ENOTDIR);
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut SimDir);
    if d.blk {
        if let Some(e) = vfs::readdir_fault() {
            sys::set_errno(e);
            return std::ptr::null_mut();
        }
    }
    if d.pos >= d.list.len() {
        return std::ptr::null_mut();
    }
    let (n, dir, ino) = &d.list[d.pos];
    d.pos += 1;
    d.ent = std::mem::zeroed();
    d.ent.d_ino = *ino as u64;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    d.ent.d_type = if *dir { libc::DT_DIR } else { libc::DT_REG };
    for (i, b) in n.bytes().take(255).enumerate() {
        d.ent.d_name[i] = b as c_char;
    }
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = Box::from_raw(d as *mut SimDir);
    net::close(d.fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut SimDir)).fd
}

// ---- time
pub const MONO0: u64 = 5_000 * SEC;
pub const WALL0: i64 = 1_700_000_000 * SEC as i64;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut timespec) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_clock_gettime, c as i64, ts as i64, 0)) as c_int;
    }
    sched::tick(40);
    let wd = w();
    let t = if c == libc::CLOCK_REALTIME || c == libc::CLOCK_REALTIME_COARSE {
        point("clock");
        let wd = w();
        (WALL0 + wd.wall_off + wd.now as i64).max(0) as u64
    } else {
        MONO0 + wd.now
    };
    (*ts).tv_sec = (t / SEC) as i64;
    (*ts).tv_nsec = (t % SEC) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
fn sleep_ns(ns: u64) {
    sched::yield_point(14);
    let t = w().now + ns;
    sched::block(Wait::Sleep, Some(t));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(r: *const timespec, m: *mut timespec) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_nanosleep, r as i64, m as i64, 0)) as c_int;
    }
    sleep_ns((*r).tv_sec as u64 * SEC + (*r).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, flags: c_int, r: *const timespec, m: *mut timespec) -> c_int {
    if !app() {
        return -(sc6(libc::SYS_clock_nanosleep, c as i64, flags as i64, r as i64, m as i64, 0, 0) as c_int);
    }
    let t = (*r).tv_sec as u64 * SEC + (*r).tv_nsec as u64;
    let d = if flags & libc::TIMER_ABSTIME != 0 {
        let wd = w();
        let now = if c == libc::CLOCK_REALTIME { (WALL0 + wd.wall_off + wd.now as i64) as u64 } else { MONO0 + wd.now };
        t.saturating_sub(now)
    } else {
        t
    };
    sleep_ns(d);
    0
}
#[no_mangle]
pub unsafe extern "C" fn usleep(u: c_uint) -> c_int {
    sleep_ns(u as u64 * 1000);
    0
}

// ---- threads
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    if !app() {
        return (sys::REAL_CREATE.unwrap())(th, attr, f, arg);
    }
    sched::create(th, attr, f, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if !app() {
        return (sys::REAL_JOIN.unwrap())(th, r);
    }
    sched::join(th, r)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if app() {
        sched::yield_point(15);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if app() {
        return 5000 + w().sched.cur as c_int;
    }
    sc3(libc::SYS_gettid, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_p: c_int, n: size_t, m: *mut u8) -> c_int {
    if !app() {
        return ret(sc3(libc::SYS_sched_getaffinity, _p as i64, n as i64, m as i64)) as c_int;
    }
    std::ptr::write_bytes(m, 0, n);
    for i in 0..w().cfg.cpus as usize {
        *m.add(i / 8) |= 1 << (i % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if app() && (n == libc::_SC_NPROCESSORS_ONLN || n == libc::_SC_NPROCESSORS_CONF) {
        return w().cfg.cpus as c_long;
    }
    match n {
        libc::_SC_PAGESIZE => 4096,
        libc::_SC_GETPW_R_SIZE_MAX => 1024,
        libc::_SC_IOV_MAX => 1024,
        _ => -1,
    }
}
unsafe fn futex(addr: *const u32, op: i64, val: i64, timeout: *const timespec, val3: i64) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            sched::yield_point(16);
            let a = &*(addr as *const std::sync::atomic::AtomicU32);
            if a.load(std::sync::atomic::Ordering::SeqCst) != val as u32 {
                return -libc::EAGAIN as i64;
            }
            let wd = w();
            let dl = if timeout.is_null() {
                None
            } else {
                let t = (*timeout).tv_sec as u64 * SEC + (*timeout).tv_nsec as u64;
                if cmd == 0 {
                    Some(wd.now + t)
                } else if op & 256 != 0 {
                    Some((t as i64 - WALL0 - wd.wall_off).max(0) as u64)
                } else {
                    Some(t.saturating_sub(MONO0))
                }
            };
            let p = wd.sched.spur_pm;
            if wd.sched.rare(p) {
                wd.stat("fault.spurious_wake", 1);
                return 0;
            }
            if let Some(d) = dl {
                if d <= wd.now {
                    return -libc::ETIMEDOUT as i64;
                }
            }
            let bits = if cmd == 9 { val3 as u32 } else { u32::MAX };
            match sched::block(Wait::Futex(addr as usize, bits), dl) {
                Why::Woken => 0,
                Why::Timeout => -libc::ETIMEDOUT as i64,
            }
        }
        1 | 10 => {
            let bits = if cmd == 10 { val3 as u32 } else { u32::MAX };
            let mut l = sched::futex_waiters(addr as usize, bits);
            let mut n = 0;
            while n < val && !l.is_empty() {
                let wd = w();
                let pm = wd.sched.pick_pm;
                let c = wd.sched.choose(l.len() as u64, pm) as usize;
                let t = l.remove(c);
                sched::wake(t, Why::Woken);
                n += 1;
            }
            sched::yield_point(17);
            n
        }
        _ => {
            sys::write_all(2, b"sim: unsupported futex operation\n");
            sys::exit_group(99)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if !app() {
        return ret(sc6(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => ret(futex(a as *const u32, b, c, d as *const timespec, f)),
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long,
        libc::SYS_gettid => gettid() as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long,
        libc::SYS_copy_file_range => ret(-libc::ENOSYS as i64),
        libc::SYS_renameat2 => renameat(a as c_int, b as *const c_char, c as c_int, d as *const c_char) as c_long,
        _ => ret(-libc::ENOSYS as i64),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if !app() {
        return ret(sc3(libc::SYS_getrandom, p as i64, n as i64, f as i64)) as ssize_t;
    }
    let b = w().app_rng.bytes(n);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    getrandom(p, n, 0);
    0
}

// ---- descriptors, epoll
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: Fd, cmd: c_int, arg: c_long) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_fcntl, fd as i64, cmd as i64, arg)) as c_int;
    }
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            if !net::fd_room() {
                return r32(-libc::EMFILE);
            }
            r32(net::dup(fd))
        }
        libc::F_GETFL => {
            (if net::desc(d).nonblock { libc::O_NONBLOCK } else { 0 })
                | if let Kind::File { flags, .. } = net::desc(d).kind { flags & libc::O_ACCMODE } else { libc::O_RDWR }
        }
        libc::F_SETFL => {
            net::desc(d).nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: Fd, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: Fd) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_dup, fd as i64, 0, 0)) as c_int;
    }
    r32(net::dup(fd))
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: Fd, req: libc::c_ulong, arg: *mut c_int) -> c_int {
    if !virt(fd) {
        return ret(sc3(libc::SYS_ioctl, fd as i64, req as i64, arg as i64)) as c_int;
    }
    if req == libc::FIONBIO as libc::c_ulong {
        if let Some(d) = net::desc_of(fd) {
            net::desc(d).nonblock = *arg != 0;
            return 0;
        }
        return r32(-libc::EBADF);
    }
    r32(-libc::ENOTTY)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(_f: c_int) -> c_int {
    if !net::fd_room() {
        return r32(-libc::EMFILE);
    }
    net::install(Kind::Epoll { regs: Default::default() }, false)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    sched::yield_point(18);
    let (e, d) = if ev.is_null() { (0, 0) } else { (std::ptr::addr_of!((*ev).events).read_unaligned(), std::ptr::addr_of!((*ev).u64).read_unaligned()) };
    r32(net::epoll_ctl(ep, op, fd, e, d))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    sched::yield_point(19);
    let Some(e) = net::desc_of(ep) else { return r32(-libc::EBADF) };
    let dl = if timeout < 0 { None } else { Some(w().now + timeout as u64 * MS) };
    let wd = w();
    let p = wd.sched.spur_pm;
    if timeout != 0 && wd.sched.rare(p) {
        wd.stat("fault.epoll_eintr", 1);
        return r32(-libc::EINTR);
    }
    loop {
        let l = net::epoll_collect(e, max as usize);
        if !l.is_empty() {
            for (i, (m, data)) in l.iter().enumerate() {
                *evs.add(i) = libc::epoll_event { events: *m, u64: *data };
            }
            w().lg(20, l.len() as u64);
            return l.len() as c_int;
        }
        if timeout == 0 {
            return 0;
        }
        if sched::block(Wait::Epoll(e as i32), dl) == Why::Timeout {
            return 0;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int, _s: *const c_void) -> c_int {
    epoll_wait(ep, evs, max, timeout)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: c_uint, _f: c_int) -> c_int {
    if !net::fd_room() {
        return r32(-libc::EMFILE);
    }
    net::install(Kind::EventFd { val: v as u64 }, true)
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: libc::nfds_t, t: c_int) -> c_int {
    if app() {
        for i in 0..n as usize {
            (*p.add(i)).revents = 0;
        }
        return 0;
    }
    ret(sc3(libc::SYS_poll, p as i64, n as i64, t as i64)) as c_int
}

// ---- sockets
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, _p: c_int) -> c_int {
    sched::yield_point(21);
    if dom != libc::AF_INET && dom != libc::AF_INET6 {
        return r32(-libc::EAFNOSUPPORT);
    }
    if !net::fd_room() {
        w().excuse("no-descriptors");
        w().stat("fault.no_fds", 1);
        return r32(-libc::EMFILE);
    }
    net::install(Kind::Sock { bound: None }, ty & libc::SOCK_NONBLOCK != 0)
}
unsafe fn addr_in(a: *const sockaddr) -> ([u8; 4], u16) {
    if (*a).sa_family as c_int == libc::AF_INET {
        let s = a as *const libc::sockaddr_in;
        ((*s).sin_addr.s_addr.to_ne_bytes(), u16::from_be((*s).sin_port))
    } else {
        let s = a as *const libc::sockaddr_in6;
        ([0, 0, 0, 6], u16::from_be((*s).sin6_port))
    }
}
unsafe fn put_addr(a: *mut sockaddr, l: *mut socklen_t, port: u16) {
    if a.is_null() || l.is_null() {
        return;
    }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = port.to_be();
    s.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
    let n = (*l as usize).min(std::mem::size_of_val(&s));
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
    *l = std::mem::size_of_val(&s) as socklen_t;
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
    sched::yield_point(22);
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    let (ip, port) = addr_in(a);
    let wd = w();
    wd.touch("the network");
    if (ip, port) != wd.cfg.listen_addr() {
        let d = format!("the API is bound to {:?} port {}, configured is {:?}", ip, port, wd.cfg.listen_addr());
        wd.violate("bind-address", d);
    }
    if wd.net.bind_fail > 0 {
        wd.net.bind_fail -= 1;
        wd.stat("fault.bind_in_use", 1);
        wd.excuse("address-in-use");
        return r32(-libc::EADDRINUSE);
    }
    if net::listening(port) {
        return r32(-libc::EADDRINUSE);
    }
    net::desc(d).kind = Kind::Sock { bound: Some(port) };
    0
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, _b: c_int) -> c_int {
    sched::yield_point(23);
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    if let Kind::Sock { bound } = net::desc(d).kind {
        net::desc(d).kind = Kind::Listener { port: bound.unwrap_or(0), queue: Default::default() };
        let wd = w();
        wd.net.listen_since = wd.now;
        wd.note(format!("API listens on port {}", bound.unwrap_or(0)));
        crate::client::api_open();
        return 0;
    }
    r32(-libc::EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, flags: c_int) -> c_int {
    sched::yield_point(24);
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    if !net::fd_room() {
        w().stat("fault.no_fds", 1);
        return r32(-libc::EMFILE);
    }
    loop {
        match net::accept(d) {
            Ok(c) => {
                let f = net::install(Kind::Conn { id: c }, flags & libc::SOCK_NONBLOCK != 0);
                let de = net::desc_of(f).unwrap();
                let wd = w();
                wd.net.conns[c].desc = Some(de);
                put_addr(a, l, wd.net.conns[c].local_port);
                wd.lg(25, c as u64);
                return f;
            }
            Err(libc::EAGAIN) if !net::desc(d).nonblock => {
                sched::block(Wait::Desc(d as i32), None);
            }
            Err(e) => return r32(-e),
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    accept4(fd, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, _l: socklen_t) -> c_int {
    sched::yield_point(26);
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    let (ip, port) = addr_in(a);
    w().touch("the network");
    let r = net::app_connect(d, ip, port);
    if !net::desc(d).nonblock {
        loop {
            let Kind::Conn { id } = net::desc(d).kind else { break };
            match w().net.conns[id].state {
                net::CState::Connecting => {
                    sched::block(Wait::Desc(d as i32), None);
                }
                net::CState::Open => return 0,
                net::CState::Refused => return r32(-libc::ECONNREFUSED),
            }
        }
    }
    r32(r)
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
    if lv == libc::SOL_SOCKET && name == libc::SO_ERROR {
        if let Kind::Conn { id } = net::desc(d).kind {
            let c = &mut w().net.conns[id];
            *(v as *mut c_int) = c.so_error;
            if c.state != net::CState::Refused {
                c.so_error = 0;
            }
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, _lv: c_int, _n: c_int, _v: *const c_void, _l: socklen_t) -> c_int {
    if net::desc_of(fd).is_none() {
        return r32(-libc::EBADF);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    let port = match &net::desc(d).kind {
        Kind::Sock { bound } => bound.unwrap_or(0),
        Kind::Listener { port, .. } => *port,
        Kind::Conn { id } => {
            let c = &w().net.conns[*id];
            if c.peer == net::Peer::Node { c.local_port } else { c.remote_port }
        }
        _ => return r32(-libc::ENOTSOCK),
    };
    put_addr(a, l, port);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    match &net::desc(d).kind {
        Kind::Conn { id } => {
            let c = &w().net.conns[*id];
            if c.state != net::CState::Open || c.rst {
                return r32(-libc::ENOTCONN);
            }
            let p = if c.peer == net::Peer::Node { c.remote_port } else { c.local_port };
            put_addr(a, l, p);
            0
        }
        _ => r32(-libc::ENOTCONN),
    }
}
fn net_peer_is_node(id: usize) -> bool {
    w().net.conns[id].peer == net::Peer::Node
}
unsafe fn sock_send(d: usize, b: &[u8]) -> i64 {
    sched::yield_point(27);
    loop {
        let Kind::Conn { id } = net::desc(d).kind else { return -libc::ENOTCONN as i64 };
        let r = net::send(id, b);
        if r == -libc::EAGAIN as i64 && !net::desc(d).nonblock {
            sched::block(Wait::Desc(d as i32), None);
            continue;
        }
        w().lg(28, r as u64);
        if r > 0 && app() {
            let node = net_peer_is_node(id);
            point(if node { "app:send:node" } else { "app:send:api" });
        }
        return r;
    }
}
unsafe fn sock_recv(d: usize, b: &mut [u8], _peek: bool) -> i64 {
    sched::yield_point(29);
    loop {
        let Kind::Conn { id } = net::desc(d).kind else { return -libc::ENOTCONN as i64 };
        let r = net::recv(id, b);
        if r == -libc::EAGAIN as i64 && !net::desc(d).nonblock {
            sched::block(Wait::Desc(d as i32), None);
            continue;
        }
        w().lg(30, r as u64);
        if r > 0 && app() {
            let node = net_peer_is_node(id);
            point(if node { "app:recv:node" } else { "app:recv:api" });
        }
        return r;
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const c_void, n: size_t, _f: c_int) -> ssize_t {
    let Some(d) = net::desc_of(fd) else { return ret(-libc::EBADF as i64) as ssize_t };
    ret(sock_send(d, std::slice::from_raw_parts(p as *const u8, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut c_void, n: size_t, _f: c_int) -> ssize_t {
    let Some(d) = net::desc_of(fd) else { return ret(-libc::EBADF as i64) as ssize_t };
    ret(sock_recv(d, std::slice::from_raw_parts_mut(p as *mut u8, n), false)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const c_void, n: size_t, f: c_int, _a: *const sockaddr, _l: socklen_t) -> ssize_t {
    send(fd, p, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut c_void, n: size_t, f: c_int, _a: *mut sockaddr, _l: *mut socklen_t) -> ssize_t {
    recv(fd, p, n, f)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, _f: c_int) -> ssize_t {
    writev(fd, (*m).msg_iov, (*m).msg_iovlen as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    sched::yield_point(31);
    let Some(d) = net::desc_of(fd) else { return r32(-libc::EBADF) };
    if let Kind::Conn { id } = net::desc(d).kind {
        if w().net.conns[id].state != net::CState::Open || w().net.conns[id].rst {
            return r32(-libc::ENOTCONN);
        }
        if how != libc::SHUT_RD {
            net::shutdown_write(id);
        }
        return 0;
    }
    r32(-libc::ENOTCONN)
}

#[repr(C)]
struct Ai {
    ai: libc::addrinfo,
    sa: libc::sockaddr_in,
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, serv: *const c_char, _h: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    sched::yield_point(32);
    w().touch("the network");
    let name = if node.is_null() { String::new() } else { cs_at(node, "")[1..].to_string() };
    let port: u16 = if serv.is_null() { 0 } else { cs_at(serv, "")[1..].parse().unwrap_or(0) };
    let wd = w();
    let d = wd.net.node_link.lat_lo + 50 * US;
    let t = wd.now + d;
    sched::block(Wait::Sleep, Some(t));
    let l = w().node.resolve(&name);
    if l.is_empty() {
        return libc::EAI_NONAME;
    }
    let mut head: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in l.iter().rev() {
        let a = libc::calloc(1, std::mem::size_of::<Ai>()) as *mut Ai;
        (*a).sa.sin_family = libc::AF_INET as u16;
        (*a).sa.sin_port = port.to_be();
        (*a).sa.sin_addr.s_addr = u32::from_ne_bytes(*ip);
        (*a).ai.ai_family = libc::AF_INET;
        (*a).ai.ai_socktype = libc::SOCK_STREAM;
        (*a).ai.ai_protocol = libc::IPPROTO_TCP;
        (*a).ai.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
        (*a).ai.ai_addr = std::ptr::addr_of_mut!((*a).sa) as *mut sockaddr;
        (*a).ai.ai_next = head;
        head = a as *mut libc::addrinfo;
    }
    *res = head;
    0
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut a: *mut libc::addrinfo) {
    while !a.is_null() {
        let n = (*a).ai_next;
        libc::free(a as *mut c_void);
        a = n;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    0
}

// ---- coverage callbacks
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let v = *g;
    if v != 0 && app() {
        sched::edge(v);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    crate::driver::guards(a, b);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, b: *const usize) {
    crate::driver::pcs(a, b);
}

// ---- program entry
type Main = extern "C" fn(c_int, *const *const c_char, *const *const c_char) -> c_int;
static mut REAL_MAIN: Option<Main> = None;
extern "C" fn my_main(argc: c_int, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    unsafe {
        crate::driver::serve();
        (REAL_MAIN.unwrap())(argc, argv, envp)
    }
}
type StartMain = unsafe extern "C" fn(Main, c_int, *const *const c_char, *const c_void, *const c_void, *const c_void, *const c_void) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn __libc_start_main(
    main: Main,
    argc: c_int,
    argv: *const *const c_char,
    init: *const c_void,
    fini: *const c_void,
    rtld_fini: *const c_void,
    stack_end: *const c_void,
) -> c_int {
    REAL_MAIN = Some(main);
    let r = libc::dlsym(libc::RTLD_NEXT, b"__libc_start_main\0".as_ptr() as *const _);
    let r: StartMain = std::mem::transmute(r);
    r(my_main, argc, argv, init, fini, rtld_fini, stack_end)
}
