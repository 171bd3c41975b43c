//! Raw system calls (never through libc symbols, which this library interposes) and real pthread entry points.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}

/// Pass a raw syscall result to a libc-style caller.
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc3(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        sc3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe { sc6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake(addr: *const u32) {
    unsafe { sc6(libc::SYS_futex, addr as i64, 129, 1, 0, 0, 0) };
}

pub fn real_now_ns() -> u64 {
    let mut ts: [i64; 2] = [0; 2];
    unsafe { sc3(libc::SYS_clock_gettime, 1, ts.as_mut_ptr() as i64, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub fn cpu_ns() -> u64 {
    let mut ts: [i64; 2] = [0; 2];
    unsafe { sc3(libc::SYS_clock_gettime, 2, ts.as_mut_ptr() as i64, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
pub type RealCreate =
    unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
pub type RealJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
pub static mut REAL_CREATE: Option<RealCreate> = None;
pub static mut REAL_JOIN: Option<RealJoin> = None;

pub unsafe fn resolve() {
    let c = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const _);
    REAL_CREATE = Some(std::mem::transmute::<*mut libc::c_void, RealCreate>(c));
    let j = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const _);
    REAL_JOIN = Some(std::mem::transmute::<*mut libc::c_void, RealJoin>(j));
}

pub fn read_file(path: &str) -> Option<Vec<u8>> {
    let mut p = path.as_bytes().to_vec();
    p.push(0);
    unsafe {
        let fd = sc3(libc::SYS_open, p.as_ptr() as i64, 0, 0);
        if fd < 0 {
            return None;
        }
        let mut out = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = sc3(libc::SYS_read, fd, buf.as_mut_ptr() as i64, buf.len() as i64);
            if r <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..r as usize]);
        }
        sc3(libc::SYS_close, fd, 0, 0);
        Some(out)
    }
}
