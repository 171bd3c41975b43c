//! Global allocator of this library: everything the simulator allocates lives in a shared mapping, so that the simulated
//! world survives the death of the process that runs the application (a simulated crash).
use crate::sys;
use std::alloc::{GlobalAlloc, Layout};

pub const ARENA_SIZE: usize = 768 << 20;
const RESERVE: usize = 32 << 20; // for the report of a run that used up the rest
const EARLY_SIZE: usize = 256 << 20;
const NCLASS: usize = 96;

#[repr(C)]
pub struct Hdr {
    cur: usize,
    end: usize,
    base: usize,
    free: [usize; NCLASS],
}

pub static mut ARENA: *mut Hdr = std::ptr::null_mut();
static mut SHARED: *mut Hdr = std::ptr::null_mut();

unsafe fn map(size: usize, shared: bool, hint: usize) -> *mut Hdr {
    let flags = libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | if shared { libc::MAP_SHARED } else { libc::MAP_PRIVATE };
    let r = sys::sc6(libc::SYS_mmap, hint as i64, size as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, flags as i64, -1, 0);
    if r < 0 {
        sys::write_all(2, b"sim: arena mmap failed\n");
        sys::exit_group(99);
    }
    let h = r as usize as *mut Hdr;
    init(h, size);
    h
}
unsafe fn init(h: *mut Hdr, size: usize) {
    (*h).base = h as usize;
    (*h).cur = (h as usize + std::mem::size_of::<Hdr>() + 63) & !63;
    (*h).end = h as usize + size - RESERVE;
    (*h).free = [0; NCLASS];
}

/// Map `size` bytes of shared anonymous memory.
pub unsafe fn shared_bytes(size: usize) -> *mut u8 {
    let flags = libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_SHARED;
    let r = sys::sc6(libc::SYS_mmap, 0, size as i64, 3, flags as i64, -1, 0);
    if r < 0 {
        sys::exit_group(99);
    }
    r as usize as *mut u8
}

/// Prepare the shared arena once per worker; `fresh` re-initialises it for a run.
pub unsafe fn prepare() {
    SHARED = map(ARENA_SIZE, true, 0x2000_0000_0000);
}
pub unsafe fn fresh() {
    init(SHARED, ARENA_SIZE);
    ARENA = SHARED;
}
pub fn release_reserve() {
    unsafe { (*ARENA).end += RESERVE }
}
pub fn used() -> usize {
    unsafe { (*ARENA).cur - (*ARENA).base }
}

// classes: 16-byte steps up to 512 (1..=32), then four per power of two
fn class(size: usize) -> (usize, usize) {
    if size <= 512 {
        let c = (size + 15) / 16;
        let c = if c == 0 { 1 } else { c };
        return (c - 1, c * 16);
    }
    let lg = usize::BITS - 1 - (size - 1).leading_zeros();
    let base = 1usize << lg;
    let step = base / 4;
    let k = (size - base + step - 1) / step;
    (32 + (lg as usize - 9) * 4 + (k - 1), base + k * step)
}

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA.is_null() {
            ARENA = map(EARLY_SIZE, false, 0x1f00_0000_0000);
        }
        let h = &mut *ARENA;
        let al = l.align().max(16);
        let (c, sz) = class(l.size().max(al));
        if c < NCLASS && al <= 64 {
            let p = h.free[c];
            if p != 0 && p % al == 0 {
                h.free[c] = *(p as *const usize);
                return p as *mut u8;
            }
        }
        let p = (h.cur + al - 1) & !(al - 1);
        if p + sz > h.end {
            sys::write_all(2, b"sim: arena exhausted\n");
            sys::exit_group(98);
        }
        h.cur = p + sz;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARENA.is_null() {
            return;
        }
        let h = &mut *ARENA;
        let a = p as usize;
        if a < h.base || a >= h.end {
            return;
        }
        let al = l.align().max(16);
        let (c, _) = class(l.size().max(al));
        if c < NCLASS {
            *(p as *mut usize) = h.free[c];
            h.free[c] = a;
        }
    }
}
