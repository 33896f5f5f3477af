//! Allocator which, when JBKVERIF_ALLOC is set, makes misuses of the memory visible:
//! fresh and freed bytes have a pattern, blocks are followed by a guard, freed blocks are kept for a while and
//! must not have been written when they are really given back. A broken rule ends the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct Guarding;

const GUARD: usize = 32;
const G: u8 = 0xC7;
const FRESH: u8 = 0xA7;
const DEAD: u8 = 0xDB;
const SLOTS: usize = 1 << 12;
const MAX_KEPT: usize = 96 << 20;

static STATE: AtomicU8 = AtomicU8::new(0);
pub static CHECKED: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static KEPT: AtomicUsize = AtomicUsize::new(0);
struct Ring {
    at: usize,
    slots: [(usize, usize, usize); SLOTS],
}
static mut RING: Ring = Ring {
    at: 0,
    slots: [(0, 0, 0); SLOTS],
};

fn on() -> bool {
    match STATE.load(Relaxed) {
        2 => true,
        1 => false,
        _ => {
            let v = unsafe { !libc::getenv(c"JBKVERIF_ALLOC".as_ptr()).is_null() };
            STATE.store(if v { 2 } else { 1 }, Relaxed);
            v
        }
    }
}

fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as _, msg.len());
        libc::write(2, b"\n".as_ptr() as _, 1);
        libc::abort()
    }
}

unsafe fn all(p: *const u8, n: usize, v: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|b| *b == v)
}

unsafe fn give_back((p, size, align): (usize, usize, usize)) {
    let p = p as *mut u8;
    if !all(p, size, DEAD) {
        die("PANIC [memory] a block was written after it was freed");
    }
    System.dealloc(p, Layout::from_size_align_unchecked(size + GUARD, align));
}

unsafe fn big(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + GUARD, l.align())
}

unsafe impl GlobalAlloc for Guarding {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on() {
            return System.alloc(l);
        }
        let p = System.alloc(big(l));
        if !p.is_null() {
            std::ptr::write_bytes(p, FRESH, l.size());
            std::ptr::write_bytes(p.add(l.size()), G, GUARD);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on() {
            return System.alloc_zeroed(l);
        }
        let p = System.alloc_zeroed(big(l));
        if !p.is_null() {
            std::ptr::write_bytes(p.add(l.size()), G, GUARD);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if !on() {
            return System.realloc(p, l, size);
        }
        let n = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, size.min(l.size()));
            self.dealloc(p, l);
        }
        n
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !on() {
            return System.dealloc(p, l);
        }
        if !all(p.add(l.size()), GUARD, G) {
            die("PANIC [memory] bytes were written after the end of a block (or it was freed twice)");
        }
        CHECKED.fetch_add(1, Relaxed);
        std::ptr::write_bytes(p, DEAD, l.size() + GUARD);
        if l.size() < 256 || l.size() > MAX_KEPT / 4 {
            return System.dealloc(p, big(l));
        }
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let ring = &mut *std::ptr::addr_of_mut!(RING);
        let mut out = [(0, 0, 0); 4];
        let mut n = 0;
        let k = ring.at % SLOTS;
        out[0] = ring.slots[k];
        n += 1;
        ring.slots[k] = (p as usize, l.size(), l.align());
        ring.at += 1;
        let mut kept = KEPT.load(Relaxed) + l.size() - out[0].1;
        // too many bytes are kept: also give back some of the oldest blocks
        let mut j = ring.at;
        while kept > MAX_KEPT && n < 4 && j < ring.at + SLOTS - 1 {
            let s = &mut ring.slots[j % SLOTS];
            if s.0 != 0 {
                out[n] = std::mem::take(s);
                kept -= out[n].1;
                n += 1;
            }
            j += 1;
        }
        KEPT.store(kept, Relaxed);
        LOCK.store(false, Release);
        for o in &out[..n] {
            if o.0 != 0 {
                give_back(*o);
            }
        }
    }
}
