#![allow(unexpected_cfgs, unused_imports)]
//! Global allocator that fills fresh memory with 0xFF bytes (NaN as a float, -1 as an integer) and
//! released memory with 0xFE, so that a value read before it was written shows in the results.
//!
//! It also guards every block: the size and alignment it was asked for are kept in front of it and
//! a band of known bytes behind it, and both are checked when the block is released or resized.
//! A block released with another size, released twice, or written past its end stops the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct Poison;

/// Stop at a violation (set by the memory checks; the other checks leave it alone).
pub static ARMED: AtomicBool = AtomicBool::new(false);
/// Blocks checked on release.
pub static CHECKED: AtomicU64 = AtomicU64::new(0);
/// Blocks of 64-byte alignment released with the alignment of their element type (a known finding).
pub static ALIGN64: AtomicU64 = AtomicU64::new(0);

#[cfg(not(any(miri, vh_sanitizer)))]
mod guard {
    use super::*;
    const MAGIC: u64 = 0x51ab_77e0_c0de_1357;
    const DEAD: u64 = 0xdead_77e0_c0de_2468;
    const TAIL: usize = 16;
    const BAND: u8 = 0xFD;

    /// Room in front of a block: 32 bytes of header, kept a multiple of the alignment.
    fn front(align: usize) -> usize {
        align.max(32)
    }
    fn full(l: Layout) -> Option<Layout> {
        let n = l.size().checked_add(front(l.align()) + TAIL)?;
        Layout::from_size_align(n, l.align().max(16)).ok()
    }
    unsafe fn header(p: *mut u8) -> *mut u64 {
        p.sub(32) as *mut u64
    }
    fn stop(what: &str, size: u64, align: u64, l: Layout) {
        if ARMED.swap(false, Relaxed) {
            use std::io::Write;
            let _ = writeln!(
                std::io::stderr(),
                "memory guard: {what}: allocated with size {size} align {align}, now size {} align {}",
                l.size(),
                l.align()
            );
            std::process::abort();
        }
    }
    /// Checks a block that is given back with layout l; the layout it was allocated with.
    unsafe fn check(p: *mut u8, l: Layout) -> Layout {
        if (p as usize).wrapping_add(1) <= 1 || (p as usize) % 16 != 0 {
            // a pointer made of the fill
            stop("released something never allocated", 0, 0, l);
            return l;
        }
        let h = header(p);
        let (magic, size, align) = (*h, *h.add(1), *h.add(2));
        if magic == DEAD {
            stop("released twice", size, align, l);
        } else if magic != MAGIC {
            stop("overwritten in front of the block, or not a block", 0, 0, l);
            return l;
        }
        if size != l.size() as u64 {
            stop("released with another size", size, align, l);
        }
        if align != l.align() as u64 {
            if align == 64 && l.align() < 64 {
                ALIGN64.fetch_add(1, Relaxed);
            } else {
                stop("released with another alignment", size, align, l);
            }
        }
        let band = std::slice::from_raw_parts(p.add(size as usize), TAIL);
        if band.iter().any(|&b| b != BAND) {
            stop("written past the end", size, align, l);
        }
        CHECKED.fetch_add(1, Relaxed);
        Layout::from_size_align_unchecked(size as usize, align as usize)
    }
    unsafe fn set(base: *mut u8, l: Layout) -> *mut u8 {
        let p = base.add(front(l.align()));
        let h = header(p);
        *h = MAGIC;
        *h.add(1) = l.size() as u64;
        *h.add(2) = l.align() as u64;
        std::ptr::write_bytes(p.add(l.size()), BAND, TAIL);
        p
    }

    unsafe impl GlobalAlloc for Poison {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let Some(f) = full(l) else { return std::ptr::null_mut() };
            let b = System.alloc(f);
            if b.is_null() {
                return b;
            }
            let p = set(b, l);
            std::ptr::write_bytes(p, 0xFF, l.size());
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let was = check(p, l);
            std::ptr::write_bytes(p, 0xFE, was.size());
            *header(p) = DEAD;
            System.dealloc(p.sub(front(was.align())), full(was).unwrap())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let Some(f) = full(l) else { return std::ptr::null_mut() };
            let b = System.alloc_zeroed(f);
            if b.is_null() {
                return b;
            }
            set(b, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let was = check(p, l);
            let Ok(new) = Layout::from_size_align(n, was.align()) else { return std::ptr::null_mut() };
            let q = self.alloc(new);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, was.size().min(n));
                std::ptr::write_bytes(p, 0xFE, was.size());
                *header(p) = DEAD;
                System.dealloc(p.sub(front(was.align())), full(was).unwrap());
            }
            q
        }
    }
}

// The sanitizers keep their own books; only the fill is added.
#[cfg(all(vh_sanitizer, not(miri)))]
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xFF, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), 0xFF, n - l.size());
        }
        q
    }
}

// Under Miri the fill would count as initialisation.
#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: Poison = Poison;
