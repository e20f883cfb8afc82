//! A size-class allocator with per-thread free lists: states are cloned and dropped constantly.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

pub struct Pool;

const NC: usize = 40;
const CHUNK: usize = 1 << 20;

thread_local! {
    static FREE: [Cell<*mut u8>; NC] = const { [const { Cell::new(null_mut()) }; NC] };
    static CUR: Cell<(*mut u8, usize)> = const { Cell::new((null_mut(), 0)) };
}

#[inline]
fn class(n: usize) -> usize {
    // 16,24(32),... : two classes per power of two
    if n <= 32 {
        return if n <= 16 { 0 } else { 1 };
    }
    let p = usize::BITS as usize - 1 - (n - 1).leading_zeros() as usize; // 2^p < n <= 2^(p+1)
    let mid = (1 << p) + (1 << (p - 1));
    2 + (p - 5) * 2 + (n > mid) as usize
}
#[inline]
fn class_size(c: usize) -> usize {
    match c {
        0 => 16,
        1 => 32,
        _ => {
            let p = (c - 2) / 2 + 5;
            if (c - 2) % 2 == 0 {
                (1 << p) + (1 << (p - 1))
            } else {
                1 << (p + 1)
            }
        }
    }
}
const MAX: usize = 64 << 10;

unsafe impl GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX || l.align() > 16 || l.size() == 0 {
            return System.alloc(l);
        }
        let c = class(l.size());
        FREE.with(|f| {
            let p = f[c].get();
            if !p.is_null() {
                f[c].set(*(p as *mut *mut u8));
                return p;
            }
            let s = class_size(c);
            CUR.with(|cur| {
                let (p, n) = cur.get();
                if n >= s {
                    cur.set((p.add(s), n - s));
                    return p;
                }
                let b = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if b.is_null() {
                    return b;
                }
                cur.set((b.add(s), CHUNK - s));
                b
            })
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > MAX || l.align() > 16 || l.size() == 0 {
            return System.dealloc(p, l);
        }
        let c = class(l.size());
        FREE.with(|f| {
            *(p as *mut *mut u8) = f[c].get();
            f[c].set(p);
        })
    }
}
