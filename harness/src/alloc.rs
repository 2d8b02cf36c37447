//! Counts the allocations made while library code runs and not yet freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
thread_local! { static IN_LIB: Cell<bool> = const { Cell::new(false) }; }

pub fn in_lib<R>(f: impl FnOnce() -> R) -> R {
    let old = IN_LIB.with(|c| c.replace(true));
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _r = Restore(old);
    f()
}
/// Driver bookkeeping done in the middle of a library call.
pub fn out_lib<R>(f: impl FnOnce() -> R) -> R {
    let old = IN_LIB.with(|c| c.replace(false));
    let r = f();
    IN_LIB.with(|c| c.set(old));
    r
}

fn head(l: Layout) -> usize {
    l.align().max(16)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(l);
        let Some(size) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let p = System.alloc(Layout::from_size_align_unchecked(size, h));
        if p.is_null() {
            return p;
        }
        let flag = IN_LIB.try_with(|c| c.get()).unwrap_or(false) as u8;
        if flag == 1 {
            LIVE.fetch_add(1, Relaxed);
        }
        let q = p.add(h);
        q.sub(1).write(flag);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = head(l);
        if q.sub(1).read() == 1 {
            LIVE.fetch_sub(1, Relaxed);
        }
        System.dealloc(q.sub(h), Layout::from_size_align_unchecked(l.size() + h, h))
    }
}
