//! The C interface of /repo/c with an allocator that notices a release with another layout than the allocation's.
#[path = "/repo/c/src/lib.rs"]
pub mod c;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

static BAD: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
const H: usize = 32;
struct Checked;
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + H, 16));
        if p.is_null() {
            return p;
        }
        let q = p as *mut usize;
        *q = 0x5afe_b10c_5afe_b10c;
        *q.add(1) = l.size();
        *q.add(2) = l.align();
        LIVE.fetch_add(1, Ordering::Relaxed);
        p.add(H)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let q = p.sub(H) as *mut usize;
        if *q != 0x5afe_b10c_5afe_b10c {
            BAD.fetch_add(1, Ordering::Relaxed);
            return;
        }
        if *q.add(1) != l.size() || *q.add(2) != l.align() {
            BAD.fetch_add(1, Ordering::Relaxed);
        }
        *q = 0;
        LIVE.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(q as *mut u8, Layout::from_size_align_unchecked(*q.add(1) + H, 16))
    }
}
#[global_allocator]
static A: Checked = Checked;
/// Releases with a wrong layout so far.
#[no_mangle]
pub extern "C" fn vbad() -> usize {
    BAD.load(Ordering::Relaxed)
}
/// Allocations not released yet.
#[no_mangle]
pub extern "C" fn vlive() -> usize {
    LIVE.load(Ordering::Relaxed)
}
