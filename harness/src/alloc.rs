//! Global allocator that checks every release against its allocation and guards both ends.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Guard;
// bytes this thread has allocated and not released: other threads (a thread pool, a watchdog)
// allocate on their own account
thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub static ERRORS: AtomicU64 = AtomicU64::new(0);
const MAGIC: u64 = 0x5afe_b10c_0dd5_eed1;

#[global_allocator]
static A: Guard = Guard;

fn pad(l: Layout) -> usize {
    l.align().max(32)
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l);
        let full = Layout::from_size_align(l.size() + p + 16, p).unwrap();
        let b = System.alloc(full);
        if b.is_null() {
            return b;
        }
        let u = b.add(p);
        (u.sub(24) as *mut u64).write(l.size() as u64);
        (u.sub(16) as *mut u64).write(l.align() as u64);
        (u.sub(8) as *mut u64).write(MAGIC);
        std::ptr::write_bytes(u, 0xA5, l.size());
        (u.add(l.size()) as *mut u64).write_unaligned(MAGIC);
        (u.add(l.size() + 8) as *mut u64).write_unaligned(MAGIC);
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let p = pad(l);
        let size = (u.sub(24) as *mut u64).read();
        let align = (u.sub(16) as *mut u64).read();
        let magic = (u.sub(8) as *mut u64).read();
        if magic != MAGIC || size != l.size() as u64 || align != l.align() as u64 {
            ERRORS.fetch_add(1, SeqCst);
            return; // leak it: releasing with a wrong layout would corrupt the harness
        }
        if (u.add(l.size()) as *mut u64).read_unaligned() != MAGIC || (u.add(l.size() + 8) as *mut u64).read_unaligned() != MAGIC {
            ERRORS.fetch_add(1, SeqCst);
        }
        (u.sub(8) as *mut u64).write(!MAGIC);
        if l.size() < 1 << 16 {
            std::ptr::write_bytes(u, 0x5A, l.size());
        }
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(u.sub(p), Layout::from_size_align(l.size() + p + 16, p).unwrap());
    }
}
