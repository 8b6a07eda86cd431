//! Global allocator that counts, per thread, allocation calls, allocated bytes and live bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub struct Counting;
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub calls: u64,
    pub bytes: u64,
    pub live: i64,
}
pub fn snap() -> Snap {
    Snap { calls: CALLS.with(|c| c.get()), bytes: BYTES.with(|c| c.get()), live: LIVE.with(|c| c.get()) }
}
fn add(sz: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + sz as u64));
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + sz as i64);
        let _ = PEAK.try_with(|p| p.set(p.get().max(c.get())));
    });
}
/// from here on, the most live bytes of this thread
pub fn peak_reset() {
    PEAK.with(|p| p.set(LIVE.with(|c| c.get())))
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

// Fresh memory that was not asked to be zeroed is filled with this byte (NaN as a float): code that reads memory
// before writing it gets NaN instead of whatever happens to be there.
const FRESH: u8 = 0xff;

// ---- fenced allocations: each ends (up to its alignment) at an inaccessible page, and freed ones are inaccessible
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
const ARENA: usize = 256 << 20;
const ARENAS: usize = 16;
static BASE: AtomicUsize = AtomicUsize::new(0);
static TAKEN: AtomicUsize = AtomicUsize::new(0);
static NEXT: [AtomicUsize; ARENAS] = [const { AtomicUsize::new(0) }; ARENAS];
static ALIVE: [AtomicUsize; ARENAS] = [const { AtomicUsize::new(0) }; ARENAS];
thread_local! {
    static MINE: Cell<usize> = const { Cell::new(usize::MAX) };
    static FENCE: Cell<bool> = const { Cell::new(false) };
    static DONE: Cell<u64> = const { Cell::new(0) };
}
/// while it lives, this thread's allocations are fenced
pub struct Fence(());
pub fn fence() -> Fence {
    static INIT: std::sync::Once = std::sync::Once::new();
    INIT.call_once(|| unsafe {
        // PROT_NONE, private, anonymous, not reserved
        let p = mmap(std::ptr::null_mut(), ARENA * ARENAS, 0, 0x4022, -1, 0);
        assert!(p as isize != -1, "HARNESS: mmap failed");
        BASE.store(p as usize, SeqCst);
    });
    if MINE.with(|m| m.get()) == usize::MAX {
        let id = TAKEN.fetch_add(1, SeqCst);
        MINE.with(|m| m.set(id.min(ARENAS)));
    }
    let id = MINE.with(|m| m.get());
    if id < ARENAS {
        if ALIVE[id].load(SeqCst) == 0 {
            NEXT[id].store(PAGE, SeqCst);
        }
        FENCE.with(|f| f.set(true));
    }
    Fence(())
}
/// number of fenced allocations made by this thread
pub fn fenced() -> u64 {
    DONE.with(|d| d.get())
}
impl Drop for Fence {
    fn drop(&mut self) {
        FENCE.with(|f| f.set(false));
    }
}
fn pages(n: usize) -> usize {
    (n.max(1) + PAGE - 1) / PAGE * PAGE
}
unsafe fn fenced_alloc(l: Layout) -> Option<*mut u8> {
    if !FENCE.try_with(|f| f.get()).unwrap_or(false) || l.align() > PAGE {
        return None;
    }
    let id = MINE.with(|m| m.get());
    let inner = pages(l.size());
    if NEXT[id].load(SeqCst) + inner + PAGE > ARENA {
        return None;
    }
    let base = BASE.load(SeqCst) + id * ARENA + NEXT[id].fetch_add(inner + PAGE, SeqCst);
    if mprotect(base as *mut u8, inner, 3) != 0 {
        return None;
    }
    ALIVE[id].fetch_add(1, SeqCst);
    DONE.with(|d| d.set(d.get() + 1));
    Some(((base + inner - l.size()) & !(l.align() - 1)) as *mut u8)
}
fn arena_of(p: *mut u8) -> Option<usize> {
    let b = BASE.load(SeqCst);
    if b == 0 || (p as usize) < b || p as usize >= b + ARENA * ARENAS {
        None
    } else {
        Some((p as usize - b) / ARENA)
    }
}
unsafe fn get(l: Layout, zeroed: bool) -> *mut u8 {
    if let Some(p) = fenced_alloc(l) {
        if !zeroed {
            std::ptr::write_bytes(p, FRESH, l.size());
        }
        return p;
    }
    if zeroed {
        return System.alloc_zeroed(l);
    }
    let p = System.alloc(l);
    if !p.is_null() {
        std::ptr::write_bytes(p, FRESH, l.size());
    }
    p
}
unsafe fn put(p: *mut u8, l: Layout) {
    match arena_of(p) {
        None => {
            // a look at freed memory shall not find the old content either
            std::ptr::write_bytes(p, FRESH, l.size().min(1024));
            System.dealloc(p, l)
        }
        Some(id) => {
            let base = (p as usize & !(PAGE - 1)) as *mut u8;
            let inner = pages(l.size());
            madvise(base, inner, 4);
            mprotect(base, inner, 0);
            ALIVE[id].fetch_sub(1, SeqCst);
        }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        get(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        get(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        put(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        add(n);
        if arena_of(p).is_none() && !FENCE.try_with(|f| f.get()).unwrap_or(false) {
            let q = System.realloc(p, l, n);
            if !q.is_null() && n > l.size() {
                std::ptr::write_bytes(q.add(l.size()), FRESH, n - l.size());
            }
            return q;
        }
        let q = get(Layout::from_size_align_unchecked(n, l.align()), false);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
}
