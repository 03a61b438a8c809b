//! Global allocator that makes stray memory accesses visible.
//!
//! * Every heap block lies between red zones that are checked when it is freed.
//! * In fence mode (on while a scenario runs) small blocks come from slots between inaccessible
//!   pages, placed against the following page (mode 1) or the preceding page (mode 2): a read or
//!   write outside the block faults at once. Fresh blocks are filled with a chosen byte, so that
//!   results that depend on uninitialised memory can be told by changing it.
//! * Allocations are counted per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};

pub struct Guard;
const RED: usize = 64;
const FILL: u8 = 0xA7;
const PAGE: usize = 4096;

thread_local! {
    static DAMAGED: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<u8> = const { Cell::new(0) };
    static FRESH: Cell<u8> = const { Cell::new(0xA7) };
    static OWNER: Cell<u32> = const { Cell::new(u32::MAX) };
}

/// Number of damaged blocks freed by this thread so far.
pub fn damaged() -> u64 {
    DAMAGED.with(|d| d.get())
}
/// Number of allocations made by this thread so far.
pub fn allocations() -> u64 {
    ALLOCS.with(|d| d.get())
}
/// 0: no fences, 1: fence after each block, 2: fence before each block.
pub fn set_mode(m: u8) -> u8 {
    MODE.with(|d| d.replace(m))
}
pub fn mode() -> u8 {
    MODE.with(|d| d.get())
}
/// The byte fresh blocks of this thread are filled with.
pub fn set_fresh(b: u8) -> u8 {
    FRESH.with(|d| d.replace(b))
}
/// Runs `f` with the given placement and fill.
pub fn with<T>(m: u8, fresh: u8, f: impl FnOnce() -> T) -> T {
    struct Back(u8, u8);
    impl Drop for Back {
        fn drop(&mut self) {
            set_mode(self.0);
            set_fresh(self.1);
        }
    }
    let _b = Back(set_mode(m), set_fresh(fresh));
    f()
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

const OWNERS: usize = 16;
/// (data pages, slots) per owner
const CLASSES: [(usize, usize); 3] = [(1, 512), (4, 96), (16, 32)];
const PER_OWNER: usize = {
    let mut s = 0;
    let mut i = 0;
    while i < CLASSES.len() {
        s += (CLASSES[i].0 + 1) * CLASSES[i].1;
        i += 1;
    }
    s
};
const REGION: usize = (OWNERS * PER_OWNER + 1) * PAGE;

struct Pool {
    lock: AtomicBool,
    /// slots handed out for the first time so far
    used: AtomicUsize,
    free: AtomicUsize,
    stack: [AtomicU32; 512],
}
static POOLS: [[Pool; 3]; OWNERS] = [const {
    [const { Pool { lock: AtomicBool::new(false), used: AtomicUsize::new(0), free: AtomicUsize::new(0), stack: [const { AtomicU32::new(0) }; 512] } }; 3]
}; OWNERS];
static BASE: AtomicUsize = AtomicUsize::new(0);
static INIT: AtomicBool = AtomicBool::new(false);
static NEXT_OWNER: AtomicUsize = AtomicUsize::new(0);

fn base() -> usize {
    let b = BASE.load(Ordering::Acquire);
    if b != 0 {
        return b;
    }
    if !INIT.swap(true, Ordering::AcqRel) {
        // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let p = unsafe { mmap(std::ptr::null_mut(), REGION, 0, 0x2 | 0x20 | 0x4000, -1, 0) } as usize;
        BASE.store(if p == usize::MAX { 1 } else { p }, Ordering::Release);
    }
    BASE.load(Ordering::Acquire)
}
fn owner() -> usize {
    OWNER.with(|o| {
        if o.get() == u32::MAX {
            o.set((NEXT_OWNER.fetch_add(1, Ordering::Relaxed) % OWNERS) as u32);
        }
        o.get() as usize
    })
}
fn slot_addr(b: usize, o: usize, c: usize, k: usize) -> usize {
    let mut off = 1 + o * PER_OWNER;
    for x in CLASSES.iter().take(c) {
        off += (x.0 + 1) * x.1;
    }
    b + (off + k * (CLASSES[c].0 + 1)) * PAGE
}
/// Owner, class and number of the slot that holds this address.
fn slot_of(b: usize, p: usize) -> Option<(usize, usize, usize)> {
    if b <= 1 || p < b + PAGE || p >= b + REGION {
        return None;
    }
    let page = (p - b) / PAGE - 1;
    let (o, mut r) = (page / PER_OWNER, page % PER_OWNER);
    for (c, (n, k)) in CLASSES.iter().enumerate() {
        if r < (n + 1) * k {
            return Some((o, c, r / (n + 1)));
        }
        r -= (n + 1) * k;
    }
    None
}
fn locked<T>(p: &Pool, f: impl FnOnce() -> T) -> T {
    while p.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f();
    p.lock.store(false, Ordering::Release);
    r
}
/// Start of the data pages and their number of bytes.
unsafe fn take_slot(need: usize) -> Option<(usize, usize)> {
    let c = CLASSES.iter().position(|x| need <= x.0 * PAGE)?;
    let b = base();
    if b <= 1 {
        return None;
    }
    let o = owner();
    let p = &POOLS[o][c];
    let (k, new) = locked(p, || {
        let n = p.free.load(Ordering::Relaxed);
        if n > 0 {
            p.free.store(n - 1, Ordering::Relaxed);
            Some((p.stack[n - 1].load(Ordering::Relaxed) as usize, false))
        } else {
            let u = p.used.load(Ordering::Relaxed);
            if u >= CLASSES[c].1 {
                return None;
            }
            p.used.store(u + 1, Ordering::Relaxed);
            Some((u, true))
        }
    })?;
    let a = slot_addr(b, o, c, k);
    let n = CLASSES[c].0 * PAGE;
    // PROT_READ | PROT_WRITE
    if new && mprotect(a as *mut u8, n, 3) != 0 {
        return None;
    }
    Some((a, n))
}
unsafe fn fenced(l: Layout) -> Option<*mut u8> {
    if l.align() > 64 {
        return None;
    }
    let mode = mode();
    let size = (l.size() + l.align() - 1) / l.align() * l.align();
    let (a, n) = take_slot(size)?;
    let fresh = FRESH.with(|d| d.get());
    let p = if mode == 2 { a } else { a + n - size } as *mut u8;
    std::ptr::write_bytes(p, fresh, l.size());
    // red zones on the sides that have room
    let before = (p as usize - a).min(RED);
    std::ptr::write_bytes(p.sub(before), FILL, before);
    let after = (a + n - (p as usize + l.size())).min(RED);
    std::ptr::write_bytes(p.add(l.size()), FILL, after);
    Some(p)
}
unsafe fn intact(p: *const u8, n: usize) -> bool {
    (0..n).all(|i| *p.add(i) == FILL)
}
fn wide(l: Layout) -> Option<(Layout, usize)> {
    let pre = RED.max(l.align());
    Layout::from_size_align(l.size().checked_add(pre + RED)?, l.align()).ok().map(|w| (w, pre))
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.with(|d| d.set(d.get() + 1));
        if mode() != 0 {
            if let Some(p) = fenced(l) {
                return p;
            }
        }
        let Some((w, pre)) = wide(l) else { return std::ptr::null_mut() };
        let p = System.alloc(w);
        if p.is_null() {
            return p;
        }
        std::ptr::write_bytes(p.add(pre - RED), FILL, RED);
        std::ptr::write_bytes(p.add(pre + l.size()), FILL, RED);
        if mode() != 0 {
            std::ptr::write_bytes(p.add(pre), FRESH.with(|d| d.get()), l.size());
        }
        p.add(pre)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some((o, c, k)) = slot_of(BASE.load(Ordering::Acquire), p as usize) {
            let a = slot_addr(BASE.load(Ordering::Acquire), o, c, k);
            let n = CLASSES[c].0 * PAGE;
            let before = (p as usize - a).min(RED);
            let after = (a + n - (p as usize + l.size())).min(RED);
            if !intact(p.sub(before), before) || !intact(p.add(l.size()), after) {
                DAMAGED.with(|d| d.set(d.get() + 1));
            }
            let q = &POOLS[o][c];
            locked(q, || {
                let n = q.free.load(Ordering::Relaxed);
                q.stack[n].store(k as u32, Ordering::Relaxed);
                q.free.store(n + 1, Ordering::Relaxed);
            });
            return;
        }
        let Some((w, pre)) = wide(l) else { return };
        if !intact(p.sub(RED), RED) || !intact(p.add(l.size()), RED) {
            DAMAGED.with(|d| d.set(d.get() + 1));
        }
        System.dealloc(p.sub(pre), w);
    }
}
