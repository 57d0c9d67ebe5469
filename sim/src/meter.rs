//! The memory seam: every allocation of the process goes through here. Allocations made while a
//! region is active belong to that region and are accounted, poisoned and checked on release.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::*};

pub const REGIONS: usize = 32;
const HEAD: usize = 32;
const TAIL: usize = 8;
const MAGIC: u64 = 0x5EED_A110_C8ED_0001;
const FREED: u64 = 0x5EED_F8EE_D000_0002;
const CANARY: u64 = 0xC0FF_EE11_2233_4455;
const CAP: i64 = 512 << 20;

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicI64 = AtomicI64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const INF: AtomicI64 = AtomicI64::new(i64::MAX);
pub static LIVE: [AtomicI64; REGIONS] = [Z; REGIONS];
pub static PEAK: [AtomicI64; REGIONS] = [Z; REGIONS];
pub static COUNT: [AtomicI64; REGIONS] = [Z; REGIONS];
/// Allowance of a region in bytes, and the amount held when it was first exceeded.
pub static LIMIT: [AtomicI64; REGIONS] = [INF; REGIONS];
pub static OVER: [AtomicI64; REGIONS] = [Z; REGIONS];
/// First irregular release: 1 size or alignment differs, 2 released twice, 3 overrun, 4 unknown
/// block, 5 written after release.
pub static BAD: AtomicU64 = AtomicU64::new(0);
pub static CAPPED: AtomicBool = AtomicBool::new(false);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// All that was ever allocated in a region.
pub static VOLUME: [AtomicI64; REGIONS] = [Z; REGIONS];

thread_local! { static REGION: Cell<u32> = const { Cell::new(0) }; }

pub fn region() -> u32 { REGION.with(|r| r.get()) }
pub fn set(r: u32) { REGION.with(|c| c.set(r)) }

pub fn inside<T>(r: u32, f: impl FnOnce() -> T) -> T {
    struct Back(u32);
    impl Drop for Back { fn drop(&mut self) { set(self.0) } }
    let _b = Back(region());
    set(r);
    f()
}
pub fn outside<T>(f: impl FnOnce() -> T) -> T { inside(0, f) }

pub fn reset(r: u32) {
    let r = r as usize;
    PEAK[r].store(LIVE[r].load(Relaxed), Relaxed);
    LIMIT[r].store(i64::MAX, Relaxed);
    OVER[r].store(0, Relaxed);
}

pub struct Meter;

#[global_allocator]
static METER: Meter = Meter;

fn front(align: usize) -> usize { if align > HEAD { align } else { HEAD } }

fn bad(code: u64) { let _ = BAD.compare_exchange(0, code, SeqCst, SeqCst); }

// Recently released blocks, kept to notice late writes and repeated releases.
const KEEP: usize = 256;
static LOCK: AtomicBool = AtomicBool::new(false);
static mut KEPT: [(usize, usize, usize); KEEP] = [(0, 0, 0); KEEP];
static NEXT: AtomicUsize = AtomicUsize::new(0);

unsafe fn check_kept(e: (usize, usize, usize)) {
    let (base, size, align) = e;
    if base == 0 { return; }
    let p = (base + front(align)) as *const u8;
    for i in 0..size {
        if *p.add(i) != 0xDD { bad(5); break; }
    }
    System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(front(align) + size + TAIL, align.max(16)));
}

/// Looks at all blocks that are still kept.
pub fn sweep() {
    unsafe {
        while LOCK.swap(true, Acquire) { std::hint::spin_loop(); }
        for i in 0..KEEP {
            let p = std::ptr::addr_of_mut!(KEPT[i]);
            check_kept(*p);
            *p = (0, 0, 0);
        }
        LOCK.store(false, Release);
    }
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let r = REGION.with(|c| c.get()) as usize;
        if r > 0 {
            crate::sched::point();
            let live = LIVE[r].fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            COUNT[r].fetch_add(1, Relaxed);
            VOLUME[r].fetch_add(l.size() as i64, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
            PEAK[r].fetch_max(live, Relaxed);
            if live > LIMIT[r].load(Relaxed) && OVER[r].load(Relaxed) == 0 { OVER[r].store(live, Relaxed); }
            if live > CAP {
                CAPPED.store(true, Relaxed);
                crate::runner::note(2, 1);
                return std::ptr::null_mut();
            }
        }
        let off = front(l.align());
        let total = match l.size().checked_add(off + TAIL) { Some(t) => t, None => return std::ptr::null_mut() };
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() { return base; }
        let p = base.add(off);
        let h = p.sub(HEAD) as *mut u64;
        h.write(MAGIC);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(r as u64);
        (p.add(l.size()) as *mut u64).write_unaligned(CANARY);
        if r > 0 { std::ptr::write_bytes(p, 0xA5, l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HEAD) as *mut u64;
        match h.read() {
            MAGIC => (),
            FREED => { bad(2); return; }
            _ => { bad(4); return; }
        }
        let size = h.add(1).read() as usize;
        let align = h.add(2).read() as usize;
        let r = h.add(3).read() as usize;
        if size != l.size() || align != l.align() { bad(1); }
        if (p.add(size) as *const u64).read_unaligned() != CANARY { bad(3); }
        h.write(FREED);
        let base = p.sub(front(align));
        if r > 0 {
            LIVE[r].fetch_sub(size as i64, Relaxed);
            COUNT[r].fetch_sub(1, Relaxed);
            std::ptr::write_bytes(p, 0xDD, size);
            if size <= 1024 {
                while LOCK.swap(true, Acquire) { std::hint::spin_loop(); }
                let i = NEXT.fetch_add(1, Relaxed) % KEEP;
                let slot = std::ptr::addr_of_mut!(KEPT[i]);
                let old = *slot;
                *slot = (base as usize, size, align);
                check_kept(old);
                LOCK.store(false, Release);
                return;
            }
        }
        System.dealloc(base, Layout::from_size_align_unchecked(front(align) + size + TAIL, align.max(16)));
    }
    // every reallocation moves, and old and new block exist at the same time
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}

pub fn bad_text() -> Option<&'static str> {
    match BAD.load(Relaxed) {
        0 => None,
        1 => Some("a block was released with another size or alignment than it was allocated with"),
        2 => Some("a block was released twice"),
        3 => Some("memory behind a block was overwritten"),
        4 => Some("something that is not a block was released"),
        _ => Some("a block was written to after its release"),
    }
}
