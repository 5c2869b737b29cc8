//! The simulated heap and entropy source. While a simulated run is active, every allocation of the
//! process comes from an arena at a fixed address whose placement and reuse policy is drawn from the
//! run's choices; freed and fresh memory is overwritten. std's hash keys come from `getrandom`, which
//! is interposed below and answers from the run's choices.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 3 << 30;
const SIDE: usize = 0x2100_0000_0000;
/// Under "late-reuse" nothing is reused before this much has been handed out.
const LATE: usize = 400 << 20;
const EDGE: usize = 16 << 10;
const CLASSES: usize = 40;
const SIDE_PER_CLASS: usize = 64 << 20;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static PRINT: AtomicU64 = AtomicU64::new(0);
static READY: AtomicBool = AtomicBool::new(false);
static LOW: AtomicUsize = AtomicUsize::new(0);
static HIGH: AtomicUsize = AtomicUsize::new(0);
static POLICY: AtomicUsize = AtomicUsize::new(0);
static FILL: AtomicUsize = AtomicUsize::new(0);
static RNG: AtomicU64 = AtomicU64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_CALLS: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static HEADS: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];
static TAILS: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

pub const POLICIES: [&str; 6] = ["up-lifo", "down-lifo", "up-fifo", "shuffled", "down-shuffled", "late-reuse"];

fn rnd() -> u64 {
    let mut s = crate::choice::SplitMix(RNG.load(Relaxed));
    let v = s.next();
    RNG.store(s.0, Relaxed);
    v
}

fn class_of(layout: &Layout) -> usize {
    let n = layout.size().max(layout.align()).max(16);
    n.next_power_of_two().trailing_zeros() as usize
}

/// Slots free for reuse are kept outside the arena, as a deque per size class.
unsafe fn side(class: usize, i: usize) -> *mut u32 {
    (SIDE as *mut u32).add(class * (SIDE_PER_CLASS / 4) + i % (SIDE_PER_CLASS / 4))
}

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    let class = class_of(&layout);
    let size = 1usize << class;
    ALLOCS.fetch_add(1, Relaxed);
    let live = LIVE.fetch_add(size, Relaxed) + size;
    if live > LIMIT.load(Relaxed) {
        crate::run::out_of_budget("memory");
    }
    let policy = POLICY.load(Relaxed);
    let (head, tail) = (HEADS[class].load(Relaxed), TAILS[class].load(Relaxed));
    let slot;
    let fresh = (LOW.load(Relaxed) - BASE) + (BASE + SIZE - HIGH.load(Relaxed));
    if tail > head && (policy != 5 || fresh > LATE) {
        let take_back = match policy {
            0 | 1 => true,
            2 => false,
            _ => {
                // swap a random one to the back
                let i = head + (rnd() as usize) % (tail - head);
                let (a, b) = (side(class, i), side(class, tail - 1));
                std::ptr::swap(a, b);
                true
            }
        };
        if take_back {
            slot = *side(class, tail - 1);
            TAILS[class].store(tail - 1, Relaxed);
        } else {
            slot = *side(class, head);
            HEADS[class].store(head + 1, Relaxed);
        }
    } else {
        let batch = if size <= 4096 && (policy == 3 || policy == 4) { 32 } else { 1 };
        let bytes = size * batch;
        let (low, high) = (LOW.load(Relaxed), HIGH.load(Relaxed));
        let down = matches!(policy, 1 | 4) || policy == 5 && rnd() & 1 == 0;
        let base = if down {
            let b = (high - bytes) & !(size - 1);
            HIGH.store(b, Relaxed);
            b
        } else {
            let b = (low + size - 1) & !(size - 1);
            LOW.store(b + bytes, Relaxed);
            b
        };
        if LOW.load(Relaxed) + 4096 >= HIGH.load(Relaxed) {
            crate::run::out_of_budget("memory");
        }
        for k in 1..batch {
            let t = TAILS[class].load(Relaxed);
            *side(class, t) = ((base + k * size - BASE) >> 4) as u32;
            TAILS[class].store(t + 1, Relaxed);
        }
        slot = ((base - BASE) >> 4) as u32;
        if batch > 1 {
            // the first one joins the shuffle too
            let t = TAILS[class].load(Relaxed);
            *side(class, t) = slot;
            TAILS[class].store(t + 1, Relaxed);
            LIVE.fetch_sub(size, Relaxed);
            ALLOCS.fetch_sub(1, Relaxed);
            return arena_alloc(layout);
        }
    }
    let p = (BASE + ((slot as usize) << 4)) as *mut u8;
    PRINT.store((PRINT.load(Relaxed) ^ slot as u64).wrapping_mul(0x100000001b3), Relaxed);
    overwrite(p, FILL.load(Relaxed) as u8, layout.size());
    p
}

/// All of a small block, the ends of a large one.
unsafe fn overwrite(p: *mut u8, fill: u8, size: usize) {
    if size <= 2 * EDGE {
        std::ptr::write_bytes(p, fill, size);
    } else {
        std::ptr::write_bytes(p, fill, EDGE);
        std::ptr::write_bytes(p.add(size - EDGE), fill, EDGE);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ACTIVE.load(Relaxed) {
            arena_alloc(layout)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ACTIVE.load(Relaxed) {
            let p = arena_alloc(layout);
            std::ptr::write_bytes(p, 0, layout.size());
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let a = p as usize;
        if !(BASE..BASE + SIZE).contains(&a) {
            return System.dealloc(p, layout);
        }
        let class = class_of(&layout);
        LIVE.fetch_sub(1 << class, Relaxed);
        overwrite(p, !FILL.load(Relaxed) as u8, layout.size());
        let (head, tail) = (HEADS[class].load(Relaxed), TAILS[class].load(Relaxed));
        if tail - head < SIDE_PER_CLASS / 4 - 1 {
            *side(class, tail) = ((a - BASE) >> 4) as u32;
            TAILS[class].store(tail + 1, Relaxed);
        }
    }
}

fn map_at(addr: usize, size: usize) {
    unsafe {
        let p = libc::mmap(addr as *mut _, size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != addr {
            eprintln!("sim: cannot map the simulated heap at {addr:#x}");
            libc::_exit(2);
        }
    }
}

/// Called once in the process that is going to simulate (after fork).
pub fn init() {
    if READY.swap(true, Relaxed) {
        return;
    }
    map_at(BASE, SIZE);
    map_at(SIDE, CLASSES * SIDE_PER_CLASS);
    LOW.store(BASE + 4096, Relaxed);
    HIGH.store(BASE + SIZE - 4096, Relaxed);
}

pub fn set_active(on: bool) {
    ACTIVE.store(on, Relaxed);
}

pub fn fingerprint() -> u64 {
    PRINT.load(Relaxed)
}

/// Bytes of the simulated heap in use, by size class.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

pub fn set_limit(bytes: usize) {
    LIMIT.store(bytes, Relaxed);
}

/// Choose the environment of the next thread: allocator policy and hash keys.
pub fn set_env(env: &Env) {
    POLICY.store(env.policy, Relaxed);
    FILL.store(env.fill as usize, Relaxed);
    RNG.store(env.heap_seed, Relaxed);
    ENTROPY.store(env.hash_seed, Relaxed);
}

#[derive(Clone, Debug)]
pub struct Env {
    pub policy: usize,
    pub fill: u8,
    pub heap_seed: u64,
    pub hash_seed: u64,
}

impl Env {
    pub fn plain() -> Env {
        Env { policy: 0, fill: 0xA5, heap_seed: 1, hash_seed: 1 }
    }
    pub fn draw(ch: &mut crate::choice::Ch) -> Env {
        let policy = ch.below(POLICIES.len());
        let fill = *ch.pick(&[0xA5u8, 0x00, 0xFF, 0x01]);
        let heap_seed = ch.choose(1 << 20) as u64;
        let hash_seed = ch.choose(1 << 30) as u64;
        Env { policy, fill, heap_seed, hash_seed }
    }
}

fn fill_entropy(buf: *mut u8, len: usize) -> isize {
    ENTROPY_CALLS.fetch_add(1, Relaxed);
    let mut s = crate::choice::SplitMix(ENTROPY.load(Relaxed));
    for i in 0..len {
        unsafe { *buf.add(i) = s.next() as u8 };
    }
    ENTROPY.store(s.0, Relaxed);
    len as isize
}

/// Interposes libc's: std takes the keys of its hash maps from here, once per thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    fill_entropy(buf as *mut u8, len)
}
