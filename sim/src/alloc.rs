//! The simulated allocator.
//!
//! Every block carries a header and can be fenced, poisoned, moved on every `realloc`,
//! quarantined after `dealloc` and refused. Errors are recorded (first one wins) and picked up
//! by the run; the allocator itself never panics and never allocates.
//!
//! A block is *tracked* if it was obtained while the thread was armed, that is, inside a call
//! into the library under test (see `armed`). The simulator's own memory is not tracked.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

thread_local! {
    static ARM: Cell<u32> = const { Cell::new(0) };
}

/// Tracking and fault configuration of the current run.
pub static TRACK: AtomicBool = AtomicBool::new(false);
static POISON: AtomicU64 = AtomicU64::new(0xa5);
static IN_PLACE: AtomicBool = AtomicBool::new(false);
static QUARANTINE: AtomicBool = AtomicBool::new(false);
/// The n-th tracked request fails (0: none).
static FAIL_AT: AtomicU64 = AtomicU64::new(0);
static REQUESTS: AtomicU64 = AtomicU64::new(0);
static RETURNED: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicBool = AtomicBool::new(false);
pub static ARRIVED: AtomicU64 = AtomicU64::new(0);
/// When everything has arrived.
pub static WHOLE: AtomicU64 = AtomicU64::new(u64::MAX);

static ERR: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];

pub const E_LAYOUT: u64 = 1;
pub const E_DOUBLE_FREE: u64 = 2;
pub const E_BAD_FREE: u64 = 3;
pub const E_FENCE_FRONT: u64 = 4;
pub const E_FENCE_BACK: u64 = 5;
pub const E_WRITE_AFTER_FREE: u64 = 6;
pub const E_BUDGET: u64 = 7;

fn record(code: u64, a: u64, b: u64, c: u64) {
    if ERR[0].compare_exchange(0, code, SeqCst, SeqCst).is_ok() {
        ERR[1].store(a, SeqCst);
        ERR[2].store(b, SeqCst);
        ERR[3].store(c, SeqCst);
    }
}

const HDR: usize = 96;
const FENCE: usize = 32;
const MAGIC_LIVE: u64 = 0x4c49_5645_b51f_0001;
const MAGIC_FREED: u64 = 0x4652_4545_b51f_0002;
const FRONT: u8 = 0xf1;
const BACK: u8 = 0xb2;
const FREED: u8 = 0xdd;

/// Values of `Hdr::tracked`: obtained by the library, the same but left over from an earlier
/// session.
const OURS: u64 = 1;
const KEPT: u64 = 2;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    off: usize,
    total: usize,
    /// Bytes available for the user without moving (fence excluded).
    room: usize,
    tracked: u64,
    prev: *mut Hdr,
    next: *mut Hdr,
    seq: u64,
    front: [u8; 16],
}

struct Spin(AtomicBool);
impl Spin {
    fn with<R>(&self, f: impl FnOnce() -> R) -> R {
        while self.0.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        let r = f();
        self.0.store(false, SeqCst);
        r
    }
}
static LOCK: Spin = Spin(AtomicBool::new(false));
static mut HEAD: *mut Hdr = std::ptr::null_mut();

const QLEN: usize = 128;
const QMAX: usize = 1 << 20;
static mut QUEUE: [*mut u8; QLEN] = [std::ptr::null_mut(); QLEN];
static mut QPOS: usize = 0;

pub struct SimAlloc;

unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HDR) as *mut Hdr
}

unsafe fn poison(p: *mut u8, from: usize, to: usize) {
    let s = POISON.load(Relaxed);
    let mut x = s;
    for i in from..to {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *p.add(i) = (x >> 56) as u8 | 1;
    }
}

unsafe fn put_back_fence(p: *mut u8, size: usize) {
    std::ptr::write_bytes(p.add(size), BACK, FENCE);
}

unsafe fn check_fences(h: *mut Hdr, p: *mut u8) {
    for i in 0..16 {
        if (*h).front[i] != FRONT {
            record(E_FENCE_FRONT, (*h).size as u64, i as u64, (*h).seq);
            break;
        }
    }
    for i in 0..FENCE {
        if *p.add((*h).size + i) != BACK {
            record(E_FENCE_BACK, (*h).size as u64, i as u64, (*h).seq);
            break;
        }
    }
}

unsafe fn link(h: *mut Hdr) {
    LOCK.with(|| {
        (*h).prev = std::ptr::null_mut();
        (*h).next = HEAD;
        if !HEAD.is_null() {
            (*HEAD).prev = h;
        }
        HEAD = h;
    });
}

unsafe fn unlink(h: *mut Hdr) {
    LOCK.with(|| {
        let (p, n) = ((*h).prev, (*h).next);
        if p.is_null() {
            HEAD = n;
        } else {
            (*p).next = n;
        }
        if !n.is_null() {
            (*n).prev = p;
        }
    });
}

fn account(add: u64, sub: u64) {
    let live = LIVE.load(SeqCst).wrapping_add(add).wrapping_sub(sub);
    LIVE.store(live, SeqCst);
    if live > PEAK.load(SeqCst) {
        PEAK.store(live, SeqCst);
    }
    if BUDGET.load(Relaxed) {
        let arrived = ARRIVED.load(SeqCst);
        // Values in memory may be much larger than the octets they are made of.
        let factor = if arrived < WHOLE.load(SeqCst) { 16 } else { 512 };
        if live as u128 > factor * arrived as u128 + (1 << 20) {
            record(E_BUDGET, live, arrived, add);
        }
    }
}

/// Largest block the simulated machine has.
const MACHINE: usize = 1 << 30;

unsafe fn raw_alloc(layout: Layout, tracked: bool) -> *mut u8 {
    let size = layout.size();
    if size > MACHINE {
        return std::ptr::null_mut();
    }
    let align = layout.align().max(16);
    let off = HDR.max(align);
    let slack = match tracked {
        true if IN_PLACE.load(Relaxed) => size / 2 + 64,
        // As with the system's allocator, large blocks can grow in place, or growing by small
        // steps would take forever.
        true if size >= 1 << 17 => size / 2,
        false if size >= 8192 => size / 2,
        _ => 0,
    };
    let total = off + size + slack + FENCE;
    let base = System.alloc(Layout::from_size_align_unchecked(total, align));
    if base.is_null() {
        return base;
    }
    let p = base.add(off);
    let h = hdr(p);
    *h = Hdr {
        magic: MAGIC_LIVE,
        size,
        align: layout.align(),
        off,
        total,
        room: size + slack,
        tracked: if tracked { OURS } else { 0 },
        prev: std::ptr::null_mut(),
        next: std::ptr::null_mut(),
        seq: REQUESTS.load(Relaxed),
        front: [FRONT; 16],
    };
    if tracked {
        poison(p, 0, size);
        put_back_fence(p, size);
        link(h);
    }
    p
}

unsafe fn raw_free(p: *mut u8) {
    let h = hdr(p);
    let base = p.sub((*h).off);
    let layout = Layout::from_size_align_unchecked((*h).total, (*h).align.max(16));
    System.dealloc(base, layout);
}

unsafe fn evict(p: *mut u8) {
    let h = hdr(p);
    for i in 0..(*h).size {
        if *p.add(i) != FREED {
            record(E_WRITE_AFTER_FREE, (*h).size as u64, i as u64, (*h).seq);
            break;
        }
    }
    raw_free(p);
}

/// Returns true if the request must fail.
fn request() -> bool {
    let n = REQUESTS.fetch_add(1, SeqCst) + 1;
    n == FAIL_AT.load(Relaxed)
}

pub fn armed() -> bool {
    ARM.try_with(|a| a.get() > 0).unwrap_or(false)
}

/// While it lives, the thread runs the allocator's code, not the library's.
struct Quiet(u32, u64);
impl Quiet {
    fn begin() -> Quiet {
        Quiet(ARM.try_with(|a| a.replace(0)).unwrap_or(0), crate::sched::pause())
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        let _ = ARM.try_with(|a| a.set(self.0));
        crate::sched::resume(self.1);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let tracked = TRACK.load(Relaxed) && armed();
        let _q = Quiet::begin();
        if tracked {
            crate::sched::yield_at_alloc();
            if request() {
                return std::ptr::null_mut();
            }
            account(layout.size() as u64, 0);
        }
        raw_alloc(layout, tracked)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _q = Quiet::begin();
        let h = hdr(p);
        match (*h).magic {
            MAGIC_LIVE => {}
            MAGIC_FREED => {
                record(E_DOUBLE_FREE, (*h).size as u64, layout.size() as u64, 0);
                return;
            }
            _ => {
                record(E_BAD_FREE, layout.size() as u64, 0, 0);
                return;
            }
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            record(E_LAYOUT, (*h).size as u64, layout.size() as u64, layout.align() as u64);
        }
        if (*h).tracked == OURS {
            check_fences(h, p);
            unlink(h);
            account(0, (*h).size as u64);
            (*h).magic = MAGIC_FREED;
            if QUARANTINE.load(Relaxed) && (*h).size <= QMAX {
                std::ptr::write_bytes(p, FREED, (*h).size);
                let old = LOCK.with(|| {
                    let i = QPOS % QLEN;
                    QPOS += 1;
                    std::mem::replace(&mut QUEUE[i], p)
                });
                if !old.is_null() {
                    evict(old);
                }
                return;
            }
        }
        if (*h).tracked == KEPT {
            RETURNED.fetch_add(1, SeqCst);
        }
        (*h).magic = MAGIC_FREED;
        raw_free(p);
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let h = hdr(p);
        if (*h).magic != MAGIC_LIVE {
            let code = if (*h).magic == MAGIC_FREED { E_DOUBLE_FREE } else { E_BAD_FREE };
            record(code, layout.size() as u64, new_size as u64, 1);
            return std::ptr::null_mut();
        }
        if (*h).size != layout.size() || (*h).align != layout.align() {
            record(E_LAYOUT, (*h).size as u64, layout.size() as u64, layout.align() as u64);
        }
        let tracked = TRACK.load(Relaxed) && armed();
        let _q = Quiet::begin();
        let old_size = (*h).size;
        if tracked {
            crate::sched::yield_at_alloc();
            if request() {
                return std::ptr::null_mut();
            }
            let old = if (*h).tracked == OURS { old_size } else { 0 };
            account(new_size as u64, old as u64);
        }
        if (*h).tracked == OURS {
            check_fences(h, p);
            if new_size <= (*h).room {
                if new_size > old_size {
                    poison(p, old_size, new_size);
                }
                (*h).size = new_size;
                put_back_fence(p, new_size);
                if !tracked {
                    account(new_size as u64, old_size as u64);
                }
                return p;
            }
        }
        if !tracked && (*h).tracked == 0 && new_size >= old_size && new_size <= (*h).room {
            (*h).size = new_size;
            return p;
        }
        let keep_tracked = tracked || (*h).tracked == OURS;
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        let q = raw_alloc(new_layout, keep_tracked);
        if q.is_null() {
            return q;
        }
        if !tracked && keep_tracked {
            account(new_size as u64, 0);
        }
        std::ptr::copy_nonoverlapping(p, q, old_size.min(new_size));
        // Release the old block without accounting twice.
        if (*h).tracked == OURS {
            if tracked {
                account(old_size as u64, 0);
            }
            let size = (*h).size;
            self.dealloc(p, Layout::from_size_align_unchecked(size, layout.align()));
        } else {
            if (*h).tracked == KEPT {
                RETURNED.fetch_add(1, SeqCst);
            }
            (*h).magic = MAGIC_FREED;
            raw_free(p);
        }
        q
    }
}

/// Runs `f` as library code: its memory is tracked, its panics are the library's.
pub fn arm<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            let _ = ARM.try_with(|a| a.set(self.0));
        }
    }
    let old = ARM.with(|a| a.replace(a.get() + 1));
    let _g = G(old);
    if old == 0 {
        crate::sched::mark();
    }
    let r = f();
    if old == 0 {
        crate::sched::unmark();
    }
    r
}

/// Runs `f` as simulator code, called back from the library.
pub fn disarm<R>(f: impl FnOnce() -> R) -> R {
    let _q = Quiet::begin();
    f()
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub poison: u64,
    pub in_place: bool,
    pub quarantine: bool,
    pub fail_at: u64,
    pub budget: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Self { poison: 0xa5, in_place: false, quarantine: true, fail_at: 0, budget: false }
    }
}

/// Starts tracking for a run.
pub fn start(cfg: Cfg) {
    POISON.store(cfg.poison, SeqCst);
    IN_PLACE.store(cfg.in_place, SeqCst);
    QUARANTINE.store(cfg.quarantine, SeqCst);
    FAIL_AT.store(cfg.fail_at, SeqCst);
    BUDGET.store(cfg.budget, SeqCst);
    ARRIVED.store(0, SeqCst);
    WHOLE.store(u64::MAX, SeqCst);
    REQUESTS.store(0, SeqCst);
    RETURNED.store(0, SeqCst);
    LIVE.store(0, SeqCst);
    PEAK.store(0, SeqCst);
    for e in &ERR {
        e.store(0, SeqCst);
    }
    TRACK.store(true, SeqCst);
}

/// Stops tracking. Returns the number of tracked blocks still alive and the size of one of them,
/// after checking the fences of all of them and flushing the quarantine.
pub fn stop() -> (u64, u64) {
    TRACK.store(false, SeqCst);
    let mut n = 0;
    let mut size = 0;
    unsafe {
        let mut h = HEAD;
        while !h.is_null() {
            let p = (h as *mut u8).add(HDR);
            check_fences(h, p);
            n += 1;
            size = (*h).size as u64;
            let next = (*h).next;
            // Forget it: it may still be released later, see `returned`.
            (*h).tracked = KEPT;
            h = next;
        }
        HEAD = std::ptr::null_mut();
        for i in 0..QLEN {
            let p = std::mem::replace(&mut QUEUE[i], std::ptr::null_mut());
            if !p.is_null() {
                evict(p);
            }
        }
        QPOS = 0;
    }
    (n, size)
}

/// Checks the fences of every live tracked block.
pub fn check_all() {
    unsafe {
        let mut h = HEAD;
        while !h.is_null() {
            check_fences(h, (h as *mut u8).add(HDR));
            h = (*h).next;
        }
    }
}

pub fn requests() -> u64 {
    REQUESTS.load(SeqCst)
}
/// Blocks left over from earlier sessions and released in this one.
pub fn returned() -> u64 {
    RETURNED.load(SeqCst)
}
pub fn peak() -> u64 {
    PEAK.load(SeqCst)
}
pub fn live() -> u64 {
    LIVE.load(SeqCst)
}

/// Takes the first recorded error.
pub fn take_error() -> Option<(u64, String)> {
    let code = ERR[0].swap(0, SeqCst);
    let (a, b, c) = (ERR[1].load(SeqCst), ERR[2].load(SeqCst), ERR[3].load(SeqCst));
    let msg = match code {
        0 => return None,
        E_LAYOUT => format!("block of {a} bytes released as {b} bytes, align {c}"),
        E_DOUBLE_FREE => format!("block of {a} bytes released or resized twice"),
        E_BAD_FREE => format!("release of {a} bytes that were never obtained"),
        E_FENCE_FRONT => format!("write before a block of {a} bytes"),
        E_FENCE_BACK => format!("write {b} bytes beyond the end of a block of {a} bytes"),
        E_WRITE_AFTER_FREE => format!("write at {b} into a released block of {a} bytes"),
        E_BUDGET => format!(
            "{a} bytes held while only {b} bytes had arrived (last request {c} bytes)"
        ),
        _ => format!("allocator error {code} {a} {b} {c}"),
    };
    Some((code, msg))
}
