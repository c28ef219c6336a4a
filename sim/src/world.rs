//! The world of one run: the decision tape, the event log and the counters.
//!
//! Every decision of a run is drawn with `below`, either from the seeded generator (recording)
//! or from a stored tape (replaying). 0 always stands for the plainest choice (no fault, smallest
//! size), so a tape can be shrunk by deleting and lowering values.

use crate::alloc::disarm;
use crate::rng::{mix, Rng};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Viol {
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> Res<T> {
    Err(Viol { class: class.into(), msg })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return $crate::world::viol($class, format!($($arg)*))
    };
}

macro_rules! counters {
    ($($name:ident = $label:expr,)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Ev { $($name,)* }
        pub const EV_NAMES: &[&str] = &[$($label,)*];
    };
}

counters! {
    Read = "read calls served",
    ReadSplit = "fault: read returned fewer bytes than asked for",
    ReadIntr = "fault: read interrupted",
    ReadErr = "fault: read failed",
    ReadEof = "fault: stream ended early",
    Write = "write calls served",
    WriteSplit = "fault: write accepted fewer bytes than offered",
    WriteIntr = "fault: write interrupted",
    WriteErr = "fault: write failed",
    WriteZero = "fault: write accepted zero bytes",
    Flush = "flush calls served",
    FlushErr = "fault: flush failed",
    Arrival = "arrivals into a receive buffer",
    Op = "operations of the code under test",
    Crash = "fault: crash",
    Torn = "fault: torn write at a crash",
    ZeroTail = "fault: zero-filled tail after a crash",
    DiskFull = "fault: disk full",
    Corrupt = "fault: bytes corrupted in transit",
    LinkCut = "fault: link cut",
    Announce = "fault: length announced but not delivered",
    CallerPanic = "fault: caller code panicked",
    CallerErr = "fault: caller conversion failed",
    AllocFail = "fault: memory request refused",
    AllocMove = "runs with every block moved on resize",
    AllocStay = "runs with blocks resized in place",
    Switch = "task switches",
    Preempt = "task switches between two instructions of library code",
    PreemptAccess = "task switches at an access of library code to static data",
    Stall = "fault: task stalled in its stream",
    Nested = "operations nested inside caller code",
    Impure = "fault: conversion returned something else when asked again",
    SourceChange = "fault: iterator source changed during the call",
    Lie = "fault: caller claims more than is true",
    History = "operations run before the measured one",
    HashSeed = "hash seeds drawn",
    Turn = "request/response turns",
    Steps = "scheduler steps",
    PeerIndef = "indefinite lengths chosen by the peer",
    Edit = "edits of live objects",
    Look = "looks at pieces of the source",
}

pub const NEV: usize = 64;

pub struct World {
    rng: Option<Rng>,
    pub tape: Vec<u64>,
    pos: usize,
    /// Digest of the whole event log.
    pub digest: u64,
    /// Digest of the schedule alone: kinds, tasks and size classes.
    pub sig: u64,
    pub ticks: u64,
    /// Simulated microseconds.
    pub now: u64,
    pub perturbed: bool,
    /// Where the history is written to, and the lines written so far.
    trace: Option<(std::fs::File, usize)>,
    /// Nothing more is recorded.
    pub closed: bool,
    pub counts: [u64; NEV],
    mirror: Mirror,
    mirror_cap: usize,
}

struct Mirror(*mut u64, *const AtomicU64, *const AtomicU64);
unsafe impl Send for Mirror {}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    disarm(|| {
        let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
        f(g.as_mut().expect("no world"))
    })
}

pub fn begin_seed(seed: u64, trace: Option<&str>) {
    begin(Some(Rng::new(seed)), Vec::new(), trace)
}

pub fn begin_tape(tape: Vec<u64>, trace: Option<&str>) {
    begin(None, tape, trace)
}

fn begin(rng: Option<Rng>, tape: Vec<u64>, trace: Option<&str>) {
    let w = World {
        rng,
        tape,
        pos: 0,
        digest: 1,
        sig: 1,
        ticks: 0,
        now: 0,
        perturbed: false,
        trace: trace.and_then(|f| std::fs::File::create(f).ok()).map(|f| (f, 0)),
        closed: false,
        counts: [0; NEV],
        mirror: Mirror(std::ptr::null_mut(), std::ptr::null(), std::ptr::null()),
        mirror_cap: 0,
    };
    *WORLD.lock().unwrap_or_else(|e| e.into_inner()) = Some(w);
}

impl World {
    /// Folds `v` into the digest, which the supervisor sees even if this process dies.
    fn fold(&mut self, v: u64) {
        self.digest = mix(self.digest, v);
        if let Some(d) = unsafe { self.mirror.2.as_ref() } {
            d.store(self.digest, Relaxed);
        }
    }

    /// Adds a line to the history, at once for the same reason.
    fn line(&mut self, f: impl FnOnce(&World) -> String) {
        if self.trace.as_ref().is_some_and(|t| t.1 < 20_000) {
            let l = f(self) + "\n";
            let t = self.trace.as_mut().expect("trace");
            let _ = t.0.write_all(l.as_bytes());
            t.1 += 1;
        }
    }
}

/// Copies the decisions and the digest to memory shared with the supervisor.
pub fn mirror(to: *mut u64, cap: usize, len: &AtomicU64, digest: &AtomicU64) {
    with(|w| {
        w.mirror = Mirror(to, len, digest);
        w.mirror_cap = cap;
    })
}

pub fn end() -> World {
    WORLD.lock().unwrap_or_else(|e| e.into_inner()).take().expect("no world")
}

thread_local! {
    static LOCAL: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) };
}

/// Runs `f` with its decisions drawn from a generator of its own, started by `seed`. For tasks,
/// whose decisions must not depend on the schedule.
pub fn local<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    struct G(Option<Rng>);
    impl Drop for G {
        fn drop(&mut self) {
            LOCAL.with(|l| *l.borrow_mut() = self.0.take());
        }
    }
    let _g = G(LOCAL.with(|l| l.borrow_mut().replace(Rng::new(seed))));
    f()
}

/// Draws a number below `n`.
pub fn below(n: u64) -> u64 {
    if let Some(v) = LOCAL.with(|l| l.borrow_mut().as_mut().map(|r| if n <= 1 { 0 } else { r.below(n) })) {
        return v;
    }
    with(|w| {
        if n <= 1 {
            return 0;
        }
        if w.pos == w.tape.len() {
            let v = w.rng.as_mut().map_or(0, |rng| rng.below(n));
            w.tape.push(v);
        }
        let v = w.tape[w.pos] % n;
        w.tape[w.pos] = v;
        if w.pos < w.mirror_cap {
            // Visible to the supervisor even if this process dies.
            unsafe {
                *w.mirror.0.add(w.pos) = v;
                (*w.mirror.1).fetch_max(w.pos as u64 + 1, Relaxed);
            }
        }
        w.pos += 1;
        w.fold(v);
        v
    })
}

/// Number of decisions taken so far (replayed tapes may be longer than what was used).
pub fn used() -> usize {
    with(|w| w.pos)
}

/// Goes back to an earlier decision: what follows draws the same decisions again.
pub fn rewind(pos: usize) {
    with(|w| w.pos = pos)
}

pub fn usz(n: usize) -> usize {
    below(n as u64) as usize
}

/// A number in `lo..=hi`.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + usz(hi - lo + 1)
}

/// True in `k` of `n` cases.
pub fn chance(k: u64, n: u64) -> bool {
    below(n) >= n - k
}

pub fn pick<T: Copy>(items: &[T]) -> T {
    items[usz(items.len())]
}

/// Picks an index by weight.
pub fn weighted(weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    let mut v = below(total);
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= *w;
    }
    unreachable!()
}

pub fn seed64() -> u64 {
    below(1 << 32)
}

/// A generator whose stream is decided by a single draw.
pub fn sub_rng() -> Rng {
    Rng::new(seed64().wrapping_add(0x51ed_270b))
}

fn bucket(v: u64) -> u64 {
    64 - v.leading_zeros() as u64
}

/// Records an event.
pub fn ev(kind: Ev, a: u64, b: u64) {
    crate::sched::arrive();
    with(|w| {
        if w.closed {
            return;
        }
        let task = crate::sched::current() as u64;
        w.ticks += 1;
        w.now += 1 + (a & 0xff);
        w.counts[kind as usize] += 1;
        w.fold(kind as u64 + 1000 * (task + 1));
        w.fold(a ^ b.rotate_left(32));
        w.sig = mix(w.sig, (kind as u64) << 32 | task << 24 | bucket(a) << 8 | bucket(b));
        if EV_NAMES[kind as usize].starts_with("fault") || matches!(kind, Ev::Switch | Ev::Preempt | Ev::PreemptAccess | Ev::Arrival | Ev::Edit)
        {
            w.perturbed = true;
        }
        w.line(|w| {
            let who = if task == 0 { String::new() } else { format!("task {} ", task) };
            format!("{:>8} us {}{:?} {} {}", w.now, who, kind, a, b)
        });
    })
}

/// The history ends here: what follows is clearing up.
pub fn close() {
    with(|w| w.closed = true)
}

/// Adds to the counter of an event without logging it.
pub fn count(kind: Ev, n: u64) {
    with(|w| w.counts[kind as usize] += n)
}

/// Folds observed data into the digest.
pub fn digest(v: u64) {
    with(|w| {
        if !w.closed {
            w.fold(v)
        }
    })
}

/// Lets simulated time pass.
pub fn sleep(us: u64) {
    with(|w| w.now += us)
}

pub fn tracing() -> bool {
    with(|w| w.trace.is_some())
}

pub fn note(f: impl FnOnce() -> String) {
    with(|w| {
        if !w.closed {
            w.line(|_| f());
        }
    })
}

/// The hash seed of the current run.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

pub fn set_hash_seed(v: u64) {
    HASH_SEED.store(v, Relaxed);
}

/// Stands in for the system's source of randomness, which `std` uses for hash keys.
///
/// # Safety
///
/// As for getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let task = crate::sched::current() as u64;
    let mut rng = Rng::new(mix(HASH_SEED.load(Relaxed), task));
    let s = std::slice::from_raw_parts_mut(buf, len);
    rng.fill(s);
    len as isize
}
