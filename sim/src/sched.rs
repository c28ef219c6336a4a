//! The task scheduler: real threads, one of them running at any time.
//!
//! A running task gives up the baton only at a yield point (a call into the simulated
//! environment, or a memory request), and only when the plan says so. Besides, a task can be
//! made to give it up between any two instructions of the code under test: from a planned step
//! on it runs with the processor's single-step flag set, and the trap handler counts the
//! instructions down (see `Pre`).

use crate::alloc::disarm;
use crate::rng::{mix, Rng};
use crate::world::{self, Ev};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(0) };
}

/// Task number of this thread, 0 outside of `run`.
pub fn current() -> usize {
    TASK.try_with(|t| t.get()).unwrap_or(0)
}

#[derive(Clone, Debug)]
pub enum Plan {
    /// Switch at the steps listed (sorted), to the task `choice` selects.
    At(Vec<(u64, u64)>),
    /// Switch at every step.
    Each,
    /// Switch at about one of `n` steps, decided by the seed.
    Random { seed: u64, n: u64 },
}

impl Plan {
    pub fn draw() -> Plan {
        match world::weighted(&[5, 2, 4]) {
            0 => {
                let n = world::usz(7);
                let span = world::pick(&[20, 100, 500]);
                let mut v: Vec<(u64, u64)> =
                    (0..n).map(|_| (world::below(span), world::below(8))).collect();
                v.sort();
                Plan::At(v)
            }
            1 => Plan::Each,
            _ => Plan::Random { seed: world::seed64(), n: world::pick(&[2, 3, 8, 30]) },
        }
    }
}

/// A planned switch between two instructions: `after` instructions of library code behind the
/// `step`-th entry into library code or yield point of the task, or just before the `after`-th
/// access to static data behind it.
#[derive(Clone, Copy, Debug)]
pub struct Pre {
    pub task: usize,
    pub step: u64,
    pub after: u64,
    pub access: bool,
    pub by: u64,
}

/// So many instructions are searched for accesses to static data.
const SEARCH: u64 = 8000;

impl Pre {
    pub fn draw(tasks: usize) -> Pre {
        let access = world::chance(1, 2);
        let bits = world::below(if access { 6 } else { 12 });
        Pre {
            task: world::usz(tasks),
            step: 1 + world::below(world::pick(&[6, 2, 20, 60])),
            after: 1 + world::below(1 << bits),
            access,
            by: world::below(8),
        }
    }
}

thread_local! {
    static PRE: RefCell<Vec<Pre>> = const { RefCell::new(Vec::new()) };
    static PRE_ON: Cell<bool> = const { Cell::new(false) };
    /// Entries into library code and yield points so far.
    static ENTRIES: Cell<u64> = const { Cell::new(0) };
    /// Instructions to go before the switch (0: not counting), and where to.
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static TO: Cell<u64> = const { Cell::new(0) };
    /// Accesses to static data to go before the switch (0: instructions count).
    static ACCESSES: Cell<u64> = const { Cell::new(0) };
    /// What is left of such a search outside of library code.
    static KEPT: Cell<u64> = const { Cell::new(0) };
}

/// Library code is entered, or goes on after a yield point.
#[inline]
pub fn mark() {
    if PRE_ON.try_with(|p| p.get()).unwrap_or(false) {
        mark_slow();
    }
}

fn mark_slow() {
    let n = ENTRIES.with(|e| {
        e.set(e.get() + 1);
        e.get()
    });
    if LEFT.with(|l| l.get()) > 0 {
        return;
    }
    let kept = KEPT.with(|k| k.replace(0));
    if kept > 0 {
        LEFT.with(|l| l.set(kept));
        single_step();
        return;
    }
    if let Some(p) = PRE.with(|p| p.borrow().iter().find(|p| p.step == n).copied()) {
        TO.with(|t| t.set(p.by));
        ACCESSES.with(|a| a.set(if p.access { p.after } else { 0 }));
        LEFT.with(|l| l.set(if p.access { SEARCH } else { p.after }));
        single_step();
    }
}

/// Library code is left: a switch not reached by now does not take place, but a search for
/// accesses to static data goes on when the library is entered again.
#[inline]
pub fn unmark() {
    if PRE_ON.try_with(|p| p.get()).unwrap_or(false) {
        let left = LEFT.with(|l| l.replace(0));
        if ACCESSES.with(|a| a.get()) > 0 {
            KEPT.with(|k| k.set(left));
        }
    }
}

/// Simulator code starts: it runs at full speed. Returns what `resume` needs.
#[inline]
pub fn pause() -> u64 {
    if PRE_ON.try_with(|p| p.get()).unwrap_or(false) {
        LEFT.with(|l| l.replace(0))
    } else {
        0
    }
}

/// Library code goes on.
#[inline]
pub fn resume(left: u64) {
    if left > 0 {
        LEFT.with(|l| l.set(left));
        single_step();
    }
}

#[cfg(target_arch = "x86_64")]
fn single_step() {
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn single_step() {}

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let left = LEFT.with(|l| l.get());
    let flags = unsafe {
        let c = &mut *(ctx as *mut libc::ucontext_t);
        &mut c.uc_mcontext.gregs[libc::REG_EFL as usize]
    };
    if left == 0 {
        *flags &= !0x100;
        return;
    }
    if !crate::alloc::armed() || std::thread::panicking() || !unsafe { crate::x86::may_switch(ctx) } {
        return;
    }
    LEFT.with(|l| l.set(left - 1));
    let accesses = ACCESSES.with(|a| a.get());
    let now = match accesses {
        0 => left == 1,
        n if unsafe { crate::x86::touches_statics(ctx) } => {
            ACCESSES.with(|a| a.set(n - 1));
            n == 1
        }
        _ => false,
    };
    if now {
        LEFT.with(|l| l.set(0));
    }
    if now || left == 1 {
        *flags &= !0x100;
    }
    if now {
        disarm(|| preempt(accesses > 0));
    }
}

fn preempt(access: bool) {
    let me = current() - 1;
    let mut g = lock();
    if !g.active || g.deadlock || g.cur != me {
        return;
    }
    g.steps += 1;
    let by = TO.with(|t| t.get());
    if let Some(next) = g.choose(me, by) {
        world::ev(if access { Ev::PreemptAccess } else { Ev::Preempt }, me as u64 + 1, next as u64 + 1);
        g.pass(next);
        tell(next);
        // Not the place to be ended at: that happens at the next yield point.
        drop(wait(g, me));
    }
}

#[cfg(target_arch = "x86_64")]
fn catch_traps() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}
#[cfg(not(target_arch = "x86_64"))]
fn catch_traps() {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// Waits for a condition, see `block_until`.
    Waiting,
    /// Stands still in its stream until all others are done.
    Stalled,
    /// Found blocked outside of the simulator.
    Stuck,
    /// The same, without sleeping.
    Spins,
    Done,
}

struct S {
    active: bool,
    cur: usize,
    st: Vec<St>,
    steps: u64,
    plan: Plan,
    rng: Rng,
    next_at: usize,
    deadlock: bool,
    stall_failed: Option<String>,
    max_steps: u64,
    overrun: bool,
    tids: Vec<i32>,
    /// Has noticed that it is its turn.
    awake: Vec<bool>,
}

static M: Mutex<S> = Mutex::new(S {
    active: false,
    cur: 0,
    st: Vec::new(),
    steps: 0,
    plan: Plan::Each,
    rng: Rng::ZERO,
    next_at: 0,
    deadlock: false,
    stall_failed: None,
    max_steps: 0,
    overrun: false,
    tids: Vec::new(),
    awake: Vec::new(),
});
/// Each task waits at its own.
static CVS: [Condvar; 256] = [const { Condvar::new() }; 256];
/// Where `watch` waits.
static WATCH: Condvar = Condvar::new();

fn tell(task: usize) {
    CVS[task % 256].notify_all();
}
fn tell_all() {
    for c in &CVS {
        c.notify_all();
    }
    WATCH.notify_all();
}

impl Rng {
    const ZERO: Rng = Rng::fixed();
}

/// Raised in a task that can never go on.
pub struct SimStop;

fn lock() -> std::sync::MutexGuard<'static, S> {
    M.lock().unwrap_or_else(|e| e.into_inner())
}

/// The task whose turn it is.
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Lets the tasks found blocked that may go on come to their next step, so that what follows
/// does not depend on how quick they are.
fn settle(mut g: std::sync::MutexGuard<'static, S>) -> std::sync::MutexGuard<'static, S> {
    let mut quiet = 0;
    for _ in 0..100_000 {
        let stuck: Vec<i32> = (0..g.st.len()).filter(|i| g.st[*i] == St::Stuck).map(|i| g.tids[i]).collect();
        // Looked at without the lock, or they could be waiting for just that.
        drop(g);
        std::thread::yield_now();
        quiet = if stuck.iter().all(|t| sleeping(*t)) { quiet + 1 } else { 0 };
        g = lock();
        if quiet == 3 {
            break;
        }
    }
    g
}

/// Makes a task that was found blocked and goes on wait for its turn.
pub fn arrive() {
    let t = current();
    if t > 0 && CUR.load(SeqCst) != t - 1 {
        disarm(|| {
            let mut g = lock();
            if g.active && !g.deadlock && g.cur != t - 1 {
                g.st[t - 1] = St::Ready;
                if g.cur == usize::MAX {
                    g.pass(t - 1);
                }
                drop(wait(g, t - 1));
            }
        });
    }
}

impl S {
    /// Nothing goes on: all tasks are to leave.
    fn stop(&mut self) {
        self.deadlock = true;
        world::close();
    }

    /// Gives the baton to another task.
    fn pass(&mut self, to: usize) {
        self.cur = to;
        CUR.store(to, SeqCst);
    }

    fn blocked(&self) -> bool {
        self.st.contains(&St::Stuck) || self.st.contains(&St::Spins)
    }

    /// The tasks that may run now.
    fn ready(&self) -> Vec<usize> {
        let r: Vec<usize> = (0..self.st.len()).filter(|i| self.st[*i] == St::Ready).collect();
        if !r.is_empty() || self.blocked() {
            return r;
        }
        // Nobody else can go on: a stalled stream goes on.
        (0..self.st.len()).filter(|i| self.st[*i] == St::Stalled).collect()
    }

    fn choose(&mut self, me: usize, by: u64) -> Option<usize> {
        let r: Vec<usize> = self.ready().into_iter().filter(|i| *i != me).collect();
        if r.is_empty() {
            None
        } else {
            Some(r[(by % r.len() as u64) as usize])
        }
    }
}

fn wait_turn(g: std::sync::MutexGuard<'static, S>, me: usize) {
    let mut g = wait(g, me);
    if g.deadlock {
        drop(g);
        std::panic::panic_any(SimStop);
    }
    if g.st[me] != St::Done {
        g.st[me] = St::Ready;
    }
}

fn wait(mut g: std::sync::MutexGuard<'static, S>, me: usize) -> std::sync::MutexGuard<'static, S> {
    g.awake[me] = false;
    while g.cur != me && !g.deadlock {
        g = CVS[me % 256].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    g.awake[me] = true;
    g
}

/// A point where another task may take over.
pub fn yield_point() {
    let t = current();
    if t == 0 || std::thread::panicking() {
        return;
    }
    disarm(|| step(t - 1));
    mark();
}

thread_local! {
    static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
}

/// Same, from inside the allocator.
pub fn yield_at_alloc() {
    let t = current();
    if t == 0 || std::thread::panicking() {
        return;
    }
    if IN_ALLOC.with(|c| c.replace(true)) {
        return;
    }
    disarm(|| step(t - 1));
    IN_ALLOC.with(|c| c.set(false));
    mark();
}

fn step(me: usize) {
    let mut g = lock();
    if !g.active {
        return;
    }
    g.steps += 1;
    if g.steps > g.max_steps {
        g.overrun = true;
        g.stop();
        tell_all();
    }
    if g.deadlock || g.cur != me {
        // Was found blocked, and goes on (see `run`).
        g.st[me] = St::Ready;
        if g.cur == usize::MAX {
            g.pass(me);
        }
        wait_turn(g, me);
        return;
    }
    if g.st.contains(&St::Stuck) {
        g = settle(g);
    }
    let n = g.steps;
    let by = match g.plan.clone() {
        Plan::Each => Some(n),
        Plan::Random { n, .. } => {
            let v = g.rng.next();
            (v % n == 0).then_some(v >> 32)
        }
        Plan::At(v) => {
            let mut by = None;
            while g.next_at < v.len() && v[g.next_at].0 <= n {
                by = Some(v[g.next_at].1);
                g.next_at += 1;
            }
            by
        }
    };
    if let Some(by) = by {
        if let Some(next) = g.choose(me, by) {
            // Noted before anyone can go on.
            world::ev(Ev::Switch, me as u64 + 1, next as u64 + 1);
            g.pass(next);
            tell(next);
            wait_turn(g, me);
        }
    }
}

fn leave(me: usize, st: St) {
    let mut g = lock();
    g.st[me] = st;
    if g.cur != me && g.cur != usize::MAX {
        // Was found blocked, and another task runs.
        return;
    }
    g.pass(me);
    if g.st.contains(&St::Stuck) {
        g = settle(g);
    }
    let by = g.rng.next() >> 8;
    match g.choose(me, by) {
        Some(next) => {
            world::ev(Ev::Switch, me as u64 + 1, next as u64 + 1);
            g.pass(next);
            tell(next);
        }
        None => {
            if st != St::Done && g.ready().contains(&me) {
                g.pass(me);
                return;
            }
            // With a blocked task around, `run` decides.
            if !g.blocked() && !g.st.iter().all(|s| *s == St::Done) {
                g.stop();
                tell_all();
            }
            g.pass(usize::MAX);
        }
    }
    if st == St::Done {
        WATCH.notify_all();
    }
}

/// Blocks the task until `cond` holds. Other tasks are told by `wake`.
pub fn block_until(mut cond: impl FnMut() -> bool) {
    let t = current();
    assert!(t > 0);
    disarm(|| {
        while !cond() {
            leave(t - 1, St::Waiting);
            wait_turn(lock(), t - 1);
        }
    })
}

/// Makes waiting tasks look at their condition again.
pub fn wake() {
    if current() == 0 {
        return;
    }
    let mut g = lock();
    for s in g.st.iter_mut() {
        if *s == St::Waiting {
            *s = St::Ready;
        }
    }
}

/// Holds the task back until every other task is done.
pub fn stall() {
    let t = current();
    if t == 0 {
        return;
    }
    disarm(|| {
        world::ev(Ev::Stall, t as u64, 0);
        leave(t - 1, St::Stalled);
        wait_turn(lock(), t - 1);
    })
}

pub struct Report {
    pub steps: u64,
    pub deadlock: bool,
    pub overrun: bool,
    /// Set if the other tasks could not finish while one stood still.
    pub blocked: Option<String>,
}

type Job<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Runs the jobs as tasks 1.. until all are done.
pub fn run<'a>(jobs: Vec<Job<'a>>, plan: Plan, pre: &[Pre], max_steps: u64) -> Report {
    let n = jobs.len();
    if !pre.is_empty() {
        catch_traps();
    }
    {
        let seed = match &plan {
            Plan::Random { seed, .. } => *seed,
            _ => 7,
        };
        let mut g = lock();
        *g = S {
            active: true,
            cur: usize::MAX,
            st: vec![St::Ready; n],
            steps: 0,
            plan,
            rng: Rng::new(mix(seed, 99)),
            next_at: 0,
            deadlock: false,
            stall_failed: None,
            max_steps,
            overrun: false,
            tids: vec![0; n],
            awake: vec![false; n],
        };
    }
    std::thread::scope(|scope| {
        for (i, job) in jobs.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(scope, move || {
                    TASK.with(|t| t.set(i + 1));
                    let mine: Vec<Pre> = pre.iter().filter(|p| p.task == i).copied().collect();
                    PRE_ON.with(|p| p.set(!mine.is_empty()));
                    PRE.with(|p| *p.borrow_mut() = mine);
                    lock().tids[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                    let ok = catch_unwind(AssertUnwindSafe(|| wait_turn(lock(), i))).is_ok();
                    if ok {
                        let _ = catch_unwind(AssertUnwindSafe(job));
                    }
                    PRE_ON.with(|p| p.set(false));
                    LEFT.with(|l| l.set(0));
                    leave(i, St::Done);
                    TASK.with(|t| t.set(0));
                })
                .expect("spawn");
        }
        watch(n);
    });
    let mut g = lock();
    g.active = false;
    world::count(Ev::Steps, g.steps);
    Report {
        steps: g.steps,
        deadlock: g.deadlock && !g.overrun,
        overrun: g.overrun,
        blocked: g.stall_failed.take(),
    }
}

/// Tells if the thread sleeps in the kernel, that is, waits for something.
fn sleeping(tid: i32) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(") ").next().is_some_and(|r| r.starts_with('S'))
}

/// Exit status of a run in which threads wait for each other forever.
pub const DEADLOCK: i32 = 77;

/// Starts the tasks, then watches for one that blocks outside of the simulator: it has the baton,
/// takes no steps and sleeps. (Slow tasks do not sleep.) Then another one has to go first.
fn watch(n: usize) {
    const TICK: Duration = Duration::from_millis(5);
    const ASIDE: u32 = 10;
    const SURE: u32 = 200;
    /// A task that goes on for that long without a step may be spinning.
    const BUSY: u32 = 600;
    let mut g = lock();
    g.pass(0);
    tell(0);
    let mut last = (0u64, 0usize);
    let mut asleep = 0;
    let mut busy = 0;
    while !g.st.iter().all(|s| *s == St::Done) {
        g = WATCH.wait_timeout(g, TICK).unwrap_or_else(|e| e.into_inner()).0;
        let now = (g.steps, g.cur);
        if g.deadlock {
            // Those that can are leaving.
            let mut rest = (0..n).filter(|i| g.st[*i] != St::Done);
            if now == last && rest.all(|i| sleeping(g.tids[i])) {
                asleep += 1;
                if asleep > SURE {
                    unsafe { libc::_exit(DEADLOCK) }
                }
            } else {
                last = now;
                asleep = 0;
            }
            continue;
        }
        if g.cur < n && !g.awake[g.cur] {
            tell(g.cur);
            asleep = 0;
            continue;
        }
        let who: Vec<usize> = match g.cur {
            usize::MAX => (0..n).filter(|i| matches!(g.st[*i], St::Stuck | St::Spins)).collect(),
            c => vec![c],
        };
        if now != last || who.is_empty() || !who.iter().all(|i| sleeping(g.tids[*i])) {
            busy = if now == last { busy + 1 } else { 0 };
            last = now;
            asleep = 0;
            if busy > BUSY && g.cur < n {
                if let Some(i) = (0..n).find(|i| *i != g.cur && g.st[*i] == St::Ready) {
                    let c = g.cur;
                    g.st[c] = St::Spins;
                    g.pass(i);
                    busy = 0;
                    tell_all();
                }
            }
            continue;
        }
        asleep += 1;
        // Where one is blocked others will be.
        let aside = if g.blocked() { ASIDE / 3 } else { ASIDE };
        if asleep == aside && g.cur < n {
            let c = g.cur;
            g.st[c] = St::Stuck;
            let to = (0..n).find(|i| g.st[*i] == St::Ready).unwrap_or(usize::MAX);
            g.pass(to);
            last = (g.steps, g.cur);
            if g.cur != usize::MAX {
                asleep = 0;
            }
            tell_all();
        } else if asleep > SURE && g.cur == usize::MAX {
            // All that is left waits for the one that stands still.
            if let Some(i) = (0..n).find(|i| g.st[*i] == St::Stalled) {
                g.stall_failed =
                    Some(format!("task {} is blocked by task {} standing still", who[0] + 1, i + 1));
            }
            g.stop();
            asleep = 0;
            tell_all();
        }
    }
}
