//! Execution of one run: world, panic classification, outcome.

use crate::alloc;
use crate::cb;
use crate::io::{SimDead, SimLoop, SimPanic};
use crate::sched::SimStop;
use crate::world::{self, Ev, Res, Viol, World};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

/// Remembers where a panic came from.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let lib = alloc::armed();
        alloc::disarm(|| {
            let p = info.payload();
            let msg = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                return;
            };
            let at = info.location().map(|l| {
                // The location is information for the reader only.
                let f = l.file().rsplit('/').next().unwrap_or("");
                format!(" ({}:{})", f, l.line())
            });
            LAST.with(|l| *l.borrow_mut() = Some((lib, msg + &at.unwrap_or_default())));
        })
    }));
}

pub enum Caught {
    /// Raised on purpose by simulated caller code.
    Caller,
    /// A violation: the library panicked, loops or waits.
    Viol(Viol),
    /// The task was ended by the scheduler.
    Stop,
    /// The simulator itself failed.
    Harness(String),
}

pub fn classify(p: Box<dyn Any + Send>) -> Caught {
    if p.is::<SimPanic>() {
        return Caught::Caller;
    }
    if p.is::<SimStop>() {
        return Caught::Stop;
    }
    if p.is::<SimLoop>() {
        return Caught::Viol(Viol {
            class: "endless".into(),
            msg: "the stream is called again and again without end".into(),
        });
    }
    if p.is::<SimDead>() {
        return Caught::Viol(Viol {
            class: "waits".into(),
            msg: "more is asked for than the element needs; the peer waits for an answer".into(),
        });
    }
    let p = match p.downcast::<Viol>() {
        Ok(v) => return Caught::Viol(*v),
        Err(p) => p,
    };
    drop(p);
    match LAST.with(|l| l.borrow_mut().take()) {
        Some((true, msg)) => {
            Caught::Viol(Viol { class: "panic".into(), msg: format!("the library panicked: {msg}") })
        }
        Some((false, msg)) => Caught::Harness(msg),
        None => Caught::Harness("unknown panic".into()),
    }
}

/// What came of valid input; it is a violation if that was refused.
pub fn valid<T>(r: Result<T, bsn1::Error>, what: &str) -> T {
    r.unwrap_or_else(|e| {
        let full = crate::ops::io_cause(&e).is_some_and(|e| e.kind() == std::io::ErrorKind::OutOfMemory);
        let class = if full { "memory" } else { "refused" };
        std::panic::panic_any(Viol { class: class.into(), msg: format!("{what} is refused: {e:?}") })
    })
}

/// Runs `f`; panics raised on purpose by caller code come back as `Ok(None)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Res<Option<T>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(Some(v)),
        Err(p) => match classify(p) {
            Caught::Caller => Ok(None),
            Caught::Viol(v) => Err(v),
            Caught::Stop => std::panic::panic_any(SimStop),
            Caught::Harness(m) => panic!("{m}"),
        },
    }
}

/// For callers that broke their contract: panics are in order, whatever their origin.
pub fn guarded_loosely<T>(f: impl FnOnce() -> T) -> Res<Option<T>> {
    match guarded(f) {
        Err(v) if v.class == "panic" || v.class == "endless" => Ok(None),
        r => r,
    }
}

pub enum Outcome {
    Held,
    Violated(Viol),
    Broken(String),
}

/// Runs a property's scenario to its end in this process.
pub fn execute(scenario: fn() -> Res) -> (Outcome, World) {
    let t = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            cb::reset();
            world::set_hash_seed(world::seed64());
            world::count(Ev::HashSeed, 1);
            let r = catch_unwind(AssertUnwindSafe(scenario));
            match r {
                Ok(Ok(())) => Outcome::Held,
                Ok(Err(v)) => Outcome::Violated(v),
                Err(p) => match classify(p) {
                    Caught::Caller => Outcome::Broken("uncaught caller panic".into()),
                    Caught::Viol(v) => Outcome::Violated(v),
                    Caught::Stop => Outcome::Broken("uncaught stop".into()),
                    Caught::Harness(m) => Outcome::Broken(m),
                },
            }
        })
        .expect("thread");
    let o = t.join().unwrap_or_else(|_| Outcome::Broken("run thread died".into()));
    (o, world::end())
}
