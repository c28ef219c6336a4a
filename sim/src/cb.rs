//! Calls from the library into user types: the place for panics, failures and nested operations.

use crate::alloc::disarm;
use crate::io::SimPanic;
use crate::sched;
use crate::world::{self, Ev};
use std::cell::RefCell;

#[derive(Default)]
struct Cb {
    count: u64,
    panic_at: Option<u64>,
    fail_at: Option<u64>,
    nested_at: Option<u64>,
    nested: Option<Box<dyn FnOnce()>>,
    /// Choices of impure conversions.
    impure: u64,
    impure_on: bool,
    /// Announced lengths are wrong by this much.
    lie: i64,
}

thread_local! {
    static CB: RefCell<Cb> = RefCell::new(Cb::default());
}

pub fn reset() {
    CB.with(|c| *c.borrow_mut() = Cb::default());
}
/// Runs `f` with callback state of its own.
pub fn scoped<R>(f: impl FnOnce() -> R) -> R {
    struct G(Option<Cb>);
    impl Drop for G {
        fn drop(&mut self) {
            CB.with(|c| *c.borrow_mut() = self.0.take().unwrap_or_default());
        }
    }
    let _g = G(Some(CB.with(|c| c.take())));
    f()
}
pub fn panic_at(n: Option<u64>) {
    CB.with(|c| c.borrow_mut().panic_at = n);
}
/// The n-th call that can fail does.
pub fn fail_at(n: Option<u64>) {
    CB.with(|c| c.borrow_mut().fail_at = n);
}
pub fn lie(by: i64) {
    CB.with(|c| c.borrow_mut().lie = by);
}
/// The length a user type announces.
pub fn announced(len: usize) -> usize {
    let by = CB.with(|c| c.borrow().lie);
    if by != 0 {
        world::ev(Ev::Lie, len as u64, by as u64);
    }
    (len as i64 + by).max(0) as usize
}
/// The identifier a user type writes.
pub fn identified(id: Vec<u8>) -> Vec<u8> {
    match CB.with(|c| c.borrow().lie) {
        3 => vec![],
        -20 => [&id[..], &[0x84]].concat(),
        200 => vec![0x1f, 0x81, 0x82],
        _ => id,
    }
}
pub fn nested_at(n: u64, f: Box<dyn FnOnce()>) {
    CB.with(|c| {
        let mut c = c.borrow_mut();
        c.nested_at = Some(n);
        c.nested = Some(f);
    });
}
pub fn impure(seed: u64) {
    CB.with(|c| {
        let mut c = c.borrow_mut();
        c.impure = seed;
        c.impure_on = true;
    });
}
pub fn hits() -> u64 {
    CB.with(|c| c.borrow().count)
}

/// Called by user types whenever the library calls them. Returns true if the call is to fail.
pub fn hit() -> bool {
    disarm(|| {
        sched::yield_point();
        let (n, panic, fail, nested) = CB.with(|c| {
            let mut c = c.borrow_mut();
            c.count += 1;
            let n = c.count;
            let nested = if c.nested_at == Some(n) { c.nested.take() } else { None };
            (n, c.panic_at == Some(n), c.fail_at == Some(n), nested)
        });
        if let Some(f) = nested {
            world::ev(Ev::Nested, n, 0);
            f();
        }
        if panic && !std::thread::panicking() {
            world::ev(Ev::CallerPanic, n, 2);
            std::panic::panic_any(SimPanic);
        }
        if fail {
            world::ev(Ev::CallerErr, n, 0);
        }
        fail
    })
}

/// What an impure conversion returns this time, below `n`.
pub fn choose(n: u64) -> u64 {
    disarm(|| {
        let v = CB.with(|c| {
            let mut c = c.borrow_mut();
            if !c.impure_on {
                return 0;
            }
            c.impure = crate::rng::mix(c.impure, 77);
            c.impure
        });
        let v = v % n;
        if v != 0 {
            world::ev(Ev::Impure, v, 0);
        }
        v
    })
}
