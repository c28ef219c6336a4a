//! C06 to C08: writing.

use crate::cb;
use crate::io::{offset, Fault, Plan, SimWriter, Stop};
use crate::model::{self, hex};
use crate::ops::{io_cause, kind};
use crate::types::{self, AnyVal};
use crate::world::{self, Ev, Res};
use bsn1::Error;

fn put(v: &dyn AnyVal, ber: bool, w: &mut SimWriter) -> Result<(), Error> {
    world::ev(Ev::Op, 1, ber as u64);
    if ber {
        v.write_ber(w)
    } else {
        v.write_der(w)
    }
}

/// The value, its encoding in memory, checked against the model.
fn value(cap: usize) -> Res<(&'static str, types::BVal, [Vec<u8>; 2], Vec<usize>)> {
    let t = match cap {
        model::HUGE.. => types::long_type(),
        70_000.. if world::chance(1, 2) => types::draw_long(),
        _ => types::draw_type(),
    };
    let v = t.gen(cap);
    world::note(|| format!("{} {}", t.name(), v.show()));
    let node = v.node();
    let mut marks = vec![];
    node.marks(0, &mut marks);
    let der = match v.to_der() {
        Ok(d) => AsRef::<[u8]>::as_ref(&d).to_vec(),
        Err(e) => fail!("fails", "to_der fails for {}: {}", v.show(), kind(&e)),
    };
    let ber = match v.to_ber() {
        Ok(d) => AsRef::<[u8]>::as_ref(&d).to_vec(),
        Err(e) => fail!("fails", "to_ber fails for {}: {}", v.show(), kind(&e)),
    };
    if let Err(m) = node.check(&der) {
        fail!("encoding", "to_der of {} {}: {m}", t.name(), v.show());
    }
    if !model::parse_ber_at(&ber).is_ok_and(|e| e.total == ber.len()) {
        fail!("encoding", "to_ber of {} {} is {}", t.name(), v.show(), hex(&ber));
    }
    Ok((t.name(), v, [der, ber], marks))
}

fn bound(w: &mut SimWriter, len: usize) {
    let intr: u64 = w.plan.intr.iter().map(|i| i.1 as u64).sum();
    w.max_calls = 4096 + 64 * len as u64 + 4 * intr;
}

pub fn c06() -> Res {
    let cap = if model::huge() { model::HUGE } else { world::pick(&[200, 30, 9000, 200, 30, 30_000, 200_000]) };
    let (name, v, enc, marks) = value(cap)?;
    let der = &enc[0];
    let rounds = 1 + world::usz(3);
    let plan = Plan::draw(der.len() * rounds, &marks);
    world::note(|| format!("{plan:?}"));
    let mut w = SimWriter::new(plan, None);
    bound(&mut w, der.len() * rounds);
    // The same value several times on one stream.
    for i in 0..rounds {
        let at = w.out.len();
        let ber = world::chance(1, 3);
        if let Err(e) = put(&*v, ber, &mut w) {
            fail!("fails", "writing {name} {} fails: {}", v.show(), kind(&e));
        }
        let got = &w.out[at..];
        let want = &enc[ber as usize];
        if got != &want[..] {
            fail!("octets", "writing {name} (round {i}) gave {} instead of {}", hex(got), hex(want));
        }
    }
    Ok(())
}

pub fn c07() -> Res {
    let cap = world::pick(&[200, 30, 9000, 200, 30, 30_000, 200_000]);
    let (name, v, enc, marks) = value(cap)?;
    let ber = world::chance(1, 4);
    let der = enc[ber as usize].clone();
    let conv = world::chance(1, 4);
    if conv {
        // Caller code fails instead of the writer.
        let n = 1 + world::below(12);
        cb::reset();
        cb::fail_at(Some(n));
        let plan = Plan::draw(der.len(), &marks);
        let mut w = SimWriter::new(plan, None);
        bound(&mut w, der.len());
        let r = put(&*v, ber, &mut w);
        cb::fail_at(None);
        if !der.starts_with(&w.out) {
            fail!("prefix", "writing {name}: {} is no prefix of {}", hex(&w.out), hex(&der));
        }
        match r {
            Ok(()) if w.out != der => {
                fail!("success", "success after {} of {} octets", w.out.len(), der.len())
            }
            _ => {}
        }
    } else {
        let at = offset(der.len(), &marks);
        let stop = match world::weighted(&[3, 1]) {
            0 => Stop::Fail(Fault::draw(), world::seed64()),
            _ => Stop::Zero,
        };
        let plan = Plan::draw(der.len(), &marks);
        world::note(|| format!("writer stops at {at} of {}: {stop:?}", der.len()));
        let mut w = SimWriter::new(plan, Some((at, stop)));
        // Perhaps for a moment only.
        w.again = world::pick(&[0, 0, 1, 2]);
        bound(&mut w, der.len());
        let r = put(&*v, ber, &mut w);
        if !der.starts_with(&w.out) {
            fail!("prefix", "writing {name}: {} is no prefix of {}", hex(&w.out), hex(&der));
        }
        match r {
            Ok(()) => {
                if w.out != der {
                    fail!("success", "success after {} of {} octets of {name}", w.out.len(), der.len());
                }
                if w.stopped > 0 {
                    fail!("success", "success although the writer failed, {name}");
                }
            }
            Err(e) => {
                if w.stopped == 0 {
                    fail!("fails", "writing {name} fails without a cause: {}", kind(&e));
                }
                let ok = match stop {
                    Stop::Fail(f, id) => io_cause(&e).is_some_and(|e| f.is(id, e)),
                    Stop::Zero => io_cause(&e).is_some_and(|e| e.kind() == std::io::ErrorKind::WriteZero),
                };
                if !ok {
                    fail!("cause", "writing {name} reports {} ({e:?}) for {stop:?}", kind(&e));
                }
            }
        }
    }
    // Again, with a working writer.
    let mut w = SimWriter::new(Plan::plain(), None);
    if let Err(e) = put(&*v, ber, &mut w) {
        fail!("again", "writing {name} again fails: {}", kind(&e));
    }
    if w.out != der {
        fail!("again", "writing {name} again gave {} instead of {}", hex(&w.out), hex(&der));
    }
    Ok(())
}

pub fn c08() -> Res {
    let cap = world::pick(&[200, 600, 30, 9000, 70_000]);
    if world::chance(1, 2) {
        // Conversions that are not functions.
        let v = types::gen_fickle(cap);
        let node = v.node();
        world::note(|| v.show());
        cb::impure(world::seed64());
        let plan = Plan::draw(400, &[]);
        let mut w = SimWriter::new(plan, None);
        w.max_calls = 50_000_000;
        let rounds = 1 + world::usz(3);
        for _ in 0..rounds {
            if let Err(e) = v.write_der(&mut w) {
                fail!("fails", "writing {} fails: {}", v.show(), kind(&e));
            }
        }
        let parts = match model::split(&w.out) {
            Ok(p) => p,
            Err(m) => fail!("framing", "{m}: {} after {}", hex(&w.out), v.show()),
        };
        if parts.len() != rounds {
            fail!("framing", "{} elements on the stream instead of {rounds}", parts.len());
        }
        for p in parts {
            if let Err(m) = node.check(p) {
                fail!("framing", "write_der of {}: {m} in {}", v.show(), hex(p));
            }
        }
        match v.to_der() {
            Err(e) => fail!("fails", "to_der of {} fails: {}", v.show(), kind(&e)),
            Ok(d) => {
                if let Err(m) = node.check(d.as_ref()) {
                    fail!("framing", "to_der of {}: {m}", v.show());
                }
            }
        }
    } else {
        // Hash order: the seed of this run decides it; fresh maps have new orders.
        let n = 1 + world::usz(3);
        let mut w = SimWriter::new(Plan::draw(400, &[]), None);
        w.max_calls = 50_000_000;
        let mut nodes = vec![];
        for _ in 0..n {
            let (name, v, [der, _], _) = value(cap)?;
            let at = w.out.len();
            if let Err(e) = put(&*v, false, &mut w) {
                fail!("fails", "writing {name} fails: {}", kind(&e));
            }
            if w.out.len() - at != der.len() {
                fail!("framing", "{} octets written, {} in memory, for {name}", w.out.len() - at, der.len());
            }
            nodes.push(v.node());
        }
        let parts = match model::split(&w.out) {
            Ok(p) => p,
            Err(m) => fail!("framing", "{m}: {}", hex(&w.out)),
        };
        if parts.len() != n {
            fail!("framing", "{} elements on the stream instead of {n}", parts.len());
        }
        for (p, node) in parts.iter().zip(&nodes) {
            if let Err(m) = node.check(p) {
                fail!("framing", "{m} in {}", hex(p));
            }
        }
    }
    Ok(())
}
