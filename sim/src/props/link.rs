//! C09 and C10: two parties, and one party across crashes.

use crate::alloc::disarm;
use crate::io::{interrupted, offset, End, Fault, Plan, SimReader, SimWriter, Stop};
use crate::model::{self, hex};
use crate::ops::{self, io_cause, kind, Fun, Out};
use crate::rng::Rng;
use crate::run::guarded;
use crate::sched;
use crate::types::{self, BVal, TypeDesc};
use crate::world::{self, Ev, Res};
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

/// How a message gets onto the link.
enum Send {
    WriteDer,
    WriteBer,
    ToDer,
    /// By another implementation.
    Peer(Vec<u8>),
}

struct Msg {
    val: Option<BVal>,
    send: Send,
    recv: Fun,
    /// Expected octets, where they are determined.
    octets: Vec<u8>,
    exact: bool,
    marks: Vec<usize>,
}

fn gen_msg(cap: usize) -> Msg {
    if world::chance(1, 5) {
        // Another element in between.
        let ber = world::chance(1, 2);
        let fun = if ber { Fun::Ber } else { Fun::Der };
        let (d, marks, _) = fun.gen(cap);
        return Msg { val: None, send: Send::Peer(d.clone()), recv: fun, octets: d, exact: true, marks };
    }
    let t = types::draw_type();
    let v = t.gen(cap);
    let node = v.node();
    let mut marks = vec![];
    node.marks(0, &mut marks);
    let der = node.der();
    let exact = !node.has_set();
    let (send, recv, octets, exact) = match world::weighted(&[3, 2, 1, 4]) {
        0 => {
            let f = if world::chance(1, 3) { Fun::TBer(t) } else { Fun::TDer(t) };
            (Send::WriteDer, f, der, exact)
        }
        1 => (Send::WriteBer, Fun::TBer(t), der, false),
        2 => (Send::ToDer, Fun::TDer(t), der, exact),
        _ => {
            let b = ops::ber(&node);
            (Send::Peer(b.clone()), Fun::TBer(t), b, true)
        }
    };
    Msg { val: Some(v), send, recv, octets, exact, marks }
}

/// Puts a message on the link.
fn send(m: &Msg, w: &mut dyn Write) -> Result<(), bsn1::Error> {
    match &m.send {
        Send::WriteDer => m.val.as_ref().unwrap().write_der(w),
        Send::WriteBer => m.val.as_ref().unwrap().write_ber(w),
        Send::ToDer => {
            let d = m.val.as_ref().unwrap().to_der()?;
            w.write_all(d.as_ref()).map_err(bsn1::Error::from)
        }
        Send::Peer(b) => w.write_all(b).map_err(bsn1::Error::from),
    }
}

fn received(m: &Msg, i: usize, got: ops::OutRes) -> Res {
    match got {
        Err(e) => fail!(
            "refused",
            "message {i} ({} of {}) is refused: {}",
            m.recv.name(),
            hex(&m.octets),
            kind(&e)
        ),
        Ok(Out::Val(v)) => {
            let w = m.val.as_ref().unwrap();
            if !w.same(&*v) {
                fail!("value", "message {i} arrives as {} instead of {}", v.show(), w.show());
            }
        }
        Ok(Out::Octets(o)) => {
            if o != m.octets {
                fail!("value", "message {i} arrives as {} instead of {}", hex(&o), hex(&m.octets));
            }
        }
        Ok(Out::Len(_)) => unreachable!(),
    }
    Ok(())
}

pub fn c09() -> Res {
    let n = 1 + world::usz(5);
    let cap = world::pick(&[150, 30, 1000, 9000]);
    let msgs: Vec<Msg> = (0..n).map(|_| gen_msg(cap)).collect();
    for m in &msgs {
        world::note(|| {
            let v = m.val.as_ref().map(|v| v.show()).unwrap_or_default();
            format!("{} {} {v}", m.recv.name(), hex(&m.octets))
        });
    }
    if world::chance(1, 3) {
        return live(msgs);
    }
    // One end after the other.
    let total: usize = msgs.iter().map(|m| m.octets.len()).sum();
    let mut marks = vec![];
    let mut at = 0;
    for m in &msgs {
        marks.extend(m.marks.iter().map(|x| x + at));
        marks.truncate(100);
        at += m.octets.len();
    }
    let mut w = SimWriter::new(Plan::draw(total, &marks), None);
    let mut ends = vec![];
    for (i, m) in msgs.iter().enumerate() {
        let at = w.out.len();
        if let Err(e) = send(m, &mut w) {
            fail!("send", "message {i} cannot be sent: {}", kind(&e));
        }
        let got = &w.out[at..];
        if m.exact && got != &m.octets[..] {
            fail!("octets", "message {i} is sent as {} instead of {}", hex(got), hex(&m.octets));
        } else if let (false, Send::WriteDer | Send::ToDer, Some(v)) = (m.exact, &m.send, &m.val) {
            if let Err(e) = v.node().check(got) {
                fail!("octets", "message {i} ({}): {e}", v.show());
            }
        }
        ends.push(w.out.len());
    }
    let cut = if world::chance(1, 3) {
        world::ev(Ev::LinkCut, 0, 0);
        offset(w.out.len(), &marks)
    } else {
        w.out.len()
    };
    let end = match world::below(2) {
        0 => End::Eof,
        _ => End::Fail(Fault::Custom(ErrorKind::ConnectionReset), 9),
    };
    let mut r = SimReader::new(&w.out[..cut], Plan::draw(cut, &marks), end);
    for (i, m) in msgs.iter().enumerate() {
        let got = m.recv.read(&mut r);
        if ends[i] <= cut {
            received(m, i, got)?;
            if r.pos != ends[i] {
                fail!("step", "after message {i} the receiver is at {} not {}", r.pos, ends[i]);
            }
        } else {
            if let Ok(v) = got {
                fail!("ghost", "message {i} was cut off but arrives as {}", v.show());
            }
            return Ok(());
        }
    }
    if let Ok(v) = msgs[0].recv.read(&mut r) {
        fail!("ghost", "nothing was sent but {} arrives", v.show());
    }
    Ok(())
}

struct Pipe {
    buf: VecDeque<u8>,
    cap: usize,
    sent: usize,
    taken: usize,
    cut: Option<usize>,
    closed: bool,
    deaf: bool,
    reset: bool,
}

struct EndW {
    pipe: Arc<Mutex<Pipe>>,
    plan: Plan,
    rng: Rng,
    calls: u64,
}

impl Write for EndW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        disarm(|| {
            sched::yield_point();
            self.calls += 1;
            if b.is_empty() {
                return Ok(0);
            }
            if self.plan.intr_every > 0 && self.calls % self.plan.intr_every == 0 {
                world::ev(Ev::WriteIntr, self.calls, 2);
                return Err(interrupted(self.plan.style));
            }
            let pipe = self.pipe.clone();
            sched::block_until(|| {
                let p = pipe.lock().unwrap();
                p.buf.len() < p.cap || p.deaf || p.cut == Some(p.sent)
            });
            let mut p = pipe.lock().unwrap();
            if p.deaf || p.cut == Some(p.sent) {
                world::ev(Ev::LinkCut, p.sent as u64, 1);
                p.closed = true;
                drop(p);
                sched::wake();
                return Err(ErrorKind::BrokenPipe.into());
            }
            let mut n = b.len().min(p.cap - p.buf.len());
            if let Some(c) = p.cut {
                n = n.min(c - p.sent);
            }
            n = self.plan.limit(&mut self.rng, p.sent, n);
            world::ev(if n < b.len() { Ev::WriteSplit } else { Ev::Write }, n as u64, p.sent as u64);
            p.buf.extend(&b[..n]);
            p.sent += n;
            drop(p);
            sched::wake();
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct EndR {
    pipe: Arc<Mutex<Pipe>>,
    plan: Plan,
    rng: Rng,
    calls: u64,
}

impl Read for EndR {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        disarm(|| {
            sched::yield_point();
            self.calls += 1;
            if b.is_empty() {
                return Ok(0);
            }
            if self.plan.intr_every > 0 && self.calls % self.plan.intr_every == 0 {
                world::ev(Ev::ReadIntr, self.calls, 2);
                return Err(interrupted(self.plan.style));
            }
            let pipe = self.pipe.clone();
            sched::block_until(|| {
                let p = pipe.lock().unwrap();
                !p.buf.is_empty() || p.closed
            });
            let mut p = pipe.lock().unwrap();
            if p.buf.is_empty() {
                world::ev(Ev::ReadEof, p.taken as u64, 2);
                return if p.reset { Err(ErrorKind::ConnectionReset.into()) } else { Ok(0) };
            }
            let n = b.len().min(p.buf.len());
            let n = self.plan.limit(&mut self.rng, p.taken, n);
            for v in b[..n].iter_mut() {
                *v = p.buf.pop_front().unwrap();
            }
            p.taken += n;
            world::ev(if n < b.len() { Ev::ReadSplit } else { Ev::Read }, n as u64, p.taken as u64);
            drop(p);
            sched::wake();
            Ok(n)
        })
    }
}

/// Both ends at work at the same time, with a link of bounded capacity.
fn live(msgs: Vec<Msg>) -> Res {
    let total: usize = msgs.iter().map(|m| m.octets.len()).sum();
    let cut = if world::chance(1, 3) { Some(offset(total, &[])) } else { None };
    let pipe = Arc::new(Mutex::new(Pipe {
        buf: VecDeque::new(),
        cap: world::pick(&[64, 1, 3, 16, 1000, 100_000]),
        sent: 0,
        taken: 0,
        cut,
        closed: false,
        deaf: false,
        reset: world::chance(1, 2),
    }));
    if total > 4000 {
        let mut p = pipe.lock().unwrap();
        p.cap = p.cap.max(500);
    }
    let (wp, rp) = (draw_live(total), draw_live(total));
    let plan = match sched::Plan::draw() {
        sched::Plan::Each if total > 2000 => sched::Plan::Random { seed: 3, n: 8 },
        p => p,
    };
    let msgs = Arc::new(msgs);
    // What each end saw.
    let sent: Arc<Mutex<Res<usize>>> = Arc::new(Mutex::new(Ok(0)));
    let got: Arc<Mutex<Res<usize>>> = Arc::new(Mutex::new(Ok(0)));
    let sender = {
        let (pipe, msgs, sent) = (pipe.clone(), msgs.clone(), sent.clone());
        move || {
            let mut w = EndW { pipe: pipe.clone(), rng: Rng::new(wp.jitter), plan: wp, calls: 0 };
            let r = guarded(|| {
                let mut n = 0;
                for m in msgs.iter() {
                    if send(m, &mut w).is_err() {
                        break;
                    }
                    n += 1;
                }
                n
            });
            pipe.lock().unwrap().closed = true;
            sched::wake();
            *sent.lock().unwrap() = r.map(|n| n.unwrap_or(0));
        }
    };
    let receiver = {
        let (pipe, msgs, got) = (pipe.clone(), msgs.clone(), got.clone());
        move || {
            let mut r = EndR { pipe: pipe.clone(), rng: Rng::new(rp.jitter), plan: rp, calls: 0 };
            let res = guarded(|| -> Res<usize> {
                for (i, m) in msgs.iter().enumerate() {
                    match m.recv.read(&mut r) {
                        Err(_) if cut.is_some() => return Ok(i),
                        o => received(m, i, o)?,
                    }
                }
                if let Ok(v) = msgs[0].recv.read(&mut r) {
                    fail!("ghost", "nothing was sent but {} arrives", v.show());
                }
                Ok(msgs.len())
            });
            pipe.lock().unwrap().deaf = true;
            sched::wake();
            *got.lock().unwrap() = match res {
                Ok(Some(r)) => r,
                Ok(None) => Ok(0),
                Err(v) => Err(v),
            };
        }
    };
    let steps = 20_000 + 60 * total as u64;
    let rep = sched::run(vec![Box::new(sender), Box::new(receiver)], plan, &[], steps);
    let mut sent = sent.lock().unwrap();
    let mut got = got.lock().unwrap();
    let s = std::mem::replace(&mut *sent, Ok(0))?;
    let g = std::mem::replace(&mut *got, Ok(0))?;
    if rep.deadlock || rep.overrun || rep.blocked.is_some() {
        fail!("stuck", "sender and receiver do not come to an end (sent {s}, received {g})");
    }
    if cut.is_none() && (s != msgs.len() || g != msgs.len()) {
        fail!("lost", "{s} of {} messages sent, {g} received", msgs.len());
    }
    if g < s {
        fail!("lost", "{s} messages were sent completely, {g} received");
    }
    // The last one may be complete although its sender was told otherwise.
    let p = pipe.lock().unwrap();
    if g > s + 1 {
        fail!("ghost", "{s} messages were sent, {g} received ({} octets)", p.sent);
    }
    Ok(())
}

fn draw_live(total: usize) -> Plan {
    let mut p = Plan::draw(total, &[]);
    p.intr.clear();
    if total > 4000 && p.max > 0 {
        p.max = p.max.max(64);
    }
    p
}

/// The simulated disk with one file on it.
struct Disk {
    /// Written, perhaps only in the page cache.
    file: Vec<u8>,
    /// How much of it has been synced.
    synced: usize,
}

pub fn c10() -> Res {
    let t = types::draw_type();
    let cap = world::pick(&[60, 10, 300, 5000]);
    let ber = world::chance(1, 3);
    let mut disk = Disk { file: vec![], synced: 0 };
    // What has been appended so far: value and end offset.
    let mut log: Vec<(BVal, usize)> = vec![];
    let epochs = 1 + world::usz(4);
    for epoch in 0..epochs {
        let n = world::usz(6);
        for _ in 0..n {
            append(t, cap, ber, &mut disk, &mut log)?;
            if world::chance(1, 3) {
                disk.synced = disk.file.len();
            }
        }
        // A crash, perhaps in the middle of an append.
        let mut torn = None;
        if world::chance(1, 2) {
            let v = t.gen(cap);
            let mut w = SimWriter::new(Plan::draw(100, &[]), None);
            put(&v, ber, &mut w)?;
            let start = disk.file.len();
            disk.file.extend_from_slice(&w.out);
            torn = Some(start);
            log.push((v, disk.file.len()));
        }
        let len = disk.file.len();
        let marks: Vec<usize> = log.iter().map(|l| l.1).chain(torn).collect();
        let marks: Vec<usize> = marks.into_iter().filter(|m| *m >= disk.synced).collect();
        let left = offset(len, &marks).max(disk.synced);
        world::ev(Ev::Crash, epoch as u64, left as u64);
        disk.file.truncate(left);
        log.retain(|l| l.1 <= left);
        let good = log.last().map_or(0, |l| l.1);
        if good < left {
            world::ev(Ev::Torn, (left - good) as u64, 0);
        } else if world::chance(1, 3) {
            // The file system had already extended the file.
            let z = 1 + world::usz(40);
            disk.file.resize(left + z, 0);
            world::ev(Ev::ZeroTail, z as u64, 0);
        }
        // Recovery, perhaps cut short by a second crash and started again.
        let times = 1 + world::usz(2);
        for _ in 0..times {
            recover(t, ber, &disk, &log, good)?;
        }
        disk.file.truncate(good);
        disk.synced = good;
    }
    Ok(())
}

fn put(v: &BVal, ber: bool, w: &mut SimWriter) -> Res {
    world::ev(Ev::Op, 1, ber as u64);
    let r = if ber { v.write_ber(w) } else { v.write_der(w) };
    if let Err(e) = r {
        fail!("append", "appending {} fails: {}", v.show(), kind(&e));
    }
    Ok(())
}

fn append(t: &'static dyn TypeDesc, cap: usize, ber: bool, disk: &mut Disk, log: &mut Vec<(BVal, usize)>) -> Res {
    let v = t.gen(cap);
    if world::chance(1, 6) {
        // The disk is full: the append fails, the log is cut back.
        let room = world::usz(30);
        let f = Fault::Os(libc::ENOSPC);
        let mut w = SimWriter::new(Plan::draw(100, &[]), Some((room, Stop::Fail(f, 0))));
        // Perhaps somebody else makes room meanwhile.
        w.again = world::pick(&[0, 1]);
        let r = if ber { v.write_ber(&mut w) } else { v.write_der(&mut w) };
        if w.stopped > 0 {
            world::ev(Ev::DiskFull, room as u64, 0);
            if r.is_ok() {
                fail!("append", "appending {} succeeds on a full disk", v.show());
            }
            return Ok(());
        }
        disk.file.extend_from_slice(&w.out);
    } else {
        let mut w = SimWriter::new(Plan::draw(100, &[]), None);
        put(&v, ber, &mut w)?;
        disk.file.extend_from_slice(&w.out);
    }
    log.push((v, disk.file.len()));
    Ok(())
}

fn recover(t: &'static dyn TypeDesc, ber: bool, disk: &Disk, log: &[(BVal, usize)], good: usize) -> Res {
    let marks: Vec<usize> = log.iter().map(|l| l.1).collect();
    let fun = if ber { Fun::TBer(t) } else { Fun::TDer(t) };
    let file = &disk.file[..];
    if world::chance(1, 4) {
        // The disk cannot be read beyond some place, for now.
        let at = offset(file.len(), &marks);
        let f = Fault::draw();
        let mut r = SimReader::new(&file[..at], Plan::draw(at, &marks), End::Fail(f, 1));
        for (i, (v, end)) in log.iter().enumerate() {
            match fun.read(&mut r) {
                Ok(Out::Val(w)) if *end <= at && v.same(&*w) => {}
                Ok(w) => fail!("value", "value {i} is recovered as {} with {at} octets to read", w.show()),
                Err(e) if *end <= at => fail!("lost", "value {i} {} is lost: {}", v.show(), kind(&e)),
                Err(e) => {
                    if r.ended > 0 && !io_cause(&e).is_some_and(|e| f.is(1, e)) {
                        fail!("cause", "recovery reports {} ({e:?}) for {f:?}", kind(&e));
                    }
                    break;
                }
            }
        }
    }
    if world::chance(1, 2) {
        let mut r = SimReader::new(file, Plan::draw(file.len(), &marks), End::Eof);
        for (i, (v, end)) in log.iter().enumerate() {
            match fun.read(&mut r) {
                Ok(Out::Val(w)) if v.same(&*w) => {}
                Ok(w) => fail!("value", "value {i} is recovered as {} instead of {}", w.show(), v.show()),
                Err(e) => fail!("lost", "value {i} {} is lost: {}", v.show(), kind(&e)),
            }
            if r.pos != *end {
                fail!("step", "after value {i} recovery is at {} not {end}", r.pos);
            }
        }
        match fun.read(&mut r) {
            Ok(w) => fail!("ghost", "{} comes out of the tail {}", w.show(), hex(&file[good..])),
            Err(e) => tail_error(&e, &file[good..], &fun)?,
        }
    } else {
        // From a mapped file.
        let mut c = file;
        for (i, (v, end)) in log.iter().enumerate() {
            match fun.memory(&mut c) {
                Ok(Out::Val(w)) if v.same(&*w) => {}
                Ok(w) => fail!("value", "value {i} is recovered as {} instead of {}", w.show(), v.show()),
                Err(e) => fail!("lost", "value {i} {} is lost: {}", v.show(), kind(&e)),
            }
            if file.len() - c.len() != *end {
                fail!("step", "after value {i} recovery is at {} not {end}", file.len() - c.len());
            }
        }
        match fun.memory(&mut c) {
            Ok(w) => fail!("ghost", "{} comes out of the tail {}", w.show(), hex(&file[good..])),
            Err(e) => tail_error(&e, &file[good..], &fun)?,
        }
    }
    Ok(())
}

/// A torn or missing tail is reported as unterminated.
fn tail_error(e: &bsn1::Error, tail: &[u8], fun: &Fun) -> Res {
    if fun.extent(tail) == Err(model::Bad::Short) && kind(e) != "UnterminatedBytes" {
        fail!("tail", "the tail {} is reported as {}", hex(tail), kind(e));
    }
    Ok(())
}
