//! C15 and C17: operations at the same time, and one after another.

use crate::alloc::{self, arm, Cfg};
use crate::jobs::{Done, Job, Kinds};
use crate::model::{self, hex};
use crate::rng::hash_bytes;
use crate::run::{classify, valid, Caught};
use crate::sched;
use crate::types;
use crate::world::{self, Ev, Res, Viol};
use bsn1::{Ber, Contents, Der, Id};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// Lets the simulator hand over what it wants to; whether the type allows it is a check of its own.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}
unsafe impl<T> Sync for Handed<T> {}

trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Not for Is<T> {}
struct Is<T>(PhantomData<T>);
impl<T: Send> Is<T> {
    const SEND: bool = true;
}
struct IsSync<T>(PhantomData<T>);
impl<T> Not for IsSync<T> {}
impl<T: Sync> IsSync<T> {
    const SYNC: bool = true;
}

fn allowed() -> Res {
    let t = [
        ("Der", Is::<Der>::SEND, IsSync::<Der>::SYNC),
        ("Ber", Is::<Ber>::SEND, IsSync::<Ber>::SYNC),
        ("Id", Is::<Id>::SEND, IsSync::<Id>::SYNC),
        ("Contents", Is::<Contents>::SEND, IsSync::<Contents>::SYNC),
    ];
    for (name, send, sync) in t {
        if !send || !sync {
            fail!("not allowed", "{name}: can be handed over: {send}, can be shared: {sync}");
        }
    }
    Ok(())
}

/// An element all tasks look at.
struct Common {
    der: Handed<Der>,
    ber: Handed<Ber>,
    want: Vec<u8>,
    of: &'static dyn types::TypeDesc,
    value: types::BVal,
}

impl Common {
    fn draw(cap: usize) -> Common {
        let of = types::draw_type();
        let value = of.gen(cap);
        let want = value.node().der();
        let der = valid(arm(|| Der::parse(&mut &want[..])), "valid DER");
        let ber = valid(arm(|| Ber::parse(&mut &want[..])), "valid BER");
        Common { der: Handed(der), ber: Handed(ber), want, of, value }
    }

    /// One look at it.
    fn look(&self, how: u64) -> Res {
        world::ev(Ev::Op, 5, how);
        let got: Vec<u8> = match how {
            0 => arm(|| self.der.0.clone()).into_vec(),
            1 => arm(|| self.ber.0.clone()).into_vec(),
            2 => AsRef::<[u8]>::as_ref(&self.der.0).to_vec(),
            3 => {
                let (i, c) = arm(|| (self.ber.0.id(), self.ber.0.contents()));
                model::tlv(i.as_ref(), c.as_ref())
            }
            4 => arm(|| Ber::from(self.der.0.clone())).into_vec(),
            _ => {
                let v = if how == 5 { self.of.from_der(&self.der.0) } else { self.of.from_ber(&self.ber.0) };
                match v {
                    Ok(v) if v.same(&*self.value) => return Ok(()),
                    Ok(v) => fail!("shared", "a shared element reads as {}", v.show()),
                    Err(e) => fail!("shared", "a shared element is refused: {}", crate::ops::kind(&e)),
                }
            }
        };
        if got != self.want {
            fail!("shared", "a shared element reads as {} instead of {}", hex(&got), hex(&self.want));
        }
        Ok(())
    }
}

/// An element on its way to another thread.
enum Parcel {
    Der(Handed<Der>, Vec<u8>),
    Ber(Handed<Ber>, Vec<u8>),
}

fn pack(how: u64, c: &[u8]) -> Parcel {
    let want = model::tlv(&[4], c);
    match how {
        0 => Parcel::Der(Handed(arm(|| Der::from(c))), want),
        _ => Parcel::Ber(Handed(arm(|| Ber::from(c))), want),
    }
}

fn unpack(p: Parcel, how: u64) -> Res {
    world::ev(Ev::Op, 6, how);
    let (got, want) = match p {
        Parcel::Der(d, mut want) => {
            let mut d = d.0;
            if how == 1 {
                arm(|| d.extend_from_slice(&[1, 2, 3]));
                let e = model::parse_der_at(&want).expect("valid DER");
                let mut c = want[e.head..].to_vec();
                c.extend([1, 2, 3]);
                want = model::tlv(&[4], &c);
            }
            (arm(|| d.into_vec()), want)
        }
        Parcel::Ber(d, want) => {
            let v = AsRef::<[u8]>::as_ref(&d.0).to_vec();
            arm(|| drop(d.0));
            (v, want)
        }
    };
    if got != want {
        fail!("handed over", "an element arrives as {} instead of {}", hex(&got), hex(&want));
    }
    Ok(())
}

#[derive(Clone)]
enum Act {
    Do(usize),
    Nest(usize, usize, u64),
    Look(u64),
    Send(u64, Vec<u8>),
    Take(u64),
}

pub fn c15() -> Res {
    model::be_modest();
    allowed()?;
    // Now and then very many tasks, all standing still in their streams at once.
    let crowd = world::chance(1, 40);
    let cap = if crowd { 40 } else { world::pick(&[40, 20, 300, 3000]) };
    // Or few tasks that do the same few operations over and over.
    let duel = !crowd && world::chance(1, 4);
    let n = match (crowd, duel) {
        (true, _) => world::pick(&[20, 40, 70, 140]),
        (_, true) => 2,
        _ => 2 + world::usz(3),
    };
    let kinds = Kinds { panics: world::chance(1, 4), faults: world::chance(1, 2), cap };
    let stalls = crowd || world::chance(1, 3);
    let mut jobs: Vec<Job> = vec![];
    let mut scripts: Vec<Vec<Act>> = vec![];
    let common = Common::draw(cap);
    // Operations alike are the most likely to get into each other's way.
    let alike = world::chance(1, 2);
    let draw = |jobs: &[Job], kinds: Kinds| match jobs.last() {
        Some(j) if alike && world::chance(1, 4) => j.clone(),
        Some(j) if alike => Job::draw_like(kinds, Some(j)),
        _ => Job::draw(kinds),
    };
    if duel {
        let k = 2 + world::usz(2);
        jobs.push(Job::draw(kinds));
        for _ in 1..k {
            jobs.push(Job::draw_like(kinds, jobs.first()));
        }
        for _ in 0..n {
            let m = 2 + world::usz(4);
            scripts.push((0..m).map(|_| Act::Do(world::usz(k))).collect());
        }
    }
    for _ in scripts.len()..n {
        let k = if crowd { 1 } else { 1 + world::usz(3) };
        let mut acts = vec![];
        for _ in 0..k {
            let what = if crowd { 0 } else { world::weighted(&[6, 3, 2, 1, 1]) };
            acts.push(match what {
                0 => {
                    let mut j = draw(&jobs, kinds);
                    if stalls && (crowd || world::chance(1, 2)) {
                        j.stall();
                    }
                    jobs.push(j);
                    Act::Do(jobs.len() - 1)
                }
                1 => {
                    // One inside the other's call into user code.
                    let mut outer = draw(&jobs, Kinds { panics: false, ..kinds });
                    outer.panic_at = None;
                    outer.user();
                    let inner = draw(&jobs, kinds);
                    jobs.push(outer);
                    jobs.push(inner);
                    Act::Nest(jobs.len() - 2, jobs.len() - 1, 1 + world::below(10))
                }
                2 => Act::Look(world::below(7)),
                3 => Act::Send(world::below(2), model::bytes(model::size(cap))),
                _ => Act::Take(world::below(2)),
            });
        }
        scripts.push(acts);
    }
    let (plan, pre) = match world::weighted(if duel { &[1, 3] } else { &[3, 2] }) {
        0 => (sched::Plan::draw(), vec![]),
        _ => {
            let m = 1 + world::usz(3);
            (sched::Plan::At(vec![]), (0..m).map(|_| sched::Pre::draw(n)).collect())
        }
    };
    world::note(|| format!("{n} tasks, {plan:?} {pre:?}"));
    // Each operation alone.
    let mut alone: Vec<Done> = vec![];
    for j in &jobs {
        world::note(|| j.name());
        alone.push(j.exec()?);
    }
    let jobs = Arc::new(jobs);
    let bad: Mutex<Option<Viol>> = Mutex::new(None);
    let mail: Mutex<Vec<Parcel>> = Mutex::new(vec![]);
    alloc::start(Cfg::default());
    let report = |v: Viol| {
        let mut b = bad.lock().unwrap_or_else(|e| e.into_inner());
        if b.is_none() {
            *b = Some(v);
        }
    };
    let tasks = scripts
        .iter()
        .map(|acts| {
            let (jobs, alone, common, mail, report) = (Arc::clone(&jobs), &alone, &common, &mail, &report);
            Box::new(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for a in acts {
                        act(a, &jobs, alone, common, mail)?;
                    }
                    Ok(())
                }));
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => report(v),
                    Err(p) => match classify(p) {
                        Caught::Viol(v) => report(v),
                        Caught::Stop => {}
                        Caught::Caller => report(Viol { class: "simulator".into(), msg: "stray panic".into() }),
                        Caught::Harness(m) => report(Viol { class: "simulator".into(), msg: m }),
                    },
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let rep = sched::run(tasks, plan, &pre, 2_000_000);
    alloc::stop();
    alloc::take_error();
    if let Some(m) = rep.blocked {
        fail!("delayed", "{m}");
    }
    let b = bad.into_inner().unwrap_or_else(|e| e.into_inner());
    if let Some(v) = b {
        if v.class == "simulator" {
            panic!("{}", v.msg);
        }
        return Err(v);
    }
    if rep.deadlock {
        fail!("deadlock", "the tasks wait for each other");
    }
    if rep.overrun {
        fail!("endless", "the tasks do not come to an end");
    }
    Ok(())
}

fn act(a: &Act, jobs: &Arc<Vec<Job>>, alone: &[Done], common: &Common, mail: &Mutex<Vec<Parcel>>) -> Res {
    let same = |i: usize, d: &Done, how: &str| {
        if d != &alone[i] {
            fail!("differs", "{how}, {} gives {d:?}, alone {:?}", jobs[i].name(), alone[i]);
        }
        Ok(())
    };
    match a {
        Act::Do(i) => same(*i, &jobs[*i].exec()?, "among others")?,
        Act::Nest(o, i, at) => {
            let inner: Arc<Mutex<Option<Res<Done>>>> = Arc::default();
            let (slot, js, i2) = (Arc::clone(&inner), Arc::clone(jobs), *i);
            let f = Box::new(move || {
                let r = js[i2].exec();
                *slot.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            });
            let d = jobs[*o].exec_with(Some((*at, f)), false)?;
            let got = inner.lock().unwrap_or_else(|e| e.into_inner()).take();
            if let Some(r) = got {
                same(*i, &r?, "nested in another one")?;
            }
            same(*o, &d, "with another one nested")?;
        }
        Act::Look(how) => common.look(*how)?,
        Act::Send(how, c) => {
            let p = pack(*how, c);
            mail.lock().unwrap_or_else(|e| e.into_inner()).push(p);
        }
        Act::Take(how) => {
            let p = mail.lock().unwrap_or_else(|e| e.into_inner()).pop();
            if let Some(p) = p {
                unpack(p, *how)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn config() -> Cfg {
    let in_place = world::chance(1, 3);
    world::ev(if in_place { Ev::AllocStay } else { Ev::AllocMove }, 0, 0);
    Cfg { poison: world::seed64(), in_place, quarantine: world::chance(1, 2), ..Cfg::default() }
}

fn shared() -> &'static [AtomicU64; 2] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            64,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &*(p as *const [AtomicU64; 2])
    }
}

/// Executes the job on a new thread (with its own hash keys) or on this one.
fn on(thread: bool, j: &Job) -> Res<Done> {
    if thread {
        std::thread::scope(|s| s.spawn(|| j.exec()).join()).unwrap_or_else(|_| panic!("thread"))
    } else {
        j.exec()
    }
}

pub fn c17() -> Res {
    model::be_modest();
    // What is lost or gained a little at a time shows only after many operations.
    let long = world::chance(1, 10);
    let cap = if long { 60 } else { world::pick(&[60, 20, 300, 3000, 20_000]) };
    let faults = !long && world::chance(1, 3);
    let x = Job::draw(Kinds { panics: false, faults, cap });
    let n = if long { world::usz(3) } else { 1 + world::usz(6) };
    let mut history: Vec<Job> =
        (0..n).map(|_| Job::draw(Kinds { panics: true, faults: true, cap })).collect();
    // Operations like the measured one are the most likely to interfere.
    if long || world::chance(1, 2) {
        let at = world::usz(history.len() + 1);
        history.insert(at, x.fault());
    }
    let (cfg0, cfg1) = (config(), config());
    let (seed0, seed1) = (world::seed64(), world::seed64());
    let (t0, t1, th) = match long {
        false => (world::chance(1, 2), world::chance(1, 2), world::chance(1, 3)),
        true => (false, false, world::chance(1, 8)),
    };
    let repeats = match long {
        false => 1 + world::usz(3),
        true if !th && world::chance(1, 12) => 4500,
        true => world::pick(&[300, 70, 140, 1100]),
    };
    let apart = world::chance(1, 2);
    world::note(|| format!("measured: {}", x.name()));
    world::count(Ev::History, (history.len() * repeats) as u64);

    // In a fresh process.
    let page = shared();
    let mut fresh = None;
    if apart {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::alarm(60) };
            world::set_hash_seed(seed0);
            alloc::start(cfg0);
            let ok = match on(t0, &x) {
                Ok(d) => {
                    page[0].store(hash_bytes(format!("{d:?}").as_bytes()), SeqCst);
                    1
                }
                Err(_) => 2,
            };
            page[1].store(ok, SeqCst);
            unsafe { libc::_exit(0) }
        }
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        if page[1].load(SeqCst) != 1 {
            fail!("fresh", "{} fails in a fresh process (status {st})", x.name());
        }
    } else {
        world::set_hash_seed(seed0);
        alloc::start(cfg0);
        fresh = Some(on(t0, &x)?);
        alloc::stop();
        alloc::take_error();
    }

    // After a history.
    world::set_hash_seed(seed1);
    world::count(Ev::HashSeed, 2);
    alloc::start(cfg1);
    for i in 0..repeats {
        for h in &history {
            if i < 3 {
                world::note(|| format!("before: {}", h.name()));
            }
            on(th, h)?;
        }
    }
    let d = on(t1, &x)?;
    alloc::stop();
    alloc::take_error();
    let same = match &fresh {
        Some(f) => f == &d,
        None => page[0].load(SeqCst) == hash_bytes(format!("{d:?}").as_bytes()),
    };
    if !same {
        fail!(
            "differs",
            "{} gives {d:?} after other operations, {} in a fresh process",
            x.name(),
            fresh.map_or("something else".into(), |f| format!("{f:?}"))
        );
    }
    Ok(())
}
