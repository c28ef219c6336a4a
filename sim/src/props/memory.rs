//! C12, C13, C14, C16: memory, and what is kept in it.

use crate::alloc::{self, arm, disarm, Cfg};
use crate::edit::Machine;
use crate::jobs::{Done, Job, Kinds};
use crate::model::{self, hex};
use crate::rng::hash_bytes;
use crate::run::{classify, Caught};
use crate::world::{self, Ev, Res};
use bsn1::{Ber, Der, IdRef};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

fn placement() -> bool {
    let in_place = world::chance(1, 3);
    world::ev(if in_place { Ev::AllocStay } else { Ev::AllocMove }, 0, 0);
    in_place
}

fn error(what: &str) -> Res {
    alloc::check_all();
    match alloc::take_error() {
        Some((code, msg)) => world::viol(&format!("memory-{code}"), format!("{msg}, {what}")),
        None => Ok(()),
    }
}

/// So many more times the operations are repeated before memory counts as lost.
const MORE: u32 = 40;

pub fn c12() -> Res {
    model::be_modest();
    let cap = world::pick(&[60, 20, 300, 5000, 30_000]);
    let n = 1 + world::usz(4);
    let mut jobs: Vec<Job> =
        (0..n).map(|_| Job::draw(Kinds { panics: true, faults: true, cap })).collect();
    if world::chance(1, 4) {
        jobs[world::usz(n)].lies();
    }
    let in_place = placement();
    let quarantine = !world::chance(1, 4);
    for j in &jobs {
        world::note(|| j.name());
    }
    // The first pass may set things up for good; the others differ in the filling of fresh
    // memory only.
    let mut passes: Vec<Vec<Done>> = vec![];
    let mut grown = 0;
    for (pass, poison) in [(0, 0xa5u64), (1, 0x1234), (2, 0x777_0001)] {
        alloc::start(Cfg { poison, in_place, quarantine, ..Cfg::default() });
        let mut all = vec![];
        for j in &jobs {
            let d = j.exec_with(None, pass > 0)?;
            error(&format!("after {}", j.name()))?;
            all.push(d);
        }
        let (left, _) = alloc::stop();
        if let Some((code, msg)) = alloc::take_error() {
            fail!(&format!("memory-{code}"), "{msg}");
        }
        if pass > 0 && left > alloc::returned() {
            grown += 1;
        }
        passes.push(all);
    }
    if grown == 2 {
        // What is kept for later use comes to an end some time, what is forgotten does not.
        let mut more = 0;
        for _ in 0..MORE {
            alloc::start(Cfg { in_place, quarantine, ..Cfg::default() });
            for j in &jobs {
                j.exec_with(None, true)?;
            }
            let (left, size) = alloc::stop();
            alloc::take_error();
            if left <= alloc::returned() {
                break;
            }
            more += 1;
            if more == MORE {
                let names: Vec<String> = jobs.iter().map(|j| j.name()).collect();
                fail!("leak", "{left} blocks (one of {size} bytes) never released after {names:?}");
            }
        }
    }
    for i in 0..jobs.len() {
        if passes[1][i] != passes[2][i] {
            fail!(
                "uninitialised",
                "{} depends on the filling of fresh memory: {:?} and {:?}",
                jobs[i].name(),
                passes[1][i],
                passes[2][i]
            );
        }
        let first = &passes[0][i];
        if passes[1][i][..first.len()] != first[..] {
            fail!("uninitialised", "{} gives {:?}, then {:?}", jobs[i].name(), first, passes[1][i]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Results of forked processes.
struct Page {
    requests: AtomicU64,
    digest: AtomicU64,
    status: AtomicU64,
    text: [u8; 512],
}

fn page() -> &'static mut Page {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Page>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &mut *(p as *mut Page)
    }
}

const SAME: u64 = 1;
const ERROR: u64 = 2;
const WRONG: u64 = 3;

/// Runs the job in a process of its own; returns its wait status and what it printed.
fn apart(page: &mut Page, job: &Job, cfg: Cfg, want: Option<&Done>) -> (i32, String) {
    page.status.store(0, SeqCst);
    page.text[0] = 0;
    let fd = unsafe { libc::memfd_create(c"stderr".as_ptr(), 0) };
    assert!(fd >= 0, "memfd");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::dup2(fd, 2);
            // Timers are not inherited.
            let t = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: 20, tv_usec: 0 },
            };
            libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
            libc::alarm(120);
        }
        alloc::start(cfg);
        let r = match catch_unwind(AssertUnwindSafe(|| job.exec())) {
            Ok(r) => r,
            Err(p) => match classify(p) {
                Caught::Viol(v) => Err(v),
                Caught::Harness(m) => world::viol("harness", m),
                _ => world::viol("harness", "uncaught panic".into()),
            },
        };
        page.requests.store(alloc::requests(), SeqCst);
        alloc::stop();
        let mem = alloc::take_error();
        let (status, text) = match (&r, mem) {
            (_, Some((_, m))) => (WRONG, m),
            (Err(v), _) if v.class == "memory" => (ERROR, String::new()),
            (Err(v), _) => (WRONG, v.msg.clone()),
            (Ok(d), _) => {
                page.digest.store(hash_bytes(format!("{d:?}").as_bytes()), SeqCst);
                match want {
                    Some(w) if w == d => (SAME, String::new()),
                    Some(_) if d.iter().any(|l| l.starts_with("error")) => (ERROR, String::new()),
                    Some(w) => (WRONG, format!("{d:?} instead of {w:?}")),
                    None => (SAME, String::new()),
                }
            }
        };
        let b = text.as_bytes();
        let n = b.len().min(511);
        page.text[..n].copy_from_slice(&b[..n]);
        page.text[n] = 0;
        page.status.store(status, SeqCst);
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    let mut buf = [0u8; 400];
    let n = unsafe { libc::pread(fd, buf.as_mut_ptr() as *mut _, buf.len(), 0) };
    unsafe { libc::close(fd) };
    (st, String::from_utf8_lossy(&buf[..n.max(0) as usize]).into_owned())
}

pub fn c13() -> Res {
    model::be_modest();
    let cap = world::pick(&[60, 20, 300, 5000, 30_000]);
    let faults = world::chance(1, 4);
    let job = Job::draw(Kinds { panics: false, faults, cap });
    world::note(|| job.name());
    let in_place = placement();
    let cfg = Cfg { in_place, ..Cfg::default() };
    let page = page();
    // How it goes when nothing fails.
    alloc::start(cfg);
    let want = job.exec();
    alloc::stop();
    alloc::take_error();
    let want = want?;
    let (st, said) = apart(page, &job, cfg, Some(&want));
    if st != 0 || page.status.load(SeqCst) != SAME {
        fail!("normal", "{} does not complete: status {st} {said}", job.name());
    }
    let n = page.requests.load(SeqCst);
    let which: Vec<u64> = if n <= 10 {
        (1..=n).collect()
    } else {
        (0..10).map(|_| 1 + world::below(n)).collect()
    };
    for k in which {
        world::ev(Ev::AllocFail, k, n);
        let (st, said) = apart(page, &job, Cfg { fail_at: k, ..cfg }, Some(&want));
        let status = page.status.load(SeqCst);
        world::digest(status);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let clean = sig == libc::SIGABRT && said.contains("memory allocation of");
            if !clean {
                fail!(
                    &format!("signal-{sig}"),
                    "request {k} of {n} of {} refused: the process dies of signal {sig}, saying {said:?}",
                    job.name()
                );
            }
            continue;
        }
        match status {
            SAME | ERROR => {}
            _ => {
                let t = &page.text;
                let l = t.iter().position(|b| *b == 0).unwrap_or(0);
                fail!(
                    "goes on",
                    "request {k} of {n} of {} refused: {} (exit {})",
                    job.name(),
                    String::from_utf8_lossy(&t[..l]),
                    libc::WEXITSTATUS(st)
                );
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c14() -> Res {
    let huge = model::huge();
    let cap = if huge { model::HUGE } else { world::pick(&[40, 20, 300, 300, 9000, 70_000]) };
    let in_place = placement();
    let quarantine = world::chance(1, 2);
    let poison = world::pick(&[0xa5, 0x77, 0x1_0001]);
    alloc::start(Cfg { poison, in_place, quarantine, ..Cfg::default() });
    let mut m = Machine::new(cap);
    let steps = 1 + world::usz(if huge { 8 } else { 40 });
    for i in 0..steps {
        m.step()?;
        m.check()?;
        world::note(|| format!("step {i}: {}", m.digest()));
        error("during edits")?;
    }
    drop(m);
    alloc::stop();
    match alloc::take_error() {
        Some((code, msg)) => world::viol(&format!("memory-{code}"), msg),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------------------------------------
// C16

/// The pieces, changing under the hands of the library.
struct Source {
    pieces: RefCell<Vec<Rc<Vec<Vec<u8>>>>>,
    calls: Cell<u64>,
    changes: RefCell<Vec<(u64, Change)>>,
    passes: RefCell<Vec<Rc<Pass>>>,
    /// What the iterator says about the number of pieces to come.
    hint: u64,
}

#[derive(Clone, Debug)]
enum Change {
    Push(Vec<u8>),
    Insert(usize, Vec<u8>),
    Replace(usize, Vec<u8>),
    Remove(usize),
    Clear,
}

impl Source {
    fn tick(&self) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        let mut c = self.changes.borrow_mut();
        while c.first().is_some_and(|c| c.0 <= n) {
            let (_, ch) = c.remove(0);
            world::ev(Ev::SourceChange, n, 0);
            let mut p = self.pieces.borrow_mut();
            let len = p.len();
            match ch {
                Change::Push(v) => p.push(Rc::new(vec![v])),
                Change::Insert(i, v) => p.insert(i.min(len), Rc::new(vec![v])),
                Change::Replace(i, v) if i < len => p[i] = Rc::new(vec![v]),
                Change::Remove(i) if i < len => {
                    p.remove(i);
                }
                Change::Clear => p.clear(),
                _ => {}
            }
        }
    }
}

/// What one iterator has produced: for each piece the looks taken at it.
#[derive(Default)]
struct Pass {
    items: RefCell<Vec<Rc<RefCell<Vec<Vec<u8>>>>>>,
    complete: Cell<bool>,
}

struct It {
    src: Rc<Source>,
    at: usize,
    pass: Rc<Pass>,
}

impl Clone for It {
    fn clone(&self) -> It {
        disarm(|| {
            self.src.tick();
            let pass = Rc::new(Pass {
                items: RefCell::new(self.pass.items.borrow().clone()),
                complete: Cell::new(self.pass.complete.get()),
            });
            self.src.passes.borrow_mut().push(Rc::clone(&pass));
            It { src: Rc::clone(&self.src), at: self.at, pass }
        })
    }
}

struct Item {
    src: Rc<Source>,
    forms: Rc<Vec<Vec<u8>>>,
    looks: Rc<RefCell<Vec<Vec<u8>>>>,
}

impl Iterator for It {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        disarm(|| {
            self.src.tick();
            if self.src.calls.get() > 100_000 {
                std::panic::panic_any(crate::io::SimLoop);
            }
            if self.pass.complete.get() {
                return None;
            }
            let p = self.src.pieces.borrow();
            if self.at >= p.len() {
                self.pass.complete.set(true);
                return None;
            }
            let looks = Rc::new(RefCell::new(vec![]));
            self.pass.items.borrow_mut().push(Rc::clone(&looks));
            self.at += 1;
            Some(Item { src: Rc::clone(&self.src), forms: Rc::clone(&p[self.at - 1]), looks })
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.src.pieces.borrow().len().saturating_sub(self.at);
        match self.src.hint {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (left + 3, Some(left + 3)),
            3 => (0, Some(0)),
            _ => (left.saturating_sub(1), Some(left.saturating_sub(1))),
        }
    }
}

impl AsRef<[u8]> for Item {
    fn as_ref(&self) -> &[u8] {
        disarm(|| {
            self.src.tick();
            let mut l = self.looks.borrow_mut();
            let v = &self.forms[l.len() % self.forms.len()];
            if self.forms.len() > 1 && !l.is_empty() {
                world::ev(Ev::SourceChange, l.len() as u64, 1);
            }
            l.push(v.clone());
            world::ev(Ev::Look, v.len() as u64, l.len() as u64);
            v
        })
    }
}

/// Tells if `c` is the concatenation of the pieces of the pass, each as it was at some look.
fn spells(pass: &Pass, c: &[u8]) -> bool {
    let mut at = vec![0usize];
    for looks in pass.items.borrow().iter() {
        let looks = looks.borrow();
        let mut next = vec![];
        for a in &at {
            for l in looks.iter() {
                if c[*a..].starts_with(l) && !next.contains(&(*a + l.len())) {
                    next.push(*a + l.len());
                }
            }
        }
        at = next;
    }
    at.contains(&c.len())
}

fn piece(cap: usize) -> Vec<u8> {
    model::bytes(model::size(cap))
}

pub fn c16() -> Res {
    let cap = world::pick(&[30, 12, 130, 300, 3000, 70_000]);
    let n = world::usz(7);
    let forms = world::chance(1, 2);
    let pieces: Vec<Rc<Vec<Vec<u8>>>> = (0..n)
        .map(|_| {
            let k = if forms { 1 + world::usz(3) } else { 1 };
            Rc::new((0..k).map(|_| piece(cap)).collect())
        })
        .collect();
    let m = world::usz(5);
    let span = world::pick(&[8, 20, 60]);
    let mut changes: Vec<(u64, Change)> = (0..m)
        .map(|_| {
            let when = 1 + world::below(span);
            let i = world::usz(n + 1);
            let c = match world::below(5) {
                0 => Change::Push(piece(cap)),
                1 => Change::Replace(i, piece(cap)),
                2 => Change::Remove(i),
                3 => Change::Insert(i, piece(cap)),
                _ => Change::Clear,
            };
            (when, c)
        })
        .collect();
    changes.sort_by_key(|c| c.0);
    world::note(|| {
        let l: Vec<Vec<usize>> = pieces.iter().map(|p| p.iter().map(|f| f.len()).collect()).collect();
        format!("sizes {l:?} changes {}", changes.len())
    });
    let id = model::gen_id(None);
    let form = world::below(3);
    let in_place = placement();
    let src = Rc::new(Source {
        pieces: RefCell::new(pieces),
        calls: Cell::new(0),
        changes: RefCell::new(changes),
        passes: RefCell::new(vec![]),
        hint: world::below(5),
    });
    let pass = Rc::new(Pass::default());
    src.passes.borrow_mut().push(Rc::clone(&pass));
    let it = It { src: Rc::clone(&src), at: 0, pass };
    alloc::start(Cfg { in_place, ..Cfg::default() });
    world::ev(Ev::Op, 2, form);
    let (octets, parts) = arm(|| {
        let id = IdRef::parse(&mut &id[..]).expect("the simulator's identifier");
        let b = match form {
            0 => {
                let d = Der::from_id_iterator(id, it);
                alloc::check_all();
                disarm(|| {
                    let l = d.length().definite();
                    (AsRef::<[u8]>::as_ref(&d).to_vec(), (l, d.contents().as_ref().to_vec()))
                })
            }
            _ => {
                let d = if form == 1 {
                    Ber::from_id_iterator(id, it)
                } else {
                    unsafe { Ber::from_id_iterator_indefinite(id, it) }
                };
                alloc::check_all();
                disarm(|| {
                    let l = d.length().definite();
                    (AsRef::<[u8]>::as_ref(&d).to_vec(), (l, d.contents().as_ref().to_vec()))
                })
            }
        };
        b
    });
    alloc::stop();
    if let Some((code, msg)) = alloc::take_error() {
        fail!(&format!("memory-{code}"), "{msg}");
    }
    let (len, c) = parts;
    let want = if form == 2 {
        let mut v = id.clone();
        v.push(0x80);
        v.extend_from_slice(&c);
        v
    } else {
        model::tlv(&id, &c)
    };
    let want_len = if form == 2 { None } else { Some(c.len()) };
    if octets != want || len != want_len {
        fail!("form", "the element {} announces {len:?} for {} octets", hex(&octets), c.len());
    }
    let passes = src.passes.borrow();
    if !passes.iter().any(|p| p.complete.get() && spells(p, &c)) {
        fail!(
            "contents",
            "the contents {} are none of the {} passes over the pieces",
            hex(&c),
            passes.len()
        );
    }
    Ok(())
}
