//! Simulated streams: readers and writers that split, interrupt, fail and end as planned.

use crate::alloc::{self, disarm};
use crate::rng::{hash_bytes, Rng};
use crate::sched;
use crate::world::{self, Ev};
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::atomic::Ordering::SeqCst;

/// Raised by caller code on purpose.
pub struct SimPanic;

/// The payload of an injected I/O error, to recognise it again.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimFault(pub u64);

impl fmt::Display for SimFault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated fault {}", self.0)
    }
}
impl std::error::Error for SimFault {}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::AddrInUse,
];

/// How an injected error looks like.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Custom(ErrorKind),
    Os(i32),
    Simple(ErrorKind),
}

impl Fault {
    pub fn draw() -> Fault {
        match world::weighted(&[4, 1, 2]) {
            0 => Fault::Custom(world::pick(KINDS)),
            1 => Fault::Simple(world::pick(KINDS)),
            _ => Fault::Os(world::pick(&[
                libc::EIO,
                libc::ECONNRESET,
                libc::EAGAIN,
                libc::EPIPE,
                libc::ENOSPC,
                libc::ENOMEM,
                libc::EBADF,
                libc::ETIMEDOUT,
            ])),
        }
    }

    pub fn make(self, id: u64) -> io::Error {
        match self {
            Fault::Custom(k) => io::Error::new(k, SimFault(id)),
            Fault::Os(n) => io::Error::from_raw_os_error(n),
            Fault::Simple(k) => io::Error::from(k),
        }
    }

    /// Tells if `e` is the error made by `make(id)`, unchanged.
    pub fn is(self, id: u64, e: &io::Error) -> bool {
        match self {
            Fault::Custom(k) => {
                e.kind() == k
                    && e.get_ref().and_then(|r| r.downcast_ref::<SimFault>()) == Some(&SimFault(id))
            }
            Fault::Os(n) => e.raw_os_error() == Some(n),
            Fault::Simple(k) => {
                e.kind() == k && e.raw_os_error().is_none() && e.get_ref().is_none()
            }
        }
    }
}

pub fn interrupted(style: u64) -> io::Error {
    match style % 3 {
        0 => io::Error::from(ErrorKind::Interrupted),
        1 => io::Error::new(ErrorKind::Interrupted, "signal"),
        _ => io::Error::from_raw_os_error(libc::EINTR),
    }
}

/// How a stream hands its bytes over.
#[derive(Clone, Debug)]
pub struct Plan {
    /// Largest piece (0: no limit).
    pub max: usize,
    /// Pieces of random size up to `max` (0: always `max`).
    pub jitter: u64,
    /// Pieces never cross these offsets.
    pub cuts: Vec<usize>,
    /// At the offset, that many interruptions come first.
    pub intr: Vec<(usize, u32)>,
    /// Every n-th call is interrupted (0: none).
    pub intr_every: u64,
    pub style: u64,
    /// At this offset caller code panics.
    pub panic_at: Option<usize>,
    /// At this offset the stream stalls until the other tasks are done.
    pub stall_at: Option<usize>,
    /// Every call counts as a call into user code (see `cb`).
    pub user: bool,
    /// At this offset the stream claims to have moved that much more than it was asked to.
    pub lie_at: Option<(usize, u64)>,
}

impl Plan {
    pub fn plain() -> Plan {
        Plan {
            max: 0,
            jitter: 0,
            cuts: vec![],
            intr: vec![],
            intr_every: 0,
            style: 0,
            panic_at: None,
            stall_at: None,
            user: false,
            lie_at: None,
        }
    }

    /// Draws a plan for a stream of `len` bytes; `marks` are offsets worth hitting.
    pub fn draw(len: usize, marks: &[usize]) -> Plan {
        let mut p = Plan::plain();
        match world::weighted(&[2, 5, 3, 4]) {
            0 => {}
            1 => p.max = world::pick(&[1, 1, 2, 3, 5, 7, 8, 16, 23, 64, 255, 4096, 8191, 8192]),
            2 => {
                p.max = world::pick(&[2, 3, 8, 30, 200, 5000, 20000]);
                p.jitter = 1 + world::seed64();
            }
            _ => {
                let n = 1 + world::usz(4);
                for _ in 0..n {
                    p.cuts.push(offset(len, marks));
                }
                p.cuts.sort();
            }
        }
        if world::chance(3, 5) {
            p.style = world::below(3);
            match world::weighted(&[4, 2]) {
                0 => {
                    let n = 1 + world::usz(3);
                    for _ in 0..n {
                        let burst = if world::chance(1, 16) { world::pick(&[100, 300, 2000]) } else { world::pick(&[1, 2, 3, 20]) };
                        p.intr.push((offset(len, marks), burst));
                    }
                }
                _ => p.intr_every = world::pick(&[2, 3, 5]),
            }
        }
        if len > 1 << 20 && p.max > 0 {
            p.max = p.max.max(4096);
        }
        p
    }

    fn lie(&mut self, pos: usize, len: usize) -> Option<usize> {
        match self.lie_at {
            Some((at, more)) if at <= pos => {
                self.lie_at = None;
                world::ev(Ev::Lie, pos as u64, more);
                Some(len.saturating_add(more as usize))
            }
            _ => None,
        }
    }

    pub fn limit(&self, rng: &mut Rng, pos: usize, want: usize) -> usize {
        let mut n = want;
        if self.max > 0 {
            let m = if self.jitter != 0 { 1 + rng.below(self.max as u64) as usize } else { self.max };
            n = n.min(m);
        }
        for c in &self.cuts {
            if *c > pos {
                n = n.min(*c - pos);
                break;
            }
        }
        n
    }
}

/// An offset in `0..=len`, close to interesting places.
pub fn offset(len: usize, marks: &[usize]) -> usize {
    let v = match world::weighted(&[3, 4, 2]) {
        0 if len <= 64 => return world::usz(len + 1),
        0 | 1 if !marks.is_empty() => {
            let m = marks[world::usz(marks.len())];
            match world::below(4) {
                0 | 1 => m,
                2 => m + 1,
                _ => m.saturating_sub(1),
            }
        }
        2 if len > 4096 => {
            let b = world::pick(&[4096, 8192, 16384, 32768, 65536, 24576]);
            match world::below(3) {
                0 => b,
                1 => b + 1,
                _ => b - 1,
            }
        }
        _ => world::usz(len + 1),
    };
    v.min(len)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// The stream has ended: `Ok(0)`.
    Eof,
    /// Reading on fails.
    Fail(Fault, u64),
    /// Nothing more comes until the peer has been answered: asking for more is a dead end.
    Silence,
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: Plan,
    pub end: End,
    pub calls: u64,
    /// Calls answered with `End`.
    pub ended: u64,
    /// Calls with an empty buffer.
    pub empty: u64,
    /// Digest of what the buffers handed in contained.
    pub handed: u64,
    rng: Rng,
    intr_left: u32,
    intr_next: usize,
    /// Bound on calls: more is an endless loop.
    pub max_calls: u64,
    /// Calls that made no progress in a row.
    pub watch_init: bool,
}

/// Raised when the code under test keeps calling without end.
pub struct SimLoop;
/// Raised when the code under test waits for bytes that never come.
pub struct SimDead;

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: Plan, end: End) -> Self {
        let seed = plan.jitter;
        let total: u64 = plan.intr.iter().map(|i| i.1 as u64).sum();
        SimReader {
            data,
            pos: 0,
            end,
            calls: 0,
            ended: 0,
            empty: 0,
            handed: 0,
            rng: Rng::new(seed),
            intr_left: 0,
            intr_next: 0,
            max_calls: 256 + 8 * data.len() as u64 + 4 * total,
            watch_init: false,
            plan: {
                let mut p = plan;
                p.intr.sort();
                p
            },
        }
    }

    fn serve(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::yield_point();
        self.calls += 1;
        if self.plan.user {
            crate::cb::hit();
        }
        if self.watch_init {
            let n = buf.len().min(64);
            self.handed = crate::rng::mix(self.handed, hash_bytes(&buf[..n]));
            world::digest(buf.len() as u64);
        }
        if self.calls > self.max_calls {
            std::panic::panic_any(SimLoop);
        }
        if buf.is_empty() {
            self.empty += 1;
            return Ok(0);
        }
        if self.plan.panic_at.is_some_and(|p| p <= self.pos) {
            world::ev(Ev::CallerPanic, self.pos as u64, 0);
            std::panic::panic_any(SimPanic);
        }
        if self.plan.stall_at.is_some_and(|p| p <= self.pos) {
            self.plan.stall_at = None;
            sched::stall();
        }
        while self.intr_next < self.plan.intr.len() && self.plan.intr[self.intr_next].0 <= self.pos {
            self.intr_left += self.plan.intr[self.intr_next].1;
            self.intr_next += 1;
        }
        if self.intr_left > 0 {
            self.intr_left -= 1;
            world::ev(Ev::ReadIntr, self.pos as u64, 0);
            return Err(interrupted(self.plan.style));
        }
        if self.plan.intr_every > 0 && self.calls % self.plan.intr_every == 0 {
            world::ev(Ev::ReadIntr, self.pos as u64, 1);
            return Err(interrupted(self.plan.style));
        }
        if self.pos == self.data.len() {
            self.ended += 1;
            return match self.end {
                End::Eof => {
                    world::ev(Ev::ReadEof, self.pos as u64, 0);
                    Ok(0)
                }
                End::Fail(f, id) => {
                    world::ev(Ev::ReadErr, self.pos as u64, 0);
                    Err(f.make(id))
                }
                End::Silence => std::panic::panic_any(SimDead),
            };
        }
        if let Some(n) = self.plan.lie(self.pos, buf.len()) {
            return Ok(n);
        }
        let want = buf.len().min(self.data.len() - self.pos);
        let n = self.plan.limit(&mut self.rng, self.pos, want);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        let kind = if n < buf.len() { Ev::ReadSplit } else { Ev::Read };
        world::ev(kind, n as u64, self.pos as u64);
        self.pos += n;
        alloc::ARRIVED.fetch_add(n as u64, SeqCst);
        Ok(n)
    }
}

impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        disarm(|| self.serve(buf))
    }
}

pub struct SimWriter {
    pub out: Vec<u8>,
    pub plan: Plan,
    /// Where the writer stops working.
    pub stop_at: Option<(usize, Stop)>,
    /// After how many refused calls it works again (0: never).
    pub again: u64,
    pub stopped: u64,
    pub calls: u64,
    pub flushes: u64,
    pub max_calls: u64,
    rng: Rng,
    intr_left: u32,
    intr_next: usize,
    pub after_stop: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Fail(Fault, u64),
    Zero,
}

impl SimWriter {
    pub fn new(plan: Plan, stop_at: Option<(usize, Stop)>) -> Self {
        let seed = plan.jitter;
        SimWriter {
            out: Vec::new(),
            stop_at,
            again: 0,
            stopped: 0,
            calls: 0,
            flushes: 0,
            max_calls: 1 << 40,
            rng: Rng::new(seed),
            intr_left: 0,
            intr_next: 0,
            after_stop: Vec::new(),
            plan: {
                let mut p = plan;
                p.intr.sort();
                p
            },
        }
    }

    fn serve(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::yield_point();
        self.calls += 1;
        if self.plan.user {
            crate::cb::hit();
        }
        if self.calls > self.max_calls {
            std::panic::panic_any(SimLoop);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let pos = self.out.len();
        if self.plan.panic_at.is_some_and(|p| p <= pos) {
            world::ev(Ev::CallerPanic, pos as u64, 1);
            std::panic::panic_any(SimPanic);
        }
        if self.plan.stall_at.is_some_and(|p| p <= pos) {
            self.plan.stall_at = None;
            sched::stall();
        }
        while self.intr_next < self.plan.intr.len() && self.plan.intr[self.intr_next].0 <= pos {
            self.intr_left += self.plan.intr[self.intr_next].1;
            self.intr_next += 1;
        }
        if self.intr_left > 0 {
            self.intr_left -= 1;
            world::ev(Ev::WriteIntr, pos as u64, 0);
            return Err(interrupted(self.plan.style));
        }
        if self.plan.intr_every > 0 && self.calls % self.plan.intr_every == 0 {
            world::ev(Ev::WriteIntr, pos as u64, 1);
            return Err(interrupted(self.plan.style));
        }
        if let Some(n) = self.plan.lie(pos, buf.len()) {
            return Ok(n);
        }
        let mut want = buf.len();
        if let Some((at, stop)) = self.stop_at {
            if pos >= at && (self.again == 0 || self.stopped < self.again) {
                self.stopped += 1;
                match stop {
                    Stop::Fail(f, id) => {
                        world::ev(Ev::WriteErr, pos as u64, 0);
                        return Err(f.make(id));
                    }
                    Stop::Zero => {
                        world::ev(Ev::WriteZero, pos as u64, 0);
                        return Ok(0);
                    }
                }
            }
            if pos < at {
                want = want.min(at - pos);
            }
        }
        let n = self.plan.limit(&mut self.rng, pos, want);
        self.out.extend_from_slice(&buf[..n]);
        let kind = if n < buf.len() { Ev::WriteSplit } else { Ev::Write };
        world::ev(kind, n as u64, pos as u64);
        Ok(n)
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        disarm(|| self.serve(buf))
    }

    fn flush(&mut self) -> io::Result<()> {
        disarm(|| {
            sched::yield_point();
            self.flushes += 1;
            world::ev(Ev::Flush, self.out.len() as u64, 0);
            Ok(())
        })
    }
}
