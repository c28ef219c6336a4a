//! Operations of the library as data: drawn once, executed as often as needed, alone, among
//! others, nested or with faults. Executing takes no decisions.

use crate::alloc::{arm, disarm};
use crate::cb;
use crate::edit::Machine;
use crate::io::{offset, End, Fault, Plan, SimReader, SimWriter, Stop};
use crate::model::{self, hex, Body, Node};
use crate::ops::{kind, Fun, Out, OutRes};
use crate::rng::hash_bytes;
use crate::run::{guarded, guarded_loosely};
use crate::types::{self, BVal};
use crate::world::{self, Ev, Res};
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Error, Id, IdRef};
use bsn1_serde::OctetString;
use std::sync::Arc;

#[derive(Clone)]
pub enum What {
    Read { fun: Fun, data: Arc<Vec<u8>>, plan: Plan, end: End },
    Memory { fun: Fun, data: Arc<Vec<u8>> },
    Write { v: Arc<BVal>, ber: bool, plan: Plan, stop: Option<(usize, Stop)> },
    Encode { v: Arc<BVal>, ber: bool },
    Iter { id: Vec<u8>, pieces: Arc<Vec<Vec<u8>>>, form: u64 },
    Edit { seed: u64, steps: usize, cap: usize },
    Convert { which: u64, data: Arc<Vec<u8>> },
    Chain { data: Arc<Vec<u8>>, plan: Plan, end: End, n: usize },
    /// An element that does not fit into the address space.
    Absurd { id: Vec<u8>, len: usize, form: u64 },
}

#[derive(Clone)]
pub struct Job {
    pub what: What,
    pub panic_at: Option<u64>,
    pub fail_at: Option<u64>,
    /// The caller breaks its contract: only the soundness of the memory counts.
    pub lie: Option<i64>,
}

/// What came out, line by line, free of hash order.
pub type Done = Vec<String>;

#[derive(Clone, Copy)]
pub struct Kinds {
    /// Caller code may panic.
    pub panics: bool,
    /// Streams and conversions may fail, inputs may be broken.
    pub faults: bool,
    pub cap: usize,
}

fn canon(n: &Node) -> Vec<u8> {
    let body = match &n.body {
        Body::Prim(v) => v.clone(),
        Body::Seq(c) => c.iter().flat_map(canon).collect(),
        Body::Set(c) => {
            let mut v: Vec<Vec<u8>> = c.iter().map(canon).collect();
            v.sort();
            v.concat()
        }
        Body::OneOf(a) => a[0].octets(),
    };
    model::tlv(&n.id, &body)
}

fn brief(b: &[u8]) -> String {
    format!("{} #{:x}", hex(b), hash_bytes(b))
}

fn show(r: &OutRes, fun: &Fun) -> String {
    match r {
        Ok(Out::Val(v)) => {
            let c = canon(&v.node());
            let d = match fun {
                Fun::TDer(t) | Fun::TBer(t) if !t.setlike() => v.show(),
                _ => String::new(),
            };
            format!("value {} {d}", brief(&c))
        }
        Ok(Out::Octets(b)) => brief(b),
        Ok(v) => v.show(),
        Err(e) => format!("error {}", kind(e)),
    }
}

/// Another value of the same type.
fn another(like: Option<&What>, cap: usize) -> Option<BVal> {
    match like {
        Some(What::Write { v, .. } | What::Encode { v, .. }) => Some(v.another(cap)),
        _ => None,
    }
}

fn draw_end(len: usize) -> End {
    match world::weighted(&[2, 1]) {
        0 => End::Eof,
        _ => End::Fail(Fault::draw(), len as u64),
    }
}

impl Job {
    pub fn draw(k: Kinds) -> Job {
        Job::draw_like(k, None)
    }

    /// A job that does with other data what `like` does.
    pub fn draw_like(k: Kinds, like: Option<&Job>) -> Job {
        let mut job = Job { what: Job::what(k, like.map(|j| &j.what)), panic_at: None, fail_at: None, lie: None };
        if k.panics && world::chance(1, 4) {
            job.panic_at = Some(1 + world::below(12));
        }
        if k.faults && world::chance(1, 6) {
            job.fail_at = Some(1 + world::below(6));
        }
        job
    }

    fn what(k: Kinds, like: Option<&What>) -> What {
        let cap = k.cap;
        let kind = match like {
            None => world::weighted(&[6, 2, 5, 2, 3, 4, 2, 2]),
            Some(What::Read { .. }) => 0,
            Some(What::Memory { .. }) => 1,
            Some(What::Write { .. }) => 2,
            Some(What::Encode { .. }) => 3,
            Some(What::Iter { .. }) => 4,
            Some(What::Edit { .. }) => 5,
            Some(What::Convert { .. } | What::Absurd { .. }) => 6,
            Some(What::Chain { .. }) => 7,
        };
        let fun = || match like {
            Some(What::Read { fun, .. } | What::Memory { fun, .. }) => *fun,
            _ => Fun::draw(),
        };
        match kind {
            0 => {
                let fun = fun();
                let (mut data, marks, _) = fun.gen(cap);
                let mut plan = Plan::draw(data.len(), &marks);
                let mut end = End::Eof;
                if k.faults {
                    match world::weighted(&[3, 2, 2]) {
                        0 => {}
                        1 => {
                            data.truncate(offset(data.len(), &marks));
                            end = draw_end(data.len());
                        }
                        _ => model::corrupt(&mut data, &marks),
                    }
                }
                if k.panics && world::chance(1, 4) {
                    plan.panic_at = Some(offset(data.len(), &marks));
                }
                What::Read { fun, data: Arc::new(data), plan, end }
            }
            1 => {
                let fun = fun();
                let (mut data, marks, _) = fun.gen(cap);
                if k.faults && world::chance(1, 2) {
                    model::corrupt(&mut data, &marks);
                }
                What::Memory { fun, data: Arc::new(data) }
            }
            2 => {
                let v = another(like, cap).unwrap_or_else(|| types::draw_type().gen(cap));
                let node = v.node();
                let mut marks = vec![];
                node.marks(0, &mut marks);
                let len = node.size();
                let mut plan = Plan::draw(len, &marks);
                let mut stop = None;
                if k.faults && world::chance(1, 3) {
                    let s = match world::weighted(&[3, 1]) {
                        0 => Stop::Fail(Fault::draw(), 5),
                        _ => Stop::Zero,
                    };
                    stop = Some((offset(len, &marks), s));
                }
                if k.panics && world::chance(1, 4) {
                    plan.panic_at = Some(offset(len, &marks));
                }
                What::Write { v: Arc::new(v), ber: world::chance(1, 4), plan, stop }
            }
            3 => {
                let v = another(like, cap).unwrap_or_else(|| types::draw_type().gen(cap));
                What::Encode { v: Arc::new(v), ber: world::chance(1, 4) }
            }
            4 => {
                let n = world::usz(6);
                let pieces = (0..n).map(|_| model::bytes(model::size(cap))).collect();
                What::Iter { id: model::gen_id(None), pieces: Arc::new(pieces), form: world::below(3) }
            }
            5 => What::Edit { seed: world::seed64(), steps: 1 + world::usz(20), cap: cap.min(9000) },
            6 => What::Convert {
                which: world::below(10),
                data: Arc::new(model::bytes(model::size(cap.min(9000)))),
            },
            _ => {
                // Several elements from one stream.
                let n = 1 + world::usz(4);
                let mut data: Vec<u8> = (0..n).flat_map(|_| model::gen_node(2, cap / 4).der()).collect();
                let plan = Plan::draw(data.len(), &[]);
                let mut end = End::Eof;
                if k.faults && world::chance(1, 3) {
                    data.truncate(offset(data.len(), &[]));
                    end = draw_end(data.len());
                }
                What::Chain { data: Arc::new(data), plan, end, n: n + 1 }
            }
        }
    }

    /// The same operation, made to fail.
    pub fn fault(&self) -> Job {
        let mut j = self.clone();
        let how = world::below(4);
        match &mut j.what {
            What::Read { data, .. } | What::Memory { data, .. } if how == 0 => {
                let mut d = data.to_vec();
                model::corrupt(&mut d, &[]);
                *data = Arc::new(d);
            }
            What::Read { data, .. } | What::Memory { data, .. } | What::Chain { data, .. } if how == 1 => {
                let mut d = data.to_vec();
                d.truncate(world::usz(d.len().max(1)));
                *data = Arc::new(d);
            }
            What::Write { stop, .. } if how <= 1 => {
                *stop = Some((world::usz(40), Stop::Fail(Fault::draw(), 5)))
            }
            _ if how == 2 => j.fail_at = Some(1 + world::below(6)),
            What::Read { plan, data, .. } | What::Chain { plan, data, .. } => {
                plan.panic_at = Some(world::usz(data.len() + 1))
            }
            What::Write { plan, .. } => plan.panic_at = Some(world::usz(40)),
            _ => j.panic_at = Some(1 + world::below(6)),
        }
        j
    }

    /// Makes the caller break its contract.
    pub fn lies(&mut self) {
        let more = world::pick(&[1, 2, 7, 100, 1 << 16, u64::MAX]);
        self.lie = Some(world::pick(&[1, -1, 3, -20, 200, 5000]));
        if world::chance(1, 6) {
            let id = model::id_octets(2, false, world::pick(&[1, 1000, u64::MAX as u128, u128::MAX]));
            let len = usize::MAX - world::usz(64);
            self.what = What::Absurd { id, len, form: world::below(3) };
        }
        match &mut self.what {
            What::Read { plan, data, .. } | What::Chain { plan, data, .. } => {
                plan.lie_at = Some((offset(data.len(), &[0, 1, 2, 3]), more));
            }
            What::Write { plan, v, .. } => {
                if world::chance(1, 2) {
                    plan.lie_at = Some((world::usz(40), more));
                } else {
                    *v = Arc::new(types::draw_odd().gen(300));
                }
            }
            What::Encode { v, .. } => *v = Arc::new(types::draw_odd().gen(300)),
            _ => {}
        }
    }

    fn guard<T>(&self, f: impl FnOnce() -> T) -> Res<Option<T>> {
        if self.lie.is_some() {
            guarded_loosely(f)
        } else {
            guarded(f)
        }
    }

    /// Lets the stream of this job stall.
    pub fn stall(&mut self) -> bool {
        match &mut self.what {
            What::Read { plan, data, .. } | What::Chain { plan, data, .. } => {
                plan.stall_at = Some(offset(data.len(), &[1, 2]));
                true
            }
            What::Write { plan, .. } => {
                plan.stall_at = Some(world::pick(&[0, 1, 2, 3, 5, 20]));
                true
            }
            _ => false,
        }
    }

    /// Calls of the stream count as calls into user code.
    pub fn user(&mut self) {
        match &mut self.what {
            What::Read { plan, .. } | What::Chain { plan, .. } | What::Write { plan, .. } => {
                plan.user = true
            }
            _ => {}
        }
    }

    pub fn name(&self) -> String {
        match &self.what {
            What::Read { fun, data, .. } => format!("{} from a stream {}", fun.name(), hex(data)),
            What::Memory { fun, data } => format!("{} from memory {}", fun.name(), hex(data)),
            What::Write { v, ber, .. } => format!("write_{} {}", ["der", "ber"][*ber as usize], v.show()),
            What::Encode { v, ber } => format!("to_{} {}", ["der", "ber"][*ber as usize], v.show()),
            What::Iter { pieces, form, .. } => {
                let l: Vec<usize> = pieces.iter().map(|p| p.len()).collect();
                format!("from_id_iterator form {form} of {l:?}")
            }
            What::Edit { seed, steps, .. } => format!("{steps} edits from seed {seed}"),
            What::Convert { which, data } => format!("conversion {which} of {}", hex(data)),
            What::Chain { data, .. } => format!("elements in a row {}", hex(data)),
            What::Absurd { id, len, form } => format!("element of {len} octets under {}, form {form}", hex(id)),
        }
    }

    /// Executes the job, with callbacks of its own.
    pub fn exec(&self) -> Res<Done> {
        self.exec_with(None, false)
    }

    pub fn exec_with(&self, nested: Option<(u64, Box<dyn FnOnce()>)>, handed: bool) -> Res<Done> {
        disarm(|| {
            cb::scoped(|| {
                cb::panic_at(self.panic_at);
                cb::fail_at(self.fail_at);
                cb::lie(self.lie.unwrap_or(0));
                if let Some((n, f)) = nested {
                    cb::nested_at(n, f);
                }
                self.go(handed)
            })
        })
    }

    fn go(&self, handed: bool) -> Res<Done> {
        let mut out = vec![];
        match &self.what {
            What::Read { fun, data, plan, end } => {
                let mut r = SimReader::new(data, plan.clone(), *end);
                r.watch_init = true;
                match self.guard(|| fun.read(&mut r))? {
                    None => out.push("panicked".into()),
                    Some(v) => {
                        out.push(show(&v, fun));
                        if let (Err(e), End::Fail(f, id)) = (&v, end) {
                            if let Some(e) = crate::ops::io_cause(e) {
                                out.push(format!("cause kept {}", f.is(*id, e)));
                            }
                        }
                        if v.is_ok() {
                            out.push(format!("position {}", r.pos));
                        }
                    }
                }
                if handed {
                    out.push(format!("buffers handed to the reader {:x}", r.handed));
                }
            }
            What::Memory { fun, data } => {
                let mut b = &data[..];
                match self.guard(|| fun.memory(&mut b))? {
                    None => out.push("panicked".into()),
                    Some(v) => {
                        out.push(show(&v, fun));
                        if v.is_ok() {
                            out.push(format!("left {}", b.len()));
                        }
                    }
                }
            }
            What::Write { v, ber, plan, stop } => {
                let mut w = SimWriter::new(plan.clone(), *stop);
                w.max_calls = 50_000_000;
                let r = self.guard(|| {
                    world::ev(Ev::Op, 1, 0);
                    if *ber {
                        v.write_ber(&mut w)
                    } else {
                        v.write_der(&mut w)
                    }
                })?;
                out.push(match &r {
                    None => "panicked".into(),
                    Some(Ok(())) => "written".into(),
                    Some(Err(e)) => format!("error {}", kind(e)),
                });
                out.push(brief(&w.out));
            }
            What::Encode { v, ber } => {
                world::ev(Ev::Op, 1, 0);
                let r = if *ber {
                    self.guard(|| v.to_ber().map(|b| disarm(|| AsRef::<[u8]>::as_ref(&b).to_vec())))?
                } else {
                    self.guard(|| v.to_der().map(|b| disarm(|| AsRef::<[u8]>::as_ref(&b).to_vec())))?
                };
                out.push(match &r {
                    None => "panicked".into(),
                    Some(Ok(b)) => brief(b),
                    Some(Err(e)) => format!("error {}", kind(e)),
                });
                if self.lie.is_some() && matches!(r, Some(Ok(_))) {
                    out.push(self.guard(|| edited(v, *ber))?.unwrap_or_else(|| "panicked".into()));
                }
            }
            What::Absurd { id, len, form } => {
                world::ev(Ev::Lie, *len as u64, 0);
                let r = self.guard(|| {
                    arm(|| {
                        let id = IdRef::parse(&mut &id[..]).expect("the simulator's identifier");
                        match form {
                            0 => Der::with_id_length(id, *len).into_vec().len(),
                            1 => Ber::with_id_length(id, *len).into_vec().len(),
                            _ => unsafe { Ber::with_id_length_indefinite(id, *len) }.into_vec().len(),
                        }
                    })
                })?;
                out.push(format!("{r:?}"));
            }
            What::Iter { id, pieces, form } => {
                world::ev(Ev::Op, 2, 0);
                let it = Pieces { pieces: Arc::clone(pieces), at: 0, lie: self.lie };
                let r = self.guard(|| {
                    arm(|| {
                        let id = IdRef::parse(&mut &id[..]).expect("the simulator's identifier");
                        match form {
                            0 => Der::from_id_iterator(id, it).into_vec(),
                            1 => Ber::from_id_iterator(id, it).into_vec(),
                            _ => unsafe { Ber::from_id_iterator_indefinite(id, it) }.into_vec(),
                        }
                    })
                })?;
                out.push(match &r {
                    None => "panicked".into(),
                    Some(b) => brief(b),
                });
            }
            What::Edit { seed, steps, cap } => {
                let r: Res = world::local(*seed, || {
                    let mut m = Machine::new(*cap);
                    for _ in 0..*steps {
                        m.step()?;
                    }
                    m.check()?;
                    out.push(m.digest());
                    Ok(())
                });
                r?;
            }
            What::Convert { which, data } => {
                world::ev(Ev::Op, 3, *which);
                out.push(self.guard(|| convert(*which, data))?.unwrap_or_else(|| "panicked".into()));
            }
            What::Chain { data, plan, end, n } => {
                let mut r = SimReader::new(data, plan.clone(), *end);
                r.watch_init = true;
                for i in 0..*n {
                    let v = self.guard(|| {
                        world::ev(Ev::Op, 0, 0);
                        if i % 2 == 0 {
                            arm(|| Der::parse(&mut r)).map(|d| disarm(|| d.into_vec()))
                        } else {
                            arm(|| Ber::parse(&mut r)).map(|d| disarm(|| d.into_vec()))
                        }
                    })?;
                    match v {
                        None => out.push("panicked".into()),
                        Some(Ok(b)) => {
                            out.push(brief(&b));
                            continue;
                        }
                        Some(Err(e)) => out.push(format!("error {}", kind(&e))),
                    }
                    break;
                }
                if handed {
                    out.push(format!("buffers handed to the reader {:x}", r.handed));
                }
            }
        }
        Ok(out)
    }
}

/// Edits the element made of a value whose type announces a wrong length.
fn edited(v: &BVal, ber: bool) -> String {
    let edits: Vec<(u64, usize)> = disarm(|| {
        let seed = hash_bytes(v.show().as_bytes());
        world::local(seed, || (0..6).map(|_| (world::below(4), world::pick(&[0, 1, 5, 40, 130, 300]))).collect())
    });
    arm(|| {
        let show = |b: &[u8]| disarm(|| brief(b));
        if ber {
            let Ok(mut b) = v.to_ber() else { return String::new() };
            for (what, n) in edits {
                match what {
                    0 => b.push(7),
                    1 => b.extend_from_slice(&disarm(|| vec![9; n])),
                    2 => b.truncate(n),
                    _ => b.mut_contents().as_mut().fill(3),
                }
            }
            show(b.as_ref())
        } else {
            let Ok(mut b) = v.to_der() else { return String::new() };
            for (what, n) in edits {
                match what {
                    0 => b.push(7),
                    1 => b.extend_from_slice(&disarm(|| vec![9; n])),
                    2 => b.truncate(n),
                    _ => b.mut_contents().as_mut().fill(3),
                }
            }
            show(b.as_ref())
        }
    })
}

/// A caller's iterator.
#[derive(Clone)]
struct Pieces {
    pieces: Arc<Vec<Vec<u8>>>,
    at: usize,
    lie: Option<i64>,
}
struct Piece(Arc<Vec<Vec<u8>>>, usize);
impl Iterator for Pieces {
    type Item = Piece;
    fn next(&mut self) -> Option<Piece> {
        cb::hit();
        if self.at == self.pieces.len() {
            return None;
        }
        self.at += 1;
        Some(Piece(Arc::clone(&self.pieces), self.at - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.pieces.len() - self.at;
        match self.lie {
            None => (left, Some(left)),
            Some(by) => {
                let n = (left as i64 + by).max(0) as usize;
                (n, Some(n))
            }
        }
    }
}
impl AsRef<[u8]> for Piece {
    fn as_ref(&self) -> &[u8] {
        cb::hit();
        &self.0[self.1]
    }
}

/// Conversions between owned and borrowed forms.
fn convert(which: u64, data: &[u8]) -> String {
    let text = disarm(|| String::from_utf8_lossy(data).into_owned());
    let (a, b): (Vec<u8>, String) = arm(|| match which {
        0 => {
            let v: Vec<u8> = OctetString::new(data).into();
            (v, String::new())
        }
        1 => {
            let o = OctetString::from(data.to_vec());
            (o.clone().into_vec(), String::new())
        }
        2 => {
            let o = OctetString::from(text.clone());
            match String::try_from(o) {
                Ok(s) => (s.into_bytes(), String::new()),
                Err(_) => (vec![], "refused".into()),
            }
        }
        3 => {
            let o = OctetString::from(data);
            match String::try_from(o) {
                Ok(s) => (s.into_bytes(), String::new()),
                Err(_) => (vec![], "refused".into()),
            }
        }
        4 => {
            let c = Contents::from(text.clone());
            let d = Der::new(IdRef::utf8_string(), &c);
            (d.into_vec(), String::new())
        }
        5 => {
            let c = <&ContentsRef>::from(data);
            let i = c.to_integer::<i64>().ok();
            let u = c.to_integer::<u128>().ok();
            let b = (c.to_bool_ber().ok(), c.to_bool_der().ok());
            (AsRef::<[u8]>::as_ref(&c.to_owned()).to_vec(), format!("{i:?} {u:?} {b:?}"))
        }
        6 => {
            let e = Error::from(anyhow::anyhow!("caller {}", data.len()).context("outer"));
            let e = e.context("more").context("and more");
            (vec![], format!("{:?} {}", kind(&e), e.into_anyhow().chain().count()))
        }
        7 => {
            let e = Error::UnterminatedBytes.context("a").context("b".to_string());
            (vec![], format!("{} {}", kind(&e), e))
        }
        8 => {
            let mut b = data;
            match DerRef::parse(&mut b) {
                Ok(d) => {
                    let o: Ber = d.into();
                    let r: &BerRef = d.into();
                    (o.into_vec(), format!("{}", r.contents().len()))
                }
                Err(e) => (vec![], kind(&e).into()),
            }
        }
        _ => {
            let mut b = data;
            match IdRef::parse(&mut b) {
                Ok(i) => {
                    let o = Id::from(i);
                    (AsRef::<[u8]>::as_ref(&o).to_vec(), format!("{:?} {:?} {:?}", o.class(), o.pc(), o.number().ok()))
                }
                Err(e) => (vec![], kind(&e).into()),
            }
        }
    });
    disarm(|| format!("{} {b}", brief(&a)))
}
