//! Edit histories over several live objects, compared with a model after every step.

use crate::alloc::{arm, disarm};
use crate::io::{End, Plan, SimReader};
use crate::model::{self, hex, id_octets, tlv};
use crate::run::valid;
use crate::types::Wire;
use crate::world::{self, Ev, Res};
use bsn1::{Ber, BerRef, ClassTag, Contents, ContentsRef, Der, DerRef, Id, IdRef, PCTag};

pub enum Obj {
    Der(Der),
    Ber(Ber),
    Id(Id),
    Contents(Contents),
}

/// What an object should hold.
#[derive(Clone, Debug)]
struct Should {
    id: Vec<u8>,
    indef: bool,
    c: Vec<u8>,
}

impl Should {
    fn octets(&self, o: &Obj) -> Vec<u8> {
        match o {
            Obj::Id(_) => self.id.clone(),
            Obj::Contents(_) => self.c.clone(),
            _ if self.indef => {
                let mut v = self.id.clone();
                v.push(0x80);
                v.extend_from_slice(&self.c);
                v
            }
            _ => tlv(&self.id, &self.c),
        }
    }
}

pub struct Machine {
    live: Vec<(Obj, Should)>,
    cap: usize,
}

fn id_ref(b: &[u8]) -> &IdRef {
    arm(|| IdRef::parse(&mut &b[..])).expect("the simulator's identifier")
}

fn tag(v: u64) -> ClassTag {
    match v {
        0 => ClassTag::Universal,
        1 => ClassTag::Application,
        2 => ClassTag::ContextSpecific,
        _ => ClassTag::Private,
    }
}

fn number() -> u128 {
    match world::below(4) {
        0 => world::below(31) as u128,
        1 => world::pick(&[30u128, 31, 127, 128, 16383, 16384]),
        2 => {
            let k = world::below(128) as u32;
            (1u128 << k).wrapping_sub(world::below(2) as u128)
        }
        _ => world::pick(&[u128::MAX, u64::MAX as u128, 0, 1 << 127]),
    }
}

/// The number an identifier stands for.
fn number_of(id: &[u8]) -> Option<u128> {
    if id[0] & 0x1f != 0x1f {
        return Some((id[0] & 0x1f) as u128);
    }
    let mut n = 0u128;
    for b in &id[1..] {
        if n >> 121 != 0 {
            return None;
        }
        n = n << 7 | (*b & 0x7f) as u128;
    }
    Some(n)
}

impl Machine {
    pub fn new(cap: usize) -> Machine {
        Machine { live: vec![], cap }
    }

    fn put(&mut self, o: Obj, s: Should) {
        if self.live.len() < 6 {
            self.live.push((o, s));
        } else {
            let i = world::usz(self.live.len());
            self.live[i] = (o, s);
        }
    }

    fn contents(&self) -> Vec<u8> {
        model::bytes(model::size(self.cap))
    }

    fn create(&mut self) {
        let id = model::gen_id(None);
        let c = self.contents();
        let kind = world::below(24);
        let def = |id: &[u8], c: &[u8]| Should { id: id.to_vec(), indef: false, c: c.to_vec() };
        macro_rules! int {
            ($t:ty) => {{
                let v = <$t as Wire>::gen(0);
                let n = v.node();
                let s = Should { id: n.id.clone(), indef: false, c: n.body.octets() };
                match world::below(3) {
                    0 => self.put(Obj::Der(arm(|| Der::from(v))), s),
                    1 => self.put(Obj::Ber(arm(|| Ber::from(v))), s),
                    _ => self.put(Obj::Contents(arm(|| Contents::from(v))), s),
                }
            }};
        }
        match kind {
            0 => {
                let o = arm(|| Der::new(id_ref(&id), <&ContentsRef>::from(&c[..])));
                self.put(Obj::Der(o), def(&id, &c))
            }
            1 => {
                let o = arm(|| {
                    let mut d = Der::with_id_length(id_ref(&id), c.len());
                    d.mut_contents().as_mut().copy_from_slice(&c);
                    d
                });
                self.put(Obj::Der(o), def(&id, &c))
            }
            2 => {
                let e = tlv(&id, &c);
                let mut r = SimReader::new(&e, Plan::draw(e.len(), &[1, 2]), End::Eof);
                let o = arm(|| Der::parse(&mut r));
                self.put(Obj::Der(valid(o, "valid DER")), def(&id, &c))
            }
            3 => {
                let mut e = tlv(&id, &c);
                spare(&mut e);
                let o = arm(|| unsafe { Der::from_vec_unchecked(e) });
                self.put(Obj::Der(o), def(&id, &c))
            }
            4 => {
                let e = tlv(&id, &c);
                let o = arm(|| unsafe { Der::from_bytes_unchecked(&e) });
                self.put(Obj::Der(o), def(&id, &c))
            }
            5 => {
                let e = tlv(&id, &c);
                let o = arm(|| DerRef::parse(&mut &e[..]).map(|d| d.to_owned()));
                self.put(Obj::Der(valid(o, "valid DER")), def(&id, &c))
            }
            6 => {
                let n = 1 + world::usz(4);
                let parts: Vec<&[u8]> = c.chunks((c.len() / n).max(1)).collect();
                let o = arm(|| Der::from_id_iterator(id_ref(&id), parts.iter()));
                self.put(Obj::Der(o), def(&id, &c))
            }
            7 => {
                let o = arm(|| Der::from(&c[..]));
                self.put(Obj::Der(o), def(&[4], &c))
            }
            8 => {
                let s = String::gen(self.cap);
                let o = arm(|| Der::from(&s[..]));
                self.put(Obj::Der(o), def(&[0x0c], s.as_bytes()))
            }
            9 => {
                let o = arm(|| Ber::new(id_ref(&id), <&ContentsRef>::from(&c[..])));
                self.put(Obj::Ber(o), def(&id, &c))
            }
            10 => {
                let o = arm(|| unsafe { Ber::new_indefinite(id_ref(&id), <&ContentsRef>::from(&c[..])) });
                self.put(Obj::Ber(o), Should { id, indef: true, c })
            }
            11 => {
                let o = arm(|| unsafe {
                    let mut d = Ber::with_id_length_indefinite(id_ref(&id), c.len());
                    d.mut_contents().as_mut().copy_from_slice(&c);
                    d
                });
                self.put(Obj::Ber(o), Should { id, indef: true, c })
            }
            12 => {
                let n = 1 + world::usz(4);
                let parts: Vec<&[u8]> = c.chunks((c.len() / n).max(1)).collect();
                let o = arm(|| unsafe { Ber::from_id_iterator_indefinite(id_ref(&id), parts.iter()) });
                self.put(Obj::Ber(o), Should { id, indef: true, c })
            }
            13 => {
                let n = 1 + world::usz(4);
                let parts: Vec<&[u8]> = c.chunks((c.len() / n).max(1)).collect();
                let o = arm(|| Ber::from_id_iterator(id_ref(&id), parts.iter()));
                self.put(Obj::Ber(o), def(&id, &c))
            }
            14 => {
                // A stream with indefinite length; the contents include the end mark.
                let mut id = id;
                id[0] |= 0x20;
                let mut c: Vec<u8> = tlv(&[4], &c);
                c.extend([0, 0]);
                let mut e = id.clone();
                e.push(0x80);
                e.extend_from_slice(&c);
                let mut r = SimReader::new(&e, Plan::draw(e.len(), &[1, 2]), End::Eof);
                let o = arm(|| Ber::parse(&mut r));
                self.put(Obj::Ber(valid(o, "valid BER")), Should { id, indef: true, c })
            }
            15 => {
                let mut e = tlv(&id, &c);
                spare(&mut e);
                let o = arm(|| unsafe { Ber::from_vec_unchecked(e) });
                self.put(Obj::Ber(o), def(&id, &c))
            }
            16 => {
                let (cl, pc, n) = (world::below(4), world::chance(1, 2), number());
                let p = if pc { PCTag::Constructed } else { PCTag::Primitive };
                let o = arm(|| Id::new(tag(cl), p, n.into()));
                self.put(Obj::Id(o), def(&id_octets(cl as u8, pc, n), &[]))
            }
            17 => {
                let mut r = SimReader::new(&id, Plan::draw(id.len(), &[1]), End::Eof);
                let o = arm(|| Id::parse(&mut r));
                self.put(Obj::Id(valid(o, "a valid identifier")), def(&id, &[]))
            }
            18 => {
                let c = if world::chance(1, 4) { vec![] } else { c };
                let mut v = c.clone();
                spare(&mut v);
                let o = arm(|| Contents::from(v));
                self.put(Obj::Contents(o), def(&[], &c))
            }
            19 => {
                let o = match world::below(2) {
                    0 => arm(|| Contents::from(&c[..])),
                    _ => arm(|| <&ContentsRef>::from(&c[..]).to_owned()),
                };
                self.put(Obj::Contents(o), def(&[], &c))
            }
            20 => int!(i64),
            21 => int!(u128),
            22 => int!(bool),
            _ => int!(i16),
        }
    }

    /// Number of a live object of the wanted kind.
    fn some(&self, want: impl Fn(&Obj) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.live.len()).filter(|i| want(&self.live[*i].0)).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[world::usz(c.len())])
        }
    }

    pub fn step(&mut self) -> Res {
        let element = |o: &Obj| matches!(o, Obj::Der(_) | Obj::Ber(_));
        let op = world::weighted(&[3, 3, 4, 4, 3, 2, 3, 2, 3, 2, 1, 2, 2, 2]);
        let size: usize = self.live.iter().map(|l| l.1.c.len()).sum();
        world::ev(Ev::Edit, op as u64, size as u64);
        match op {
            0 => self.create(),
            1 => {
                if let Some(i) = self.some(element) {
                    let b = world::below(256) as u8;
                    let (o, s) = &mut self.live[i];
                    match o {
                        Obj::Der(d) => arm(|| d.push(b)),
                        Obj::Ber(d) => arm(|| d.push(b)),
                        _ => {}
                    }
                    s.c.push(b);
                }
            }
            2 => {
                if let Some(i) = self.some(element) {
                    let have = self.live[i].1.c.len();
                    // To a size of interest, or by one.
                    let to = model::size(self.cap);
                    let n = if to > have { to - have } else { world::usz(3) };
                    let add = model::bytes(n);
                    let (o, s) = &mut self.live[i];
                    match o {
                        Obj::Der(d) => arm(|| d.extend_from_slice(&add)),
                        Obj::Ber(d) => arm(|| d.extend_from_slice(&add)),
                        _ => {}
                    }
                    s.c.extend_from_slice(&add);
                }
            }
            3 => {
                if let Some(i) = self.some(element) {
                    let have = self.live[i].1.c.len();
                    let n = match world::below(4) {
                        0 => world::usz(have + 1),
                        1 => have + world::usz(3),
                        2 => have.saturating_sub(1 + world::usz(2)),
                        _ => model::size(self.cap),
                    };
                    let (o, s) = &mut self.live[i];
                    match o {
                        Obj::Der(d) => arm(|| d.truncate(n)),
                        Obj::Ber(d) => arm(|| d.truncate(n)),
                        _ => {}
                    }
                    s.c.truncate(n);
                }
            }
            4 => {
                if let Some(i) = self.some(|o| !matches!(o, Obj::Contents(_))) {
                    let what = world::below(3);
                    let cl = world::below(4);
                    let pc = world::chance(1, 2);
                    let (o, s) = &mut self.live[i];
                    let p = if pc { PCTag::Constructed } else { PCTag::Primitive };
                    arm(|| {
                        let r: &mut IdRef = match o {
                            Obj::Der(d) if what == 2 => d.disassemble_mut().0,
                            Obj::Ber(d) if what == 2 => d.disassemble_mut().0,
                            Obj::Der(d) => d.mut_id(),
                            Obj::Ber(d) => d.mut_id(),
                            Obj::Id(d) => d,
                            _ => return,
                        };
                        if what != 1 {
                            r.set_class(tag(cl));
                        }
                        if what != 0 {
                            r.set_pc(p);
                        }
                    });
                    if what != 1 {
                        s.id[0] = s.id[0] & 0x3f | (cl as u8) << 6;
                    }
                    if what != 0 {
                        s.id[0] = s.id[0] & 0xdf | (pc as u8) << 5;
                    }
                }
            }
            5 => {
                if let Some(i) = self.some(|o| matches!(o, Obj::Id(_))) {
                    let n = number();
                    if let (Obj::Id(d), s) = &mut self.live[i] {
                        arm(|| d.set_number(n.into()));
                        s.id = id_octets(s.id[0] >> 6, s.id[0] & 0x20 != 0, n);
                    }
                }
            }
            6 => {
                if let Some(i) = self.some(|o| !matches!(o, Obj::Id(_))) {
                    let len = self.live[i].1.c.len();
                    let at = world::usz(len + 1);
                    let n = if at == len { 0 } else { world::usz((len - at).min(40) + 1) };
                    let b = model::bytes(n);
                    let dis = world::chance(1, 2);
                    let (o, s) = &mut self.live[i];
                    arm(|| {
                        let c: &mut [u8] = match o {
                            Obj::Der(d) if dis => d.disassemble_mut().2.as_mut(),
                            Obj::Ber(d) if dis => d.disassemble_mut().2.as_mut(),
                            Obj::Der(d) => d.mut_contents().as_mut(),
                            Obj::Ber(d) => d.mut_contents().as_mut(),
                            Obj::Contents(d) => d.as_mut(),
                            _ => return,
                        };
                        if c.len() == len {
                            c[at..at + n].copy_from_slice(&b);
                        }
                    });
                    s.c[at..at + n].copy_from_slice(&b);
                }
            }
            7 => {
                if let Some(i) = self.some(|_| true) {
                    let (o, s) = &self.live[i];
                    let s = s.clone();
                    let o = match o {
                        Obj::Der(d) => Obj::Der(arm(|| d.clone())),
                        Obj::Ber(d) => Obj::Ber(arm(|| d.clone())),
                        Obj::Id(d) => Obj::Id(arm(|| d.clone())),
                        Obj::Contents(d) => Obj::Contents(arm(|| d.clone())),
                    };
                    self.put(o, s);
                }
            }
            8 => {
                // To a vector and back.
                if let Some(i) = self.some(element) {
                    let (o, s) = self.live.swap_remove(i);
                    let want = s.octets(&o);
                    let der = matches!(o, Obj::Der(_));
                    let mut v = match o {
                        Obj::Der(d) => arm(|| d.into_vec()),
                        Obj::Ber(d) => arm(|| d.into_vec()),
                        _ => unreachable!(),
                    };
                    if v != want {
                        fail!("vector", "into_vec gives {} instead of {}", hex(&v), hex(&want));
                    }
                    if v.capacity() < v.len() {
                        fail!("vector", "vector of {} octets with room for {}", v.len(), v.capacity());
                    }
                    spare(&mut v);
                    match world::below(4) {
                        0 => {}
                        1 => {
                            let o = arm(|| Contents::from(v));
                            self.put(Obj::Contents(o), Should { id: vec![], indef: false, c: want });
                        }
                        _ if der => {
                            let o = arm(|| unsafe { Der::from_vec_unchecked(v) });
                            self.put(Obj::Der(o), s);
                        }
                        _ => {
                            let o = arm(|| unsafe { Ber::from_vec_unchecked(v) });
                            self.put(Obj::Ber(o), s);
                        }
                    }
                }
            }
            9 => {
                if let Some(i) = self.some(element) {
                    let (o, s) = self.live.swap_remove(i);
                    let by_ref = world::chance(1, 2);
                    let o = match o {
                        Obj::Der(d) if by_ref => Obj::Ber(arm(|| Ber::from(&d as &DerRef))),
                        Obj::Der(d) => Obj::Ber(arm(|| Ber::from(d))),
                        Obj::Ber(d) if !s.indef => {
                            let b: &[u8] = d.as_ref();
                            match arm(|| DerRef::parse(&mut &b[..]).map(Der::from)) {
                                Ok(d) => Obj::Der(d),
                                Err(e) => fail!("convert", "{} is refused as DER: {e:?}", hex(b)),
                            }
                        }
                        Obj::Ber(d) => Obj::Ber(arm(|| Ber::from(&d as &BerRef))),
                        o => o,
                    };
                    self.put(o, s);
                }
            }
            10 => {
                let n = self.live.len();
                if n > 0 {
                    let (i, j) = (world::usz(n), world::usz(n));
                    if i != j && world::chance(1, 2) {
                        let (a, b) = self.live.split_at_mut(i.max(j));
                        std::mem::swap(&mut a[i.min(j)], &mut b[0]);
                    } else {
                        drop(self.live.swap_remove(i));
                    }
                }
            }
            11 => {
                // Parts of elements become objects.
                if let Some(i) = self.some(element) {
                    let (o, s) = &self.live[i];
                    let part_id = world::chance(1, 2);
                    let s = s.clone();
                    let new = arm(|| match o {
                        Obj::Der(d) if part_id => Obj::Id(d.id().to_owned()),
                        Obj::Der(d) => Obj::Contents(d.contents().to_owned()),
                        Obj::Ber(d) if part_id => Obj::Id(Id::from(d.id())),
                        Obj::Ber(d) => Obj::Contents(Contents::from(d.contents())),
                        _ => unreachable!(),
                    });
                    self.put(new, Should { indef: false, ..s });
                }
            }
            12 => {
                // An element out of others, or appended to another one.
                let (i, j) = (self.some(|o| !matches!(o, Obj::Contents(_))), self.some(|o| !matches!(o, Obj::Id(_))));
                if let (Some(i), Some(j)) = (i, j) {
                    if self.live[i].1.c.len() + self.live[j].1.c.len() > 4 * self.cap + 64 {
                        return Ok(());
                    }
                    let how = world::below(4);
                    let id = self.live[i].1.id.clone();
                    let c = self.live[j].1.c.clone();
                    let whole = self.live[j].1.octets(&self.live[j].0);
                    if how == 0 {
                        let add: Vec<u8> = disarm(|| whole.clone());
                        let (o, s) = &mut self.live[i];
                        match o {
                            Obj::Der(d) => arm(|| d.extend_from_slice(&add)),
                            Obj::Ber(d) => arm(|| d.extend_from_slice(&add)),
                            _ => return Ok(()),
                        }
                        s.c.extend_from_slice(&add);
                        return Ok(());
                    }
                    let a: &IdRef = match &self.live[i].0 {
                        Obj::Der(d) => d.id(),
                        Obj::Ber(d) => d.id(),
                        Obj::Id(d) => d,
                        _ => unreachable!(),
                    };
                    let b: &ContentsRef = match &self.live[j].0 {
                        Obj::Der(d) => d.contents(),
                        Obj::Ber(d) => d.contents(),
                        Obj::Contents(d) => d,
                        _ => unreachable!(),
                    };
                    let (o, c) = match how {
                        1 => (Obj::Der(arm(|| Der::new(a, b))), c),
                        2 => (Obj::Ber(arm(|| Ber::new(a, b))), c),
                        _ => {
                            let two = [b.as_ref() as &[u8], b.as_ref()];
                            (Obj::Der(arm(|| Der::from_id_iterator(a, two.iter()))), [&c[..], &c[..]].concat())
                        }
                    };
                    self.put(o, Should { id, indef: false, c });
                }
            }
            _ => {
                // In place, inside a larger buffer.
                let id = model::gen_id(None);
                let c = self.contents();
                let e = tlv(&id, &c);
                let mut buf = vec![0x55; 3];
                buf.extend_from_slice(&e);
                buf.extend([0xaa; 5]);
                let cl = world::below(4);
                let fill = world::below(256) as u8;
                let at = world::usz(c.len() + 1);
                let ber = world::chance(1, 2);
                let mut want = e.clone();
                want[0] = want[0] & 0x3f | (cl as u8) << 6;
                if at < c.len() {
                    let h = e.len() - c.len();
                    want[h + at] = fill;
                }
                let got = arm(|| {
                    let mut s = &mut buf[3..];
                    let (i, m) = if ber {
                        let d = BerRef::parse_mut(&mut s)?;
                        let (i, _, m) = d.disassemble_mut();
                        (i, m)
                    } else {
                        let d = DerRef::parse_mut(&mut s)?;
                        let (i, _, m) = d.disassemble_mut();
                        (i, m)
                    };
                    i.set_class(tag(cl));
                    let m: &mut [u8] = m.as_mut();
                    if at < m.len() {
                        m[at] = fill;
                    }
                    Ok::<usize, bsn1::Error>(s.len())
                });
                match got {
                    Ok(5) => {}
                    Ok(n) => fail!("in place", "{n} octets left behind the element instead of 5"),
                    Err(e) => fail!("in place", "valid element refused: {e:?}"),
                }
                if buf[..3] != [0x55; 3] || buf[3 + e.len()..] != [0xaa; 5] {
                    fail!("in place", "octets around the element changed: {}", hex(&buf));
                }
                if buf[3..3 + e.len()] != want[..] {
                    fail!("in place", "{} instead of {}", hex(&buf[3..]), hex(&want));
                }
                let s = Should { id: want[..id.len()].to_vec(), indef: false, c: want[e.len() - c.len()..].to_vec() };
                let o = arm(|| unsafe { Ber::from_bytes_unchecked(&want) });
                self.put(Obj::Ber(o), s);
            }
        }
        Ok(())
    }

    /// Compares every live object with what it should be.
    pub fn check(&self) -> Res {
        for (o, s) in &self.live {
            let want = s.octets(o);
            let (name, got): (_, &[u8]) = match o {
                Obj::Der(d) => ("Der", d.as_ref()),
                Obj::Ber(d) => ("Ber", d.as_ref()),
                Obj::Id(d) => ("Id", d.as_ref()),
                Obj::Contents(d) => ("Contents", d.as_ref()),
            };
            if got != &want[..] {
                fail!("octets", "{name} holds {} instead of {}{}", hex(got), hex(&want), at(got, &want));
            }
            let parts = arm(|| match o {
                Obj::Der(d) => Some((d.id(), d.length(), d.contents(), d.disassemble())),
                Obj::Ber(d) => Some((d.id(), d.length(), d.contents(), d.disassemble())),
                _ => None,
            });
            if let Some((i, l, c, (i2, l2, c2))) = parts {
                let len = if s.indef { None } else { Some(s.c.len()) };
                for (i, l, c) in [(i, l, c), (i2, l2, c2)] {
                    let (i, c): (&[u8], &[u8]) = (i.as_ref(), c.as_ref());
                    if i != &s.id[..] || l.definite() != len || c != &s.c[..] {
                        fail!(
                            "parts",
                            "{name} {} reads as {} {:?} {}",
                            hex(&want),
                            hex(i),
                            l.definite(),
                            hex(c)
                        );
                    }
                }
            }
            if let Obj::Id(d) = o {
                let n = arm(|| d.number()).ok();
                let want = number_of(&s.id);
                if n != want.map(|n| n.into()) {
                    fail!("number", "identifier {} has number {n:?}", hex(&s.id));
                }
                let c = arm(|| (d.class(), d.pc()));
                if c.0 as u8 != s.id[0] & 0xc0 || c.1 as u8 != s.id[0] & 0x20 {
                    fail!("number", "identifier {} reads as {c:?}", hex(&s.id));
                }
                let class = arm(|| [d.is_universal(), d.is_application(), d.is_context_specific(), d.is_private()]);
                let pc = arm(|| [d.is_primitive(), d.is_constructed()]);
                let set = |n: usize, i: u8| (0..n).map(|k| k == i as usize).collect::<Vec<_>>();
                if class[..] != set(4, s.id[0] >> 6)[..] || pc[..] != set(2, s.id[0] >> 5 & 1)[..] {
                    fail!("number", "identifier {} answers {class:?} {pc:?}", hex(&s.id));
                }
            }
        }
        Ok(())
    }

    pub fn digest(&self) -> String {
        let mut h = 7;
        for (o, _) in &self.live {
            let b: &[u8] = match o {
                Obj::Der(d) => d.as_ref(),
                Obj::Ber(d) => d.as_ref(),
                Obj::Id(d) => d.as_ref(),
                Obj::Contents(d) => d.as_ref(),
            };
            h = crate::rng::mix(h, crate::rng::hash_bytes(b));
        }
        format!("{} objects, digest {h:x}", self.live.len())
    }
}

fn at(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(" (first difference at {i})"),
        None => format!(" ({} and {} octets)", a.len(), b.len()),
    }
}

/// More or less room than needed.
/// The same octets in a vector with more or less room than needed, which the library is to
/// release.
fn spare(v: &mut Vec<u8>) {
    match world::below(4) {
        0 => {}
        1 => v.shrink_to_fit(),
        2 => {
            let n = 1 + world::usz(64);
            arm(|| v.reserve(n))
        }
        _ => {
            let n = v.len() + world::pick(&[0, 1, 40]);
            *v = arm(|| {
                let mut w = Vec::with_capacity(n);
                w.extend_from_slice(v);
                w
            });
        }
    }
}

