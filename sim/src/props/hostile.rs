//! C11: whatever bytes arrive.

use bsn1::{Ber, BerRef};
use crate::alloc::arm;
use crate::run::guarded;
use crate::io::{offset, End, Plan, SimReader};
use crate::model::{self, hex};
use crate::ops::{self, agree, show, Fun, Out};
use crate::types;
use crate::world::{self, Ev, Res};
use std::collections::HashMap;

/// Nested headers, as deep as allowed.
fn deep() -> Vec<u8> {
    let n = 1 + world::usz(128);
    let indef = world::below(3);
    let mut v = match world::below(4) {
        0 => vec![],
        1 => vec![0x61, 3, 2, 1, 5],
        2 => vec![2, 1, 7],
        _ => vec![0x63, 4, 0x41, 2, 1, 2],
    };
    let tree = world::chance(2, 3);
    for i in 0..n {
        for id in if tree { [0x30u8, 0x62] } else { [0x30, 0x30] } {
            let ind = match indef {
                0 => false,
                1 => true,
                _ => i % 2 == 0,
            };
            v = if ind {
                let mut w = vec![id, 0x80];
                w.extend(v);
                w.extend([0, 0]);
                w
            } else {
                model::tlv(&[id], &v)
            };
        }
    }
    v
}

/// A header invented for the type: right identifier, wrong everything else.
fn invented(t: &'static dyn types::TypeDesc) -> Vec<u8> {
    let id = t.gen(10).node().id;
    let body = match world::below(4) {
        0 => model::bytes(model::size(40)),
        1 => {
            let n = world::usz(4);
            (0..n).flat_map(|_| model::gen_node(1, 20).der()).collect()
        }
        2 => {
            let n = world::usz(4);
            (0..n).flat_map(|_| types::draw_type().gen(10).node().der()).collect()
        }
        _ => vec![],
    };
    if world::chance(1, 4) {
        let mut v = id;
        v.push(0x80);
        v.extend(body);
        v.extend([0, 0]);
        v
    } else {
        model::tlv(&id, &body)
    }
}

/// The parts of an encoding in another order, lost or doubled, with the frame adjusted.
fn reshuffle(d: &[u8]) -> Vec<u8> {
    let e = match model::parse_der_at(d) {
        Ok(e) => e,
        Err(_) => return d.to_vec(),
    };
    let parts = match model::split(&d[e.head..e.total]) {
        Ok(p) if !p.is_empty() => p,
        _ => return d.to_vec(),
    };
    let mut parts: Vec<Vec<u8>> = parts.iter().map(|p| p.to_vec()).collect();
    let n = parts.len();
    let i = world::usz(n);
    world::ev(Ev::Corrupt, i as u64, 20);
    match world::below(6) {
        0 => {
            parts.remove(i);
        }
        1 => {
            let p = parts[i].clone();
            parts.insert(i, p);
        }
        2 => {
            let j = world::usz(n);
            parts.swap(i, j);
        }
        3 => parts[i] = reshuffle(&parts[i]),
        4 => parts.insert(i, model::gen_node(1, 20).der()),
        _ => {
            // The contents of a part change, its frame is right.
            let q = model::parse_der_at(&parts[i]).unwrap();
            let mut c = parts[i][q.head..].to_vec();
            let at = offset(c.len(), &[]);
            match world::below(4) {
                0 if at < c.len() => c[at] ^= 1 << world::below(8),
                1 => c.insert(at, world::pick(&[0, 0xff, 0x80, 0x7f])),
                2 if at < c.len() => {
                    c.remove(at);
                }
                _ => c.clear(),
            }
            let id = parts[i][..q.id_len].to_vec();
            parts[i] = model::tlv(&id, &c);
        }
    }
    model::tlv(&d[..e.id_len], &parts.concat())
}

/// Identifier, contents without the end mark, for one element.
fn open(b: &[u8], ber: bool) -> Option<(&[u8], &[u8])> {
    let e = if ber { model::parse_ber_at(b) } else { model::parse_der_at(b) }.ok()?;
    let c = &b[e.head..e.total];
    Some((&b[..e.id_len], if e.indef { &c[..c.len() - 2] } else { c }))
}

fn parts(mut c: &[u8], ber: bool) -> Option<Vec<&[u8]>> {
    let mut v = vec![];
    while !c.is_empty() {
        let e = if ber { model::parse_ber_at(c) } else { model::parse_der_at(c) }.ok()?;
        v.push(&c[..e.total]);
        c = &c[e.total..];
    }
    Some(v)
}

/// Compares octets received, in BER or DER, with an encoding in DER.
#[derive(Default)]
struct Same {
    ber: bool,
    /// Parts may be in another order and merged.
    sets: bool,
    known: HashMap<(*const u8, *const u8), bool>,
}

impl Same {
    /// Tells if `got` stands for what `der` stands for.
    fn denotes(&mut self, got: &[u8], der: &[u8]) -> bool {
        let at = (got.as_ptr(), der.as_ptr());
        if let Some(k) = self.known.get(&at) {
            return *k;
        }
        let k = self.look(got, der).unwrap_or(false);
        self.known.insert(at, k);
        k
    }

    fn look(&mut self, got: &[u8], der: &[u8]) -> Option<bool> {
        let ((i, c), (j, d)) = (open(got, self.ber)?, open(der, false)?);
        let string = self.ber && matches!((i, j), ([0x24], [4]) | ([0x2c], [0x0c]));
        if i != j && !string {
            return None;
        }
        if c == d {
            return Some(true);
        }
        if self.ber && i == [1] {
            return Some(c.len() == 1 && d.len() == 1 && (c[0] == 0) == (d[0] == 0));
        }
        // (Derived types may carry parts under any identifier.)
        let (c, d) = (parts(c, self.ber)?, parts(d, false)?);
        if c.len() == d.len() && c.iter().zip(&d).all(|(a, b)| self.denotes(a, b)) {
            return Some(true);
        }
        if !self.sets {
            return None;
        }
        let all = d.iter().all(|b| c.iter().any(|a| self.denotes(a, b)))
            && c.iter().all(|a| d.iter().any(|b| self.denotes(a, b) || self.key(a, b).unwrap_or(false)));
        Some(all)
    }

    fn key(&mut self, got: &[u8], der: &[u8]) -> Option<bool> {
        let (a, b) = (open(got, self.ber)?.1, open(der, false)?.1);
        match (&parts(a, self.ber)?[..], &parts(b, false)?[..]) {
            ([k, _], [l, _]) => Some(self.denotes(k, l)),
            _ => None,
        }
    }
}

/// Nesting without bounds, on the stack that threads get by default.
fn abyss() -> Res {
    let d = world::pick(&[300usize, 3000, 33_000, 70_000, 300_000]);
    let id = world::pick(&[0x30u8, 0x31, 0x62, 0x24]);
    let closed = (d + 1 - world::usz(3)).min(d + 1);
    let mut v = [id, 0x80].repeat(d);
    v.extend([0x04, 0x02, 0, 0]);
    v.extend(vec![0; 2 * closed]);
    let whole = 4 * d + 4;
    world::ev(Ev::PeerIndef, d as u64, closed as u64);
    world::note(|| format!("{d} levels, {closed} of them closed"));
    let want = if closed >= d { Ok(whole) } else { Err("UnterminatedBytes") };
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut got: Vec<(&str, Result<usize, &'static str>)> = vec![];
        let mut r = &v[..];
        let b = Ber::parse(&mut r);
        let used = v.len() - r.len();
        got.push(("Ber::parse", b.map(|b| b.clone().into_vec().len().max(used)).map_err(|e| ops::kind(&e))));
        let mut r = &v[..];
        got.push(("BerRef::parse", BerRef::parse(&mut r).map(|b| b.to_owned().into_vec().len()).map_err(|e| ops::kind(&e))));
        let mut c = v.clone();
        let mut r = &mut c[..];
        got.push(("BerRef::parse_mut", BerRef::parse_mut(&mut r).map(|b| AsRef::<[u8]>::as_ref(b).len()).map_err(|e| ops::kind(&e))));
        // No value of these types is that deep.
        let mut typed = vec![];
        typed.push(bsn1_serde::read_ber::<_, Vec<Vec<i64>>>(&mut &v[..]).is_ok());
        typed.push(bsn1_serde::parse_ber::<std::collections::HashMap<u8, Vec<u8>>>(&mut &v[..]).is_ok());
        (got, typed)
    });
    match t.expect("thread").join() {
        Ok((got, typed)) => {
            for (f, g) in got {
                if g != want {
                    fail!("deep", "{f} gives {g:?} instead of {want:?} for {d} levels, {closed} closed");
                }
            }
            if typed.contains(&true) {
                fail!("deep", "{d} levels are taken for a value");
            }
        }
        Err(_) => fail!("panic", "the library panicked on {d} levels, {closed} closed"),
    }
    Ok(())
}

/// Collections with as many members as counters of 8 or 16 bits cannot count.
fn crowd() -> Res {
    use std::collections::*;
    let n = world::pick(&[254usize, 255, 256, 257, 300, 65_534, 65_535, 65_536, 65_537, 70_000]);
    let pairs = world::chance(1, 2);
    let ber = world::chance(1, 2);
    let broken = world::chance(1, 3);
    let one: &[u8] = if pairs { &[0x30, 6, 2, 1, 0, 2, 1, 5] } else { &[2, 1, 5] };
    let mut body = one.repeat(n);
    if pairs {
        for (i, e) in body.chunks_mut(8).enumerate() {
            e[4] = (i % 100) as u8;
        }
    }
    if broken {
        // The last one is not a number.
        let at = body.len() - 3;
        body[at] = 4;
    }
    let mut sets = vec![];
    let mut lists = vec![];
    let kinds = world::below(2);
    let id = if kinds == 1 { 0x31 } else { 0x30 };
    let v = if ber && world::chance(1, 2) {
        [&[id, 0x80][..], &body, &[0, 0]].concat()
    } else {
        model::tlv(&[id], &body)
    };
    world::ev(Ev::Op, n as u64, kinds);
    world::note(|| format!("{n} members, pairs {pairs}, under {id:02x}, ber {ber}, last one broken {broken}"));
    macro_rules! dec {
        ($t:ty) => {{
            let v = &v[..];
            let s = guarded(|| arm(|| if ber { bsn1_serde::read_ber::<_, $t>(&mut &v[..]) } else { bsn1_serde::read_der(&mut &v[..]) }))?;
            let m = guarded(|| arm(|| if ber { bsn1_serde::parse_ber::<$t>(&mut &v[..]) } else { bsn1_serde::parse_der(&mut &v[..]) }))?;
            [s, m].map(|r| r.map(|r| r.map(|c| c.len()).map_err(|e| ops::kind(&e))))
        }};
    }
    match (kinds, pairs) {
        (0, false) => {
            lists.extend(dec!(Vec<u8>));
            lists.extend(dec!(VecDeque<i16>));
            lists.extend(dec!(LinkedList<u64>));
            sets.extend(dec!(BTreeSet<i8>));
        }
        (_, false) => sets.extend(dec!(HashSet<u32>)),
        (0, true) => sets.extend(dec!(BTreeMap<u8, i64>)),
        _ => sets.extend(dec!(HashMap<u16, u8>)),
    }
    let distinct = if pairs { n.min(100) } else { 1 };
    for (got, len) in lists.iter().map(|g| (g, n)).chain(sets.iter().map(|g| (g, distinct))) {
        match got {
            Some(Ok(l)) if !broken && *l == len => {}
            Some(Err(_)) if broken => {}
            g => fail!("crowd", "{n} members, last one broken {broken}: {g:?} instead of {len}"),
        }
    }
    Ok(())
}

pub fn c11() -> Res {
    if world::chance(1, 500) {
        return if world::chance(1, 2) { crowd() } else { abyss() };
    }
    let t = types::draw_type();
    let cap = world::pick(&[60, 20, 300, 5000]);
    let source = if world::chance(1, 6) { types::draw_type() } else { t };
    let (mut data, marks) = match world::weighted(&[6, 1, 2, 3]) {
        0 => {
            let node = source.gen(cap).node();
            let mut m = vec![];
            node.marks(0, &mut m);
            let d = if world::chance(1, 2) { node.der() } else { ops::ber(&node) };
            (d, m)
        }
        1 => (deep(), vec![]),
        2 => (invented(t), vec![1, 2]),
        _ => {
            let node = source.gen(cap).node();
            (reshuffle(&node.der()), vec![])
        }
    };
    let n = world::usz(4);
    for _ in 0..n {
        model::corrupt(&mut data, &marks);
    }
    let fun = if world::chance(1, 2) { Fun::TDer(t) } else { Fun::TBer(t) };
    world::note(|| format!("{} reads {}", fun.name(), hex(&data)));
    world::digest(data.len() as u64);

    let mut mem = &data[..];
    let a = fun.memory(&mut mem);
    let used = data.len() - mem.len();
    let mut r = SimReader::new(&data, Plan::draw(data.len(), &marks), End::Eof);
    let b = fun.read(&mut r);
    if !agree(&a, &b) {
        fail!("differs", "{}: memory gives {}, stream {} for {}", fun.name(), show(&a), show(&b), hex(&data));
    }
    let ext = fun.extent(&data);
    match (&a, ext) {
        (Ok(_), Ok(n)) => {
            if used != n || r.pos != n {
                fail!("extent", "{} took {used} and {} of {n} octets", fun.name(), r.pos);
            }
        }
        (Ok(v), Err(b)) => fail!("accepts", "{} gives {} for {} ({b:?})", fun.name(), v.show(), hex(&data)),
        (Err(_), Ok(n)) => {
            if r.pos > n {
                fail!("past", "{} read {} octets of an element of {n}", fun.name(), r.pos);
            }
        }
        _ => {}
    }
    // Nothing further is decoded than what is there.
    let ber = matches!(fun, Fun::TBer(_));
    if let (Ok(Out::Val(v)), true) = (&a, ber || t.setlike()) {
        match v.to_der() {
            Ok(d) => {
                let d: &[u8] = d.as_ref();
                if !(Same { ber, sets: t.setlike(), ..Same::default() }).denotes(&data[..used], d) {
                    fail!(
                        "denotes",
                        "{} of {} gives {} which encodes to {}",
                        fun.name(),
                        hex(&data[..used]),
                        v.show(),
                        hex(d)
                    );
                }
            }
            Err(e) => fail!("denotes", "{} cannot be encoded again: {}", v.show(), ops::kind(&e)),
        }
    }
    if let (Ok(Out::Val(v)), Fun::TDer(_), false) = (&a, fun, t.setlike()) {
        match v.to_der() {
            Ok(d) => {
                let d: &[u8] = d.as_ref();
                if d != &data[..used] {
                    fail!(
                        "denotes",
                        "{} of {} gives {} which encodes to {}",
                        fun.name(),
                        hex(&data[..used]),
                        v.show(),
                        hex(d)
                    );
                }
            }
            Err(e) => fail!("denotes", "{} cannot be encoded again: {}", v.show(), ops::kind(&e)),
        }
    }
    Ok(())
}
