//! C01 to C05: reading.

use crate::alloc;
use crate::alloc::{arm, disarm};
use crate::io::{offset, End, Fault, Plan, SimReader};
use crate::model::{self, hex, Bad};
use crate::ops::{self, agree, io_cause, kind, show, Fun, Out};
use crate::types;
use crate::world::{self, Ev, Res};
use bsn1::{BerRef, DerRef, Error, IdRef};
use std::sync::atomic::Ordering::SeqCst;

/// Offsets of an input that has other octets in front.
fn shift(marks: &[usize], by: usize) -> Vec<usize> {
    marks.iter().map(|m| m + by).collect()
}

pub fn c01() -> Res {
    let huge = model::huge();
    let fun = if huge { Fun::long() } else { Fun::draw() };
    let cap = if huge { model::HUGE } else { world::pick(&[300, 40, 9000, 70_000]) };
    let (mut data, marks, _) = fun.gen(cap);
    if world::chance(1, 3) {
        let n = 1 + world::usz(3);
        for _ in 0..n {
            model::corrupt(&mut data, &marks);
        }
    } else if let (Fun::TDer(_) | Fun::TBer(_), true) = (fun, world::chance(1, 6)) {
        // A value of another type.
        let other = types::draw_type();
        data = other.gen(cap).node().der();
    }
    // Other octets follow.
    let tail = world::usz(4);
    data.extend(model::bytes(tail));
    world::note(|| format!("{} reads {}", fun.name(), hex(&data)));

    let mut mem = &data[..];
    let want = fun.memory(&mut mem);
    let used = data.len() - mem.len();
    let plan = Plan::draw(data.len(), &marks);
    world::note(|| format!("{plan:?}"));
    let mut r = SimReader::new(&data, plan, End::Eof);
    let got = fun.read(&mut r);
    if !agree(&got, &want) {
        fail!(
            "differs",
            "{} from a stream gives {}, from memory {}, for {}",
            fun.name(),
            show(&got),
            show(&want),
            hex(&data)
        );
    }
    // Both against the model.
    if let (Ok(v), Ok(n)) = (&got, fun.extent(&data)) {
        if r.pos != n || used != n {
            fail!("extent", "{} took {} octets, {} in memory, not {n}", fun.name(), r.pos, used);
        }
        match (v, fun) {
            (Out::Octets(o), _) if o[..] != data[..n] => {
                fail!("octets", "{} gives {} for {}", fun.name(), hex(o), hex(&data[..n]))
            }
            (Out::Len(l), _) if *l != model::parse_len_at(&data).unwrap().1 => {
                fail!("octets", "{} gives {l:?} for {}", fun.name(), hex(&data[..n]))
            }
            _ => {}
        }
    } else if let (Ok(_), Err(b)) = (&got, fun.extent(&data)) {
        fail!("accepts", "{} accepts {} which is {b:?}", fun.name(), hex(&data));
    } else if let (Err(e), Ok(_), Fun::Id | Fun::Len | Fun::Der | Fun::Ber) =
        (&got, fun.extent(&data), fun)
    {
        fail!("refuses", "{} refuses {}: {}", fun.name(), hex(&data), kind(e));
    }
    Ok(())
}

struct Item {
    fun: Fun,
    data: Vec<u8>,
    marks: Vec<usize>,
    /// The value to expect, or an error for octets of another type.
    val: Option<types::BVal>,
    mismatch: bool,
}

fn gen_item(cap: usize) -> Item {
    let fun = Fun::draw();
    let (data, marks, val) = fun.gen(cap);
    if let (Fun::TDer(_) | Fun::TBer(_), true) = (fun, world::chance(1, 4)) {
        // Well formed, but perhaps not of that type.
        let (data, marks) = match world::below(3) {
            0 => {
                let n = model::gen_node(3, cap);
                let mut m = vec![];
                n.marks(0, &mut m);
                (n.der(), m)
            }
            1 => {
                let n = types::draw_type().gen(cap).node();
                let mut m = vec![];
                n.marks(0, &mut m);
                (n.der(), m)
            }
            _ => {
                // Damaged inside: the frame stays.
                let mut d = data;
                let e = model::parse_ber_at(&d).unwrap();
                if d.len() > e.head && !e.indef {
                    let at = e.head + world::usz(d.len() - e.head);
                    d[at] ^= 1 << world::below(8);
                    world::ev(Ev::Corrupt, at as u64, 0);
                }
                (d, marks)
            }
        };
        return Item { fun, data, marks, val: None, mismatch: true };
    }
    Item { fun, data, marks, val, mismatch: false }
}

fn check_item(it: &Item, got: &ops::OutRes) -> Res {
    match got {
        Ok(_) if it.mismatch => {}
        Err(_) if it.mismatch => {}
        Err(e) => fail!("refused", "{} refuses {}: {}", it.fun.name(), hex(&it.data), kind(e)),
        Ok(Out::Octets(o)) => {
            if *o != it.data {
                fail!("octets", "{} gives {} for {}", it.fun.name(), hex(o), hex(&it.data));
            }
        }
        Ok(Out::Len(l)) => {
            if *l != model::parse_len_at(&it.data).unwrap().1 {
                fail!("octets", "{} gives {l:?} for {}", it.fun.name(), hex(&it.data));
            }
        }
        Ok(Out::Val(v)) => {
            if !it.val.as_ref().is_none_or(|w| w.same(&**v)) {
                fail!("value", "{} gives {} for {}", it.fun.name(), v.show(), hex(&it.data));
            }
        }
    }
    Ok(())
}

pub fn c02() -> Res {
    let n = 1 + world::usz(5);
    let cap = world::pick(&[200, 30, 9000, 30_000]);
    let items: Vec<Item> = (0..n).map(|_| gen_item(cap)).collect();
    if world::chance(1, 2) {
        // A peer that sends the next element only after this one has been answered.
        for (i, it) in items.iter().enumerate() {
            world::ev(Ev::Turn, i as u64, it.data.len() as u64);
            world::note(|| format!("{} reads {}", it.fun.name(), hex(&it.data)));
            let plan = Plan::draw(it.data.len(), &it.marks);
            let mut r = SimReader::new(&it.data, plan, End::Silence);
            let got = it.fun.read(&mut r);
            if r.pos != it.data.len() {
                fail!(
                    "early",
                    "{} took {} of {} octets: {} gives {}",
                    it.fun.name(),
                    r.pos,
                    it.data.len(),
                    hex(&it.data),
                    show(&got)
                );
            }
            check_item(it, &got)?;
        }
    } else {
        // Everything is already there.
        let mut all = vec![];
        let mut marks = vec![];
        for it in &items {
            marks.extend(shift(&it.marks, all.len()));
            marks.truncate(200);
            all.extend_from_slice(&it.data);
        }
        let plan = Plan::draw(all.len(), &marks);
        let mut r = SimReader::new(&all, plan, End::Silence);
        let mut at = 0;
        for it in &items {
            world::ev(Ev::Turn, at as u64, it.data.len() as u64);
            at += it.data.len();
            if let (true, Fun::TBer(_) | Fun::TDer(_)) = (world::chance(1, 4), it.fun) {
                // By hand: identifier, length, contents.
                manual(it, &mut r)?;
            } else {
                let got = it.fun.read(&mut r);
                check_item(it, &got)?;
            }
            if r.pos != at {
                fail!("step", "{} stops at {} instead of {at}", it.fun.name(), r.pos);
            }
        }
    }
    Ok(())
}

fn manual(it: &Item, r: &mut SimReader) -> Res {
    use std::io::Read;
    let base = r.pos;
    let e = model::parse_ber_at(&it.data).unwrap();
    match Fun::Id.read(r) {
        Ok(Out::Octets(o)) if o == it.data[..e.id_len] => {}
        o => fail!("octets", "Id::parse gives {} for {}", show(&o), hex(&it.data)),
    }
    if r.pos != base + e.id_len {
        fail!("step", "Id::parse stops at {} instead of {}", r.pos - base, e.id_len);
    }
    match Fun::Len.read(r) {
        Ok(Out::Len(l)) if l == (!e.indef).then_some(e.total - e.head) => {}
        o => fail!("octets", "Length::parse gives {} for {}", show(&o), hex(&it.data)),
    }
    if r.pos != base + e.head {
        fail!("step", "Length::parse stops at {} instead of {}", r.pos - base, e.head);
    }
    let mut rest = vec![0; e.total - e.head];
    r.read_exact(&mut rest).expect("contents");
    Ok(())
}

/// The error as the caller may pass it on.
fn wrap(e: Error) -> Error {
    let mut e = e;
    for _ in 0..world::usz(4) {
        e = match world::below(3) {
            0 => arm(|| e.context("while reading")),
            1 => arm(|| e.context(String::from("in a request"))),
            _ => arm(|| Error::from(e.into_anyhow().context("outer"))),
        };
    }
    e
}

pub fn c03() -> Res {
    let fun = Fun::draw();
    let cap = world::pick(&[200, 30, 200, 9000, 30_000, 70_000]);
    let (data, marks, _) = fun.gen(cap);
    if data.is_empty() {
        return Ok(());
    }
    let cut = offset(data.len() - 1, &marks);
    let end = match world::weighted(&[1, 2]) {
        0 => End::Eof,
        _ => End::Fail(Fault::draw(), world::seed64()),
    };
    world::note(|| format!("{} reads {} cut at {cut}: {end:?}", fun.name(), hex(&data)));
    let part = &data[..cut];
    let plan = Plan::draw(cut, &marks);
    let mut r = SimReader::new(part, plan, end);
    let got = fun.read(&mut r);
    let e = match got {
        Ok(v) => fail!("value", "{} gives {} for a stream cut at {cut}", fun.name(), v.show()),
        Err(e) => e,
    };
    if r.ended > 1 {
        fail!("retry", "{} asked an ended stream {} times", fun.name(), r.ended);
    }
    let e = wrap(e);
    match end {
        End::Eof => {
            if fun.extent(part) == Err(Bad::Short) && kind(&e) != "UnterminatedBytes" {
                fail!("kind", "{} reports {} for a stream that ended at {cut}", fun.name(), kind(&e));
            }
        }
        End::Fail(f, id) => {
            // That says no more than that the stream has ended.
            let bare_eof = matches!(f, Fault::Simple(std::io::ErrorKind::UnexpectedEof));
            let known = bare_eof && kind(&e) == "UnterminatedBytes";
            if r.ended > 0 && !known && !io_cause(&e).is_some_and(|e| f.is(id, e)) {
                fail!(
                    "cause",
                    "{} reports {} ({e:?}) instead of {:?}",
                    fun.name(),
                    kind(&e),
                    f.make(id)
                );
            }
        }
        End::Silence => {}
    }
    Ok(())
}

pub fn c04() -> Res {
    // A header that promises more than will come, perhaps inside of other elements.
    let mut data = vec![];
    let typed = world::chance(1, 3);
    // The promise is made inside of an element that is all there.
    let inside = typed && world::chance(1, 3);
    let depth = if inside { 0 } else { world::usz(4) };
    for _ in 0..depth {
        data.extend(if typed { vec![0x30] } else { model::gen_id(Some(true)) });
        data.push(0x80);
        if world::chance(1, 3) {
            data.extend(model::gen_node(1, 200).der());
        }
    }
    let honest = !inside && depth == 0 && world::chance(1, 4);
    let len = match world::weighted(&[4, 2, 2, 2]) {
        0 => world::pick(&[
            1usize << 20,
            1 << 24,
            1 << 28,
            1 << 31,
            1 << 32,
            (1 << 32) + 5,
            1 << 40,
            1 << 47,
            1 << 62,
            isize::MAX as usize,
            isize::MAX as usize - 1,
            isize::MAX as usize - 10,
            isize::MAX as usize - 24,
            isize::MAX as usize + 1,
            usize::MAX,
            usize::MAX - 1,
            usize::MAX - 8,
            usize::MAX - 12,
            usize::MAX / 2 + 20,
        ]),
        1 => 1usize << (20 + world::below(44)),
        2 => usize::MAX - world::usz(40),
        _ => isize::MAX as usize - world::usz(60),
    };
    let len = if honest { world::pick(&[1usize << 16, 1 << 18, 1 << 20, 3 << 20]) } else { len };
    data.extend(if typed { world::pick(&[&[4u8][..], &[0x0c], &[0x30], &[0x31]]).to_vec() } else { model::gen_id(None) });
    data.extend(model::len_octets(len));
    world::ev(Ev::Announce, len as u64, data.len() as u64);
    let sent = if honest {
        len
    } else {
        match world::weighted(&[3, 3, 1]) {
            0 => world::usz(40),
            1 => model::size(70_000),
            _ => world::pick(&[100_000usize, 1 << 20, 3 << 20]),
        }
        .min(len - 1)
    };
    let mut head = data.len();
    data.resize(head + sent, 0);
    if inside {
        for _ in 0..1 + world::usz(3) {
            if world::chance(1, 4) {
                data = [model::gen_node(1, 30).der(), data].concat();
            }
            data = model::tlv(&[world::pick(&[0x30, 0x31])], &data);
        }
        head = data.len() - sent;
    }
    let end = match world::below(2) {
        0 => End::Eof,
        _ => End::Fail(Fault::draw(), 1),
    };
    let mut plan = Plan::draw(data.len(), &[head, head + 1]);
    if plan.max > 0 && plan.max < 64 && data.len() > 20_000 {
        plan.max *= 500;
    }
    let of = if inside { types::draw_many() } else { types::draw_type() };
    let fun = match (typed, world::chance(1, 2)) {
        (true, true) => Fun::TDer(of),
        (true, false) => Fun::TBer(of),
        (false, true) => Fun::Der,
        (false, false) => Fun::Ber,
    };
    world::note(|| format!("{} reads {} announced {len}, sent {sent}, {end:?}", fun.name(), hex(&data)));
    alloc::start(alloc::Cfg { budget: true, quarantine: false, in_place: world::chance(1, 2), ..Default::default() });
    if honest || inside {
        alloc::WHOLE.store(data.len() as u64, SeqCst);
    }
    let mut r = SimReader::new(&data, plan, end);
    let got = fun.read(&mut r);
    let peak = alloc::peak();
    drop(r);
    let failed = got.is_err();
    drop(got);
    alloc::stop();
    if let Some((alloc::E_BUDGET, m)) = alloc::take_error() {
        fail!("memory", "{} for an announced length of {len}: {m} (peak {peak})", fun.name());
    }
    if !failed && !honest {
        fail!("value", "{} accepts an element of {len} octets of which {sent} came", fun.name());
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
    Der,
    DerMut,
    Ber,
    BerMut,
    Id,
    IdMut,
    TDer,
    TBer,
}

pub fn c05() -> Res {
    let ber = world::chance(1, 2);
    let n = 1 + world::usz(4);
    let cap = if world::chance(1, 80) { 40_000 } else { world::pick(&[100, 20, 300, 9000]) };
    let mut all = vec![];
    let mut marks = vec![];
    let mut vals = vec![];
    let mut funs = vec![];
    for _ in 0..n {
        let typed = world::chance(1, 3);
        let fun = match (ber, typed) {
            (true, false) => Fun::Ber,
            (false, false) => Fun::Der,
            (true, true) => Fun::TBer(types::draw_type()),
            (false, true) => Fun::TDer(types::draw_type()),
        };
        let (d, m, v) = fun.gen(cap);
        marks.extend(shift(&m, all.len()));
        marks.truncate(200);
        all.extend(d);
        vals.push(v);
        funs.push(fun);
    }
    let damaged = world::chance(1, 5);
    if damaged {
        model::corrupt(&mut all, &marks);
    }
    // Bytes arrive; after each arrival everything that is complete is taken out.
    let mut buf: Vec<u8> = vec![];
    let mut came = 0;
    let mut taken = 0;
    let mut k = 0;
    let step = match world::weighted(&[3, 2, 2]) {
        0 if all.len() < 600 => 1,
        0 | 1 => 0,
        _ => 1 + world::usz(200),
    };
    let limit = if all.len() < 600 { 700 } else { 60 };
    let mut round = 0;
    while came < all.len() {
        round += 1;
        let more = if round > limit {
            all.len() - came
        } else if step > 0 {
            step
        } else {
            offset(all.len(), &marks).saturating_sub(came).max(1)
        };
        let to = (came + more).min(all.len());
        buf.extend_from_slice(&all[came..to]);
        world::ev(Ev::Arrival, (to - came) as u64, 0);
        came = to;
        loop {
            let p = match (ber, world::weighted(&[4, 3, 1, 1, 2])) {
                (true, 0) => P::Ber,
                (true, 1) => P::BerMut,
                (false, 0) => P::Der,
                (false, 1) => P::DerMut,
                (_, 2) => P::Id,
                (_, 3) => P::IdMut,
                (true, _) => P::TBer,
                (false, _) => P::TDer,
            };
            let took = attempt(p, &mut buf, &funs, &vals, k, damaged)?;
            match (p, took) {
                (P::Id | P::IdMut, _) => {
                    // Only looked at; the element is still there.
                    if world::chance(1, 2) {
                        break;
                    }
                }
                (_, Some(n)) => {
                    buf.drain(..n);
                    taken += n;
                    k += 1;
                }
                (_, None) => break,
            }
        }
    }
    if !damaged {
        // Nothing may be left.
        let p = if ber { P::Ber } else { P::Der };
        while let Some(n) = attempt(p, &mut buf, &funs, &vals, k, false)? {
            buf.drain(..n);
            taken += n;
            k += 1;
        }
        if k != n || taken != all.len() {
            fail!("missing", "{k} of {n} elements, {taken} of {} octets were obtained", all.len());
        }
    }
    Ok(())
}

/// Parses at the start of `buf`; returns the octets consumed.
fn attempt(
    p: P,
    buf: &mut [u8],
    funs: &[Fun],
    vals: &[Option<types::BVal>],
    k: usize,
    damaged: bool,
) -> Res<Option<usize>> {
    world::ev(Ev::Op, buf.len() as u64, p as u64);
    let before = buf.to_vec();
    let want = match p {
        P::Id | P::IdMut => model::parse_id_at(&before),
        P::Der | P::DerMut | P::TDer => model::parse_der_at(&before).map(|e| e.total),
        _ => model::parse_ber_at(&before).map(|e| e.total),
    };
    let base = buf.as_ptr() as usize;
    let len = buf.len();
    // (address, length) of the cursor afterwards, result, address of the result
    let (cur, got): ((usize, usize), Result<Option<(usize, usize)>, Error>);
    let mut value = None;
    match p {
        P::Der | P::Ber | P::Id => {
            let mut c: &[u8] = buf;
            let r = match p {
                P::Der => arm(|| DerRef::parse(&mut c)).map(|r| AsRef::<[u8]>::as_ref(r)),
                P::Ber => arm(|| BerRef::parse(&mut c)).map(|r| AsRef::<[u8]>::as_ref(r)),
                _ => arm(|| IdRef::parse(&mut c)).map(|r| AsRef::<[u8]>::as_ref(r)),
            };
            cur = (c.as_ptr() as usize, c.len());
            got = r.map(|o| Some((o.as_ptr() as usize, o.len())));
        }
        P::TDer | P::TBer => {
            let mut c: &[u8] = buf;
            let t = match funs.get(k) {
                Some(Fun::TDer(t) | Fun::TBer(t)) => *t,
                _ => return attempt(if p == P::TDer { P::Der } else { P::Ber }, buf, funs, vals, k, damaged),
            };
            let r = if p == P::TDer { t.parse_der(&mut c) } else { t.parse_ber(&mut c) };
            cur = (c.as_ptr() as usize, c.len());
            got = match r {
                Ok(v) => {
                    value = Some(v);
                    Ok(None)
                }
                // A complete element that is no such value is somebody else's matter.
                Err(_) if want.is_ok() && damaged => return Ok(None),
                Err(e) => Err(e),
            };
        }
        P::DerMut | P::BerMut | P::IdMut => {
            let mut c: &mut [u8] = buf;
            let r = match p {
                P::DerMut => arm(|| DerRef::parse_mut(&mut c)).map(|r| {
                    let (_, _, contents) = r.disassemble_mut();
                    touch(contents.as_mut());
                    AsRef::<[u8]>::as_ref(r)
                }),
                P::BerMut => arm(|| BerRef::parse_mut(&mut c)).map(|r| {
                    touch(r.mut_contents().as_mut());
                    AsRef::<[u8]>::as_ref(r)
                }),
                _ => arm(|| IdRef::parse_mut(&mut c)).map(|r| AsRef::<[u8]>::as_ref(r)),
            };
            let r = r.map(|o| Some((o.as_ptr() as usize, o.len())));
            cur = (c.as_ptr() as usize, c.len());
            got = r;
        }
    }
    if buf[..] != before[..] {
        fail!("modified", "{p:?} changed the receive buffer");
    }
    match (got, want) {
        (Ok(at), Ok(n)) => {
            if at.is_some_and(|at| at != (base, n)) {
                fail!("extent", "{p:?} gives octets {at:?} instead of ({base}, {n})");
            }
            if cur != (base + n, len - n) {
                fail!("cursor", "{p:?} leaves the cursor at {} of {len}, not {n}", cur.0.wrapping_sub(base));
            }
            if let (Some(v), Some(Some(w)), false) = (&value, vals.get(k), damaged) {
                if !w.same(&**v) {
                    fail!("value", "{p:?} gives {} instead of {}", v.show(), w.show());
                }
            }
            Ok(Some(n))
        }
        (Ok(_), Err(b)) => fail!("short", "{p:?} accepts {} octets that are {b:?}: {}", len, hex(&before)),
        (Err(e), Ok(n)) => fail!("refused", "{p:?} refuses a complete element of {n} octets: {}", kind(&e)),
        (Err(e), Err(b)) => {
            if cur != (base, len) {
                fail!("cursor", "{p:?} failed and moved the cursor by {}", cur.0.wrapping_sub(base));
            }
            if b == Bad::Short && kind(&e) != "UnterminatedBytes" {
                fail!("kind", "{p:?} reports {} for the incomplete {}", kind(&e), hex(&before));
            }
            disarm(|| drop(e));
            Ok(None)
        }
    }
}

/// Uses mutable access without changing anything.
fn touch(b: &mut [u8]) {
    for v in b.iter_mut().take(4) {
        *v ^= 0xff;
        *v ^= 0xff;
    }
}
