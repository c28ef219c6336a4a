//! The reference model of BER and DER, written from X.690 and independent of the library.

use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use crate::rng::Rng;
use crate::world;

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Prim(Vec<u8>),
    Seq(Vec<Node>),
    /// Children in any order.
    Set(Vec<Node>),
    /// One of several alternatives (a conversion that is not a function).
    OneOf(Vec<Body>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub id: Vec<u8>,
    pub body: Body,
}

pub fn id_octets(class: u8, constructed: bool, num: u128) -> Vec<u8> {
    let lead = class << 6 | (constructed as u8) << 5;
    if num < 31 {
        return vec![lead | num as u8];
    }
    let mut v = vec![];
    let mut n = num;
    while n > 0 {
        v.push((n & 0x7f) as u8 | if v.is_empty() { 0 } else { 0x80 });
        n >>= 7;
    }
    v.push(lead | 0x1f);
    v.reverse();
    v
}

pub fn len_octets(len: usize) -> Vec<u8> {
    if len < 128 {
        return vec![len as u8];
    }
    let be = len.to_be_bytes();
    let skip = be.iter().take_while(|b| **b == 0).count();
    let mut v = vec![0x80 | (be.len() - skip) as u8];
    v.extend_from_slice(&be[skip..]);
    v
}

pub fn tlv(id: &[u8], contents: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend(len_octets(contents.len()));
    v.extend_from_slice(contents);
    v
}

/// Two's complement, as short as possible. `be` is the value with a sign octet in front.
pub fn int_octets(be: &[u8]) -> Vec<u8> {
    let mut s = be;
    while s.len() > 1
        && ((s[0] == 0 && s[1] & 0x80 == 0) || (s[0] == 0xff && s[1] & 0x80 == 0x80))
    {
        s = &s[1..];
    }
    s.to_vec()
}

impl Node {
    pub fn prim(id: u8, body: Vec<u8>) -> Node {
        Node { id: vec![id], body: Body::Prim(body) }
    }
    pub fn seq(children: Vec<Node>) -> Node {
        Node { id: vec![0x30], body: Body::Seq(children) }
    }
    pub fn set(children: Vec<Node>) -> Node {
        Node { id: vec![0x31], body: Body::Set(children) }
    }
    pub fn with_id(mut self, id: Vec<u8>) -> Node {
        self.id = id;
        self
    }

    /// The DER encoding (of one order of the sets, one of the alternatives).
    pub fn der(&self) -> Vec<u8> {
        tlv(&self.id, &self.body.octets())
    }

    /// A BER encoding; `indef` decides for each constructed node.
    pub fn ber(&self, indef: &mut dyn FnMut() -> bool) -> Vec<u8> {
        match &self.body {
            Body::Seq(c) | Body::Set(c) => {
                let ind = self.id[0] & 0x20 != 0 && indef();
                let mut contents = vec![];
                for n in c {
                    contents.extend(n.ber(indef));
                }
                if ind {
                    let mut v = self.id.clone();
                    v.push(0x80);
                    v.extend(contents);
                    v.extend([0, 0]);
                    v
                } else {
                    tlv(&self.id, &contents)
                }
            }
            _ => self.der(),
        }
    }

    /// Tells if `bytes` is an encoding of this node, else what is wrong.
    pub fn check(&self, bytes: &[u8]) -> Result<(), String> {
        let e = parse_der_at(bytes).map_err(|e| format!("not framed: {e:?}"))?;
        if e.total != bytes.len() {
            return Err(format!("element of {} octets in {} octets", e.total, bytes.len()));
        }
        if bytes[..e.id_len] != self.id[..] {
            return Err(format!("identifier {} instead of {}", hex(&bytes[..e.id_len]), hex(&self.id)));
        }
        self.body.check(&bytes[e.head..])
    }

    /// Offsets of all header starts, contents starts and element ends in `self.der()`.
    pub fn marks(&self, base: usize, out: &mut Vec<usize>) -> usize {
        let (len, kids) = match &self.body {
            Body::Seq(c) | Body::Set(c) => (c.iter().map(|n| n.size()).sum(), Some(c)),
            b => (b.octets().len(), None),
        };
        let head = self.id.len() + len_octets(len).len();
        if out.len() < 64 {
            out.push(base);
            out.push(base + self.id.len());
            out.push(base + head);
            out.push(base + head + len);
        }
        if let Some(c) = kids {
            let mut at = base + head;
            for n in c {
                if out.len() >= 64 {
                    break;
                }
                at = n.marks(at, out);
            }
        }
        base + head + len
    }

    pub fn size(&self) -> usize {
        let len = match &self.body {
            Body::Prim(v) => v.len(),
            Body::Seq(c) | Body::Set(c) => c.iter().map(|n| n.size()).sum(),
            b => b.octets().len(),
        };
        self.id.len() + len_octets(len).len() + len
    }

    pub fn has_set(&self) -> bool {
        match &self.body {
            Body::Set(c) => c.len() > 1 || c.iter().any(|n| n.has_set()),
            Body::Seq(c) => c.iter().any(|n| n.has_set()),
            Body::OneOf(_) => true,
            Body::Prim(_) => false,
        }
    }
}

impl Body {
    pub fn octets(&self) -> Vec<u8> {
        match self {
            Body::Prim(v) => v.clone(),
            Body::Seq(c) | Body::Set(c) => {
                let mut v = vec![];
                for n in c {
                    v.extend(n.der());
                }
                v
            }
            Body::OneOf(a) => a[0].octets(),
        }
    }

    fn check(&self, bytes: &[u8]) -> Result<(), String> {
        match self {
            Body::Prim(v) => {
                if v == bytes {
                    Ok(())
                } else {
                    Err(format!("contents {} instead of {}", hex(bytes), hex(v)))
                }
            }
            Body::Seq(c) => {
                let parts = split(bytes)?;
                if parts.len() != c.len() {
                    return Err(format!("{} elements instead of {}", parts.len(), c.len()));
                }
                for (p, n) in parts.iter().zip(c) {
                    n.check(p)?;
                }
                Ok(())
            }
            Body::Set(c) => {
                let parts = split(bytes)?;
                if parts.len() != c.len() {
                    return Err(format!("{} elements instead of {}", parts.len(), c.len()));
                }
                if c.iter().all(|n| !n.has_set()) {
                    let mut a: Vec<Vec<u8>> = c.iter().map(|n| n.der()).collect();
                    let mut b: Vec<&[u8]> = parts.clone();
                    a.sort();
                    b.sort();
                    for (x, y) in a.iter().zip(&b) {
                        if x != y {
                            return Err(format!("element {} not found", hex(x)));
                        }
                    }
                    return Ok(());
                }
                // Which element stands for which child: a bipartite matching.
                let fits: Vec<Vec<usize>> = parts
                    .iter()
                    .map(|p| (0..c.len()).filter(|i| c[*i].check(p).is_ok()).collect())
                    .collect();
                let mut owner = vec![usize::MAX; c.len()];
                for (k, p) in parts.iter().enumerate() {
                    let mut seen = vec![false; c.len()];
                    if !augment(k, &fits, &mut owner, &mut seen) {
                        return Err(format!("element {} not expected", hex(p)));
                    }
                }
                Ok(())
            }
            Body::OneOf(a) => {
                if a.iter().any(|b| b.check(bytes).is_ok()) {
                    Ok(())
                } else {
                    Err(format!("contents {} are none of the possible ones", hex(bytes)))
                }
            }
        }
    }
}

fn augment(k: usize, fits: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
    for &i in &fits[k] {
        if !seen[i] {
            seen[i] = true;
            if owner[i] == usize::MAX || augment(owner[i], fits, owner, seen) {
                owner[i] = k;
                return true;
            }
        }
    }
    false
}

/// Splits contents into DER elements.
pub fn split(mut bytes: &[u8]) -> Result<Vec<&[u8]>, String> {
    let mut v = vec![];
    while !bytes.is_empty() {
        let e = parse_der_at(bytes).map_err(|e| format!("nested element not framed: {e:?}"))?;
        v.push(&bytes[..e.total]);
        bytes = &bytes[e.total..];
    }
    Ok(v)
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(40);
    let mut s: String = b[..n].iter().map(|b| format!("{b:02x}")).collect();
    if n < b.len() {
        s += &format!("..({} octets)", b.len());
    }
    if s.is_empty() {
        s = "(empty)".into();
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// The bytes end before the element does.
    Short,
    /// No bytes appended could make it valid.
    Invalid,
}

#[derive(Clone, Copy, Debug)]
pub struct Ext {
    pub id_len: usize,
    pub head: usize,
    pub total: usize,
    pub indef: bool,
}

pub fn parse_id_at(b: &[u8]) -> Result<usize, Bad> {
    let f = *b.first().ok_or(Bad::Short)?;
    if f & 0x1f != 0x1f {
        return Ok(1);
    }
    let s = *b.get(1).ok_or(Bad::Short)?;
    // Long form for a number below 31, or with leading zeros.
    if s <= 30 || s == 0x80 {
        return Err(Bad::Invalid);
    }
    let mut i = 1;
    loop {
        let o = *b.get(i).ok_or(Bad::Short)?;
        i += 1;
        if o & 0x80 == 0 {
            return Ok(i);
        }
    }
}

/// Length octets: size and value (`None`: indefinite).
pub fn parse_len_at(b: &[u8]) -> Result<(usize, Option<usize>), Bad> {
    let f = *b.first().ok_or(Bad::Short)?;
    if f < 0x80 {
        return Ok((1, Some(f as usize)));
    }
    if f == 0x80 {
        return Ok((1, None));
    }
    let n = (f & 0x7f) as usize;
    if n > 8 {
        return Err(Bad::Invalid);
    }
    let s = *b.get(1).ok_or(Bad::Short)?;
    if s == 0 || (n == 1 && s < 128) {
        return Err(Bad::Invalid);
    }
    let mut v = 0usize;
    for i in 0..n {
        v = v << 8 | *b.get(1 + i).ok_or(Bad::Short)? as usize;
    }
    Ok((1 + n, Some(v)))
}

pub fn parse_der_at(b: &[u8]) -> Result<Ext, Bad> {
    let id_len = parse_id_at(b)?;
    let (l, len) = parse_len_at(&b[id_len..])?;
    let len = len.ok_or(Bad::Invalid)?;
    let head = id_len + l;
    if b.len() - head < len {
        return Err(Bad::Short);
    }
    Ok(Ext { id_len, head, total: head + len, indef: false })
}

pub fn parse_ber_at(b: &[u8]) -> Result<Ext, Bad> {
    let id_len = parse_id_at(b)?;
    let (l, len) = parse_len_at(&b[id_len..])?;
    let head = id_len + l;
    if let Some(len) = len {
        if b.len() - head < len {
            return Err(Bad::Short);
        }
        return Ok(Ext { id_len, head, total: head + len, indef: false });
    }
    let mut depth = 1;
    let mut at = head;
    while depth > 0 {
        let rest = &b[at..];
        let i = parse_id_at(rest)?;
        let (l, len) = parse_len_at(&rest[i..])?;
        match len {
            None => {
                depth += 1;
                at += i + l;
            }
            Some(n) => {
                if rest.len() - i - l < n {
                    return Err(Bad::Short);
                }
                if i == 1 && rest[0] == 0 && n == 0 && l == 1 {
                    depth -= 1;
                }
                at += i + l + n;
            }
        }
    }
    Ok(Ext { id_len, head, total: at, indef: true })
}

/// Sizes worth trying, up to `cap`.
pub fn size(cap: usize) -> usize {
    if cap >= HUGE && world::chance(1, 2) {
        return world::pick(&[0xff_fffe, 0xff_ffff, 0x100_0000, 0x100_0001]);
    }
    const EDGES: &[usize] = &[
        0, 1, 2, 3, 15, 16, 17, 20, 21, 22, 23, 24, 25, 30, 31, 32, 126, 127, 128, 129, 253, 254, 255, 256,
        257, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 65533, 65535, 65536, 65537,
        131_071, 131_072, 131_073, 200_000,
    ];
    let v = match world::weighted(&[4, 6, 2, 1]) {
        0 => world::usz(30),
        1 => EDGES[world::usz(EDGES.len())],
        2 => world::usz(300),
        _ => world::usz(20_000),
    };
    v.min(cap)
}

/// A cap that allows sizes around the step to lengths of four octets.
pub const HUGE: usize = 1 << 25;

static MODEST: AtomicBool = AtomicBool::new(false);

/// From here on no extreme numbers of parts and levels: every block is watched.
pub fn be_modest() {
    MODEST.store(true, Relaxed);
}

pub fn modest() -> bool {
    MODEST.load(Relaxed)
}

/// Now and then a run has such sizes, where the code is optimised.
pub fn huge() -> bool {
    !cfg!(debug_assertions) && world::chance(1, 700)
}

/// Contents of the given size, decided by one draw.
pub fn bytes(len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    match world::below(5) {
        0 => {
            for (i, b) in v.iter_mut().enumerate() {
                *b = i as u8;
            }
        }
        1 => v.fill(0),
        2 => v.fill(0xff),
        _ => Rng::new(world::seed64()).fill(&mut v),
    }
    v
}

/// Any valid identifier that is not end-of-contents.
pub fn gen_id(constructed: Option<bool>) -> Vec<u8> {
    let class = world::below(4) as u8;
    let pc = constructed.unwrap_or_else(|| world::chance(1, 2));
    let num: u128 = match world::weighted(&[6, 3, 2, 1]) {
        0 => 1 + world::below(30) as u128,
        1 => world::pick(&[31u128, 32, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 1 << 21]),
        2 => world::seed64() as u128,
        _ => world::pick(&[
            u64::MAX as u128,
            u128::MAX,
            u128::MAX - 1,
            1 << 100,
            (1 << 126) - 1,
            1 << 126,
            1 << 125,
            1 << 64,
        ]),
    };
    id_octets(class, pc, num)
}

/// An arbitrary element: any identifiers, sizes and nesting.
pub fn gen_node(depth: usize, cap: usize) -> Node {
    let constructed = depth > 0 && world::chance(1, 3);
    let id = gen_id(Some(constructed));
    if constructed {
        let n = world::usz(5);
        let body = Body::Seq((0..n).map(|_| gen_node(depth - 1, cap / 4 + 1)).collect());
        Node { id, body }
    } else {
        Node { id, body: Body::Prim(bytes(size(cap))) }
    }
}

/// One corruption of `b`, as a link or a hostile peer may cause.
pub fn corrupt(b: &mut Vec<u8>, marks: &[usize]) {
    let len = b.len();
    let at = crate::io::offset(len, marks);
    let kind = world::weighted(&[5, 3, 3, 2, 2, 2, 4, 1, 2]);
    world::ev(world::Ev::Corrupt, at as u64, kind as u64);
    match kind {
        0 if at < len => b[at] ^= 1 << world::below(8),
        1 if at < len => b[at] = world::pick(&[0, 0x80, 0xff, 0x81, 0x30, 0x1f, 0x7f, 0x88, 0x89, 1, 2, 5, 0x84]),
        2 if at < len => {
            let n = (1 + world::usz(4)).min(len - at);
            b.drain(at..at + n);
        }
        3 => {
            let n = (1 + world::usz(6)).min(len - at);
            let part = b[at..at + n].to_vec();
            b.splice(at..at, part);
        }
        4 => {
            let other = crate::io::offset(len, marks);
            if at < len && other < len {
                b.swap(at, other);
            }
        }
        5 => b.truncate(at),
        6 => {
            let ins: &[u8] = world::pick(&[
                &[0u8, 0][..],
                &[0x30, 0x80],
                &[0x00],
                &[0x80],
                &[0x30, 0x00],
                &[0x04, 0x00],
                &[0x02, 0x00],
                &[0x05, 0x00],
                &[0x84, 0xff, 0xff, 0xff, 0xff],
                &[0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
                &[0x1f, 0x81, 0x80, 0x00],
            ]);
            b.splice(at..at, ins.iter().copied());
        }
        7 => *b = bytes(size(64)),
        _ if at < len => {
            // Rewrites a length, or what looks like one.
            let v = [1, 2, 4, 127, 128, 130, 255][world::usz(7)];
            b[at] = b[at].wrapping_add(v);
        }
        _ => {}
    }
}
