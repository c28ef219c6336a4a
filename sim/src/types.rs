//! The values the simulated programs exchange: every supported type, derived types using every
//! attribute, and hand-written `Serialize` types of known and unknown length.

use crate::alloc::{arm, disarm};
use crate::cb;
use crate::model::{self, id_octets, int_octets, Body, Node};
use crate::world;
use bsn1::{BerRef, ContentsRef, Der, DerRef, Error, IdRef, Length};
use bsn1_serde::{de, ser, OctetString};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::{self, Debug};
use std::hash::Hash;
use std::io::{Read, Write};

pub trait Wire: ser::Serialize + de::Deserialize + PartialEq + Debug + Send + Sync + 'static {
    /// Collections that reorder or merge what they decode.
    const SETLIKE: bool = false;
    /// Small and quickly encoded.
    const PLAIN: bool = false;
    /// Calls back into user code.
    const CALLS: bool = false;
    fn gen(cap: usize) -> Self;
    fn node(&self) -> Node;
}

pub trait AnyVal: Send + Sync {
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn write_ber(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn to_der(&self) -> Result<Der, Error>;
    fn to_ber(&self) -> Result<bsn1::Ber, Error>;
    fn node(&self) -> Node;
    /// Another value of the same type.
    fn another(&self, cap: usize) -> BVal;
    fn same(&self, other: &dyn AnyVal) -> bool;
    fn as_any(&self) -> &dyn Any;
    fn show(&self) -> String;
}

struct Val<T>(T);

impl<T: Wire> AnyVal for Val<T> {
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error> {
        arm(|| bsn1_serde::write_der(&self.0, w))
    }
    fn write_ber(&self, w: &mut dyn Write) -> Result<(), Error> {
        arm(|| bsn1_serde::write_ber(&self.0, w))
    }
    fn to_der(&self) -> Result<Der, Error> {
        arm(|| bsn1_serde::to_der(&self.0))
    }
    fn to_ber(&self) -> Result<bsn1::Ber, Error> {
        arm(|| bsn1_serde::to_ber(&self.0))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
    fn another(&self, cap: usize) -> BVal {
        Box::new(Val(T::gen(cap)))
    }
    fn same(&self, other: &dyn AnyVal) -> bool {
        match other.as_any().downcast_ref::<Val<T>>() {
            Some(o) => self.0 == o.0,
            None => false,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn show(&self) -> String {
        let mut s = format!("{:?}", self.0);
        if s.len() > 160 {
            let mut n = 160;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s += "..";
        }
        s
    }
}

pub type BVal = Box<dyn AnyVal>;

pub trait TypeDesc: Send + Sync {
    fn name(&self) -> &'static str;
    fn setlike(&self) -> bool;
    fn calls(&self) -> bool;
    fn gen(&self, cap: usize) -> BVal;
    fn read_der(&self, r: &mut dyn Read) -> Result<BVal, Error>;
    fn read_ber(&self, r: &mut dyn Read) -> Result<BVal, Error>;
    fn parse_der(&self, b: &mut &[u8]) -> Result<BVal, Error>;
    fn parse_ber(&self, b: &mut &[u8]) -> Result<BVal, Error>;
    fn from_der(&self, d: &DerRef) -> Result<BVal, Error>;
    fn from_ber(&self, d: &BerRef) -> Result<BVal, Error>;
}

struct Desc<T>(&'static str, std::marker::PhantomData<fn() -> T>);

fn boxed<T: Wire>(v: Result<T, Error>) -> Result<BVal, Error> {
    disarm(|| v.map(|v| Box::new(Val(v)) as BVal))
}

impl<T: Wire> TypeDesc for Desc<T> {
    fn name(&self) -> &'static str {
        self.0
    }
    fn setlike(&self) -> bool {
        T::SETLIKE
    }
    fn calls(&self) -> bool {
        T::CALLS
    }
    fn gen(&self, cap: usize) -> BVal {
        Box::new(Val(T::gen(cap)))
    }
    fn read_der(&self, r: &mut dyn Read) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::read_der::<_, T>(r)))
    }
    fn read_ber(&self, r: &mut dyn Read) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::read_ber::<_, T>(r)))
    }
    fn parse_der(&self, b: &mut &[u8]) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::parse_der::<T>(b)))
    }
    fn parse_ber(&self, b: &mut &[u8]) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::parse_ber::<T>(b)))
    }
    fn from_der(&self, d: &DerRef) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::from_der::<T>(d)))
    }
    fn from_ber(&self, d: &BerRef) -> Result<BVal, Error> {
        boxed(arm(|| bsn1_serde::from_ber::<T>(d)))
    }
}

// ---------------------------------------------------------------------------------------------
// Supported types

macro_rules! ints {
    ($($t:ty, $neg:expr;)*) => {$(
        impl Wire for $t {
            const PLAIN: bool = true;
            fn gen(_: usize) -> Self {
                let bits = <$t>::BITS as u64;
                let v: $t = match world::weighted(&[3, 4, 1, 1, 2]) {
                    0 => world::below(4) as $t,
                    1 => {
                        let k = world::below(bits) as u32;
                        let p = (1 as $t).wrapping_shl(k);
                        match world::below(4) {
                            0 => p,
                            1 => p.wrapping_sub(1),
                            2 => (0 as $t).wrapping_sub(p),
                            _ => (0 as $t).wrapping_sub(p).wrapping_sub(1),
                        }
                    }
                    2 => <$t>::MAX,
                    3 => <$t>::MIN,
                    _ => {
                        let mut rng = world::sub_rng();
                        let v = (rng.next() as u128) << 64 | rng.next() as u128;
                        v as $t
                    }
                };
                v
            }
            fn node(&self) -> Node {
                #[allow(unused_comparisons)]
                let sign = if *self < 0 { 0xff } else { 0 };
                let mut be = vec![sign];
                be.extend(self.to_be_bytes());
                Node::prim(2, int_octets(&be))
            }
        }
    )*};
}
ints! {
    i8, true; u8, false; i16, true; u16, false; i32, true; u32, false; i64, true; u64, false;
    i128, true; u128, false; isize, true; usize, false;
}

impl Wire for bool {
    const PLAIN: bool = true;
    fn gen(_: usize) -> Self {
        world::chance(1, 2)
    }
    fn node(&self) -> Node {
        Node::prim(1, vec![if *self { 0xff } else { 0 }])
    }
}

fn gen_string(cap: usize) -> String {
    let n = model::size(cap);
    match world::below(3) {
        0 => "a".repeat(n),
        1 => {
            let mut rng = world::sub_rng();
            (0..n).map(|_| (32 + rng.below(95)) as u8 as char).collect()
        }
        _ => {
            let mut rng = world::sub_rng();
            let mut s = String::new();
            while s.len() < n {
                s.push(match rng.below(5) {
                    0 => 'é',
                    1 => '漢',
                    2 => '🦀',
                    3 => '\0',
                    _ => (32 + rng.below(95)) as u8 as char,
                });
            }
            s
        }
    }
}

impl Wire for String {
    fn gen(cap: usize) -> Self {
        gen_string(cap)
    }
    fn node(&self) -> Node {
        Node::prim(0x0c, self.as_bytes().to_vec())
    }
}

impl Wire for OctetString<'static> {
    fn gen(cap: usize) -> Self {
        OctetString::from(model::bytes(model::size(cap)))
    }
    fn node(&self) -> Node {
        Node::prim(4, self.as_ref().to_vec())
    }
}

fn count(cap: usize, plain: bool) -> usize {
    if cap == 0 {
        return 0;
    }
    match world::weighted(&[8, 3, 1]) {
        0 => world::usz(5),
        1 => world::usz(12),
        _ if cap >= 30_000 && plain && !model::modest() && world::chance(1, 20) => world::pick(&[256, 65_600]),
        _ if cap >= 1000 => world::pick(&[0, 20, 40, 129, 300]),
        _ => world::pick(&[0, 20, 40]),
    }
}

/// `n` items; one draw decides many of them.
fn items<T, C: FromIterator<T>>(n: usize, f: impl Fn() -> T) -> C {
    if n < 100 {
        return (0..n).map(|_| f()).collect();
    }
    world::local(world::seed64(), || (0..n).map(|_| f()).collect())
}

fn share(cap: usize, n: usize) -> usize {
    if n == 0 {
        0
    } else {
        (cap / n).max(1)
    }
}

macro_rules! seqs {
    ($($t:ident: $($b:path),*; $set:expr, $f:ident;)*) => {$(
        impl<T: Wire $(+ $b)*> Wire for $t<T> {
            const SETLIKE: bool = $set || T::SETLIKE;
            const CALLS: bool = T::CALLS;
            fn gen(cap: usize) -> Self {
                let n = count(cap, T::PLAIN);
                let s = share(cap, n);
                items(n, || T::gen(s))
            }
            fn node(&self) -> Node {
                Node::$f(self.iter().map(|t| t.node()).collect())
            }
        }
    )*};
}
seqs! {
    Vec: ; false, seq;
    LinkedList: ; false, seq;
    VecDeque: ; false, seq;
    BTreeSet: Ord; true, seq;
    HashSet: Eq, Hash; true, set;
}

macro_rules! maps {
    ($($t:ident: $($b:path),*; $f:ident;)*) => {$(
        impl<K: Wire $(+ $b)*, V: Wire> Wire for $t<K, V> {
            const SETLIKE: bool = true;
            const CALLS: bool = K::CALLS || V::CALLS;
            fn gen(cap: usize) -> Self {
                let n = count(cap, K::PLAIN && V::PLAIN);
                let s = share(cap, 2 * n);
                items(n, || (K::gen(s), V::gen(s)))
            }
            fn node(&self) -> Node {
                Node::$f(self.iter().map(|(k, v)| Node::seq(vec![k.node(), v.node()])).collect())
            }
        }
    )*};
}
maps! {
    BTreeMap: Ord; seq;
    HashMap: Eq, Hash; set;
}

// ---------------------------------------------------------------------------------------------
// Hand-written types

/// Contents octets under an APPLICATION identifier that also tells which lengths are known.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Odd {
    mode: u8,
    v: Vec<u8>,
}

impl Odd {
    fn id(&self) -> Vec<u8> {
        // Identifiers of one, two and three octets.
        let num = match self.mode {
            0 => 1,
            1 => 30,
            2 => 1000,
            _ => 20_000,
        };
        id_octets(1, false, num)
    }
}

impl ser::Serialize for Odd {
    fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        if cb::hit() {
            return Err(Error::OverFlow);
        }
        let id = disarm(|| cb::identified(self.id()));
        // Octet by octet, as user code may do.
        for b in &id {
            w.write_all(&[*b])?;
        }
        Ok(())
    }
    fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        if cb::hit() {
            return Err(Error::OverFlow);
        }
        let mid = self.v.len() / 2;
        w.write_all(&self.v[..mid])?;
        w.write_all(&self.v[mid..])?;
        Ok(())
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if cb::hit() {
            return Err(Error::OverFlow);
        }
        Ok(if self.mode & 2 == 0 { Some(disarm(|| cb::announced(self.id().len()))) } else { None })
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if cb::hit() {
            return Err(Error::OverFlow);
        }
        Ok(if self.mode & 1 == 0 { Some(disarm(|| cb::announced(self.v.len()))) } else { None })
    }
}

impl de::Deserialize for Odd {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        if length.is_indefinite() {
            return Err(Error::IndefiniteLength);
        }
        Self::from_der(id, contents)
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        if cb::hit() {
            return Err(Error::OverFlow);
        }
        let id: &[u8] = id.as_ref();
        for mode in 0..4 {
            let o = Odd { mode, v: vec![] };
            if disarm(|| o.id() == id) {
                return Ok(Odd { mode, v: contents.as_ref().to_vec() });
            }
        }
        Err(Error::UnmatchedId)
    }
}

impl Wire for Odd {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        let mode = world::below(4) as u8;
        Odd { mode, v: model::bytes(model::size(cap)) }
    }
    fn node(&self) -> Node {
        Node { id: self.id(), body: Body::Prim(self.v.clone()) }
    }
}

// ---------------------------------------------------------------------------------------------
// Derived types

#[derive(Debug)]
pub struct Refused;
impl fmt::Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for Refused {}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub struct Point {
    x: i32,
    y: u64,
    name: String,
}
impl Wire for Point {
    fn gen(cap: usize) -> Self {
        Point { x: i32::gen(0), y: u64::gen(0), name: gen_string(cap) }
    }
    fn node(&self) -> Node {
        Node::seq(vec![self.x.node(), self.y.node(), self.name.node()])
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0x1f)]
pub struct Tup(u8, bool, Vec<i16>);
impl Wire for Tup {
    fn gen(cap: usize) -> Self {
        Tup(u8::gen(0), bool::gen(0), Vec::gen(cap))
    }
    fn node(&self) -> Node {
        Node::seq(vec![self.0.node(), self.1.node(), self.2.node()]).with_id(id_octets(3, true, 31))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Null)]
pub struct Nothing;
impl Wire for Nothing {
    fn gen(_: usize) -> Self {
        Nothing
    }
    fn node(&self) -> Node {
        Node::prim(5, vec![])
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Set)]
pub struct SetLike {
    a: i8,
    #[bsn1_serde(into = "OctetString<'static>", from = "OctetString<'static>")]
    raw: Vec<u8>,
    b: Odd,
}
impl Wire for SetLike {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        SetLike { a: i8::gen(0), raw: model::bytes(model::size(cap)), b: Odd::gen(cap / 4) }
    }
    fn node(&self) -> Node {
        let raw = Node::prim(4, self.raw.clone());
        Node::seq(vec![self.a.node(), raw, self.b.node()]).with_id(vec![0x31])
    }
}

/// Like the example of the crate's documentation.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(id = Sequence, tag_class = APPLICATION, tag_num = 0)]
pub struct Bind {
    version: i32,
    #[bsn1_serde(to = "OctetString::new", try_from = "OctetString")]
    name: String,
    auth: Odd,
}
impl Wire for Bind {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        Bind { version: i32::gen(0), name: gen_string(cap), auth: Odd::gen(cap / 4) }
    }
    fn node(&self) -> Node {
        let name = Node::prim(4, self.name.as_bytes().to_vec());
        Node::seq(vec![self.version.node(), name, self.auth.node()]).with_id(vec![0x60])
    }
}

fn seven() -> u32 {
    7
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 0x4000)]
pub struct Skips {
    #[bsn1_serde(skip)]
    cache: u16,
    a: u128,
    #[bsn1_serde(skip_serializing, skip_deserializing, default = "seven")]
    b: u32,
    c: VecDeque<String>,
    #[bsn1_serde(skip, default = "seven")]
    d: u32,
}
impl Wire for Skips {
    fn gen(cap: usize) -> Self {
        Skips { cache: 0, a: u128::gen(0), b: 7, c: VecDeque::gen(cap), d: 7 }
    }
    fn node(&self) -> Node {
        Node::seq(vec![self.a.node(), self.c.node()]).with_id(id_octets(2, false, 0x4000))
    }
}

/// Goes over the wire as an integer, by a conversion that may fail both ways.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "i64", try_from = "i64")]
pub struct Even(i64);
impl From<Even> for i64 {
    fn from(v: Even) -> i64 {
        cb::hit();
        v.0
    }
}
impl TryFrom<i64> for Even {
    type Error = Refused;
    fn try_from(v: i64) -> Result<Self, Refused> {
        if cb::hit() || v & 1 == 1 {
            Err(Refused)
        } else {
            Ok(Even(v))
        }
    }
}
impl Wire for Even {
    const CALLS: bool = true;
    fn gen(_: usize) -> Self {
        Even(i64::gen(0) & !1)
    }
    fn node(&self) -> Node {
        self.0.node()
    }
}

fn as_point(v: &ViaPoint) -> Point {
    cb::hit();
    disarm(|| Point { x: v.0, y: v.0 as u32 as u64, name: v.1.clone() })
}
/// Goes over the wire as a `Point`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "as_point", try_from = "Point")]
pub struct ViaPoint(i32, String);
impl TryFrom<Point> for ViaPoint {
    type Error = Refused;
    fn try_from(p: Point) -> Result<Self, Refused> {
        if cb::hit() || p.x as u32 as u64 != p.y {
            Err(Refused)
        } else {
            Ok(ViaPoint(p.x, p.name))
        }
    }
}
impl Wire for ViaPoint {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        ViaPoint(i32::gen(0), gen_string(cap))
    }
    fn node(&self) -> Node {
        Point { x: self.0, y: self.0 as u32 as u64, name: self.1.clone() }.node()
    }
}

#[derive(Clone, Debug, PartialEq, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct Wrap<T>
where
    T: ser::Serialize + de::Deserialize,
{
    inner: T,
    #[bsn1_serde(skip)]
    unused: u8,
}
impl<T: Wire> Wire for Wrap<T> {
    const SETLIKE: bool = T::SETLIKE;
    const CALLS: bool = T::CALLS;
    fn gen(cap: usize) -> Self {
        Wrap { inner: T::gen(cap), unused: 0 }
    }
    fn node(&self) -> Node {
        self.inner.node()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct WrapName(#[bsn1_serde(to = "OctetString::new", try_from = "OctetString<'_>")] String);
impl Wire for WrapName {
    fn gen(cap: usize) -> Self {
        WrapName(gen_string(cap))
    }
    fn node(&self) -> Node {
        Node::prim(4, self.0.as_bytes().to_vec())
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum Shape {
    #[bsn1_serde(id = Null)]
    Empty,
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0)]
    Circle(u32),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 1)]
    Rect { w: i16, h: i16, label: Vec<String> },
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 300)]
    Tagged(#[bsn1_serde(into = "Even", from = "Even")] EvenBox, Odd),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 30)]
    Hidden {
        #[bsn1_serde(skip)]
        note: u8,
        v: Box3,
    },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct EvenBox(Even);
impl From<EvenBox> for Even {
    fn from(v: EvenBox) -> Even {
        cb::hit();
        v.0
    }
}
impl From<Even> for EvenBox {
    fn from(v: Even) -> EvenBox {
        cb::hit();
        EvenBox(v)
    }
}
type Box3 = Triple<u8, bool, i128>;
impl Wire for Shape {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        match world::below(5) {
            0 => Shape::Empty,
            1 => Shape::Circle(u32::gen(0)),
            2 => Shape::Rect { w: i16::gen(0), h: i16::gen(0), label: Vec::gen(cap) },
            3 => Shape::Tagged(EvenBox(Even::gen(0)), Odd::gen(cap)),
            _ => Shape::Hidden { note: 0, v: Triple::gen(0) },
        }
    }
    fn node(&self) -> Node {
        match self {
            Shape::Empty => Node::prim(5, vec![]),
            Shape::Circle(r) => Node::seq(vec![r.node()]).with_id(vec![0xa0]),
            Shape::Rect { w, h, label } => {
                Node::seq(vec![w.node(), h.node(), label.node()]).with_id(vec![0xa1])
            }
            Shape::Tagged(e, o) => {
                Node::seq(vec![e.0.node(), o.node()]).with_id(id_octets(1, true, 300))
            }
            Shape::Hidden { v, .. } => Node::seq(vec![v.node()]).with_id(vec![0xfe]),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub struct Triple<A: ser::Serialize + de::Deserialize, B: ser::Serialize + de::Deserialize, C: ser::Serialize + de::Deserialize> {
    a: A,
    b: B,
    c: C,
}
impl<A: Wire, B: Wire, C: Wire> Wire for Triple<A, B, C> {
    const SETLIKE: bool = A::SETLIKE || B::SETLIKE || C::SETLIKE;
    const CALLS: bool = A::CALLS || B::CALLS || C::CALLS;
    fn gen(cap: usize) -> Self {
        Triple { a: A::gen(cap / 3), b: B::gen(cap / 3), c: C::gen(cap / 3) }
    }
    fn node(&self) -> Node {
        Node::seq(vec![self.a.node(), self.b.node(), self.c.node()])
    }
}

/// A generic enum.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum Either<A, B>
where
    A: ser::Serialize + de::Deserialize,
    B: ser::Serialize + de::Deserialize,
{
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 31)]
    One(A),
    #[bsn1_serde(id = Set)]
    Other { b: B },
    Both(A, B),
}
impl<A: Wire, B: Wire> Wire for Either<A, B> {
    const SETLIKE: bool = A::SETLIKE || B::SETLIKE;
    const CALLS: bool = A::CALLS || B::CALLS;
    fn gen(cap: usize) -> Self {
        match world::below(3) {
            0 => Either::One(A::gen(cap)),
            1 => Either::Other { b: B::gen(cap) },
            _ => Either::Both(A::gen(cap / 2), B::gen(cap / 2)),
        }
    }
    fn node(&self) -> Node {
        match self {
            Either::One(a) => Node::seq(vec![a.node()]).with_id(id_octets(3, true, 31)),
            Either::Other { b } => Node::seq(vec![b.node()]).with_id(vec![0x31]),
            Either::Both(a, b) => Node::seq(vec![a.node(), b.node()]),
        }
    }
}

/// What is written comes from one field, what is read goes to another.
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct Handover<T>
where
    T: ser::Serialize + de::Deserialize + Default,
{
    #[bsn1_serde(skip)]
    seen: u64,
    #[bsn1_serde(skip_serializing)]
    inbox: T,
    #[bsn1_serde(skip_deserializing)]
    outbox: T,
}
fn hand_ints(v: &Turn) -> Handover<Vec<i16>> {
    disarm(|| Handover { seen: 1, inbox: vec![7; 200], outbox: v.0.clone() })
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "hand_ints", from = "Handover<Vec<i16>>")]
pub struct Turn(Vec<i16>);
impl From<Handover<Vec<i16>>> for Turn {
    fn from(h: Handover<Vec<i16>>) -> Self {
        Turn(h.inbox)
    }
}
impl Wire for Turn {
    fn gen(cap: usize) -> Self {
        Turn(Vec::gen(cap))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
}

/// The same among other fields.
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_num = 0o37)]
pub struct Relay {
    #[bsn1_serde(skip_deserializing)]
    out: u32,
    #[bsn1_serde(skip_serializing)]
    inn: u32,
    text: String,
    #[bsn1_serde(skip_serializing)]
    last_in: Vec<Shape>,
    #[bsn1_serde(skip_deserializing, default = "Vec::new")]
    last_out: Vec<Shape>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(into = "Relay", from = "Relay")]
pub struct Relayed(u32, String, Vec<Shape>);
impl From<Relayed> for Relay {
    fn from(v: Relayed) -> Self {
        disarm(|| Relay { out: v.0, inn: 1 << 30, text: v.1, last_in: vec![Shape::Empty; 3], last_out: v.2 })
    }
}
impl From<Relay> for Relayed {
    fn from(r: Relay) -> Self {
        Relayed(r.inn, r.text, r.last_in)
    }
}
impl Wire for Relayed {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        Relayed(u32::gen(0), gen_string(cap / 2), Vec::gen(cap / 2))
    }
    fn node(&self) -> Node {
        Node::seq(vec![self.0.node(), self.1.node(), self.2.node()]).with_id(id_octets(1, true, 31))
    }
}

/// Fields of variants that go one way only.
#[derive(bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum Ways {
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0)]
    Named {
        both: String,
        #[bsn1_serde(skip_serializing)]
        inn: Vec<u8>,
        #[bsn1_serde(skip_deserializing)]
        out: Vec<u8>,
    },
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 1)]
    Plain(#[bsn1_serde(skip_deserializing)] i64, #[bsn1_serde(skip_serializing)] i64, #[bsn1_serde(skip)] u8),
}

/// Serialised by what it is turned into, with all the lengths that type knows.
macro_rules! forward {
    ($t:ty, $inner:ty, $to:expr, $from:expr) => {
        impl ser::Serialize for $t {
            fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
                let v: $inner = disarm(|| $to(self));
                v.write_id(w)
            }
            fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
                let v: $inner = disarm(|| $to(self));
                v.write_der_contents(w)
            }
            fn id_len(&self) -> Result<Option<usize>, Error> {
                let v: $inner = disarm(|| $to(self));
                v.id_len()
            }
            fn der_contents_len(&self) -> Result<Option<usize>, Error> {
                let v: $inner = disarm(|| $to(self));
                v.der_contents_len()
            }
        }
        impl de::Deserialize for $t {
            unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
                <$inner>::from_ber(id, length, contents).map($from)
            }
            fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
                <$inner>::from_der(id, contents).map($from)
            }
        }
    };
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Direct(Vec<i16>);
forward!(
    Direct,
    Handover<Vec<i16>>,
    |v: &Direct| Handover { seen: 1, inbox: vec![7; 200], outbox: v.0.clone() },
    |h| Direct(h.inbox)
);
impl Wire for Direct {
    fn gen(cap: usize) -> Self {
        Direct(Vec::gen(cap))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct DirectRelay(Relayed);
forward!(DirectRelay, Relay, |v: &DirectRelay| Relay::from(v.0.clone()), |r| DirectRelay(Relayed::from(r)));
impl Wire for DirectRelay {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        DirectRelay(Relayed::gen(cap))
    }
    fn node(&self) -> Node {
        self.0.node()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DirectWays {
    Named(Vec<u8>, String),
    Plain(i64),
}
forward!(
    DirectWays,
    Ways,
    |v: &DirectWays| match v {
        DirectWays::Named(a, b) => Ways::Named { inn: vec![1; 300], both: b.clone(), out: a.clone() },
        DirectWays::Plain(n) => Ways::Plain(*n, 1 << 40, 9),
    },
    |w| match w {
        Ways::Named { inn, both, .. } => DirectWays::Named(inn, both),
        Ways::Plain(_, n, _) => DirectWays::Plain(n),
    }
);
impl Wire for DirectWays {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        match world::below(2) {
            0 => DirectWays::Plain(i64::gen(0)),
            _ => DirectWays::Named(Vec::gen(cap / 2), gen_string(cap / 2)),
        }
    }
    fn node(&self) -> Node {
        match self {
            DirectWays::Named(a, b) => Node::seq(vec![b.node(), a.node()]).with_id(id_octets(2, true, 0)),
            DirectWays::Plain(n) => Node::seq(vec![n.node()]).with_id(id_octets(2, true, 1)),
        }
    }
}

/// Conversions of the one field of a transparent type, and one that may refuse.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(transparent)]
pub struct WrapEven {
    #[bsn1_serde(skip, default = "seven")]
    unused: u32,
    #[bsn1_serde(into = "Even", from = "Even")]
    inner: EvenBox,
}
impl Wire for WrapEven {
    const CALLS: bool = true;
    fn gen(_: usize) -> Self {
        WrapEven { unused: 7, inner: EvenBox(Even::gen(0)) }
    }
    fn node(&self) -> Node {
        self.inner.0.node()
    }
}

/// Identifiers of up to twenty octets, and every way to write a number.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum Far {
    Plain,
    #[bsn1_serde(id = Set, tag_num = 0b11110)]
    Near(bool),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 340282366920938463463374607431768211455)]
    Last(i8, #[bsn1_serde(to = "OctetString::new", try_from = "OctetString")] String),
    #[bsn1_serde(tag_class = PRIVATE, tag_pc = PRIMITIVE, tag_num = 0x7f)]
    Wide { a: Vec<u8>, b: WrapEven },
    #[bsn1_serde(id = OctetString, tag_num = 16384)]
    Back(Turn, Relayed),
}
impl Wire for Far {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        match world::below(5) {
            0 => Far::Plain,
            1 => Far::Near(bool::gen(0)),
            2 => Far::Last(i8::gen(0), gen_string(cap)),
            3 => Far::Wide { a: Vec::gen(cap), b: WrapEven::gen(0) },
            _ => Far::Back(Turn::gen(cap / 2), Relayed::gen(cap / 2)),
        }
    }
    fn node(&self) -> Node {
        match self {
            Far::Plain => Node::seq(vec![]),
            Far::Near(v) => Node::seq(vec![v.node()]).with_id(vec![0x3e]),
            Far::Last(v, s) => Node::seq(vec![v.node(), Node::prim(4, s.as_bytes().to_vec())])
                .with_id(id_octets(3, true, u128::MAX)),
            Far::Wide { a, b } => Node::seq(vec![a.node(), b.node()]).with_id(id_octets(3, false, 127)),
            Far::Back(t, r) => Node::seq(vec![t.node(), r.node()]).with_id(id_octets(0, false, 16384)),
        }
    }
}

/// Refers to itself.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
pub enum Tree {
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 1)]
    Leaf(i32),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 2)]
    Node(Vec<Tree>),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 3)]
    Text(Odd),
}
impl Tree {
    fn grow(depth: usize, cap: usize) -> Tree {
        if depth == 0 {
            return Tree::Leaf(i32::gen(0));
        }
        match world::below(4) {
            0 => Tree::Leaf(i32::gen(0)),
            1 => Tree::Text(Odd::gen(cap)),
            _ => {
                let n = world::usz(4);
                Tree::Node((0..n).map(|_| Tree::grow(depth - 1, cap / 4)).collect())
            }
        }
    }
}
impl Wire for Tree {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        match world::weighted(&[6, 1]) {
            0 => Tree::grow(4, cap),
            _ => {
                // A deep chain.
                let mut t = Tree::Leaf(1);
                for _ in 0..world::usz(60) {
                    t = Tree::Node(vec![t]);
                }
                t
            }
        }
    }
    fn node(&self) -> Node {
        match self {
            Tree::Leaf(v) => Node::seq(vec![v.node()]).with_id(vec![0x61]),
            Tree::Node(v) => Node::seq(vec![v.node()]).with_id(vec![0x62]),
            Tree::Text(o) => Node::seq(vec![o.node()]).with_id(vec![0x63]),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Conversions that return something different each time (C08)

/// Alternatives that differ in length around the places where headers change size.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize, bsn1_serde::Deserialize)]
#[bsn1_serde(to = "fickle_octets", from = "OctetString<'static>")]
pub struct Fickle(Vec<u16>);
fn fickle_octets(v: &Fickle) -> OctetString<'static> {
    cb::hit();
    let i = cb::choose(v.0.len() as u64) as usize;
    disarm(|| OctetString::from(fickle_alt(v.0[i])))
}
fn fickle_alt(len: u16) -> Vec<u8> {
    (0..len as usize).map(|i| (i + len as usize) as u8).collect()
}
impl From<OctetString<'static>> for Fickle {
    fn from(v: OctetString<'static>) -> Self {
        Fickle(vec![v.as_ref().len() as u16])
    }
}
impl Wire for Fickle {
    const CALLS: bool = true;
    fn gen(cap: usize) -> Self {
        let n = 1 + world::usz(4);
        Fickle((0..n).map(|_| model::size(cap.min(66_000)).min(65_535) as u16).collect())
    }
    fn node(&self) -> Node {
        let alts = self.0.iter().map(|l| Body::Prim(fickle_alt(*l))).collect();
        Node { id: vec![4], body: Body::OneOf(alts) }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize)]
#[bsn1_serde(id = Sequence, tag_class = APPLICATION, tag_num = 9)]
pub struct FickleField {
    a: i32,
    #[bsn1_serde(to = "fickle_ints")]
    b: Vec<u8>,
    #[bsn1_serde(into = "FickleProxy")]
    c: u8,
}
fn fickle_ints(v: &Vec<u8>) -> Vec<i64> {
    cb::hit();
    let n = cb::choose(v.len() as u64 + 1) as usize;
    disarm(|| v[..n].iter().map(|b| (*b as i64) << (*b % 50)).collect())
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, bsn1_serde::Serialize)]
pub struct FickleProxy(String);
impl From<u8> for FickleProxy {
    fn from(v: u8) -> Self {
        cb::hit();
        let n = cb::choose(v as u64 + 1) as usize;
        disarm(|| FickleProxy("z".repeat(n)))
    }
}
impl FickleField {
    fn gen(cap: usize) -> Self {
        let n = world::usz(cap.min(200) + 1);
        FickleField { a: i32::gen(0), b: model::bytes(n), c: u8::gen(0) }
    }
    fn node(&self) -> Node {
        let b = (0..=self.b.len())
            .map(|n| {
                Body::Seq(self.b[..n].iter().map(|b| ((*b as i64) << (*b % 50)).node()).collect())
            })
            .collect();
        let c = (0..=self.c as usize)
            .map(|n| Body::Seq(vec![Node::prim(0x0c, vec![b'z'; n])]))
            .collect();
        Node::seq(vec![
            self.a.node(),
            Node { id: vec![0x30], body: Body::OneOf(b) },
            Node { id: vec![0x30], body: Body::OneOf(c) },
        ])
        .with_id(vec![0x69])
    }
}

/// Values that can only be written.
pub trait OutVal {
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error>;
    fn to_der(&self) -> Result<Der, Error>;
    fn node(&self) -> Node;
    fn show(&self) -> String;
}
struct Out<T>(T, Node);
impl<T: ser::Serialize + Debug> OutVal for Out<T> {
    fn write_der(&self, w: &mut dyn Write) -> Result<(), Error> {
        arm(|| bsn1_serde::write_der(&self.0, w))
    }
    fn to_der(&self) -> Result<Der, Error> {
        arm(|| bsn1_serde::to_der(&self.0))
    }
    fn node(&self) -> Node {
        self.1.clone()
    }
    fn show(&self) -> String {
        let mut s = format!("{:?}", self.0);
        s.truncate(100);
        s
    }
}
fn out<T: Wire>(v: T) -> Box<dyn OutVal> {
    let n = v.node();
    Box::new(Out(v, n))
}

/// A value with conversions that are not functions.
pub fn gen_fickle(cap: usize) -> Box<dyn OutVal> {
    match world::below(12) {
        0 => out(Fickle::gen(cap)),
        1 => out(Vec::<Fickle>::gen(cap)),
        2 => out(HashMap::<Fickle, Odd>::gen(cap)),
        3 => out(BTreeMap::<Odd, Fickle>::gen(cap)),
        4 => out(HashSet::<Fickle>::gen(cap)),
        5 => {
            let v = FickleField::gen(cap);
            let n = v.node();
            Box::new(Out(v, n))
        }
        6 => {
            let k = world::usz(4);
            let v: Vec<FickleField> = (0..k).map(|_| FickleField::gen(cap / 4)).collect();
            let n = Node::seq(v.iter().map(|f| f.node()).collect());
            Box::new(Out(v, n))
        }
        7 => out(Triple::<Fickle, i32, Fickle>::gen(cap)),
        8 => out(Wrap::<Fickle>::gen(cap)),
        9 => out(HashMap::<String, Vec<Fickle>>::gen(cap)),
        10 => out(BTreeMap::<Fickle, Fickle>::gen(cap)),
        _ => out(HashMap::<Fickle, HashMap<Fickle, u8>>::gen(cap)),
    }
}

// ---------------------------------------------------------------------------------------------

macro_rules! table {
    ($($t:ty,)*) => {
        static TABLE: &[&dyn TypeDesc] = &[
            $(&Desc::<$t>(stringify!($t), std::marker::PhantomData),)*
        ];
    };
}

table! {
    bool,
    i32,
    String,
    OctetString<'static>,
    Vec<i64>,
    Point,
    i8, u8, i16, u16, u32, i64, u64, i128, u128, isize, usize,
    Odd,
    Tup,
    Nothing,
    SetLike,
    Bind,
    Skips,
    Even,
    ViaPoint,
    Wrap<Vec<u8>>,
    Wrap<Odd>,
    Wrap<HashMap<u8, bool>>,
    WrapName,
    Shape,
    Triple<i32, OctetString<'static>, String>,
    Triple<Odd, Even, Shape>,
    Tree,
    Vec<String>,
    Vec<Odd>,
    Vec<Vec<Vec<u8>>>,
    Vec<bool>,
    Vec<Shape>,
    Vec<Bind>,
    VecDeque<u128>,
    VecDeque<OctetString<'static>>,
    LinkedList<i16>,
    LinkedList<Point>,
    BTreeSet<i32>,
    BTreeSet<String>,
    BTreeSet<Odd>,
    BTreeMap<i32, String>,
    BTreeMap<String, Vec<Odd>>,
    BTreeMap<Odd, u8>,
    BTreeMap<Even, BTreeMap<u8, Tup>>,
    BTreeMap<Shape, Nothing>,
    HashSet<u64>,
    HashSet<String>,
    HashSet<Odd>,
    HashSet<Bind>,
    HashMap<String, u32>,
    HashMap<u8, Vec<HashSet<u8>>>,
    HashMap<Odd, Point>,
    HashMap<Odd, Odd>,
    HashMap<Bind, Shape>,
    HashMap<Point, HashMap<Odd, Even>>,
    HashMap<OctetString<'static>, SetLike>,
    Vec<HashMap<Tree, bool>>,
    Triple<HashSet<i32>, HashMap<i32, Odd>, BTreeSet<bool>>,
    Vec<Triple<Wrap<Odd>, WrapName, Skips>>,
    Turn,
    Relayed,
    Direct,
    DirectRelay,
    Vec<DirectWays>,
    HashMap<DirectWays, Direct>,
    WrapEven,
    Far,
    Vec<Far>,
    HashMap<Far, Vec<Turn>>,
    Vec<LinkedList<u16>>,
    LinkedList<VecDeque<i8>>,
    VecDeque<BTreeSet<u64>>,
    Vec<BTreeMap<i64, usize>>,
    HashMap<LinkedList<u8>, VecDeque<isize>>,
    BTreeMap<BTreeSet<u16>, HashMap<i16, u128>>,
    Triple<i8, u16, u64>,
    Triple<isize, usize, u128>,
    Triple<LinkedList<i128>, VecDeque<u32>, BTreeMap<bool, HashSet<isize>>>,
    Wrap<BTreeMap<u8, LinkedList<String>>>,
    Either<u8, String>,
    BTreeSet<Either<Odd, Vec<i32>>>,
    Either<HashMap<i32, bool>, Either<Point, Nothing>>,
}

pub fn types() -> &'static [&'static dyn TypeDesc] {
    TABLE
}

/// A type of one long string.
pub fn long_type() -> &'static dyn TypeDesc {
    TABLE[3]
}

/// A type of one element of any length.
pub fn draw_long() -> &'static dyn TypeDesc {
    let long: Vec<_> = TABLE.iter().filter(|t| ["String", "OctetString<'static>"].contains(&t.name())).collect();
    *long[world::usz(long.len())]
}

/// A type that holds any number of elements.
pub fn draw_many() -> &'static dyn TypeDesc {
    let many: Vec<_> = TABLE.iter().filter(|t| t.name().contains("<")).collect();
    *many[world::usz(many.len())]
}

/// A type with a user's own `Serialize` in it.
pub fn draw_odd() -> &'static dyn TypeDesc {
    let odd: Vec<_> = TABLE.iter().filter(|t| t.name().contains("Odd")).collect();
    *odd[world::usz(odd.len())]
}

pub fn draw_type() -> &'static dyn TypeDesc {
    TABLE[world::usz(TABLE.len())]
}
