//! The reading functions under test, behind one face.

use crate::alloc::{arm, disarm};
use crate::model::{self, Bad};
use crate::types::{draw_type, long_type, BVal, TypeDesc};
use crate::world::{self, Ev};
use bsn1::{Ber, BerRef, Der, DerRef, Error, Id, IdRef, Length};
use std::io::Read;

/// What kind of failure this is.
pub fn kind(e: &Error) -> &'static str {
    match arm(|| e.root_cause()) {
        Error::UnterminatedBytes => "UnterminatedBytes",
        Error::RedundantBytes => "RedundantBytes",
        Error::OverFlow => "OverFlow",
        Error::IndefiniteLength => "IndefiniteLength",
        Error::BadEoc => "BadEoc",
        Error::ExtraContentsOctet => "ExtraContentsOctet",
        Error::UnmatchedId => "UnmatchedId",
        Error::InvalidUtf8 => "InvalidUtf8",
        Error::InvalidDerBooleanContents => "InvalidDerBooleanContents",
        Error::InvalidKeyValuePair => "InvalidKeyValuePair",
        Error::Io(_) => "Io",
        Error::Anyhow(_) => "Anyhow",
        _ => "other",
    }
}

/// The I/O error behind `e`, if it is one.
pub fn io_cause(e: &Error) -> Option<&std::io::Error> {
    match arm(|| e.root_cause()) {
        Error::Io(e) => Some(e),
        _ => None,
    }
}

#[derive(Clone, Copy)]
pub enum Fun {
    Id,
    Len,
    Der,
    Ber,
    TDer(&'static dyn TypeDesc),
    TBer(&'static dyn TypeDesc),
}

pub enum Out {
    Octets(Vec<u8>),
    Len(Option<usize>),
    Val(BVal),
}

impl Out {
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Octets(a), Out::Octets(b)) => a == b,
            (Out::Len(a), Out::Len(b)) => a == b,
            (Out::Val(a), Out::Val(b)) => a.same(&**b),
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Octets(v) => model::hex(v),
            Out::Len(v) => format!("{v:?}"),
            Out::Val(v) => v.show(),
        }
    }
}

pub type OutRes = Result<Out, Error>;

pub fn show(r: &OutRes) -> String {
    match r {
        Ok(v) => v.show(),
        Err(e) => format!("error {}", kind(e)),
    }
}

/// Equal values, or failures of the same kind.
pub fn agree(a: &OutRes, b: &OutRes) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.same(b),
        (Err(a), Err(b)) => kind(a) == kind(b),
        _ => false,
    }
}

fn octets(b: &[u8]) -> Out {
    disarm(|| Out::Octets(b.to_vec()))
}

impl Fun {
    pub fn draw() -> Fun {
        match world::weighted(&[3, 4, 1, 1, 4, 4]) {
            0 => Fun::Der,
            1 => Fun::Ber,
            2 => Fun::Id,
            3 => Fun::Len,
            4 => Fun::TDer(draw_type()),
            _ => Fun::TBer(draw_type()),
        }
    }

    /// One for long elements.
    pub fn long() -> Fun {
        match world::below(4) {
            0 => Fun::Der,
            1 => Fun::Ber,
            2 => Fun::TDer(long_type()),
            _ => Fun::TBer(long_type()),
        }
    }

    pub fn name(&self) -> String {
        match self {
            Fun::Id => "Id::parse".into(),
            Fun::Len => "Length::parse".into(),
            Fun::Der => "Der::parse".into(),
            Fun::Ber => "Ber::parse".into(),
            Fun::TDer(t) => format!("read_der::<{}>", t.name()),
            Fun::TBer(t) => format!("read_ber::<{}>", t.name()),
        }
    }

    pub fn read(&self, r: &mut dyn Read) -> OutRes {
        world::ev(Ev::Op, 0, 0);
        match self {
            Fun::Id => arm(|| Id::parse(r)).map(|v| octets(v.as_ref())),
            Fun::Len => arm(|| Length::parse(r)).map(|v| Out::Len(v.definite())),
            Fun::Der => arm(|| Der::parse(r)).map(|v| octets(v.as_ref())),
            Fun::Ber => arm(|| Ber::parse(r)).map(|v| octets(v.as_ref())),
            Fun::TDer(t) => t.read_der(r).map(Out::Val),
            Fun::TBer(t) => t.read_ber(r).map(Out::Val),
        }
    }

    pub fn memory(&self, b: &mut &[u8]) -> OutRes {
        match self {
            Fun::Id => arm(|| IdRef::parse(b)).map(|v| octets(v.as_ref())),
            Fun::Len => arm(|| Length::parse(b)).map(|v| Out::Len(v.definite())),
            Fun::Der => arm(|| DerRef::parse(b)).map(|v| octets(v.as_ref())),
            Fun::Ber => arm(|| BerRef::parse(b)).map(|v| octets(v.as_ref())),
            Fun::TDer(t) => t.parse_der(b).map(Out::Val),
            Fun::TBer(t) => t.parse_ber(b).map(Out::Val),
        }
    }

    /// Where the element at the start of `b` ends, by the reference model.
    pub fn extent(&self, b: &[u8]) -> Result<usize, Bad> {
        match self {
            Fun::Id => model::parse_id_at(b),
            Fun::Len => model::parse_len_at(b).map(|v| v.0),
            Fun::Der | Fun::TDer(_) => model::parse_der_at(b).map(|v| v.total),
            Fun::Ber | Fun::TBer(_) => model::parse_ber_at(b).map(|v| v.total),
        }
    }

    /// An input for this function: octets and offsets worth cutting at. Typed functions also
    /// get the value the octets stand for.
    pub fn gen(&self, cap: usize) -> (Vec<u8>, Vec<usize>, Option<BVal>) {
        match self {
            Fun::Id => {
                let v = model::gen_id(None);
                let m = vec![1, v.len()];
                (v, m, None)
            }
            Fun::Len => {
                let n = match world::weighted(&[3, 2, 1]) {
                    0 => model::size(usize::MAX),
                    1 => {
                        let k = world::below(64);
                        (1usize << k).wrapping_sub(world::usz(2))
                    }
                    _ => return (vec![0x80], vec![1], None),
                };
                let v = model::len_octets(n);
                let m = vec![1, v.len()];
                (v, m, None)
            }
            Fun::Der => {
                let n = model::gen_node(3, cap);
                let mut m = vec![];
                n.marks(0, &mut m);
                (n.der(), m, None)
            }
            Fun::Ber if cap >= 9000 && world::chance(1, 20) => {
                // Nested deeply.
                let d = world::pick(&[127, 128, 129, 255, 256, 257, 1000, 4000, 32_767, 32_768, 33_000])
                    .min(if model::modest() { 1000 } else { cap });
                let mut v = [0x30, 0x80].repeat(d);
                v.extend([0x04, 0x02, 0, 0]);
                v.extend(vec![0; 2 * d]);
                world::count(Ev::PeerIndef, d as u64);
                (v, vec![2 * d, 2 * d + 4, 4 * d + 2], None)
            }
            Fun::Ber => {
                let n = model::gen_node(4, cap);
                let mut m = vec![];
                n.marks(0, &mut m);
                (ber(&n), m, None)
            }
            Fun::TDer(t) => {
                let v = t.gen(cap);
                let n = v.node();
                let mut m = vec![];
                n.marks(0, &mut m);
                (n.der(), m, Some(v))
            }
            Fun::TBer(t) => {
                let v = t.gen(cap);
                let n = v.node();
                let mut m = vec![];
                n.marks(0, &mut m);
                (ber(&n), m, Some(v))
            }
        }
    }
}

/// A BER form of the peer's choice.
pub fn ber(n: &model::Node) -> Vec<u8> {
    let how = world::below(4);
    let mut rng = if how == 2 { Some(world::sub_rng()) } else { None };
    let mut used = 0;
    let v = n.ber(&mut || {
        let i = match how {
            0 => false,
            1 => true,
            2 => rng.as_mut().unwrap().below(2) == 1,
            _ => used == 0,
        };
        used += i as u64;
        i
    });
    world::count(Ev::PeerIndef, used);
    v
}
