//! P16, P17, P18: encoding and decoding. Types are themselves enumerated: `Ty` describes a type of
//! the serde data model and drives a `Serialize` / `DeserializeSeed` that makes the calls the derived
//! implementations make. A list of really derived types runs through the same checks.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::{Check, Tier};
use kserd::encode::{Decoder, Encoder};
use kserd::parse::parse;
use kserd::{Kserd, Number, Value};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

type Names = &'static [&'static str];

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    U(u8), // width in bits (128 is 128)
    I(u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct(&'static str),
    Opt(Box<Ty>),
    New(&'static str, Box<Ty>),
    Seq(Box<Ty>),
    Tup(Vec<Ty>),
    TupStruct(&'static str, Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Struct(&'static str, Names, Vec<Ty>),
    Enum(Names, Vec<Var>),
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Ty),
    Tup(Vec<Ty>),
    Struct(Names, Vec<Ty>),
}

#[derive(Clone, Debug)]
pub enum D {
    Bool(bool),
    U(u128),
    I(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<D>),
    List(Vec<D>),
    Map(Vec<(D, D)>),
    Var(usize, Box<D>),
}

fn deq(a: &D, b: &D) -> bool {
    match (a, b) {
        (D::Bool(a), D::Bool(b)) => a == b,
        (D::U(a), D::U(b)) => a == b,
        (D::I(a), D::I(b)) => a == b,
        (D::F32(a), D::F32(b)) => a == b || (a.is_nan() && b.is_nan()),
        (D::F64(a), D::F64(b)) => a == b || (a.is_nan() && b.is_nan()),
        (D::Char(a), D::Char(b)) => a == b,
        (D::Str(a), D::Str(b)) => a == b,
        (D::Bytes(a), D::Bytes(b)) => a == b,
        (D::Unit, D::Unit) | (D::None, D::None) => true,
        (D::Some(a), D::Some(b)) => deq(a, b),
        (D::List(a), D::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| deq(a, b)),
        (D::Map(a), D::Map(b)) => {
            a.len() == b.len()
                && a.iter()
                    .all(|x| b.iter().any(|y| deq(&x.0, &y.0) && deq(&x.1, &y.1)))
        }
        (D::Var(i, a), D::Var(j, b)) => i == j && deq(a, b),
        _ => false,
    }
}

// ---------------------------------------------------------------- serialising

struct Typed<'a>(&'a Ty, &'a D);

impl Serialize for Typed<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, D::Bool(b)) => s.serialize_bool(*b),
            (Ty::U(8), D::U(n)) => s.serialize_u8(*n as u8),
            (Ty::U(16), D::U(n)) => s.serialize_u16(*n as u16),
            (Ty::U(32), D::U(n)) => s.serialize_u32(*n as u32),
            (Ty::U(64), D::U(n)) => s.serialize_u64(*n as u64),
            (Ty::U(_), D::U(n)) => s.serialize_u128(*n),
            (Ty::I(8), D::I(n)) => s.serialize_i8(*n as i8),
            (Ty::I(16), D::I(n)) => s.serialize_i16(*n as i16),
            (Ty::I(32), D::I(n)) => s.serialize_i32(*n as i32),
            (Ty::I(64), D::I(n)) => s.serialize_i64(*n as i64),
            (Ty::I(_), D::I(n)) => s.serialize_i128(*n),
            (Ty::F32, D::F32(f)) => s.serialize_f32(*f),
            (Ty::F64, D::F64(f)) => s.serialize_f64(*f),
            (Ty::Char, D::Char(c)) => s.serialize_char(*c),
            (Ty::Str, D::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, D::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct(n), _) => s.serialize_unit_struct(n),
            (Ty::Opt(_), D::None) => s.serialize_none(),
            (Ty::Opt(t), D::Some(d)) => s.serialize_some(&Typed(t, d)),
            (Ty::New(n, t), d) => s.serialize_newtype_struct(n, &Typed(t, d)),
            (Ty::Seq(t), D::List(l)) => {
                // half of the lengths are announced
                let mut q = s.serialize_seq((l.len() % 2 == 0).then_some(l.len()))?;
                for d in l {
                    q.serialize_element(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::Tup(ts), D::List(l)) => {
                let mut q = s.serialize_tuple(l.len())?;
                for (t, d) in ts.iter().zip(l) {
                    q.serialize_element(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::TupStruct(n, ts), D::List(l)) => {
                let mut q = s.serialize_tuple_struct(n, l.len())?;
                for (t, d) in ts.iter().zip(l) {
                    q.serialize_field(&Typed(t, d))?;
                }
                q.end()
            }
            (Ty::Map(k, v), D::Map(l)) => {
                let mut q = s.serialize_map(Some(l.len()))?;
                for (i, (a, b)) in l.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_entry(&Typed(k, a), &Typed(v, b))?;
                    } else {
                        q.serialize_key(&Typed(k, a))?;
                        q.serialize_value(&Typed(v, b))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(n, names, ts), D::List(l)) => {
                let mut q = s.serialize_struct(n, l.len())?;
                for (i, d) in l.iter().enumerate() {
                    q.serialize_field(names[i], &Typed(&ts[i], d))?;
                }
                q.end()
            }
            (Ty::Enum(names, vars), D::Var(i, d)) => {
                let (n, ix) = (names[*i], *i as u32);
                match (&vars[*i], &**d) {
                    (Var::Unit, _) => s.serialize_unit_variant("En", ix, n),
                    (Var::New(t), d) => s.serialize_newtype_variant("En", ix, n, &Typed(t, d)),
                    (Var::Tup(ts), D::List(l)) => {
                        let mut q = s.serialize_tuple_variant("En", ix, n, l.len())?;
                        for (t, d) in ts.iter().zip(l) {
                            q.serialize_field(&Typed(t, d))?;
                        }
                        q.end()
                    }
                    (Var::Struct(f, ts), D::List(l)) => {
                        let mut q = s.serialize_struct_variant("En", ix, n, l.len())?;
                        for (i, d) in l.iter().enumerate() {
                            q.serialize_field(f[i], &Typed(&ts[i], d))?;
                        }
                        q.end()
                    }
                    _ => unreachable!(),
                }
            }
            (t, d) => unreachable!("{t:?} {d:?}"),
        }
    }
}

// ---------------------------------------------------------------- deserialising

impl<'de> DeserializeSeed<'de> for &Ty {
    type Value = D;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        let v = Vis(self);
        match self {
            Ty::Bool => d.deserialize_bool(v),
            Ty::U(8) => d.deserialize_u8(v),
            Ty::U(16) => d.deserialize_u16(v),
            Ty::U(32) => d.deserialize_u32(v),
            Ty::U(64) => d.deserialize_u64(v),
            Ty::U(_) => d.deserialize_u128(v),
            Ty::I(8) => d.deserialize_i8(v),
            Ty::I(16) => d.deserialize_i16(v),
            Ty::I(32) => d.deserialize_i32(v),
            Ty::I(64) => d.deserialize_i64(v),
            Ty::I(_) => d.deserialize_i128(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Str => d.deserialize_string(v),
            Ty::Bytes => d.deserialize_byte_buf(v),
            Ty::Unit => d.deserialize_unit(v),
            Ty::UnitStruct(n) => d.deserialize_unit_struct(n, v),
            Ty::Opt(_) => d.deserialize_option(v),
            Ty::New(n, _) => d.deserialize_newtype_struct(n, v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tup(ts) => d.deserialize_tuple(ts.len(), v),
            Ty::TupStruct(n, ts) => d.deserialize_tuple_struct(n, ts.len(), v),
            Ty::Map(..) => d.deserialize_map(v),
            Ty::Struct(n, f, _) => d.deserialize_struct(n, f, v),
            Ty::Enum(n, _) => d.deserialize_enum("En", n, v),
        }
    }
}

struct Vis<'t>(&'t Ty);

fn fits(ty: &Ty, n: i128, big: Option<u128>) -> Option<D> {
    // n is the value unless `big` says it is beyond i128
    match ty {
        Ty::U(w) => {
            let u = match big {
                Some(u) => u,
                None => u128::try_from(n).ok()?,
            };
            let max = if *w == 128 { u128::MAX } else { (1 << *w) - 1 };
            (u <= max).then_some(D::U(u))
        }
        Ty::I(w) => {
            if big.is_some() {
                return None;
            }
            let max = if *w == 128 { i128::MAX } else { (1 << (*w - 1)) - 1 };
            (n <= max && n >= -max - 1).then_some(D::I(n))
        }
        _ => None,
    }
}

fn elements<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<D, A::Error> {
    let mut l = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(t)? {
            Some(d) => l.push(d),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(D::List(l))
}

fn members<'de, A: MapAccess<'de>>(names: Names, ts: &[Ty], mut a: A) -> Result<D, A::Error> {
    let mut l: Vec<Option<D>> = vec![None; ts.len()];
    while let Some(i) = a.next_key_seed(Ident(names))? {
        match i {
            Some(i) => {
                if l[i].is_some() {
                    return Err(de::Error::duplicate_field(names[i]));
                }
                l[i] = Some(a.next_value_seed(&ts[i])?);
            }
            None => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    let mut out = Vec::new();
    for (i, d) in l.into_iter().enumerate() {
        out.push(d.ok_or_else(|| de::Error::missing_field(names[i]))?);
    }
    Ok(D::List(out))
}

/// A field identifier, read as the derived code reads it: by name, by index or by bytes.
struct Ident(Names);

impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<Option<usize>, X::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "field identifier")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        Ok(self.0.iter().position(|n| *n == s))
    }
}

struct VarIdent(Names);

impl<'de> DeserializeSeed<'de> for VarIdent {
    type Value = usize;
    fn deserialize<X: Deserializer<'de>>(self, d: X) -> Result<usize, X::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'de> Visitor<'de> for VarIdent {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant identifier")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<usize, E> {
        self.0
            .iter()
            .position(|n| *n == s)
            .ok_or_else(|| de::Error::unknown_variant(s, self.0))
    }
}

/// Visits the payload of a variant.
struct VarVis<'t>(&'t Var);

impl<'de> Visitor<'de> for VarVis<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        match self.0 {
            Var::Tup(ts) | Var::Struct(_, ts) => elements(ts, a),
            _ => unreachable!(),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        match self.0 {
            Var::Struct(n, ts) => members(n, ts, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
}

impl<'de> Visitor<'de> for Vis<'_> {
    type Value = D;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<D, E> {
        match self.0 {
            Ty::Bool => Ok(D::Bool(b)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Bool(b), &self)),
        }
    }
    fn visit_i64<E: de::Error>(self, n: i64) -> Result<D, E> {
        self.visit_i128(n as i128)
    }
    fn visit_i128<E: de::Error>(self, n: i128) -> Result<D, E> {
        fits(self.0, n, None).ok_or_else(|| de::Error::invalid_type(de::Unexpected::Other("integer"), &self))
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<D, E> {
        self.visit_u128(n as u128)
    }
    fn visit_u128<E: de::Error>(self, n: u128) -> Result<D, E> {
        let r = match i128::try_from(n) {
            Ok(i) => fits(self.0, i, None),
            Err(_) => fits(self.0, 0, Some(n)),
        };
        r.ok_or_else(|| de::Error::invalid_type(de::Unexpected::Other("integer"), &self))
    }
    fn visit_f32<E: de::Error>(self, n: f32) -> Result<D, E> {
        match self.0 {
            Ty::F32 => Ok(D::F32(n)),
            Ty::F64 => Ok(D::F64(n as f64)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Float(n as f64), &self)),
        }
    }
    fn visit_f64<E: de::Error>(self, n: f64) -> Result<D, E> {
        match self.0 {
            Ty::F32 => Ok(D::F32(n as f32)),
            Ty::F64 => Ok(D::F64(n)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Float(n), &self)),
        }
    }
    fn visit_char<E: de::Error>(self, c: char) -> Result<D, E> {
        match self.0 {
            Ty::Char => Ok(D::Char(c)),
            Ty::Str => Ok(D::Str(c.to_string())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Char(c), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<D, E> {
        let mut it = s.chars();
        match (self.0, it.next(), it.next()) {
            (Ty::Str, ..) => Ok(D::Str(s.into())),
            (Ty::Char, Some(c), None) => Ok(D::Char(c)),
            _ => Err(de::Error::invalid_type(de::Unexpected::Str(s), &self)),
        }
    }
    fn visit_bytes<E: de::Error>(self, s: &[u8]) -> Result<D, E> {
        match self.0 {
            Ty::Bytes => Ok(D::Bytes(s.into())),
            _ => Err(de::Error::invalid_type(de::Unexpected::Bytes(s), &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            Ty::Opt(_) => Ok(D::None),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(D::Some(Box::new(t.deserialize(d)?))),
            _ => Err(de::Error::invalid_type(de::Unexpected::Option, &self)),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<D, E> {
        match self.0 {
            Ty::Unit | Ty::UnitStruct(_) => Ok(D::Unit),
            Ty::Opt(_) => Ok(D::None),
            _ => Err(de::Error::invalid_type(de::Unexpected::Unit, &self)),
        }
    }
    fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<D, X::Error> {
        match self.0 {
            Ty::New(_, t) => t.deserialize(d),
            _ => Err(de::Error::invalid_type(de::Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut l = Vec::new();
                while let Some(d) = a.next_element_seed(&**t)? {
                    l.push(d);
                }
                Ok(D::List(l))
            }
            Ty::Tup(ts) | Ty::TupStruct(_, ts) | Ty::Struct(_, _, ts) => elements(ts, a),
            Ty::New(_, t) => a
                .next_element_seed(&**t)?
                .ok_or_else(|| de::Error::invalid_length(0, &"newtype struct")),
            _ => Err(de::Error::invalid_type(de::Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<D, A::Error> {
        match self.0 {
            Ty::Map(k, v) => {
                let mut l = Vec::new();
                while let Some(x) = a.next_key_seed(&**k)? {
                    l.push((x, a.next_value_seed(&**v)?));
                }
                Ok(D::Map(l))
            }
            Ty::Struct(_, n, ts) => members(n, ts, a),
            _ => Err(de::Error::invalid_type(de::Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<D, A::Error> {
        let Ty::Enum(names, vars) = self.0 else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let (i, v) = a.variant_seed(VarIdent(names))?;
        let d = match &vars[i] {
            Var::Unit => {
                v.unit_variant()?;
                D::Unit
            }
            Var::New(t) => v.newtype_variant_seed(t)?,
            Var::Tup(ts) => v.tuple_variant(ts.len(), VarVis(&vars[i]))?,
            Var::Struct(f, _) => v.struct_variant(f, VarVis(&vars[i]))?,
        };
        Ok(D::Var(i, Box::new(d)))
    }
}

// ---------------------------------------------------------------- enumerating types and their data

fn prims_all() -> Vec<Ty> {
    vec![
        Ty::Bool,
        Ty::U(8),
        Ty::U(16),
        Ty::U(32),
        Ty::U(64),
        Ty::U(128),
        Ty::I(8),
        Ty::I(16),
        Ty::I(32),
        Ty::I(64),
        Ty::I(128),
        Ty::F32,
        Ty::F64,
        Ty::Char,
        Ty::Str,
        Ty::Bytes,
    ]
}

fn prims_few() -> Vec<Ty> {
    vec![Ty::Bool, Ty::I(32), Ty::F64, Ty::Str, Ty::Bytes]
}

fn types(prims: Vec<Ty>, n: usize) -> Vec<E<Ty>> {
    let mut t: Vec<E<Ty>> = vec![E::empty()];
    for k in 1..=n {
        let mut parts = Vec::new();
        if k == 1 {
            let mut l = prims.clone();
            l.extend([
                Ty::Unit,
                Ty::UnitStruct("Us"),
                Ty::Tup(vec![]),
                Ty::TupStruct("Ts", vec![]),
                Ty::Struct("St", &[], vec![]),
                Ty::Enum(&["A", "B"], vec![Var::Unit, Var::Unit]),
            ]);
            parts.push(list(l));
        } else {
            let c = &t[k - 1];
            parts.push(c.map(|t| Ty::Opt(Box::new(t))));
            parts.push(c.map(|t| Ty::Seq(Box::new(t))));
            parts.push(c.map(|t| Ty::New("Nt", Box::new(t))));
            parts.push(c.map(|t| Ty::Tup(vec![t])));
            parts.push(c.map(|t| Ty::Struct("St", &["a"], vec![t])));
            parts.push(c.map(|t| {
                Ty::Enum(
                    &["A", "B", "C", "D", "Z", "None"],
                    vec![
                        Var::Unit,
                        Var::New(t.clone()),
                        Var::Struct(&["a"], vec![t.clone()]),
                        Var::Struct(&[], vec![]),
                        Var::Tup(vec![]),
                        Var::Tup(vec![Ty::U(8), t]),
                    ],
                )
            }));
            for i in 1..k - 1 {
                let p = t[i].prod(&t[k - 1 - i]);
                parts.push(p.map(|(a, b)| Ty::Tup(vec![a, b])));
                parts.push(p.map(|(a, b)| Ty::TupStruct("Ts", vec![a, b])));
                parts.push(p.map(|(a, b)| Ty::Struct("St", &["z", "a"], vec![a, b])));
                parts.push(p.map(|(a, b)| Ty::Map(Box::new(a), Box::new(b))));
                parts.push(p.map(|(a, b)| {
                    Ty::Enum(
                        &["X", "Some"],
                        vec![Var::Struct(&["b", "a"], vec![a.clone(), b.clone()]), Var::Tup(vec![a, b])],
                    )
                }));
            }
        }
        t.push(sum(parts));
    }
    t
}

fn has_enum(t: &Ty) -> bool {
    match t {
        Ty::Enum(..) | Ty::Opt(_) => true,
        Ty::New(_, t) | Ty::Seq(t) => has_enum(t),
        Ty::Tup(l) | Ty::TupStruct(_, l) | Ty::Struct(_, _, l) => l.iter().any(has_enum),
        Ty::Map(a, b) => has_enum(a) || has_enum(b),
        _ => false,
    }
}

fn vals(t: &Ty) -> Vec<D> {
    let few = |t: &Ty| {
        let mut v = vals(t);
        v.truncate(2);
        v
    };
    // all tuples in which one member takes every value and the others two
    let product = |ts: &[Ty]| -> Vec<D> {
        if ts.is_empty() {
            return vec![D::List(vec![])];
        }
        let all: Vec<Vec<D>> = ts.iter().map(vals).collect();
        let mut out: Vec<D> = Vec::new();
        for rich in 0..ts.len() {
            let doms: Vec<&[D]> = all
                .iter()
                .enumerate()
                .map(|(i, v)| if i == rich { &v[..] } else { &v[..v.len().min(2)] })
                .collect();
            let mut ix = vec![0; ts.len()];
            'all: loop {
                // a tuple whose earlier members are all among the first two was listed already
                if rich == 0 || ix[rich] >= 2 {
                    out.push(D::List(ix.iter().zip(&doms).map(|(&i, d)| d[i].clone()).collect()));
                }
                for p in (0..ix.len()).rev() {
                    ix[p] += 1;
                    if ix[p] < doms[p].len() {
                        continue 'all;
                    }
                    ix[p] = 0;
                }
                break;
            }
        }
        out
    };
    match t {
        Ty::Bool => vec![D::Bool(true), D::Bool(false)],
        Ty::U(w) => {
            let max = if *w == 128 { u128::MAX } else { (1 << *w) - 1 };
            let mut v = vec![1, 0, max, max / 2 + 1];
            if *w > 64 {
                v.extend([u64::MAX as u128, 1 << 64]);
            }
            v.into_iter().map(D::U).collect()
        }
        Ty::I(w) => {
            let max = if *w == 128 { i128::MAX } else { (1 << (*w - 1)) - 1 };
            let mut v = vec![-1, 0, max, -max - 1, 1];
            if *w > 64 {
                v.extend([i64::MAX as i128 + 1, i64::MIN as i128 - 1]);
            }
            v.into_iter().map(D::I).collect()
        }
        Ty::F32 => [1.5, 0.0, -0.0, 0.1, 16777217.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 3.4e38, -1e10]
            .into_iter()
            .map(D::F32)
            .collect(),
        Ty::F64 => [1.5, 0.0, -0.0, 0.1, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, 1e21, -1e10]
            .into_iter()
            .map(D::F64)
            .collect(),
        Ty::Char => ['a', '"', '\n', 'é', '\0', '\u{10FFFF}', '\'', ' ']
            .into_iter()
            .map(D::Char)
            .collect(),
        Ty::Str => ["a", "", "\"", "None", "a\nb", "é'\"", "true", "1", "str", " x ", "[(={"]
            .into_iter()
            .map(|s| D::Str(s.into()))
            .collect(),
        Ty::Bytes => vec![D::Bytes(vec![1]), D::Bytes(vec![]), D::Bytes(vec![255, 0, 13]), D::Bytes((0..20).collect())],
        Ty::Unit | Ty::UnitStruct(_) => vec![D::Unit],
        Ty::Opt(t) => {
            let mut v = vec![D::None];
            v.extend(vals(t).into_iter().map(|d| D::Some(Box::new(d))));
            v
        }
        Ty::New(_, t) => vals(t),
        Ty::Seq(t) => {
            let mut v: Vec<D> = vals(t).into_iter().map(|d| D::List(vec![d])).collect();
            v.insert(1.min(v.len()), D::List(vec![]));
            for a in few(t) {
                for b in few(t) {
                    v.push(D::List(vec![a.clone(), b.clone()]));
                    v.push(D::List(vec![a.clone(), b, a.clone()]));
                }
            }
            v
        }
        Ty::Tup(ts) | Ty::TupStruct(_, ts) | Ty::Struct(_, _, ts) => product(ts),
        Ty::Map(k, v) => {
            let mut out: Vec<D> = Vec::new();
            for d in product(&[(**k).clone(), (**v).clone()]) {
                if let D::List(l) = d {
                    out.push(D::Map(vec![(l[0].clone(), l[1].clone())]));
                }
            }
            out.insert(1.min(out.len()), D::Map(vec![]));
            let ks = vals(k);
            let (vs, n) = (few(v), ks.len().min(4));
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        out.push(D::Map(vec![(ks[i].clone(), vs[0].clone()), (ks[j].clone(), vs[vs.len() - 1].clone())]));
                    }
                }
            }
            if n >= 3 {
                out.push(D::Map(ks[..n].iter().map(|k| (k.clone(), vs[0].clone())).collect()));
            }
            // keys that encode to equal values cannot both be kept: see the section on such keys
            out.retain(|m| match m {
                D::Map(l) => {
                    let e: Vec<_> = l.iter().filter_map(|x| Kserd::enc(&Typed(k, &x.0)).ok()).collect();
                    (0..e.len()).all(|i| !e[..i].iter().any(|o| crate::p_val::eqref(o, &e[i])))
                }
                _ => true,
            });
            out
        }
        Ty::Enum(_, vars) => {
            let mut out = Vec::new();
            for (i, v) in vars.iter().enumerate() {
                let ds = match v {
                    Var::Unit => vec![D::Unit],
                    Var::New(t) => vals(t),
                    Var::Tup(ts) | Var::Struct(_, ts) => product(ts),
                };
                out.extend(ds.into_iter().map(|d| D::Var(i, Box::new(d))));
            }
            out
        }
    }
}

// ---------------------------------------------------------------- P16, P17

fn encode(t: &Ty, d: &D) -> Result<Kserd<'static>, Viol> {
    let bad = |e: String| viol(format!("{t:?} {d:?}"), format!("{e}\n type: {t:?}\n data: {d:?}"));
    let k = match Kserd::enc(&Typed(t, d)) {
        Ok(k) => k,
        Err(e) => return bad(format!("encoding fails: {e}")),
    };
    match Typed(t, d).serialize(Encoder) {
        Ok(o) if show(&o) == show(&k) => Ok(k),
        _ => bad("Encoder and Kserd::enc disagree".into()),
    }
}

fn decode_is(t: &Ty, d: &D, k: Kserd, via: &str) -> Res {
    let seen = show(&k);
    match t.deserialize(Decoder(k)) {
        Ok(b) if deq(d, &b) => Ok(()),
        Ok(b) => viol(
            format!("{t:?} {d:?}"),
            format!("decoded to other data {via}\n type: {t:?}\n data: {d:?}\n value: {seen}\n decoded: {b:?}"),
        ),
        Err(e) => viol(
            format!("{t:?} {d:?}"),
            format!("does not decode {via}: {e}\n type: {t:?}\n data: {d:?}\n value: {seen}"),
        ),
    }
}

fn direct(t: &Ty, d: &D, cx: &mut Ctx) -> Res {
    let k = encode(t, d)?;
    cx.ops(5);
    cx.state(show(&k).as_bytes());
    decode_is(t, d, k.mk_brw(), "from a borrowed view")?;
    decode_is(t, d, k.clone(), "from a clone")?;
    cx.outcome(&[kind(&k.val) as u8, k.id.is_some() as u8]);
    decode_is(t, d, k, "")?;
    cx.trace();
    Ok(())
}

const TW: [Option<u16>; 4] = [Some(60), None, Some(0), Some(17)];

fn through_text(t: &Ty, d: &D, hide: bool, widths: &[Option<u16>], cx: &mut Ctx) -> Res {
    let k = encode(t, d)?;
    let mut seen = std::collections::HashSet::new();
    for &w in widths {
        for bits in 0..32u64 {
            // identities of tuples (2) and containers (4) carry the variants
            if !hide && bits & 6 != 6 {
                continue;
            }
            let text = k.as_str_with_config(configs_ids(bits, w));
            cx.op();
            if !seen.insert(text.clone()) {
                continue;
            }
            cx.state(text.as_bytes());
            let b = match parse(&text) {
                Ok(b) => b,
                Err(e) => {
                    return viol(
                        format!("{t:?} {d:?}"),
                        format!("the text does not parse\n type: {t:?}\n data: {d:?}\n text:\n{text}\n{}", e.backtrace()),
                    )
                }
            };
            cx.ops(3);
            let via = format!("through the text (identity flags {bits:05b}, width {w:?})\n{text}\n");
            decode_is(t, d, b.clone().into_owned(), &via)?;
            decode_is(t, d, b, &via)?;
            cx.outcome(&[text.lines().count() as u8, (text.len() / 4) as u8]);
            cx.trace();
        }
    }
    Ok(())
}

fn sec_types(name: &'static str, prims: fn() -> Vec<Ty>, n: usize, text: Option<&'static [Option<u16>]>) -> Section {
    let e = sum(types(prims(), n));
    section(
        name,
        format!(
            "every type of up to {n} nodes over {} primitive types and all composite forms x every boundary value of each member{}",
            prims().len(),
            if text.is_some() { " x every identity setting the data allows x widths" } else { "" }
        ),
        e.count,
        move |i, cx| {
            let t = e.get(i);
            let vs = vals(&t);
            for d in &vs {
                match text {
                    None => direct(&t, d, cx)?,
                    Some(w) => through_text(&t, d, !has_enum(&t), w, cx)?,
                }
            }
            cx.sample(|| format!("{t:?}: {} values, last {:?}", vs.len(), vs.last()));
            Ok(())
        },
    )
}

/// Chains of wrappers around a small type, deeper than the exhaustive sizes.
fn sec_chains(depth: usize, text: Option<&'static [Option<u16>]>) -> Section {
    const W: u64 = 10;
    let base = [Ty::Unit, Ty::Str, Ty::Bytes, Ty::Enum(&["A", "B"], vec![Var::Unit, Var::New(Ty::I(8))]), Ty::Struct("E", &[], vec![])];
    let n = strings_count(W, 1, depth);
    section(
        "chains",
        format!("every chain of 1 to {depth} of {W} wrappers around 5 types"),
        base.len() as u64 * n,
        move |i, cx| {
            let mut t = base[(i / n) as usize].clone();
            for w in nth_string(i % n, W, 1, depth) {
                let b = Box::new(t.clone());
                t = match w {
                    0 => Ty::Opt(b),
                    1 => Ty::Seq(b),
                    2 => Ty::New("Nt", b),
                    3 => Ty::Tup(vec![t]),
                    4 => Ty::Tup(vec![Ty::U(8), t]),
                    5 => Ty::Struct("St", &["a"], vec![t]),
                    6 => Ty::Map(Box::new(Ty::Str), b),
                    7 => Ty::Enum(&["V", "W"], vec![Var::New(t.clone()), Var::Tup(vec![t, Ty::Unit])]),
                    8 => Ty::Enum(&["V", "W"], vec![Var::Struct(&["a"], vec![t]), Var::Unit]),
                    _ => Ty::Map(b, Box::new(Ty::Unit)),
                };
            }
            // the first values at every level
            let mut vs = vals(&t);
            vs.truncate(12);
            for d in &vs {
                match text {
                    None => direct(&t, d, cx)?,
                    Some(w) => through_text(&t, d, !has_enum(&t), w, cx)?,
                }
            }
            cx.sample(|| format!("{t:?}"));
            Ok(())
        },
    )
}

// ------------------------------------------------------------- derived and standard types

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Prims {
    b: bool,
    u8: u8,
    u16: u16,
    u32: u32,
    u64: u64,
    u128: u128,
    i8: i8,
    i16: i16,
    i32: i32,
    i64: i64,
    i128: i128,
    f32: f32,
    f64: f64,
    c: char,
    s: String,
    unit: (),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Plain {
    zed: u8,
    a: String,
    m_1: Vec<i16>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct UnitS;
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct EmptyS {}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct EmptyT();
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct NewS<T>(T);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct TupS<T>(T, u8);
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Gen<A, B> {
    b: A,
    a: B,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum En<T> {
    Unit,
    New(T),
    Tup(T, u8),
    St { z: T, a: u8 },
    NoFields {},
    NoItems(),
    None,
    Some(T),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Defaults {
    #[serde(default)]
    a: u8,
    b: Option<u8>,
    #[serde(skip)]
    c: u8,
    #[serde(rename = "other-name")]
    d: u8,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Node {
    name: String,
    kids: Vec<Node>,
    link: Option<Box<Node>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(tag = "kind")]
enum Tagged {
    A { x: u8 },
    B { y: String, z: Vec<u8> },
    C,
}

type Case = Box<dyn Fn(bool, &[Option<u16>], &mut Ctx) -> Res + Send + Sync>;

fn case<T>(v: T, hide: bool) -> Case
where
    T: Serialize + for<'de> Deserialize<'de> + PartialEq + fmt::Debug + Send + Sync + 'static,
{
    Box::new(move |text, widths, cx| {
        let name = std::any::type_name::<T>();
        let bad = |e: String| viol(format!("{name} {v:?}"), format!("{e}\n type: {name}\n data: {v:?}"));
        let k = match Kserd::enc(&v) {
            Ok(k) => k,
            Err(e) => return bad(format!("encoding fails: {e}")),
        };
        cx.op();
        cx.state(show(&k).as_bytes());
        let is = |k: Kserd, via: &str| -> Res {
            let seen = show(&k);
            // owned data of type T may not borrow, so any lifetime will do
            match k.into_owned().decode::<T>() {
                Ok(b) if b == v => Ok(()),
                Ok(b) => bad(format!("decoded to {b:?} {via}\n value: {seen}")),
                Err(e) => bad(format!("does not decode {via}: {e}\n value: {seen}")),
            }
        };
        is(k.clone(), "")?;
        cx.ops(2);
        cx.trace();
        if !text {
            return Ok(());
        }
        let mut seen = std::collections::HashSet::new();
        for &w in widths {
            for bits in 0..32u64 {
                if !hide && bits & 6 != 6 {
                    continue;
                }
                let t = k.as_str_with_config(configs_ids(bits, w));
                cx.op();
                if !seen.insert(t.clone()) {
                    continue;
                }
                match parse(&t) {
                    Ok(b) => is(b, &format!("through the text\n{t}\n"))?,
                    Err(e) => return bad(format!("the text does not parse\n{t}\n{}", e.backtrace())),
                }
                cx.ops(2);
                cx.trace();
            }
        }
        Ok(())
    })
}

fn derived() -> Vec<Case> {
    let mut v: Vec<Case> = Vec::new();
    for x in 0..4 {
        let hi = x % 2 == 1;
        let p = Prims {
            b: hi,
            u8: if hi { u8::MAX } else { u8::MIN },
            u16: if hi { u16::MAX } else { u16::MIN },
            u32: if hi { u32::MAX } else { u32::MIN },
            u64: if hi { u64::MAX } else { u64::MIN },
            u128: if hi { u128::MAX } else { u128::MIN },
            i8: if hi { i8::MAX } else { i8::MIN },
            i16: if hi { i16::MAX } else { i16::MIN },
            i32: if hi { i32::MAX } else { i32::MIN },
            i64: if hi { i64::MAX } else { i64::MIN },
            i128: if hi { i128::MAX } else { i128::MIN },
            f32: if hi { f32::MAX } else { -0.1 },
            f64: if hi { f64::MAX } else { f64::NEG_INFINITY },
            c: if hi { '\u{10FFFF}' } else { '"' },
            s: if x > 1 { "\"\n'#".into() } else { String::new() },
            unit: (),
        };
        v.push(case(p.clone(), true));
        v.push(case(vec![p.clone(), p.clone()], true));
        v.push(case(En::St { z: p.clone(), a: 1 }, false));
        v.push(case(Some(NewS(p)), false));
    }
    let plain = |n: u8| Plain {
        zed: n,
        a: "x".repeat(n as usize % 5),
        m_1: (0..n as i16 % 4).map(|i| -i * 9000).collect(),
    };
    for n in 0..6 {
        v.push(case(plain(n), true));
        v.push(case(Gen { b: plain(n), a: (plain(n), NewS(plain(n))) }, true));
        v.push(case(TupS(NewS(NewS(plain(n))), n), true));
        v.push(case([plain(n), plain(0)], true));
    }
    v.push(case(UnitS, true));
    v.push(case(EmptyS {}, true));
    v.push(case(EmptyT(), true));
    v.push(case(NewS(UnitS), true));
    v.push(case(NewS(EmptyS {}), true));
    v.push(case(Gen { b: UnitS, a: EmptyS {} }, true));
    v.push(case((UnitS, EmptyT(), EmptyS {}, ()), true));
    v.push(case(vec![EmptyT(), EmptyT()], true));
    v.push(case(std::marker::PhantomData::<u8>, true));
    for e in [
        En::Unit,
        En::New(3u8),
        En::Tup(4, 5),
        En::St { z: 6, a: 7 },
        En::NoFields {},
        En::NoItems(),
        En::None,
        En::Some(8),
    ] {
        v.push(case(e.clone(), false));
        v.push(case(Some(e.clone()), false));
        v.push(case(vec![e.clone(), En::Unit, e.clone()], false));
        v.push(case(En::New(e.clone()), false));
        v.push(case(En::St { z: Box::new(e.clone()), a: 0 }, false));
        v.push(case(En::Tup(Some(e.clone()), 0), false));
        v.push(case(Gen { b: e.clone(), a: NewS(e.clone()) }, false));
        v.push(case(Ok::<En<u8>, ()>(e.clone()), false));
        v.push(case(Err::<(), En<u8>>(e.clone()), false));
        v.push(case(BTreeMap::from([(1u8, e.clone()), (2, En::Unit)]), false));
    }
    for a in [None, Some(None), Some(Some(None)), Some(Some(Some(1u8)))] {
        v.push(case(a, false));
        v.push(case(Gen { b: a, a: vec![a, a] }, false));
    }
    v.push(case(Some(()), false));
    v.push(case(None::<()>, false));
    v.push(case(Some(Some(())), false));
    v.push(case(Some(Vec::<u8>::new()), false));
    v.push(case(Some((1u8,)), false));
    v.push(case(((((),),),), true));
    v.push(case((1u8, (2u8, (3u8, (4u8,)))), true));
    v.push(case([[0u8; 0]; 3], true));
    v.push(case([(); 1], true));
    v.push(case((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12), true));
    v.push(case([7u16; 32], true));
    v.push(case(HashMap::from([("a".to_string(), vec![1u8]), ("b c".into(), vec![])]), true));
    v.push(case(BTreeMap::from([(vec![1u8], 1u8), (vec![], 2), (vec![1, 2], 3)]), true));
    v.push(case(BTreeMap::from([((1u8, 'x'), ()), ((1, 'y'), ())]), true));
    v.push(case(BTreeMap::from([(false, 1.5f32), (true, -0.25)]), true));
    v.push(case(BTreeMap::from([(None, 0u8), (Some(1u8), 1), (Some(2), 2)]), false));
    v.push(case(std::collections::BTreeSet::from([3u8, 1, 2]), true));
    v.push(case(std::time::Duration::new(5, 999_999_999), true));
    v.push(case(std::ops::Bound::Included(3u8), false));
    v.push(case(0u8..9, true));
    v.push(case(std::num::Wrapping(7u64), true));
    v.push(case(std::num::NonZeroU8::new(9).unwrap(), true));
    v.push(case(std::net::Ipv4Addr::new(127, 0, 0, 1), true));
    v.push(case(std::cmp::Reverse(4u8), true));
    v.push(case(Box::new(5u8), true));
    for b in [None, Some(3)] {
        v.push(case(Defaults { a: 1, b, c: 0, d: 4 }, false));
    }
    let leaf = |n: &str| Node { name: n.into(), kids: vec![], link: None };
    v.push(case(leaf("x"), false));
    v.push(case(
        Node {
            name: "r\"oot".into(),
            kids: vec![leaf("a"), Node { name: "".into(), kids: vec![leaf("b"), leaf("c")], link: Some(Box::new(leaf("d"))) }],
            link: Some(Box::new(Node { name: "l".into(), kids: vec![leaf("e")], link: None })),
        },
        false,
    ));
    v.push(case(Tagged::A { x: 3 }, true));
    v.push(case(Tagged::B { y: "q".into(), z: vec![1, 2] }, true));
    v.push(case(Tagged::C, true));
    v
}

fn sec_derived(text: bool) -> Section {
    let cs = derived();
    section(
        "derived",
        format!("{} values of derived and standard types", cs.len()),
        cs.len() as u64,
        move |i, cx| (cs[i as usize])(text, &TW, cx),
    )
}

/// Maps keyed by variants that differ in nothing but their name.
fn sec_variant_keys() -> Section {
    let t = |v: Vec<Var>| Ty::Map(Box::new(Ty::Enum(&["A", "B"], v)), Box::new(Ty::U(8)));
    let var = |i, d| D::Var(i, Box::new(d));
    let two = |a, b| D::Map(vec![(a, D::U(1)), (b, D::U(2))]);
    let cases: Vec<(&str, Ty, D)> = vec![
        ("unit-variants", t(vec![Var::Unit, Var::Unit]), two(var(0, D::Unit), var(1, D::Unit))),
        ("newtype-variants-equal-payload", t(vec![Var::New(Ty::U(8)), Var::New(Ty::U(8))]), two(var(0, D::U(5)), var(1, D::U(5)))),
        ("newtype-variants-different-payload", t(vec![Var::New(Ty::U(8)), Var::New(Ty::U(8))]), two(var(0, D::U(5)), var(1, D::U(6)))),
        ("different-shapes", t(vec![Var::Unit, Var::New(Ty::U(8))]), two(var(0, D::Unit), var(1, D::U(6)))),
    ];
    section(
        "variant keys",
        "maps of two entries keyed by enum variants of equal and of different shape",
        cases.len() as u64,
        move |i, cx| {
            let (n, t, d) = &cases[i as usize];
            direct(t, d, cx).map_err(|v| Viol { key: format!("map-keys:{n}"), msg: v.msg })
        },
    )
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Brw<'a> {
    s: &'a str,
    #[serde(borrow)]
    o: Option<&'a str>,
    #[serde(borrow)]
    v: Vec<(&'a str, u8)>,
    b: &'a [u8],
}

/// Types that borrow: they decode from a borrowed view, pointing into the original, and not from a
/// value that owns its strings.
fn sec_borrowed() -> Section {
    const S: [&str; 8] = ["a", "", "\"", "é\n", "true", "None", "1.5", "a much longer piece of text"];
    const B: [&[u8]; 4] = [&[1], &[], &[255, 0], &[34, 39, 10]];
    section(
        "borrowing types",
        "8 x 9 x 8 strings and 4 byte arrays in a struct of borrowed fields",
        8 * 9 * 8 * 4,
        |i, cx| {
            let (s, o) = (S[(i % 8) as usize], S.get((i / 8 % 9) as usize).copied());
            let (v, b) = (S[(i / 72 % 8) as usize], B[(i / 576) as usize]);
            let own = Kserd::with_id(
                "Brw",
                Value::new_cntr(vec![
                    ("s", Kserd::new_string(s.to_string())),
                    (
                        "o",
                        match o {
                            Some(o) => Kserd::with_id("Some", Value::Tuple(vec![Kserd::new_string(o.to_string())])).unwrap(),
                            None => Kserd::with_id("None", Value::Tuple(vec![])).unwrap(),
                        },
                    ),
                    ("v", Kserd::new(Value::Seq(vec![Kserd::new(Value::Tuple(vec![Kserd::new_string(v.to_string()), Kserd::new_num(3u8)]))]))),
                    ("b", Kserd::new_barrv(b.to_vec())),
                ])
                .unwrap(),
            )
            .unwrap();
            let want = Brw { s, o, v: vec![(v, 3)], b };
            cx.state(show(&own).as_bytes());
            cx.ops(3);
            match own.mk_brw().decode::<Brw>() {
                Ok(x) if x == want => {
                    // the strings are those of the value, not copies
                    let Value::Cntr(f) = &own.val else { unreachable!() };
                    let Value::Str(o) = &f["s"].val else { unreachable!() };
                    if !s.is_empty() && x.s.as_ptr() != o.as_str().as_ptr() {
                        return viol(format!("borrowed {s:?}"), "a borrowed string does not point into the value");
                    }
                }
                r => return viol(format!("{want:?}"), format!("decoding {want:?} from a borrowed view gives {r:?}")),
            }
            if let Ok(x) = own.clone().decode::<Brw>() {
                return viol(format!("owned {want:?}"), format!("borrowed data out of a consumed value: {x:?}"));
            }
            match Kserd::enc(&want) {
                Ok(k) => match k.mk_brw().decode::<Brw>() {
                    // a slice encodes as a sequence, which cannot be borrowed from
                    Ok(x) if x != want => return viol(format!("enc {want:?}"), format!("decoded to {x:?}")),
                    _ => (),
                },
                Err(e) => return viol(format!("enc {want:?}"), format!("does not encode: {e}")),
            }
            cx.trace();
            cx.sample(|| format!("{want:?}"));
            Ok(())
        },
    )
}

pub fn p16(t: Tier) -> Check {
    Check {
        sections: vec![
            sec_derived(false),
            sec_types("types", prims_all, 3, None),
            sec_types("nested types", prims_few, 5, None),
            sec_chains(t.pick(4, 6), None),
            sec_borrowed(),
            sec_variant_keys(),
        ],
        assumptions: vec![
            "types are read and written as the derived implementations of serde do it (externally tagged enums); tuples hold the values of their members, one member at a time through all of its values and the others through two",
            "a user's own unit struct named None or newtype struct named Some is outside the scope: their encoding is that of an option",
        ],
        rule: "data decoded from its encoding equals the data, from owned values, clones and borrowed views alike",
    }
}

pub fn p17(t: Tier) -> Check {
    Check {
        sections: vec![
            sec_derived(true),
            sec_types("types", prims_all, 2, Some(&TW)),
            sec_types("nested types", prims_few, 4, Some(&TW)),
            sec_chains(t.pick(3, 5), Some(&TW)),
        ],
        assumptions: vec![
            "data with enums or options is written with the identities of tuples and containers shown (as by default); other data under all identity settings",
            "maps whose keys differ only in an enum variant's name are outside the scope, see the known findings of P16",
        ],
        rule: "data decoded from the parsed text of its encoding equals the data",
    }
}

// ---------------------------------------------------------------- P18

/// Whether `d` is exactly what the value denotes as a `t`. `None` when the value is not of that type.
fn agrees(t: &Ty, k: &Kserd, d: &D) -> bool {
    let id = k.id.as_ref().map(|s| s.as_str());
    let empty = match &k.val {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    };
    let items: Option<Vec<&Kserd>> = match &k.val {
        Value::Unit => Some(vec![]),
        Value::Tuple(x) | Value::Seq(x) => Some(x.iter().collect()),
        Value::Cntr(x) if x.is_empty() => Some(vec![]),
        _ => None,
    };
    let listed = |ts: &[Ty], l: &[D]| match &items {
        Some(v) => v.len() == ts.len() && l.len() == ts.len() && ts.iter().zip(v).zip(l).all(|((t, k), d)| agrees(t, k, d)),
        None => false,
    };
    let fielded = |names: Names, ts: &[Ty], l: &[D]| {
        let get = |n: &str| match &k.val {
            Value::Cntr(f) => f.get(n),
            Value::Map(f) => f.iter().find(|e| matches!(&e.0.val, Value::Str(s) if s.as_str() == n)).map(|e| e.1),
            _ => None,
        };
        l.len() == ts.len() && (0..ts.len()).all(|i| get(names[i]).map_or(false, |k| agrees(&ts[i], k, &l[i]))) && matches!(&k.val, Value::Cntr(_) | Value::Map(_))
    };
    match (t, d) {
        (Ty::Bool, D::Bool(b)) => matches!(&k.val, Value::Bool(x) if x == b),
        (Ty::U(_), D::U(u)) => match &k.val {
            Value::Num(Number::Uint(n)) => n == u,
            Value::Num(Number::Int(n)) => *n >= 0 && *n as u128 == *u,
            Value::Num(Number::Float(f)) => (*f - *u as f64).abs() <= 1e-10 && f.abs() < 3.5e38,
            _ => false,
        },
        (Ty::I(_), D::I(u)) => match &k.val {
            Value::Num(Number::Uint(n)) => *u >= 0 && *n == *u as u128,
            Value::Num(Number::Int(n)) => n == u,
            Value::Num(Number::Float(f)) => (*f - *u as f64).abs() <= 1e-10 && f.abs() < 1.8e38,
            _ => false,
        },
        (Ty::F32, D::F32(x)) => match &k.val {
            Value::Num(n) => {
                let w = |y: f32| *x == y || (x.is_nan() && y.is_nan());
                match n {
                    Number::Uint(n) => w(*n as f32) || w(*n as f64 as f32),
                    Number::Int(n) => w(*n as f32) || w(*n as f64 as f32),
                    Number::Float(f) => w(*f as f32),
                }
            }
            _ => false,
        },
        (Ty::F64, D::F64(x)) => match &k.val {
            Value::Num(n) => {
                let y = match n {
                    Number::Uint(n) => *n as f64,
                    Number::Int(n) => *n as f64,
                    Number::Float(f) => *f,
                };
                *x == y || (x.is_nan() && y.is_nan())
            }
            _ => false,
        },
        (Ty::Char, D::Char(c)) => matches!(&k.val, Value::Str(s) if *s.as_str() == c.to_string()),
        (Ty::Str, D::Str(x)) => matches!(&k.val, Value::Str(s) if s.as_str() == x),
        (Ty::Bytes, D::Bytes(x)) => matches!(&k.val, Value::Barr(s) if s.as_bytes() == x),
        (Ty::Unit | Ty::UnitStruct(_), D::Unit) => empty,
        (Ty::Opt(_), D::None) => matches!(k.val, Value::Unit) || (empty && id == Some("None")),
        (Ty::Opt(t), D::Some(d)) => matches!(&k.val, Value::Tuple(x) if x.len() == 1 && agrees(t, &x[0], d)) && id == Some("Some"),
        (Ty::New(_, t), d) => matches!(&items, Some(v) if v.len() == 1 && agrees(t, v[0], d)),
        (Ty::Seq(t), D::List(l)) => matches!(&items, Some(v) if v.len() == l.len() && v.iter().zip(l).all(|(k, d)| agrees(t, k, d))),
        (Ty::Tup(ts) | Ty::TupStruct(_, ts), D::List(l)) => listed(ts, l),
        (Ty::Struct(_, n, ts), D::List(l)) => listed(ts, l) || fielded(n, ts, l),
        (Ty::Map(a, b), D::Map(l)) => match &k.val {
            Value::Map(x) => x.len() == l.len() && x.iter().zip(l).all(|(k, d)| agrees(a, k.0, &d.0) && agrees(b, k.1, &d.1)),
            Value::Cntr(x) => {
                x.len() == l.len()
                    && x.iter().zip(l).all(|(k, d)| agrees(a, &Kserd::new(Value::new_str(k.0)), &d.0) && agrees(b, k.1, &d.1))
            }
            _ => false,
        },
        (Ty::Enum(names, vars), D::Var(i, d)) => {
            id == Some(names[*i])
                && match (&vars[*i], &**d) {
                    (Var::Unit, D::Unit) => empty,
                    (Var::New(t), d) => matches!(&items, Some(v) if v.len() == 1 && agrees(t, v[0], d)),
                    (Var::Tup(ts), D::List(l)) => listed(ts, l),
                    (Var::Struct(n, ts), D::List(l)) => listed(ts, l) || fielded(n, ts, l),
                    _ => false,
                }
        }
        _ => false,
    }
}

fn leaves18() -> Vec<M> {
    vec![
        m(V::Unit),
        m(V::Bool(true)),
        uint(0),
        uint(1),
        uint(128),
        uint(256),
        uint(65536),
        uint(1 << 32),
        m(V::Num(Number::Uint(1 << 64))),
        m(V::Num(Number::Uint(1 << 127))),
        m(V::Num(Number::Uint(u128::MAX))),
        int(-1),
        int(-129),
        int(1),
        int(-32769),
        int(-2147483649),
        m(V::Num(Number::Int(-(1 << 63) - 1))),
        m(V::Num(Number::Int(i128::MIN))),
        flt(1.0),
        flt(255.5),
        flt(-1.0),
        flt(1e39),
        flt(f64::NAN),
        flt(f64::INFINITY),
        flt(3e9),
        st("a").no_id(),
        st("ab").no_id(),
        st("").no_id(),
        st("é").no_id(),
        ba(&[97]).no_id(),
    ]
}

fn sec_decode(name: &'static str, tyn: usize, prims: fn() -> Vec<Ty>, leaves: Vec<M>, ids: Vec<Option<&'static str>>, n: usize) -> Section {
    let tys = sum(types(prims(), tyn));
    let nids = ids.len();
    let nl = leaves.len();
    let spec = Spec {
        leaves,
        ids,
        names: vec!["a", "b", "z"],
        empties: true,
    };
    let ts = sum(trees(&spec, n));
    let tys: Vec<Ty> = (0..tys.count).map(|i| tys.get(i)).collect();
    section(
        name,
        format!("every tree of up to {n} nodes over {nl} leaves and {nids} identities, decoded to every one of {} types of up to {tyn} nodes", tys.len()),
        ts.count,
        move |i, cx| {
            let k = ts.get(i).build();
            cx.state(show(&k).as_bytes());
            for t in &tys {
                cx.op();
                let r = t.deserialize(Decoder(k.clone()));
                match &r {
                    Ok(d) => {
                        if !agrees(t, &k, d) {
                            return viol(
                                format!("{} as {t:?}", show(&k)),
                                format!("decoding gives data the value does not hold\n value: {}\n type: {t:?}\n data: {d:?}", show(&k)),
                            );
                        }
                        cx.outcome(format!("{t:?}{d:?}").as_bytes());
                    }
                    Err(e) => {
                        if e.to_string().is_empty() {
                            return viol(format!("{} as {t:?}", show(&k)), "an error without a message");
                        }
                    }
                }
                cx.trace();
            }
            cx.sample(|| show(&k));
            Ok(())
        },
    )
}

/// What a self-describing reader is told about a value.
#[derive(Debug)]
enum Any {
    Bool(bool),
    U(u128),
    I(i128),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Any>),
    New(Box<Any>),
    List(Vec<Any>),
    Map(Vec<(Any, Any)>),
}

impl<'de> Deserialize<'de> for Any {
    fn deserialize<X: Deserializer<'de>>(d: X) -> Result<Any, X::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Any;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "anything")
            }
            fn visit_bool<E>(self, b: bool) -> Result<Any, E> {
                Ok(Any::Bool(b))
            }
            fn visit_u64<E>(self, n: u64) -> Result<Any, E> {
                Ok(Any::U(n as u128))
            }
            fn visit_u128<E>(self, n: u128) -> Result<Any, E> {
                Ok(Any::U(n))
            }
            fn visit_i64<E>(self, n: i64) -> Result<Any, E> {
                Ok(Any::I(n as i128))
            }
            fn visit_i128<E>(self, n: i128) -> Result<Any, E> {
                Ok(Any::I(n))
            }
            fn visit_f64<E>(self, n: f64) -> Result<Any, E> {
                Ok(Any::F(n))
            }
            fn visit_str<E>(self, s: &str) -> Result<Any, E> {
                Ok(Any::Str(s.into()))
            }
            fn visit_bytes<E>(self, s: &[u8]) -> Result<Any, E> {
                Ok(Any::Bytes(s.into()))
            }
            fn visit_unit<E>(self) -> Result<Any, E> {
                Ok(Any::Unit)
            }
            fn visit_none<E>(self) -> Result<Any, E> {
                Ok(Any::None)
            }
            fn visit_some<X: Deserializer<'de>>(self, d: X) -> Result<Any, X::Error> {
                Ok(Any::Some(Box::new(Any::deserialize(d)?)))
            }
            fn visit_newtype_struct<X: Deserializer<'de>>(self, d: X) -> Result<Any, X::Error> {
                Ok(Any::New(Box::new(Any::deserialize(d)?)))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut l = Vec::new();
                while let Some(x) = a.next_element()? {
                    l.push(x);
                }
                Ok(Any::List(l))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
                let mut l = Vec::new();
                while let Some(x) = a.next_entry()? {
                    l.push(x);
                }
                Ok(Any::Map(l))
            }
        }
        d.deserialize_any(V)
    }
}

fn any_agrees(a: &Any, k: &Kserd) -> bool {
    let id = k.id.as_ref().map(|s| s.as_str());
    match (&k.val, a) {
        (Value::Unit, Any::Unit) => true,
        (Value::Bool(x), Any::Bool(y)) => x == y,
        (Value::Num(n), Any::U(u)) => crate::num::num_same(n, &Number::Uint(*u)),
        (Value::Num(n), Any::I(u)) => crate::num::num_same(n, &Number::Int(*u)),
        (Value::Num(n), Any::F(u)) => crate::num::num_same(n, &Number::Float(*u)),
        (Value::Str(x), Any::Str(y)) => x.as_str() == y,
        (Value::Barr(x), Any::Bytes(y)) => x.as_bytes() == y,
        (Value::Tuple(x), Any::None) => x.is_empty() && id == Some("None"),
        (Value::Tuple(x), Any::Some(y)) => x.len() == 1 && id == Some("Some") && any_agrees(y, &x[0]),
        (Value::Tuple(x), Any::New(y)) => x.len() == 1 && any_agrees(y, &x[0]),
        (Value::Tuple(x) | Value::Seq(x), Any::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(k, a)| any_agrees(a, k)),
        (Value::Cntr(x), Any::Map(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(k, a)| matches!(&a.0, Any::Str(s) if s == k.0.as_str()) && any_agrees(&a.1, k.1))
        }
        (Value::Map(x), Any::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|(k, a)| any_agrees(&a.0, k.0) && any_agrees(&a.1, k.1)),
        _ => false,
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct OneField {
    a: u8,
}

/// Self-describing readers see every node; unknown fields are passed over whatever they hold.
fn sec_any(n: usize) -> Section {
    let spec = Spec {
        leaves: leaves18(),
        ids: vec![None, Some("T"), Some("Some"), Some("None")],
        names: vec!["a", "b", "z"],
        empties: true,
    };
    let ts = sum(trees(&spec, n));
    section(
        "self-describing",
        format!("every tree of up to {n} nodes over 30 leaves and 4 identities, read without a type and as an unknown field"),
        ts.count,
        move |i, cx| {
            let k = ts.get(i).build();
            cx.state(show(&k).as_bytes());
            cx.ops(2);
            match k.clone().decode::<Any>() {
                Ok(a) if any_agrees(&a, &k) => (),
                Ok(a) => {
                    return viol(format!("any {}", show(&k)), format!("a self-describing reader sees {a:?}\n value: {}", show(&k)));
                }
                Err(e) => {
                    return viol(format!("any {}", show(&k)), format!("a self-describing reader gets an error: {e}\n value: {}", show(&k)));
                }
            }
            for first in ["0", "b"] {
                let c = Kserd::new_cntr(vec![("a", Kserd::new_num(7u8)), (if first == "0" { "A" } else { first }, k.clone())]).unwrap();
                match c.decode::<OneField>() {
                    Ok(OneField { a: 7 }) => (),
                    r => {
                        return viol(format!("unknown field {}", show(&k)), format!("an unknown field disturbs decoding: {r:?}\n field: {}", show(&k)));
                    }
                }
            }
            cx.trace();
            cx.sample(|| show(&k));
            Ok(())
        },
    )
}

pub fn p18(t: Tier) -> Check {
    let ids = || vec![None, Some("A"), Some("B"), Some("Some"), Some("None"), Some("Z"), Some("C")];
    let few = || vec![m(V::Unit), m(V::Bool(true)), uint(1), uint(300), int(-1), flt(1.5), st("a").no_id(), ba(&[1]).no_id()];
    Check {
        sections: vec![
            sec_decode("leaves", 2, prims_all, leaves18(), ids(), 2),
            crate::p_more::sec_own_errors(),
            sec_any(t.pick(2, 3)),
            sec_decode("trees", 2, prims_few, few(), ids(), 3),
            sec_decode("types", 3, prims_few, vec![m(V::Bool(true)), int(-1)], ids(), t.pick(3, 4)),
        ],
        assumptions: vec![
            "identities are compared for options and enum variants only; a struct decodes from any value with its fields, whatever its identity",
            "a float decodes as the nearest float of the requested width; a float within 1e-10 of an integer counts as that integer (P13)",
            "unit is accepted as an absent option, as serde's own option type does",
        ],
        rule: "every decoding that succeeds gives exactly the data the value holds; none panics",
    }
}
