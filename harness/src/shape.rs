//! Types and values of serde's data model as data: a type shape, its values, a `Serialize` that does
//! what derived code does, and a `DeserializeSeed` whose visitors mirror derived code.  With it, all
//! shapes up to a size can be enumerated, where derived types are only a handful.

use crate::doc::Doc;
use crate::engine::Cx;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I(u8),
    U(u8),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Newtype(Rc<Ty>),
    Opt(Rc<Ty>),
    Seq(Rc<Ty>),
    Tuple(Vec<Rc<Ty>>),
    TupleStruct(Vec<Rc<Ty>>),
    Map(Rc<Ty>, Rc<Ty>),
    Struct(Vec<Rc<Ty>>),
    /// all variant kinds: see `variants`
    Enum(Rc<Ty>),
}

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    New(Rc<Ty>),
    Tuple(Vec<Rc<Ty>>),
    Struct(Vec<Rc<Ty>>),
}

#[derive(Clone, Debug)]
pub enum Val {
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    New(Box<Val>),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Var(usize, Vec<Val>),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Char(a), Char(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Unit, Unit) | (None, None) => true,
            (New(a), New(b)) | (Some(a), Some(b)) => a == b,
            (Seq(a), Seq(b)) => a == b,
            // the order of a map's entries is not kept
            (Map(a), Map(b)) => a.len() == b.len() && a.iter().all(|x| b.iter().filter(|y| *y == x).count() == 1),
            (Var(a, x), Var(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}

/// Field names: shareable, not shareable, inline, longer than 16 bytes.
pub const FIELDS: &[&str] = &["name", "two words", "x", "a_field_with_a_longer_name"];
pub const VARIANTS: &[&str] = &["Unit", "N", "Tuple", "Struct", "A single field", "No fields", "Empty", "Newtype"];

pub fn fields(n: usize) -> &'static [&'static str] {
    &FIELDS[..n]
}

/// The variants of `Enum(t)`.
pub fn variants(t: &Rc<Ty>) -> Vec<Var> {
    let int = Rc::new(Ty::I(32));
    vec![
        Var::Unit,
        Var::New(t.clone()),
        Var::Tuple(vec![t.clone(), int.clone()]),
        Var::Struct(vec![int, t.clone()]),
        Var::Struct(vec![t.clone()]),
        Var::Struct(vec![]),
        Var::Tuple(vec![]),
        // the name of the other one is stored inline
        Var::New(t.clone()),
    ]
}

pub fn show(t: &Ty) -> String {
    let list = |v: &[Rc<Ty>]| v.iter().map(|t| show(t)).collect::<Vec<_>>().join(", ");
    match t {
        Ty::I(n) => format!("i{n}"),
        Ty::U(n) => format!("u{n}"),
        Ty::Newtype(t) => format!("Newtype({})", show(t)),
        Ty::Opt(t) => format!("Option<{}>", show(t)),
        Ty::Seq(t) => format!("Vec<{}>", show(t)),
        Ty::Tuple(v) => format!("({},)", list(v)),
        Ty::TupleStruct(v) => format!("TupleStruct({})", list(v)),
        Ty::Map(k, v) => format!("Map<{}, {}>", show(k), show(v)),
        Ty::Struct(v) => format!("Struct{{{}}}", list(v)),
        Ty::Enum(t) => format!("Enum<{}>", show(t)),
        t => format!("{t:?}"),
    }
}

// ---------------------------------------------------------------- serializing

pub struct Ser<'a>(pub &'a Ty, pub &'a Val);

impl Serialize for Ser<'_> {
    #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::I(8), Val::Int(v)) => s.serialize_i8(*v as i8),
            (Ty::I(16), Val::Int(v)) => s.serialize_i16(*v as i16),
            (Ty::I(32), Val::Int(v)) => s.serialize_i32(*v as i32),
            (Ty::I(64), Val::Int(v)) => s.serialize_i64(*v as i64),
            (Ty::U(8), Val::Int(v)) => s.serialize_u8(*v as u8),
            (Ty::U(16), Val::Int(v)) => s.serialize_u16(*v as u16),
            (Ty::U(32), Val::Int(v)) => s.serialize_u32(*v as u32),
            (Ty::U(64), Val::Int(v)) => s.serialize_u64(*v as u64),
            (Ty::F32, Val::F32(v)) => s.serialize_f32(*v),
            (Ty::F64, Val::F64(v)) => s.serialize_f64(*v),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, Val::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Unit, Val::Unit) => s.serialize_unit(),
            (Ty::UnitStruct, Val::Unit) => s.serialize_unit_struct("UnitStruct"),
            (Ty::Newtype(t), Val::New(v)) => s.serialize_newtype_struct("Newtype", &Ser(t, v)),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Ser(t, v)),
            (Ty::Seq(t), Val::Seq(v)) => {
                // the length is given or not
                let mut q = s.serialize_seq((v.len() % 3 != 2).then_some(v.len()))?;
                for x in v {
                    q.serialize_element(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Tuple(t), Val::Seq(v)) => {
                let mut q = s.serialize_tuple(t.len())?;
                for (t, x) in t.iter().zip(v) {
                    q.serialize_element(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::TupleStruct(t), Val::Seq(v)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", t.len())?;
                for (t, x) in t.iter().zip(v) {
                    q.serialize_field(&Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Map(kt, vt), Val::Map(v)) => {
                let mut q = s.serialize_map((v.len() % 3 != 2).then_some(v.len()))?;
                for (k, x) in v {
                    if v.len() == 1 {
                        q.serialize_key(&Ser(kt, k))?;
                        q.serialize_value(&Ser(vt, x))?;
                    } else {
                        q.serialize_entry(&Ser(kt, k), &Ser(vt, x))?;
                    }
                }
                q.end()
            }
            (Ty::Struct(t), Val::Seq(v)) => {
                let mut q = s.serialize_struct("Struct", t.len())?;
                for (k, (t, x)) in t.iter().zip(v).enumerate() {
                    q.serialize_field(FIELDS[k], &Ser(t, x))?;
                }
                q.end()
            }
            (Ty::Enum(t), Val::Var(k, v)) => {
                let name = VARIANTS[*k];
                let idx = *k as u32;
                match &variants(t)[*k] {
                    Var::Unit => s.serialize_unit_variant("Enum", idx, name),
                    Var::New(t) => s.serialize_newtype_variant("Enum", idx, name, &Ser(t, &v[0])),
                    Var::Tuple(t) => {
                        let mut q = s.serialize_tuple_variant("Enum", idx, name, t.len())?;
                        for (t, x) in t.iter().zip(v) {
                            q.serialize_field(&Ser(t, x))?;
                        }
                        q.end()
                    }
                    Var::Struct(t) => {
                        let mut q = s.serialize_struct_variant("Enum", idx, name, t.len())?;
                        for (k, (t, x)) in t.iter().zip(v).enumerate() {
                            q.serialize_field(FIELDS[k], &Ser(t, x))?;
                        }
                        q.end()
                    }
                }
            }
            (t, v) => panic!("ENGINE: {t:?} has no value {v:?}"),
        }
    }
}

// -------------------------------------------------------------- deserializing

struct De<'a>(&'a Ty);

struct IntV(i128, i128);
struct FloatV(bool);
struct BoolV;
struct CharV;
struct StrV;
struct BytesV;
struct UnitV;
struct NewV<'a>(&'a Ty);
struct OptV<'a>(&'a Ty);
struct SeqV<'a>(&'a Ty);
struct TupV<'a>(&'a [Rc<Ty>]);
struct MapV<'a>(&'a Ty, &'a Ty);
struct StructV<'a>(&'a [Rc<Ty>]);
struct EnumV(Vec<Var>);
struct Ident(&'static [&'static str], bool);

macro_rules! expecting {
    ($x:expr) => {
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str($x)
        }
    };
}

impl IntV {
    fn ok<E: de::Error>(&self, v: i128) -> Result<Val, E> {
        if v < self.0 || v > self.1 {
            return Err(E::custom("integer out of range"));
        }
        Ok(Val::Int(v))
    }
}
impl Visitor<'_> for IntV {
    type Value = Val;
    expecting!("an integer");
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        self.ok(v.into())
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        self.ok(v.into())
    }
}

#[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
impl Visitor<'_> for FloatV {
    type Value = Val;
    expecting!("a number");
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Val, E> {
        Ok(if self.0 { Val::F64(v as f64) } else { Val::F32(v as f32) })
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Val, E> {
        Ok(if self.0 { Val::F64(v as f64) } else { Val::F32(v as f32) })
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Val, E> {
        Ok(if self.0 { Val::F64(v.into()) } else { Val::F32(v) })
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Val, E> {
        Ok(if self.0 { Val::F64(v) } else { Val::F32(v as f32) })
    }
}

impl Visitor<'_> for BoolV {
    type Value = Val;
    expecting!("a boolean");
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
}

impl Visitor<'_> for CharV {
    type Value = Val;
    expecting!("a character");
    fn visit_char<E: de::Error>(self, v: char) -> Result<Val, E> {
        Ok(Val::Char(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        let mut c = v.chars();
        match (c.next(), c.next()) {
            (Some(c), None) => Ok(Val::Char(c)),
            _ => Err(E::custom("not one character")),
        }
    }
}

impl Visitor<'_> for StrV {
    type Value = Val;
    expecting!("a string");
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
}

impl Visitor<'_> for BytesV {
    type Value = Val;
    expecting!("bytes");
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
        Ok(Val::Bytes(v.to_vec()))
    }
}

impl Visitor<'_> for UnitV {
    type Value = Val;
    expecting!("unit");
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
}

impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Val;
    expecting!("a newtype struct");
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::New(Box::new(De(self.0).deserialize(d)?)))
    }
    // as derived code does
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(De(self.0))? {
            Some(v) => Ok(Val::New(Box::new(v))),
            None => Err(de::Error::invalid_length(0, &self)),
        }
    }
}

impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Val;
    expecting!("an option");
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(De(self.0).deserialize(d)?)))
    }
}

impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Val;
    expecting!("a sequence");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        let mut hints = vec![a.size_hint()];
        while let Some(x) = a.next_element_seed(De(self.0))? {
            v.push(x);
            hints.push(a.size_hint());
        }
        if a.next_element::<IgnoredAny>()?.is_some() {
            return Err(de::Error::custom("an element after the end"));
        }
        hinted("sequence", &hints);
        Ok(Val::Seq(v))
    }
}

impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Val;
    expecting!("a tuple");
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for t in self.0 {
            match a.next_element_seed(De(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(Val::Seq(v))
    }
}

impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Val;
    expecting!("a map");
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        let mut hints = vec![a.size_hint()];
        while let Some(k) = a.next_key_seed(De(self.0))? {
            let x = a.next_value_seed(De(self.1))?;
            v.push((k, x));
            hints.push(a.size_hint());
        }
        hinted("map", &hints);
        Ok(Val::Map(v))
    }
}

impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl Visitor<'_> for Ident {
    type Value = Option<usize>;
    expecting!("a field or variant");
    // as derived code does
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
        match usize::try_from(v) {
            Ok(n) if n < self.0.len() => Ok(Some(n)),
            _ if self.1 => Ok(None),
            _ => Err(E::custom("unknown variant index")),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|x| *x == v) {
            Some(n) => Ok(Some(n)),
            None if self.1 => Ok(None),
            None => Err(E::custom("unknown variant")),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
        match self.0.iter().position(|x| x.as_bytes() == v) {
            Some(n) => Ok(Some(n)),
            None if self.1 => Ok(None),
            None => Err(E::custom("unknown variant")),
        }
    }
}

impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Val;
    expecting!("a struct");
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        TupV(self.0).visit_seq(a)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v: Vec<Option<Val>> = vec![None; self.0.len()];
        while let Some(k) = a.next_key_seed(Ident(fields(self.0.len()), true))? {
            match k {
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
                Some(k) => {
                    if v[k].is_some() {
                        return Err(de::Error::duplicate_field(FIELDS[k]));
                    }
                    v[k] = Some(a.next_value_seed(De(&self.0[k]))?);
                }
            }
        }
        let mut out = vec![];
        for (k, x) in v.into_iter().enumerate() {
            out.push(match (x, &*self.0[k]) {
                (Some(x), _) => x,
                (None, Ty::Opt(_)) => Val::None,
                (None, _) => return Err(de::Error::missing_field(FIELDS[k])),
            });
        }
        Ok(Val::Seq(out))
    }
}

impl<'de> Visitor<'de> for EnumV {
    type Value = Val;
    expecting!("an enum");
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (k, a) = a.variant_seed(Ident(&VARIANTS[..self.0.len()], false))?;
        let k = k.unwrap();
        let v = match &self.0[k] {
            Var::Unit => {
                a.unit_variant()?;
                vec![]
            }
            Var::New(t) => vec![a.newtype_variant_seed(De(t))?],
            Var::Tuple(t) => match a.tuple_variant(t.len(), TupV(t))? {
                Val::Seq(v) => v,
                _ => unreachable!(),
            },
            Var::Struct(t) => match a.struct_variant(fields(t.len()), StructV(t))? {
                Val::Seq(v) => v,
                _ => unreachable!(),
            },
        };
        Ok(Val::Var(k, v))
    }
}

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        match self.0 {
            Ty::Bool => d.deserialize_bool(BoolV),
            Ty::I(n) => {
                let v = IntV(-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1);
                match n {
                    8 => d.deserialize_i8(v),
                    16 => d.deserialize_i16(v),
                    32 => d.deserialize_i32(v),
                    _ => d.deserialize_i64(v),
                }
            }
            Ty::U(n) => {
                let v = IntV(0, (1i128 << n) - 1);
                match n {
                    8 => d.deserialize_u8(v),
                    16 => d.deserialize_u16(v),
                    32 => d.deserialize_u32(v),
                    _ => d.deserialize_u64(v),
                }
            }
            Ty::F32 => d.deserialize_f32(FloatV(false)),
            Ty::F64 => d.deserialize_f64(FloatV(true)),
            Ty::Char => d.deserialize_char(CharV),
            Ty::Str => d.deserialize_string(StrV),
            Ty::Bytes => d.deserialize_byte_buf(BytesV),
            Ty::Unit => d.deserialize_unit(UnitV),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", UnitV),
            Ty::Newtype(t) => d.deserialize_newtype_struct("Newtype", NewV(t)),
            Ty::Opt(t) => d.deserialize_option(OptV(t)),
            Ty::Seq(t) => d.deserialize_seq(SeqV(t)),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), TupV(t)),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("TupleStruct", t.len(), TupV(t)),
            Ty::Map(k, v) => d.deserialize_map(MapV(k, v)),
            Ty::Struct(t) => d.deserialize_struct("Struct", fields(t.len()), StructV(t)),
            Ty::Enum(t) => {
                let v = variants(t);
                d.deserialize_enum("Enum", &VARIANTS[..v.len()], EnumV(v))
            }
        }
    }
}

thread_local! {
    static TY: RefCell<Option<Ty>> = const { RefCell::new(None) };
    static HINTS: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// A value of whatever type `reading` says.
struct Out(Val);
impl<'de> de::Deserialize<'de> for Out {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Out, D::Error> {
        let t = TY.with(|t| t.borrow().clone()).unwrap();
        Ok(Out(De(&t).deserialize(d)?))
    }
}

/// `fleece::from_bytes::<t>(b)`
pub fn from_bytes(t: &Ty, b: &[u8]) -> Result<Val, fleece::Error> {
    TY.with(|x| *x.borrow_mut() = Some(t.clone()));
    fleece::from_bytes::<Out>(b).map(|o| o.0)
}

/// The hints given before the first, second ... element and at the end.
fn hinted(what: &str, hints: &[Option<usize>]) {
    let n = hints.len() - 1;
    if let Some((k, h)) = hints.iter().enumerate().find(|(k, h)| h.is_some_and(|h| h != n - k)) {
        HINTS.with(|x| *x.borrow_mut() = Some(format!("size_hint of a {what} of {n} is {h:?} after {k}")));
    }
}

/// A wrong size hint seen since the last call.
pub fn hint() -> Option<String> {
    HINTS.with(|h| h.borrow_mut().take())
}

// ------------------------------------------------------------------ the layout

/// The documented layout.
pub fn layout(t: &Ty, v: &Val) -> Doc {
    let name = |k: usize| Doc::Str(VARIANTS[k].to_string());
    let record = |t: &[Rc<Ty>], v: &[Val]| Doc::Dict(t.iter().zip(v).enumerate().map(|(k, (t, v))| (FIELDS[k].to_string(), layout(t, v))).collect());
    let list = |t: &[Rc<Ty>], v: &[Val]| Doc::Arr(t.iter().zip(v).map(|(t, v)| layout(t, v)).collect());
    match (t, v) {
        (_, Val::Bool(b)) => Doc::Bool(*b),
        (_, Val::Int(n)) => Doc::Int(*n),
        (_, Val::F32(x)) => Doc::F32(x.to_bits()),
        (_, Val::F64(x)) => Doc::F64(x.to_bits()),
        (_, Val::Char(c)) => Doc::Str(c.to_string()),
        (_, Val::Str(s)) => Doc::Str(s.clone()),
        (_, Val::Bytes(b)) => Doc::Data(b.clone()),
        (Ty::UnitStruct, Val::Unit) => Doc::Null,
        (_, Val::Unit) => Doc::Undef,
        (Ty::Newtype(t), Val::New(v)) => layout(t, v),
        (_, Val::None) => Doc::Null,
        (Ty::Opt(t), Val::Some(v)) => layout(t, v),
        (Ty::Seq(t), Val::Seq(v)) => Doc::Arr(v.iter().map(|v| layout(t, v)).collect()),
        (Ty::Tuple(t) | Ty::TupleStruct(t), Val::Seq(v)) => list(t, v),
        (Ty::Struct(t), Val::Seq(v)) => record(t, v),
        (Ty::Map(kt, t), Val::Map(v)) => Doc::Dict(
            v.iter()
                .map(|(k, v)| match layout(kt, k) {
                    Doc::Str(k) => (k, layout(t, v)),
                    d => panic!("ENGINE: key {d:?}"),
                })
                .collect(),
        ),
        (Ty::Enum(t), Val::Var(k, v)) => Doc::Arr(match &variants(t)[*k] {
            Var::Unit => vec![name(*k)],
            Var::New(t) => vec![name(*k), layout(t, &v[0])],
            Var::Tuple(t) => vec![name(*k), list(t, v)],
            Var::Struct(t) => vec![name(*k), record(t, v)],
        }),
        (t, v) => panic!("ENGINE: {t:?} has no value {v:?}"),
    }
}

/// Values that come back as they are: no `Some` of something written as null.
pub fn distinguishable(t: &Ty, v: &Val) -> bool {
    let all = |t: &[Rc<Ty>], v: &[Val]| t.iter().zip(v).all(|(t, v)| distinguishable(t, v));
    match (t, v) {
        (Ty::Opt(t), Val::Some(v)) => layout(t, v) != Doc::Null && distinguishable(t, v),
        (Ty::Newtype(t), Val::New(v)) => distinguishable(t, v),
        (Ty::Seq(t), Val::Seq(v)) => v.iter().all(|v| distinguishable(t, v)),
        (Ty::Tuple(t) | Ty::TupleStruct(t) | Ty::Struct(t), Val::Seq(v)) => all(t, v),
        (Ty::Map(_, t), Val::Map(v)) => v.iter().all(|(_, v)| distinguishable(t, v)),
        (Ty::Enum(t), Val::Var(k, v)) => match &variants(t)[*k] {
            Var::Unit => true,
            Var::New(t) => distinguishable(t, &v[0]),
            Var::Tuple(t) | Var::Struct(t) => all(t, v),
        },
        _ => true,
    }
}

// ------------------------------------------------------- what a document reads as

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Ok(Val),
    Err,
    /// the value or an error: the statement leaves it open
    Either(Val),
}

impl Want {
    fn soften(self, yes: bool) -> Want {
        match self {
            Want::Ok(v) if yes => Want::Either(v),
            w => w,
        }
    }
    fn map(self, f: impl FnOnce(Val) -> Val) -> Want {
        match self {
            Want::Ok(v) => Want::Ok(f(v)),
            Want::Either(v) => Want::Either(f(v)),
            Want::Err => Want::Err,
        }
    }
}

fn all(it: impl Iterator<Item = Want>) -> Result<(Vec<Val>, bool), ()> {
    let mut out = vec![];
    let mut open = false;
    for w in it {
        match w {
            Want::Ok(v) => out.push(v),
            Want::Either(v) => {
                out.push(v);
                open = true;
            }
            Want::Err => return Err(()),
        }
    }
    Ok((out, open))
}

fn record(t: &[Rc<Ty>], xs: &[(String, Doc)]) -> Result<(Vec<Val>, bool), ()> {
    all(t.iter().enumerate().map(|(k, t)| match (xs.iter().find(|x| x.0 == FIELDS[k]), &**t) {
        (Some(x), _) => expect(t, &x.1),
        (None, Ty::Opt(_)) => Want::Ok(Val::None),
        (None, _) => Want::Err,
    }))
}

/// What reading document `d` as `t` must give.
#[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
pub fn expect(t: &Ty, d: &Doc) -> Want {
    let seq = |r: Result<(Vec<Val>, bool), ()>| match r {
        Ok((v, open)) => Want::Ok(Val::Seq(v)).soften(open),
        Err(()) => Want::Err,
    };
    match (t, d) {
        (Ty::Bool, Doc::Bool(b)) => Want::Ok(Val::Bool(*b)),
        (Ty::I(n), Doc::Int(x)) => {
            if *x >= -(1i128 << (n - 1)) && *x < 1i128 << (n - 1) {
                Want::Ok(Val::Int(*x))
            } else {
                Want::Err
            }
        }
        (Ty::U(n), Doc::Int(x)) => {
            if *x >= 0 && *x < 1i128 << n {
                Want::Ok(Val::Int(*x))
            } else {
                Want::Err
            }
        }
        (Ty::F32, Doc::F32(b)) => Want::Ok(Val::F32(f32::from_bits(*b))),
        (Ty::F64, Doc::F64(b)) => Want::Ok(Val::F64(f64::from_bits(*b))),
        // other number kinds become what Rust converts them to, or are refused
        (Ty::F32, Doc::F64(b)) => Want::Either(Val::F32(f64::from_bits(*b) as f32)),
        (Ty::F64, Doc::F32(b)) => Want::Either(Val::F64(f32::from_bits(*b).into())),
        (Ty::F32, Doc::Int(x)) => Want::Either(Val::F32(*x as f32)),
        (Ty::F64, Doc::Int(x)) => Want::Either(Val::F64(*x as f64)),
        (Ty::Char, Doc::Str(s)) if s.chars().count() == 1 => Want::Ok(Val::Char(s.chars().next().unwrap())),
        (Ty::Str, Doc::Str(s)) => Want::Ok(Val::Str(s.clone())),
        (Ty::Bytes, Doc::Data(b)) => Want::Ok(Val::Bytes(b.clone())),
        (Ty::Unit, Doc::Undef) | (Ty::UnitStruct, Doc::Null) => Want::Ok(Val::Unit),
        (Ty::UnitStruct, Doc::Undef) => Want::Either(Val::Unit),
        (Ty::Newtype(t), d) => expect(t, d).map(|v| Val::New(Box::new(v))),
        (Ty::Opt(_), Doc::Null) => Want::Ok(Val::None),
        (Ty::Opt(t), d) => expect(t, d).map(|v| Val::Some(Box::new(v))),
        (Ty::Seq(t), Doc::Arr(xs)) => seq(all(xs.iter().map(|x| expect(t, x)))),
        (Ty::Tuple(t) | Ty::TupleStruct(t), Doc::Arr(xs)) if xs.len() >= t.len() => seq(all(t.iter().zip(xs).map(|(t, x)| expect(t, x)))).soften(xs.len() > t.len()),
        (Ty::Map(kt, t), Doc::Dict(xs)) => {
            let ks = all(xs.iter().map(|x| expect(kt, &Doc::Str(x.0.clone()))));
            let vs = all(xs.iter().map(|x| expect(t, &x.1)));
            match (ks, vs) {
                (Ok((k, a)), Ok((v, b))) => Want::Ok(Val::Map(k.into_iter().zip(v).collect())).soften(a || b),
                _ => Want::Err,
            }
        }
        (Ty::Struct(t), Doc::Dict(xs)) => seq(record(t, xs)).soften(xs.len() > t.len() || xs.iter().any(|x| !fields(t.len()).contains(&&*x.0))),
        (Ty::Enum(t), Doc::Arr(xs)) => {
            let Some(Doc::Str(name)) = xs.first() else { return Want::Err };
            let vs = variants(t);
            let Some(k) = VARIANTS[..vs.len()].iter().position(|v| v == name) else { return Want::Err };
            let r = match (&vs[k], &xs[1..]) {
                (Var::Unit, []) => Ok((vec![], false)),
                (Var::New(t), [x]) => all(std::iter::once(expect(t, x))),
                (Var::Tuple(t), [Doc::Arr(xs)]) if xs.len() == t.len() => all(t.iter().zip(xs).map(|(t, x)| expect(t, x))),
                (Var::Struct(t), [Doc::Dict(xs)]) if xs.iter().all(|x| fields(t.len()).contains(&&*x.0)) => record(t, xs).map(|(v, open)| (v, open || xs.len() < t.len())),
                _ => Err(()),
            };
            match r {
                Ok((v, open)) => Want::Ok(Val::Var(k, v)).soften(open),
                Err(()) => Want::Err,
            }
        }
        _ => Want::Err,
    }
}

// ------------------------------------------------------------------ enumeration

pub fn leaf_types() -> Vec<Ty> {
    let mut v: Vec<Ty> = [8, 16, 32, 64].into_iter().flat_map(|n| [Ty::I(n), Ty::U(n)]).collect();
    v.extend([Ty::Bool, Ty::F32, Ty::F64, Ty::Char, Ty::Str, Ty::Bytes, Ty::Unit, Ty::UnitStruct, Ty::Tuple(vec![]), Ty::TupleStruct(vec![]), Ty::Struct(vec![])]);
    v
}

/// The values of a leaf type that are looked at.
pub fn leaf_values(t: &Ty) -> Vec<Val> {
    let ints = |lo: i128, hi: i128| {
        let mut v: Vec<i128> = vec![];
        for n in [0i128, 7, 8, 11, 15, 16, 23, 24, 31, 32, 39, 47, 48, 55, 56, 63, 64] {
            for d in [-1, 0, 1] {
                v.extend([(1i128 << n) + d, -(1i128 << n) + d]);
            }
        }
        v.extend([lo, hi, 0, 100, 2047, 2048, -2048, -2049]);
        v.retain(|x| *x >= lo && *x <= hi);
        v.sort_unstable();
        v.dedup();
        v.into_iter().map(Val::Int).collect()
    };
    match t {
        Ty::I(n) => ints(-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1),
        Ty::U(n) => ints(0, (1i128 << n) - 1),
        Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Ty::F32 => [0.0, -0.0, 1.5, 0.1, f32::MIN, f32::MAX, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 16_777_217.0].into_iter().map(Val::F32).collect(),
        Ty::F64 => [0.0, -0.0, 1.5, 0.1, f64::MIN, f64::MAX, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 3.4e38, 1e39, 1e300, 16_777_217.0, 9_007_199_254_740_993.0, f32::MAX.into(), 1e-45, 1e-46].into_iter().map(Val::F64).collect(),
        Ty::Char => ['a', '\0', 'é', '€', '😀', '\u{10ffff}', ' '].into_iter().map(Val::Char).collect(),
        Ty::Str => ["", "a", "é", "ab", "€", "😀", "a\0b", "fourteen bytes", "fifteen bytes!!", "sixteen bytes!!!"].into_iter().map(|s| Val::Str(s.into())).chain([127, 128, 300].map(|n| Val::Str("s".repeat(n)))).collect(),
        Ty::Bytes => [0, 1, 2, 3, 14, 15, 16, 127, 128, 300].into_iter().map(|n| Val::Bytes(crate::gen::bytes(n, n))).collect(),
        Ty::Unit | Ty::UnitStruct => vec![Val::Unit],
        Ty::Tuple(t) | Ty::TupleStruct(t) | Ty::Struct(t) if t.is_empty() => vec![Val::Seq(vec![])],
        _ => panic!("ENGINE: not a leaf"),
    }
}

/// Ways to wrap one type into another.
pub fn wrappers() -> Vec<fn(Rc<Ty>) -> Ty> {
    vec![
        |t| Ty::Newtype(t),
        |t| Ty::Opt(t),
        |t| Ty::Seq(t),
        |t| Ty::Tuple(vec![t]),
        |t| Ty::Tuple(vec![t.clone(), Rc::new(Ty::U(8)), t]),
        |t| Ty::TupleStruct(vec![t, Rc::new(Ty::Str)]),
        |t| Ty::Map(Rc::new(Ty::Str), t),
        |t| Ty::Map(Rc::new(Ty::Char), t),
        |t| Ty::Map(Rc::new(Ty::Newtype(Rc::new(Ty::Str))), t),
        |t| Ty::Struct(vec![t]),
        |t| Ty::Struct(vec![t.clone(), Rc::new(Ty::Bool), Rc::new(Ty::Opt(t))]),
        |t| Ty::Enum(t),
    ]
}

/// All types of up to `budget` nodes.
pub fn ty(cx: &mut Cx, leaves: &[Ty], budget: &mut usize, top: bool) -> Rc<Ty> {
    *budget = budget.saturating_sub(1);
    let room = *budget > 0;
    let first = if top { leaves.len() } else { 0 };
    let n = leaves.len() + if room { 9 } else { 0 };
    assert!(n > first, "ENGINE: no room");
    let k = first + cx.choose(n - first);
    if k < leaves.len() {
        return Rc::new(leaves[k].clone());
    }
    let mut sub = |cx: &mut Cx| ty(cx, leaves, budget, false);
    Rc::new(match k - leaves.len() {
        0 => Ty::Newtype(sub(cx)),
        1 => Ty::Opt(sub(cx)),
        2 => Ty::Seq(sub(cx)),
        3 => Ty::Map(Rc::new(Ty::Str), sub(cx)),
        4 => Ty::Enum(sub(cx)),
        w => {
            let mut v = vec![sub(cx)];
            if *budget > 0 && cx.flag() {
                v.push(ty(cx, leaves, budget, false));
            }
            match w {
                5 => Ty::Tuple(v),
                6 => Ty::TupleStruct(v),
                7 => Ty::Struct(v),
                _ => {
                    v.push(Rc::new(Ty::Bool));
                    Ty::Struct(v)
                }
            }
        }
    })
}

pub const MAP_KEYS: [&str; 4] = ["ab", "not shareable!", "é", "a_key_longer_than_sixteen"];

fn key(t: &Ty, k: usize) -> Val {
    match t {
        Ty::Str => Val::Str(MAP_KEYS[k].into()),
        Ty::Char => Val::Char(['b', 'é', 'a', '😀'][k]),
        Ty::Newtype(t) => Val::New(Box::new(key(t, k))),
        Ty::Opt(t) => Val::Some(Box::new(key(t, k))),
        _ => leaf_values(t)[k].clone(),
    }
}

/// All values of `t`: sequences and maps of 0 to `reps` entries, `leaf` of each leaf's values
/// (0: all).
pub fn val(cx: &mut Cx, t: &Ty, reps: usize, leaf: usize) -> Val {
    let many = |cx: &mut Cx, t: &[Rc<Ty>]| t.iter().map(|t| val(cx, t, reps, leaf)).collect::<Vec<_>>();
    match t {
        Ty::Newtype(t) => Val::New(Box::new(val(cx, t, reps, leaf))),
        Ty::Opt(t) => {
            if cx.flag() {
                Val::Some(Box::new(val(cx, t, reps, leaf)))
            } else {
                Val::None
            }
        }
        Ty::Seq(t) => {
            let n = cx.choose(reps + 1);
            // the entries after the first are the same
            if n == 0 {
                return Val::Seq(vec![]);
            }
            let a = val(cx, t, reps, leaf);
            let mut v = vec![a];
            if n > 1 {
                let b = val(cx, t, reps.min(1), leaf.min(1).max(usize::from(leaf == 0)));
                v.resize(n, b);
            }
            Val::Seq(v)
        }
        Ty::Map(kt, t) => {
            let n = cx.choose(reps.min(4) + 1);
            let first = if n > 0 { cx.choose(2) } else { 0 };
            let mut v = vec![];
            for k in 0..n {
                let x = if k == 0 { val(cx, t, reps, leaf) } else { val(cx, t, reps.min(1), 1) };
                v.push((key(kt, (k + first) % 4), x));
            }
            Val::Map(v)
        }
        Ty::Tuple(t) | Ty::TupleStruct(t) | Ty::Struct(t) if !t.is_empty() => Val::Seq(many(cx, t)),
        Ty::Enum(t) => {
            let vs = variants(t);
            let k = cx.choose(vs.len());
            Val::Var(
                k,
                match &vs[k] {
                    Var::Unit => vec![],
                    Var::New(t) => vec![val(cx, t, reps, leaf)],
                    Var::Tuple(t) | Var::Struct(t) => many(cx, t),
                },
            )
        }
        t => {
            let v = leaf_values(t);
            let n = if leaf == 0 { v.len() } else { leaf.min(v.len()) };
            // spread over the list
            let k = cx.choose(n);
            v[k * v.len() / n].clone()
        }
    }
}

/// A value of `t` that holds `v` at every place of type `leaf`; the shape's own choices (how many
/// entries, which variant) are enumerated.
pub fn fill(cx: &mut Cx, t: &Ty, leaf: &Ty, v: &Val) -> Val {
    if t == leaf {
        return v.clone();
    }
    match t {
        Ty::Newtype(t) => Val::New(Box::new(fill(cx, t, leaf, v))),
        Ty::Opt(t) => Val::Some(Box::new(fill(cx, t, leaf, v))),
        Ty::Seq(t) => {
            let n = 1 + cx.choose(3);
            let x = fill(cx, t, leaf, v);
            Val::Seq(vec![x; n])
        }
        Ty::Map(kt, t) => {
            let n = 1 + cx.choose(3);
            let x = fill(cx, t, leaf, v);
            Val::Map((0..n).map(|k| (key(kt, k), x.clone())).collect())
        }
        Ty::Tuple(t) | Ty::TupleStruct(t) | Ty::Struct(t) if !t.is_empty() => {
            // the choices are made once
            let (xt, x) = (t[0].clone(), fill(cx, &t[0], leaf, v));
            Val::Seq(
                t.iter()
                    .map(|t| match &**t {
                        _ if xt == *t => x.clone(),
                        Ty::Opt(o) if xt == *o => Val::Some(Box::new(x.clone())),
                        t => leaf_values(t)[1].clone(),
                    })
                    .collect(),
            )
        }
        Ty::Enum(t) => {
            let vs = variants(t);
            let k = cx.choose(vs.len());
            let payload = match &vs[k] {
                Var::Unit => vec![],
                Var::New(t) => vec![fill(cx, t, leaf, v)],
                Var::Tuple(ts) | Var::Struct(ts) => {
                    if ts.is_empty() {
                        vec![]
                    } else {
                        let x = fill(cx, t, leaf, v);
                        ts.iter().map(|u| if u == t { x.clone() } else { Val::Int(-3000) }).collect()
                    }
                }
            };
            Val::Var(k, payload)
        }
        t => leaf_values(t)[0].clone(),
    }
}

/// All types of up to `n` nodes, as a list.
pub fn types(leaves: &[Ty], n: usize) -> Vec<Ty> {
    fn exact(leaves: &[Ty], n: usize, memo: &mut Vec<Option<Vec<Rc<Ty>>>>) -> Vec<Rc<Ty>> {
        if let Some(v) = &memo[n] {
            return v.clone();
        }
        let mut out: Vec<Rc<Ty>> = vec![];
        if n == 1 {
            out.extend(leaves.iter().cloned().map(Rc::new));
        } else if n > 1 {
            for t in exact(leaves, n - 1, memo) {
                out.extend(
                    [
                        Ty::Newtype(t.clone()),
                        Ty::Opt(t.clone()),
                        Ty::Seq(t.clone()),
                        Ty::Map(Rc::new(Ty::Str), t.clone()),
                        Ty::Enum(t.clone()),
                        Ty::Tuple(vec![t.clone()]),
                        Ty::TupleStruct(vec![t.clone()]),
                        Ty::Struct(vec![t.clone()]),
                        Ty::Struct(vec![t.clone(), Rc::new(Ty::Opt(Rc::new(Ty::Bool)))]),
                    ]
                    .map(Rc::new),
                );
            }
            for a in 1..n - 1 {
                for x in exact(leaves, a, memo) {
                    for y in exact(leaves, n - 1 - a, memo) {
                        let v = vec![x.clone(), y.clone()];
                        out.extend([Ty::Tuple(v.clone()), Ty::TupleStruct(v.clone()), Ty::Struct(v)].map(Rc::new));
                    }
                }
            }
        }
        memo[n] = Some(out.clone());
        out
    }
    let mut memo = vec![None; n + 1];
    (1..=n).flat_map(|k| exact(leaves, k, &mut memo)).map(|t| (*t).clone()).collect()
}
