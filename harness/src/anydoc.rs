//! A self-describing serde target: whatever the deserializer offers becomes a `Doc`.

use crate::doc::Doc;
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};

pub struct AnyDoc(pub Doc);

struct V;

impl<'de> Visitor<'de> for V {
    type Value = AnyDoc;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Int(v.into())))
    }
    fn visit_u64<E>(self, v: u64) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Int(v.into())))
    }
    fn visit_f32<E>(self, v: f32) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::F32(v.to_bits())))
    }
    fn visit_f64<E>(self, v: f64) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::F64(v.to_bits())))
    }
    fn visit_str<E>(self, v: &str) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Str(v.to_string())))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Data(v.to_vec())))
    }
    fn visit_none<E>(self) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Null))
    }
    fn visit_unit<E>(self) -> Result<AnyDoc, E> {
        Ok(AnyDoc(Doc::Undef))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<AnyDoc, D::Error> {
        Deserialize::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<AnyDoc, A::Error> {
        let mut v = vec![];
        while let Some(AnyDoc(x)) = a.next_element()? {
            v.push(x);
        }
        Ok(AnyDoc(Doc::Arr(v)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<AnyDoc, A::Error> {
        let mut v = vec![];
        while let Some(AnyDoc(k)) = a.next_key()? {
            let Doc::Str(k) = k else {
                return Err(de::Error::custom("key is not a string"));
            };
            let AnyDoc(x) = a.next_value()?;
            v.push((k, x));
        }
        Ok(AnyDoc(Doc::Dict(v)))
    }
}

impl<'de> Deserialize<'de> for AnyDoc {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<AnyDoc, D::Error> {
        d.deserialize_any(V)
    }
}
