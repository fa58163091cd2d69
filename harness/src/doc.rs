//! Reference documents: the abstract content of a Fleece document, how to write one through the
//! encoder and how to compare one with a decoded value through every accessor.

use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, SharedKeys, Value, ValueType};
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Null,
    Undef,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Data(Vec<u8>),
    Arr(Vec<Doc>),
    /// in insertion order; keys distinct
    Dict(Vec<(String, Doc)>),
}

pub fn s(x: &str) -> Doc {
    Doc::Str(x.to_string())
}
pub fn i(x: i128) -> Doc {
    Doc::Int(x)
}
pub fn f64d(x: f64) -> Doc {
    Doc::F64(x.to_bits())
}
pub fn f32d(x: f32) -> Doc {
    Doc::F32(x.to_bits())
}
pub fn dict(xs: Vec<(&str, Doc)>) -> Doc {
    Doc::Dict(xs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl Doc {
    /// Dict entries sorted by key (recursively): a canonical form for comparison.
    pub fn canon(&self) -> Doc {
        match self {
            Doc::Arr(v) => Doc::Arr(v.iter().map(Doc::canon).collect()),
            Doc::Dict(v) => {
                let mut v: Vec<_> = v.iter().map(|(k, d)| (k.clone(), d.canon())).collect();
                v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
                Doc::Dict(v)
            }
            d => d.clone(),
        }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.fmt(&mut o);
        if o.len() > 600 {
            let mut k = 600;
            while !o.is_char_boundary(k) {
                k -= 1;
            }
            o.truncate(k);
            o.push('…');
        }
        o
    }
    fn fmt(&self, o: &mut String) {
        match self {
            Doc::Null => o.push_str("null"),
            Doc::Undef => o.push_str("undefined"),
            Doc::Bool(b) => write!(o, "{b}").unwrap(),
            Doc::Int(i) => write!(o, "{i}").unwrap(),
            Doc::F32(b) => write!(o, "{:?}f32", f32::from_bits(*b)).unwrap(),
            Doc::F64(b) => write!(o, "{:?}f64", f64::from_bits(*b)).unwrap(),
            Doc::Str(s) if s.len() > 40 => write!(o, "str[{}]", s.len()).unwrap(),
            Doc::Str(s) => write!(o, "{s:?}").unwrap(),
            Doc::Data(d) if d.len() > 40 => write!(o, "data[{}]", d.len()).unwrap(),
            Doc::Data(d) => write!(o, "data{d:02x?}").unwrap(),
            Doc::Arr(v) => {
                o.push('[');
                for (k, d) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    if k > 12 {
                        write!(o, "… {} elements", v.len()).unwrap();
                        break;
                    }
                    d.fmt(o);
                }
                o.push(']');
            }
            Doc::Dict(v) => {
                o.push('{');
                for (k, (key, d)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    if k > 12 {
                        write!(o, "… {} entries", v.len()).unwrap();
                        break;
                    }
                    if key.len() > 40 {
                        write!(o, "key[{}]:", key.len()).unwrap();
                    } else {
                        write!(o, "{key:?}:").unwrap();
                    }
                    d.fmt(o);
                }
                o.push('}');
            }
        }
    }
    pub fn is_collection(&self) -> bool {
        matches!(self, Doc::Arr(_) | Doc::Dict(_))
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut o = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            write!(o, "… ({} bytes)", b.len()).unwrap();
            break;
        }
        write!(o, "{x:02x}").unwrap();
    }
    o
}

/// Write a document with the public encoder API.  `Err` carries the encoder's error.
pub fn emit(e: &mut Encoder, d: &Doc) -> Result<(), String> {
    let r = match d {
        Doc::Null => e.write_value(NullValue),
        Doc::Undef => e.write_value(UndefinedValue),
        Doc::Bool(b) => e.write_value(*b),
        Doc::Int(v) => {
            if let Ok(x) = i64::try_from(*v) {
                e.write_value(x)
            } else {
                e.write_value(u64::try_from(*v).expect("ENGINE: integer out of range"))
            }
        }
        Doc::F32(b) => e.write_value(f32::from_bits(*b)),
        Doc::F64(b) => e.write_value(f64::from_bits(*b)),
        Doc::Str(s) => e.write_value(s.as_str()),
        Doc::Data(b) => e.write_value(b.as_slice()),
        Doc::Arr(v) => {
            e.begin_array(v.len()).map_err(|x| format!("begin_array: {x:?}"))?;
            for x in v {
                emit(e, x)?;
            }
            e.end_array()
        }
        Doc::Dict(v) => {
            e.begin_dict().map_err(|x| format!("begin_dict: {x:?}"))?;
            for (k, x) in v {
                e.write_key(k).map_err(|x| format!("write_key({k:?}): {x:?}"))?;
                emit(e, x)?;
            }
            e.end_dict()
        }
    };
    r.map_err(|x| format!("encoder refused {}: {x:?}", d.show()))
}

/// Like `emit`, every text, key and datum read from the same place in memory.
pub fn emit_from(e: &mut Encoder, d: &Doc, buf: &mut Vec<u8>) -> Result<(), String> {
    fn put<'a>(buf: &'a mut Vec<u8>, b: &[u8]) -> &'a [u8] {
        buf.clear();
        buf.extend_from_slice(b);
        buf
    }
    match d {
        Doc::Str(s) => e.write_value(std::str::from_utf8(put(buf, s.as_bytes())).expect("ENGINE: text")),
        Doc::Data(b) => e.write_value(put(buf, b)),
        Doc::Arr(v) => {
            e.begin_array(v.len()).map_err(|x| format!("begin_array: {x:?}"))?;
            for x in v {
                emit_from(e, x, buf)?;
            }
            e.end_array()
        }
        Doc::Dict(v) => {
            e.begin_dict().map_err(|x| format!("begin_dict: {x:?}"))?;
            for (k, x) in v {
                e.write_key(std::str::from_utf8(put(buf, k.as_bytes())).expect("ENGINE: text")).map_err(|x| format!("write_key({k:?}): {x:?}"))?;
                emit_from(e, x, buf)?;
            }
            e.end_dict()
        }
        d => return emit(e, d),
    }
    .map_err(|x| format!("encoder refused {}: {x:?}", d.show()))
}

/// Room for every text of a document, so that the buffer of `emit_from` stays where it is.
pub fn room(d: &Doc) -> usize {
    match d {
        Doc::Str(s) => s.len(),
        Doc::Data(b) => b.len(),
        Doc::Arr(v) => v.iter().map(room).max().unwrap_or(0),
        Doc::Dict(v) => v.iter().map(|(k, x)| k.len().max(room(x))).max().unwrap_or(0),
        _ => 0,
    }
}

pub fn encode(d: &Doc) -> Result<Vec<u8>, String> {
    let mut e = Encoder::new();
    emit(&mut e, d)?;
    Ok(e.finish())
}

/// How dict keys are read.
#[derive(Clone, Copy)]
pub enum Keys<'a> {
    /// keys are plain strings, iteration is sorted
    Plain,
    /// some keys may be shared; found automatically through the live scope
    Scoped,
    /// shared keys given explicitly for lookups, iteration is not possible
    Explicit(&'a SharedKeys),
}

fn in_bytes(v: &Value) -> (usize, usize) {
    let p = std::ptr::from_ref(v).cast::<u8>() as usize;
    (p, p + v.len())
}

/// Compare a decoded value with a document through every accessor of the read API.
pub fn verify(v: &Value, d: &Doc, keys: Keys) -> Result<(), String> {
    verify_at(v, d, keys, &mut String::from("$"))
}

fn bad<T>(at: &str, what: &str, got: impl std::fmt::Debug, want: impl std::fmt::Debug) -> Result<T, String> {
    let mut g = format!("{got:?}");
    let mut w = format!("{want:?}");
    for x in [&mut g, &mut w] {
        if x.len() > 300 {
            let mut k = 300;
            while !x.is_char_boundary(k) {
                k -= 1;
            }
            x.truncate(k);
            x.push('…');
        }
    }
    Err(format!("at {at}: {what} is {g}, expected {w}"))
}

pub fn verify_at(v: &Value, d: &Doc, keys: Keys, at: &mut String) -> Result<(), String> {
    let t = v.value_type();
    match d {
        Doc::Null => {
            if t != ValueType::Null {
                return bad(at, "kind", t, d);
            }
        }
        Doc::Undef => {
            if t != ValueType::Undefined {
                return bad(at, "kind", t, d);
            }
        }
        Doc::Bool(b) => {
            if t != if *b { ValueType::True } else { ValueType::False } {
                return bad(at, "kind", t, d);
            }
            if v.to_bool() != *b {
                return bad(at, "to_bool", v.to_bool(), b);
            }
        }
        Doc::Int(n) => {
            if !matches!(t, ValueType::Short | ValueType::Int | ValueType::UnsignedInt) {
                return bad(at, "kind", t, d);
            }
            if let Ok(x) = i64::try_from(*n) {
                if v.to_int() != x {
                    return bad(at, "to_int", v.to_int(), x);
                }
            } else if t != ValueType::UnsignedInt {
                return bad(at, "kind", t, d);
            }
            if let Ok(x) = u64::try_from(*n) {
                if v.to_unsigned_int() != x {
                    return bad(at, "to_unsigned_int", v.to_unsigned_int(), x);
                }
            }
        }
        Doc::F32(b) => {
            if t != ValueType::Float {
                return bad(at, "kind", t, d);
            }
            let (x, g) = (f32::from_bits(*b), v.to_float());
            if !(x.to_bits() == g.to_bits() || (x.is_nan() && g.is_nan())) {
                return bad(at, "to_float", g, x);
            }
        }
        Doc::F64(b) => {
            if !matches!(t, ValueType::Double32 | ValueType::Double64) {
                return bad(at, "kind", t, d);
            }
            let (x, g) = (f64::from_bits(*b), v.to_double());
            if !(x.to_bits() == g.to_bits() || (x.is_nan() && g.is_nan())) {
                return bad(at, "to_double", g, x);
            }
        }
        Doc::Str(x) => {
            if t != ValueType::String {
                return bad(at, "kind", t, d);
            }
            if v.to_str() != x {
                return bad(at, "to_str", v.to_str(), x);
            }
            if v.to_data() != x.as_bytes() {
                return bad(at, "to_data", v.to_data(), x);
            }
        }
        Doc::Data(x) => {
            if t != ValueType::Data {
                return bad(at, "kind", t, d);
            }
            if v.to_data() != x.as_slice() {
                return bad(at, "to_data", v.to_data(), x);
            }
        }
        Doc::Arr(xs) => {
            let Some(a) = v.as_array() else {
                return bad(at, "kind", t, d);
            };
            if v.as_dict().is_some() {
                return bad(at, "as_dict", true, false);
            }
            verify_array(a, xs, keys, at)?;
        }
        Doc::Dict(xs) => {
            let Some(a) = v.as_dict() else {
                return bad(at, "kind", t, d);
            };
            if v.as_array().is_some() {
                return bad(at, "as_array", true, false);
            }
            verify_dict(a, xs, keys, at)?;
        }
    }
    Ok(())
}

pub fn verify_array(a: &Array, xs: &[Doc], keys: Keys, at: &mut String) -> Result<(), String> {
    if a.len() != xs.len() {
        return bad(at, "array len", a.len(), xs.len());
    }
    if a.is_empty() != xs.is_empty() {
        return bad(at, "array is_empty", a.is_empty(), xs.is_empty());
    }
    let n = at.len();
    let mut it = a.iter();
    for (k, x) in xs.iter().enumerate() {
        write!(at, "[{k}]").unwrap();
        let want = xs.len() - k;
        if it.size_hint() != (want, Some(want)) {
            return bad(at, "array iter size_hint", it.size_hint(), want);
        }
        let Some(el) = it.next() else {
            return bad(at, "array iteration", "ended", "an element");
        };
        verify_at(el, x, keys, at)?;
        match a.get(k) {
            None => return bad(at, "get", "None", "an element"),
            Some(g) => {
                if in_bytes(g).0 != in_bytes(el).0 {
                    verify_at(g, x, keys, at)?;
                }
            }
        }
        at.truncate(n);
    }
    if it.next().is_some() {
        return bad(at, "array iteration", "an extra element", "end");
    }
    Ok(())
}

pub fn verify_dict(a: &Dict, xs: &[(String, Doc)], keys: Keys, at: &mut String) -> Result<(), String> {
    if a.len() != xs.len() {
        return bad(at, "dict len", a.len(), xs.len());
    }
    if a.is_empty() != xs.is_empty() {
        return bad(at, "dict is_empty", a.is_empty(), xs.is_empty());
    }
    let n = at.len();
    let mut sorted: Vec<usize> = (0..xs.len()).collect();
    sorted.sort_by(|p, q| xs[*p].0.as_bytes().cmp(xs[*q].0.as_bytes()));
    // entries are verified once per distinct address, or the work would double at every level
    let mut where_: Vec<(usize, usize)> = Vec::with_capacity(xs.len());
    for (key, x) in xs {
        write!(at, "[{key:?}]").unwrap();
        let got = match keys {
            Keys::Explicit(sk) => {
                if !a.contains_key_with_shared_keys(key.as_str(), sk) {
                    return bad(at, "contains_key_with_shared_keys", false, true);
                }
                a.get_with_shared_keys(key.as_str(), sk)
            }
            _ => {
                if !a.contains_key(key.as_str()) {
                    return bad(at, "contains_key", false, true);
                }
                a.get(key.as_str())
            }
        };
        let Some(g) = got else {
            return bad(at, "dict get", "None", "a value");
        };
        verify_at(g, x, keys, at)?;
        where_.push(in_bytes(g));
        at.truncate(n);
    }
    match keys {
        Keys::Plain => {
            let mut it = a.iter();
            for (k, ix) in sorted.iter().enumerate() {
                let want = xs.len() - k;
                if it.size_hint() != (want, Some(want)) {
                    return bad(at, "dict iter size_hint", it.size_hint(), want);
                }
                let Some((key, val)) = it.next() else {
                    return bad(at, "dict iteration", "ended", &xs[*ix].0);
                };
                if key != xs[*ix].0 {
                    return bad(at, "dict iteration key", key, &xs[*ix].0);
                }
                if in_bytes(val) != where_[*ix] {
                    write!(at, "<{key:?}>").unwrap();
                    verify_at(val, &xs[*ix].1, keys, at)?;
                    at.truncate(n);
                }
            }
            if it.next().is_some() {
                return bad(at, "dict iteration", "an extra entry", "end");
            }
            match (a.first(), sorted.first()) {
                (None, None) => {}
                (Some((k, v)), Some(ix)) => {
                    if k.to_str() != xs[*ix].0 {
                        return bad(at, "dict first key", k.to_str(), &xs[*ix].0);
                    }
                    if in_bytes(v) != where_[*ix] {
                        verify_at(v, &xs[*ix].1, keys, at)?;
                    }
                }
                (x, y) => return bad(at, "dict first", x.is_some(), y.is_some()),
            }
        }
        Keys::Scoped => {
            let mut seen = vec![false; xs.len()];
            let mut it = a.iter();
            for k in 0..xs.len() {
                let want = xs.len() - k;
                if it.size_hint() != (want, Some(want)) {
                    return bad(at, "dict iter size_hint", it.size_hint(), want);
                }
                let Some((key, val)) = it.next() else {
                    return bad(at, "dict iteration", "ended early", xs.len());
                };
                let Ok(p) = sorted.binary_search_by(|ix| xs[*ix].0.as_bytes().cmp(key.as_bytes())) else {
                    return bad(at, "dict iteration", key, "one of the keys written");
                };
                let ix = sorted[p];
                if seen[ix] {
                    return bad(at, "dict iteration", key, "each key once");
                }
                seen[ix] = true;
                if in_bytes(val) != where_[ix] {
                    write!(at, "<{key:?}>").unwrap();
                    verify_at(val, &xs[ix].1, keys, at)?;
                    at.truncate(n);
                }
            }
            if it.next().is_some() {
                return bad(at, "dict iteration", "an extra entry", "end");
            }
        }
        Keys::Explicit(_) => {}
    }
    Ok(())
}

/// Read a decoded value back into a document through iteration.
pub fn read(v: &Value) -> Doc {
    match v.value_type() {
        ValueType::Null => Doc::Null,
        ValueType::Undefined => Doc::Undef,
        ValueType::False => Doc::Bool(false),
        ValueType::True => Doc::Bool(true),
        ValueType::Short | ValueType::Int => Doc::Int(v.to_int().into()),
        ValueType::UnsignedInt => Doc::Int(v.to_unsigned_int().into()),
        ValueType::Float => Doc::F32(v.to_float().to_bits()),
        ValueType::Double32 | ValueType::Double64 => Doc::F64(v.to_double().to_bits()),
        ValueType::String => Doc::Str(v.to_str().to_string()),
        ValueType::Data => Doc::Data(v.to_data().to_vec()),
        ValueType::Array => Doc::Arr(v.as_array().unwrap().iter().map(read).collect()),
        ValueType::Dict => Doc::Dict(
            v.as_dict()
                .unwrap()
                .iter()
                .map(|(k, v)| (k.to_string(), read(v)))
                .collect(),
        ),
        ValueType::Pointer => panic!("a pointer value was handed out"),
    }
}

/// Compare a mutable array with its model.
pub fn verify_marr(a: &MutableArray, xs: &[Doc], at: &mut String) -> Result<(), String> {
    if a.len() != xs.len() {
        return bad(at, "mutable array len", a.len(), xs.len());
    }
    if a.is_empty() != xs.is_empty() {
        return bad(at, "mutable array is_empty", a.is_empty(), xs.is_empty());
    }
    let n = at.len();
    let mut it = a.iter();
    for (k, x) in xs.iter().enumerate() {
        write!(at, "[{k}]").unwrap();
        let want = xs.len() - k;
        if it.size_hint() != (want, Some(want)) {
            return bad(at, "mutable array iter size_hint", it.size_hint(), want);
        }
        let Some(r) = it.next() else {
            return bad(at, "mutable array iteration", "ended", "an element");
        };
        let g = (a.get(k), a.get_array(k), a.get_dict(k));
        slot(g.0, g.1, g.2, x, at)?;
        same_slot(g, (r.value(), r.array(), r.dict()), at)?;
        if (r.is_value(), r.is_array(), r.is_dict())
            != (r.value().is_some(), r.array().is_some(), r.dict().is_some())
        {
            return bad(at, "Ref kind", (r.is_value(), r.is_array(), r.is_dict()), x);
        }
        at.truncate(n);
    }
    if it.next().is_some() {
        return bad(at, "mutable array iteration", "an extra element", "end");
    }
    if a.get(xs.len()).is_some() || a.get_array(xs.len()).is_some() || a.get_dict(xs.len()).is_some() {
        return bad(at, "get(len)", "Some", "None");
    }
    Ok(())
}

type Slot<'a> = (Option<&'a Value>, Option<&'a MutableArray>, Option<&'a MutableDict>);

/// Iteration must show the very slots that lookup finds.
fn same_slot(a: Slot, b: Slot, at: &str) -> Result<(), String> {
    let addr = |s: Slot| {
        (
            s.0.map(in_bytes),
            s.1.map(|x| std::ptr::from_ref(x) as usize),
            s.2.map(|x| std::ptr::from_ref(x) as usize),
        )
    };
    if addr(a) == addr(b) {
        Ok(())
    } else {
        bad(at, "slot seen by iteration", "another one", "the one lookup finds")
    }
}

fn slot(
    v: Option<&Value>,
    a: Option<&MutableArray>,
    d: Option<&MutableDict>,
    x: &Doc,
    at: &mut String,
) -> Result<(), String> {
    match x {
        Doc::Arr(xs) => {
            let (None, Some(a), None) = (v, a, d) else {
                return bad(at, "slot (value,array,dict)", (v.is_some(), a.is_some(), d.is_some()), "an array");
            };
            verify_marr(a, xs, at)
        }
        Doc::Dict(xs) => {
            let (None, None, Some(d)) = (v, a, d) else {
                return bad(at, "slot (value,array,dict)", (v.is_some(), a.is_some(), d.is_some()), "a dict");
            };
            verify_mdict(d, xs, at)
        }
        _ => {
            let (Some(v), None, None) = (v, a, d) else {
                return bad(at, "slot (value,array,dict)", (v.is_some(), a.is_some(), d.is_some()), "a value");
            };
            verify_at(v, x, Keys::Plain, at)
        }
    }
}

/// Compare a mutable dict with its model (any order of iteration).
pub fn verify_mdict(a: &MutableDict, xs: &[(String, Doc)], at: &mut String) -> Result<(), String> {
    if a.len() != xs.len() {
        return bad(at, "mutable dict len", a.len(), xs.len());
    }
    if a.is_empty() != xs.is_empty() {
        return bad(at, "mutable dict is_empty", a.is_empty(), xs.is_empty());
    }
    let n = at.len();
    for (key, x) in xs {
        write!(at, "[{key:?}]").unwrap();
        if !a.contains_key(key) {
            return bad(at, "contains_key", false, true);
        }
        slot(a.get(key), a.get_array(key), a.get_dict(key), x, at)?;
        at.truncate(n);
    }
    let mut it = a.iter();
    let mut seen = vec![false; xs.len()];
    let index: std::collections::HashMap<&str, usize> = if xs.len() > 16 {
        xs.iter().enumerate().map(|(i, (k, _))| (k.as_str(), i)).collect()
    } else {
        Default::default()
    };
    for k in 0..xs.len() {
        let want = xs.len() - k;
        if it.size_hint() != (want, Some(want)) {
            return bad(at, "mutable dict iter size_hint", it.size_hint(), want);
        }
        let Some((key, r)) = it.next() else {
            return bad(at, "mutable dict iteration", "ended early", xs.len());
        };
        let found = if xs.len() > 16 {
            index.get(key).copied()
        } else {
            xs.iter().position(|(q, _)| q == key)
        };
        let Some(ix) = found else {
            return bad(at, "mutable dict iteration", key, "one of the keys");
        };
        if seen[ix] {
            return bad(at, "mutable dict iteration", key, "each key once");
        }
        seen[ix] = true;
        write!(at, "<{key:?}>").unwrap();
        same_slot((a.get(key), a.get_array(key), a.get_dict(key)), (r.value(), r.array(), r.dict()), at)?;
        if (r.is_value(), r.is_array(), r.is_dict())
            != (r.value().is_some(), r.array().is_some(), r.dict().is_some())
        {
            return bad(at, "Ref kind", (r.is_value(), r.is_array(), r.is_dict()), &xs[ix].1);
        }
        at.truncate(n);
    }
    if it.next().is_some() {
        return bad(at, "mutable dict iteration", "an extra entry", "end");
    }
    Ok(())
}
