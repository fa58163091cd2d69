//! C21: serde failures are reported, never panics or wrong data.

use super::c19;
use crate::anydoc::AnyDoc;
use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use crate::mem;
use crate::refcodec::{self, Ref, Strict};
use crate::shape::{self, Ser, Ty, Val, Want, FIELDS, VARIANTS};
use fleece::error::SerializeError;
use fleece::{Encoder, Error, Value};
use serde::de::self;
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq};
use std::rc::Rc;

type R<T> = Result<T, String>;

fn judge(t: &Ty, d: &Doc, b: &[u8], how: &str) -> R<()> {
    let got = shape::from_bytes(t, b);
    shape::hint();
    let bad = |what: String| Err(format!("{how}: reading {} as {}: {what}", d.show(), shape::show(t)));
    match (got, shape::expect(t, d)) {
        (Ok(v), Want::Ok(w) | Want::Either(w)) if v == w => Ok(()),
        (Err(e), Want::Err | Want::Either(_)) => {
            std::hint::black_box(format!("{e} {e:?}").len());
            Ok(())
        }
        (Ok(v), Want::Err) => bad(format!("{v:?} instead of an error")),
        (Ok(v), Want::Ok(w) | Want::Either(w)) => bad(format!("{v:?} instead of {w:?}")),
        (Err(e), Want::Ok(w)) => bad(format!("error {e} instead of {w:?}")),
    }
}

/// The document on its own and in a scope with shared keys, each as every one of the types.
fn all(d: &Doc, ts: &[Ty]) -> R<u64> {
    let b = encode(d)?;
    for t in ts {
        judge(t, d, &b, "plain")?;
    }
    let mut e = Encoder::new();
    e.set_shared_keys(fleece::SharedKeys::new());
    emit(&mut e, d)?;
    let sc = e.finish_scoped();
    let data = sc.data().ok_or("no data")?;
    let r = ts.iter().try_for_each(|t| judge(t, d, &data, "with shared keys"));
    sc.remove();
    r?;
    Ok(2 * ts.len() as u64)
}

fn leaves() -> Vec<Ty> {
    vec![Ty::I(8), Ty::U(64), Ty::F32, Ty::F64, Ty::Bool, Ty::Str, Ty::Char, Ty::Bytes, Ty::Unit, Ty::UnitStruct]
}

fn leaf_docs() -> Vec<Doc> {
    vec![i(5), i(-1), i(300), i(u64::MAX.into()), f32d(1.5), f64d(0.1), s("a"), s(""), s(VARIANTS[0]), s(VARIANTS[1]), s("two words"), Doc::Data(b"N".to_vec()), Doc::Bool(true), Doc::Null, Doc::Undef]
}

/// Every node of a document, in preorder, edited in place by `f`; true if node `k` exists.
fn at(d: &mut Doc, k: &mut usize, f: &mut dyn FnMut(&mut Doc)) -> bool {
    if *k == 0 {
        f(d);
        return true;
    }
    *k -= 1;
    match d {
        Doc::Arr(xs) => xs.iter_mut().any(|x| at(x, k, f)),
        Doc::Dict(xs) => xs.iter_mut().any(|x| at(&mut x.1, k, f)),
        _ => false,
    }
}

fn nodes(d: &Doc) -> usize {
    1 + match d {
        Doc::Arr(xs) => xs.iter().map(nodes).sum(),
        Doc::Dict(xs) => xs.iter().map(|x| nodes(&x.1)).sum(),
        _ => 0,
    }
}

/// One edit of one node.
fn mutate(cx: &mut Cx, d: &mut Doc) {
    let mut k = cx.choose(nodes(d));
    let mut others = leaf_docs();
    others.extend([Doc::Arr(vec![]), Doc::Dict(vec![]), Doc::Arr(vec![s(VARIANTS[0])]), Doc::Arr(vec![s("Unknown")]), Doc::Arr(vec![s(VARIANTS[5]), Doc::Dict(vec![])])]);
    let mut kind = 0;
    at(d, &mut k.clone(), &mut |n| {
        kind = match n {
            Doc::Arr(xs) => 100 + xs.len(),
            Doc::Dict(xs) => 200 + xs.len(),
            _ => 0,
        }
    });
    let mut edit: Box<dyn FnMut(&mut Doc)> = match cx.choose(if kind > 0 { 6 } else { 1 }) {
        0 => {
            let x = cx.pick(&others).clone();
            Box::new(move |n| *n = x.clone())
        }
        // arrays and dicts: remove, append, repeat, put in front, rename
        w => {
            let len = kind % 100;
            if w < 3 && len == 0 {
                cx.prune();
            }
            let p = if w < 3 { cx.choose(len) } else { 0 };
            let name = FIELDS[cx.choose(if w > 1 { FIELDS.len() } else { 1 })].to_string();
            let x = if w > 2 { [i(7), Doc::Null, s("a")][cx.choose(3)].clone() } else { Doc::Null };
            Box::new(move |n| match n {
                Doc::Arr(xs) => match w {
                    1 => {
                        xs.remove(p);
                    }
                    2 => {
                        let y = xs[p].clone();
                        xs.push(y);
                    }
                    3 => xs.push(x.clone()),
                    4 => xs.insert(0, x.clone()),
                    _ => xs.extend([x.clone(), x.clone()]),
                },
                Doc::Dict(xs) => match w {
                    1 => {
                        xs.remove(p);
                    }
                    2 => {
                        if xs.iter().all(|x| x.0 != name) {
                            xs[p].0 = name.clone();
                        }
                    }
                    3 | 4 => {
                        if xs.iter().all(|x| x.0 != name) {
                            xs.push((name.clone(), x.clone()));
                        }
                    }
                    _ => xs.push(("unknown".into(), x.clone())),
                },
                _ => {}
            })
        }
    };
    at(d, &mut k, &mut *edit);
}

// ------------------------------------------------------------------ serializing

/// Serializes one entry with any key.
struct OneEntry<'a>(&'a Ty, &'a Val, bool);
impl Serialize for OneEntry<'_> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(2))?;
        if self.2 {
            m.serialize_entry("fine", &1)?;
        }
        m.serialize_entry(&Ser(self.0, self.1), &2)?;
        m.end()
    }
}

struct Wide;
impl Serialize for Wide {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_i128(1 << 100)
    }
}
struct Fails(&'static str);
impl Serialize for Fails {
    fn serialize<S: ser::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(ser::Error::custom(self.0))
    }
}
/// Fails at one of three moments: at once, after an element, or when its collection has begun a nested one.
struct FailsWithin(&'static str, usize);
impl Serialize for FailsWithin {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let fails = Fails(self.0);
        match self.1 {
            0 => fails.serialize(s),
            1 => {
                let mut q = s.serialize_seq(Some(2))?;
                q.serialize_element(&1)?;
                q.serialize_element(&fails)?;
                q.end()
            }
            2 => {
                let mut m = s.serialize_map(Some(2))?;
                m.serialize_entry("a", &1)?;
                m.serialize_entry("b", &fails)?;
                m.end()
            }
            3 => {
                let mut m = s.serialize_map(Some(1))?;
                m.serialize_entry(&fails, &1)?;
                m.end()
            }
            _ => s.serialize_newtype_variant("E", 0, "V", &(1, [fails])),
        }
    }
}
const FAILURES: usize = 5;
const MESSAGES: [&str; 4] = ["it fails", "", "\u{e4} {} %s \n\"", "a message of some length, which says what is wrong with the value, where it is, and what it should have been instead"];

thread_local! {
    /// What `Picky` says.
    static SAYS: std::cell::Cell<&'static str> = const { std::cell::Cell::new("") };
}
/// Deserializes a number, and refuses one of them.
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Picky(i64);
impl<'de> serde::Deserialize<'de> for Picky {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = i64::deserialize(d)?;
        if x == 77 {
            return Err(de::Error::custom(SAYS.get()));
        }
        Ok(Picky(x))
    }
}
/// Deserializes a text, and refuses one of them.
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct PickyKey(String);
impl<'de> serde::Deserialize<'de> for PickyKey {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = String::deserialize(d)?;
        if x == "77" {
            return Err(de::Error::custom(SAYS.get()));
        }
        Ok(PickyKey(x))
    }
}
/// Deserializes numbers up to a refused one, which it says nothing about: it stops there with an error of its own.
#[derive(PartialEq, Debug)]
struct Upto(Vec<i64>);
impl<'de> serde::Deserialize<'de> for Upto {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Upto;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("numbers")
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Upto, A::Error> {
                let mut xs = Vec::new();
                while let Some(x) = a.next_element()? {
                    if x == 77 {
                        return Err(de::Error::custom(SAYS.get()));
                    }
                    xs.push(x);
                }
                Ok(Upto(xs))
            }
        }
        d.deserialize_seq(V)
    }
}

/// Reads with types that refuse 77; the document has `x` in the place in question.
fn refusal(k: usize, x: i64, wide: bool) -> Result<(), Error> {
    use std::collections::BTreeMap;
    let text = if wide { "t".repeat(70_000) } else { "t".into() };
    fn there<'a, T: serde::de::DeserializeOwned + PartialEq>(v: impl Serialize, want: T) -> Result<(), Error> {
        let b = fleece::to_bytes(v)?;
        let back: T = fleece::from_bytes(&b)?;
        assert!(back == want, "something else is read");
        Ok(())
    }
    let m = |k: &str, x: i64| BTreeMap::from([(k.to_string(), x)]);
    match k {
        0 => there((&text, x), (text.clone(), Picky(x))),
        1 => there((&text, Some(x)), (text.clone(), Some(Picky(x)))),
        2 => there((&text, New(x)), (text.clone(), New(Picky(x)))),
        3 => there((&text, [1, x, 2]), (text.clone(), [Picky(1), Picky(x), Picky(2)])),
        4 => there((&text, m("k", x)), (text.clone(), BTreeMap::from([("k".to_string(), Picky(x))]))),
        5 => there((&text, m(&x.to_string(), 1)), (text.clone(), BTreeMap::from([(PickyKey(x.to_string()), 1)]))),
        6 => there((&text, Field { before: 1, inner: x }), (text.clone(), Field { before: 1, inner: Picky(x) })),
        7 => there((&text, En::New(x)), (text.clone(), En::New(Picky(x)))),
        8 => there((&text, En::Tuple(1, x)), (text.clone(), En::Tuple(1, Picky(x)))),
        9 => there((&text, En::Struct { inner: x }), (text.clone(), En::Struct { inner: Picky(x) })),
        10 => there((&text, vec![1, x, 2]), (text.clone(), Upto(vec![1, x, 2]))),
        11 => there((&text, En::Tuple(1, vec![x])), (text.clone(), En::Tuple(1, Upto(vec![x])))),
        _ => there((&text, [Field { before: 1, inner: En::Struct { inner: Some(x) } }]), (text.clone(), [Field { before: 1, inner: En::Struct { inner: Some(Picky(x)) } }])),
    }
}

#[derive(serde::Serialize, serde::Deserialize, PartialEq)]
struct New<T>(T);
#[derive(serde::Serialize, serde::Deserialize, PartialEq)]
struct Field<T> {
    before: i32,
    inner: T,
}
#[derive(serde::Serialize, serde::Deserialize, PartialEq)]
enum En<T> {
    New(T),
    Tuple(i32, T),
    Struct { inner: T },
}

/// The result of serializing `v` within context `k`.
fn within<T: Serialize + Copy>(k: usize, v: T, shared: bool) -> Result<(), Error> {
    fn run<T: Serialize>(v: T, shared: bool) -> Result<(), Error> {
        if shared {
            fleece::to_bytes_with_shared_keys(v).map(|s| s.remove())
        } else {
            fleece::to_bytes(v).map(|_| ())
        }
    }
    match k {
        0 => run(v, shared),
        1 => run(New(v), shared),
        2 => run(Some(v), shared),
        3 => run([1; 3].map(|_| v), shared),
        4 => run((1, v), shared),
        5 => run(std::collections::BTreeMap::from([("k", v)]), shared),
        6 => run(Field { before: 1, inner: v }, shared),
        7 => run(En::New(v), shared),
        8 => run(En::Tuple(1, v), shared),
        9 => run(En::Struct { inner: v }, shared),
        10 => run(vec![Some(New(v))], shared),
        11 => run(Field { before: 1, inner: vec![En::New(Field { before: 2, inner: v })] }, shared),
        _ => run(vec![std::collections::BTreeMap::from([("k", vec![En::Tuple(1, v)])])], shared),
    }
}
const CONTEXTS: usize = 13;
/// Contexts that add no collection around the value.
const BARE: usize = 3;

impl Clone for OneEntry<'_> {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for OneEntry<'_> {}
impl Clone for Wide {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for Wide {}
impl Clone for FailsWithin {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for FailsWithin {}
impl Clone for Ser<'_> {
    fn clone(&self) -> Self {
        *self
    }
}
impl Copy for Ser<'_> {}

fn is_key(t: &Ty, v: &Val) -> bool {
    match (t, v) {
        (Ty::Str | Ty::Char, _) => true,
        (Ty::Newtype(t), Val::New(v)) | (Ty::Opt(t), Val::Some(v)) => is_key(t, v),
        _ => false,
    }
}

fn after(what: &str) -> R<()> {
    // nothing is left behind
    let b = fleece::to_bytes(vec![1, 2]).map_err(|e| format!("after {what}: {e}"))?;
    let v: Vec<i32> = fleece::from_bytes(&b).map_err(|e| format!("after {what}: {e}"))?;
    if v != [1, 2] {
        return Err(format!("after {what}: {v:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------- documents as bytes

fn raw(b: &[u8], ts: &[Ty]) -> R<u64> {
    mem::current(b);
    if Value::from_bytes(b).is_err() {
        for t in ts.iter().take(3) {
            if shape::from_bytes(t, b).is_ok() {
                return Err(format!("refused bytes {} are read", hex(b)));
            }
        }
        return Ok(0);
    }
    let d = match refcodec::decode(b, &refcodec::no_sk, Strict::default()) {
        Ref::Ok(d) => Some(d),
        Ref::Bad(_) => None,
    };
    for t in ts {
        match &d {
            Some(d) => judge(t, d, b, &hex(b))?,
            None => {
                if let Err(e) = shape::from_bytes(t, b) {
                    std::hint::black_box(format!("{e} {e:?}").len());
                }
                shape::hint();
            }
        }
    }
    if let Err(e) = fleece::from_bytes::<AnyDoc>(b) {
        std::hint::black_box(e.to_string().len());
    }
    let _ = fleece::from_bytes::<serde::de::IgnoredAny>(b);
    Ok(1 + ts.len() as u64)
}

fn raw_types() -> Vec<Ty> {
    let r = Rc::new;
    let mut v = leaves();
    v.extend([
        Ty::Seq(r(Ty::I(8))),
        Ty::Seq(r(Ty::Str)),
        Ty::Seq(r(Ty::Seq(r(Ty::U(64))))),
        Ty::Tuple(vec![r(Ty::F32), r(Ty::F64)]),
        Ty::TupleStruct(vec![r(Ty::Str)]),
        Ty::Map(r(Ty::Str), r(Ty::I(8))),
        Ty::Map(r(Ty::Char), r(Ty::Str)),
        Ty::Map(r(Ty::Newtype(r(Ty::Str))), r(Ty::Bool)),
        Ty::Map(r(Ty::Opt(r(Ty::Str))), r(Ty::Opt(r(Ty::Unit)))),
        Ty::Struct(vec![r(Ty::Opt(r(Ty::Str))), r(Ty::Opt(r(Ty::I(32)))), r(Ty::I(8))]),
        Ty::Enum(r(Ty::I(8))),
        Ty::Enum(r(Ty::Str)),
        Ty::Enum(r(Ty::Enum(r(Ty::Unit)))),
        Ty::Opt(r(Ty::I(32))),
        Ty::Newtype(r(Ty::Seq(r(Ty::Opt(r(Ty::Bool)))))),
    ]);
    v
}

/// Types whose keys are not strings: never a panic, and never a value from a non-empty dict.
fn key_types() -> Vec<Ty> {
    let r = Rc::new;
    [Ty::I(8), Ty::U(64), Ty::F32, Ty::Bool, Ty::Unit, Ty::UnitStruct, Ty::Bytes, Ty::Seq(r(Ty::Str)), Ty::Tuple(vec![r(Ty::Str)]), Ty::Struct(vec![r(Ty::Str)]), Ty::Map(r(Ty::Str), r(Ty::Str)), Ty::Enum(r(Ty::Str))]
        .into_iter()
        .map(|k| Ty::Map(r(k), r(Ty::I(32))))
        .collect()
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let n = t.sel(2usize, 3);
    let cfg = TreeCfg { nodes: n, depth: 2, leaves: leaf_docs(), keys: vec!["name", "x", "unknown", "é"], key_orders: false };
    let ts = shape::types(&leaves(), 3);
    v.push(scen(
        "documents as types",
        format!("all documents of up to {n} values and those within an enum, each read as all {} types of up to 3 nodes", ts.len()),
        2,
        move |cx| {
            let mut d = gen::tree(cx, &cfg);
            match cx.choose(5) {
                0 => {}
                1 => d = Doc::Arr(vec![s(VARIANTS[1]), d]),
                2 => d = Doc::Arr(vec![s(VARIANTS[2]), d]),
                3 => d = Doc::Arr(vec![s(VARIANTS[3]), d]),
                _ => d = Doc::Arr(vec![s(VARIANTS[4]), d]),
            }
            cx.note(|| d.show());
            let r = cx.call("from_bytes", || all(&d, &ts));
            let n = cx.want("from_bytes", r);
            cx.cases(n);
        },
    ));
    for (name, size, muts) in t.sel(vec![("edited layouts", 3usize, 1usize)], vec![("edited layouts", 4, 1), ("layouts edited twice", 3, 2)]) {
    v.push(scen(
        name,
        format!("the layout of all values of all types of up to {size} nodes, after every {muts} edits of a node: replaced by 20 others, an element or entry removed, added, repeated or renamed; read as that type"),
        3,
        move |cx| {
            let (t, v) = c19::shapes(cx, size, 1);
            let mut d = shape::layout(&t, &v);
            for _ in 0..muts {
                mutate(cx, &mut d);
            }
            if !d.is_collection() {
                cx.prune();
            }
            cx.note(|| format!("{} as {}", d.show(), shape::show(&t)));
            let r = cx.call("from_bytes", || all(&d, std::slice::from_ref(&t)));
            let n = cx.want("from_bytes", r);
            cx.cases(n);
        },
    ));
    }
    let kts = key_types();
    v.push(scen("keys of other types", "dicts of 0 to 2 entries, without and with shared keys, read as maps with 12 key types that are not strings", 1, move |cx| {
        let keys = ["ab", "not shareable", "5", "true", ""];
        let n = cx.choose(3);
        let first = cx.choose(keys.len());
        let d = dict((0..n).map(|k| (keys[(first + k) % keys.len()], i(k as i128))).collect());
        let t = cx.pick(&kts).clone();
        let nested = cx.flag();
        let (d, t) = if nested { (Doc::Arr(vec![d]), Ty::Seq(Rc::new(t))) } else { (d, t) };
        let r = cx.call("from_bytes", || all(&d, &[t]));
        let n = cx.want("from_bytes", r);
        cx.cases(n);
    }));
    let rts = raw_types();
    let alpha: &'static [u8] = &[0x00, 0x01, 0x02, 0x08, 0x11, 0x18, 0x20, 0x28, 0x30, 0x38, 0x3c, 0x40, 0x41, 0x43, 0x50, 0x51, 0x60, 0x61, 0x62, 0x68, 0x70, 0x71, 0x78, 0x80, 0x81, 0x82, 0x90, 0xff, b'N'];
    let short: &'static [u8] = &[0x00, 0x01, 0x02, 0x18, 0x20, 0x41, 0x4e, 0x51, 0x60, 0x61, 0x62, 0x68, 0x70, 0x71, 0x80];
    let deep = t.sel(7usize, 9);
    v.push(scen(
        "bytes",
        format!("all 2-byte inputs, all 4-byte inputs over {} bytes, all inputs of 6 to {deep} bytes over {} bytes that end in a pointer: what is accepted is read as {} types", alpha.len(), short.len(), rts.len()),
        2,
        move |cx| {
            let len = 2 + 2 * cx.choose(deep / 2);
            let mut b = vec![0u8; len];
            match len {
                2 => {
                    b[0] = (16 * cx.choose(16) + cx.choose(16)) as u8;
                    b[1] = cx.choose(256) as u8;
                }
                4 => {
                    for x in &mut b {
                        *x = *cx.pick(alpha);
                    }
                }
                _ => {
                    for x in &mut b[..len - 2] {
                        *x = *cx.pick(short);
                    }
                    b[len - 2] = 0x80;
                    b[len - 1] = 1 + cx.choose(len / 2 - 1) as u8;
                }
            }
            let r = cx.call("from_bytes", || raw(&b, &rts));
            let n = cx.want("from_bytes", r);
            cx.cases(n);
        },
    ));
    v.push(scen("top level", "all leaf types and values, options and newtypes of them, within no, one or two wrappers that are no collections: refused at the top level as not a collection, accepted if one is around", 1, |cx| {
        let leaves = shape::leaf_types();
        let leaf = cx.pick(&leaves).clone();
        let vals = shape::leaf_values(&leaf);
        let v = cx.pick(&vals).clone();
        let shared = cx.flag();
        let k = cx.choose(CONTEXTS);
        let scalar = !shape::layout(&leaf, &v).is_collection();
        let r = cx.call("to_bytes", || within(k, Ser(&leaf, &v), shared));
        let ok = match (&r, scalar && k < BARE) {
            (Err(Error::Serialize(SerializeError::ValueNotCollection)), true) => true,
            (Ok(()), false) => true,
            _ => false,
        };
        cx.check(ok, "top-level", || format!("{} = {v:?} in context {k}: {r:?}", shape::show(&leaf)));
        let r = cx.call("to_bytes", || after("a scalar"));
        cx.want("top-level", r);
        cx.cases(1);
    }));
    v.push(scen("map keys", "maps whose key is of any type of up to 2 nodes (all values), alone or after another entry, in 13 contexts: strings and characters, also in a newtype or option, are accepted, everything else is refused as a key", 2, |cx| {
        let mut b = 2;
        let mut ls = leaves();
        ls.extend([Ty::I(64), Ty::U(8), Ty::Tuple(vec![]), Ty::Struct(vec![])]);
        let t = shape::ty(cx, &ls, &mut b, false);
        let v = shape::val(cx, &t, 1, 2);
        let k = cx.choose(CONTEXTS);
        let shared = cx.flag();
        let second = cx.flag();
        let r = cx.call("to_bytes", || within(k, OneEntry(&t, &v, second), shared));
        let ok = match (&r, is_key(&t, &v)) {
            (Ok(()), true) => true,
            (Err(Error::Serialize(SerializeError::KeyNotString(_))), false) => true,
            _ => false,
        };
        cx.check(ok, "map-key", || format!("a key {} = {v:?} in context {k}: {r:?}", shape::show(&t)));
        let r = cx.call("to_bytes", || after("a bad key"));
        cx.want("map-key", r);
        cx.cases(1);
    }));
    v.push(scen("unsupported", "128-bit integers in 13 contexts: an error", 1, |cx| {
        let k = cx.choose(CONTEXTS);
        let shared = cx.flag();
        let r = cx.call("to_bytes", || within(k, Wide, shared));
        cx.check(r.is_err(), "unsupported", || format!("context {k}: {r:?}"));
        cx.cases(1);
    }));
    v.push(scen("own errors", "values whose own serialization fails at one of 5 moments, in 13 contexts, and types which refuse what they read, at 13 places of narrow and wide documents; 4 messages: the same message comes back, and the next call is not affected", 1, |cx| {
        let k = cx.choose(CONTEXTS);
        let message = *cx.pick(&MESSAGES);
        let r = if cx.flag() {
            let shared = cx.flag();
            let at = cx.choose(FAILURES);
            cx.call("to_bytes", || within(k, FailsWithin(message, at), shared))
        } else {
            SAYS.set(message);
            let wide = cx.flag();
            let r = cx.call("from_bytes", || refusal(k, 5, wide));
            cx.check(r.is_ok(), "own-error", || format!("place {k}: a value which is not refused gives {r:?}"));
            cx.call("from_bytes", || refusal(k, 77, wide))
        };
        let same = matches!(&r, Err(Error::Message(m)) if m == message) && r.as_ref().is_err_and(|e| e.to_string() == message);
        cx.check(same, "own-error", || format!("context {k}: the message {message:?} is {r:?}"));
        let r = cx.call("to_bytes", || after("an own error"));
        cx.want("own-error", r);
        cx.cases(1);
    }));
    v
}
