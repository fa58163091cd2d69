//! C15: self-owning values stay valid for as long as they are held.

use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use crate::mem;
use fleece::alloced::{AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

type R<T> = Result<T, String>;

enum H {
    V(AllocedValue),
    A(AllocedArray),
    D(AllocedDict),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum From {
    Copy,
    Scope,
    Empty,
}

/// References taken from a handle, with what they must read as.  While they exist the handle can
/// neither move nor go, as the borrow checker demands.
struct Refs {
    keys: Vec<(&'static str, String)>,
    values: Vec<(&'static Value, Doc)>,
}

struct Slot {
    h: Box<H>,
    doc: Doc,
    from: From,
    refs: Option<Refs>,
}

unsafe fn forever<T: ?Sized>(x: &T) -> &'static T {
    &*(x as *const T)
}

fn collect(v: &Value, d: &Doc, out: &mut Refs, n: &mut u64) -> R<()> {
    out.values.push((unsafe { forever(v) }, d.clone()));
    *n += 1;
    match d {
        Doc::Arr(xs) => {
            for (e, x) in v.as_array().ok_or("not an array")?.iter().zip(xs) {
                collect(e, x, out, n)?;
            }
        }
        Doc::Dict(xs) => {
            for (k, e) in v.as_dict().ok_or("not a dict")?.iter() {
                let (_, x) = xs.iter().find(|x| x.0 == k).ok_or_else(|| format!("unknown key {k:?}"))?;
                out.keys.push((unsafe { forever(k) }, k.to_string()));
                collect(e, x, out, n)?;
            }
        }
        _ => {}
    }
    Ok(())
}

impl H {
    fn verify(&self, d: &Doc, keys: Keys) -> R<()> {
        let mut at = String::from("$");
        match (self, d) {
            (H::V(v), _) => verify(v, d, keys),
            (H::A(a), Doc::Arr(xs)) => verify_array(a.value(), xs, keys, &mut at),
            (H::D(a), Doc::Dict(xs)) => verify_dict(a.value(), xs, keys, &mut at),
            _ => Err("a handle of another kind".into()),
        }
    }
    fn refs(&self, d: &Doc, n: &mut u64) -> R<Refs> {
        let mut out = Refs { keys: vec![], values: vec![] };
        match (self, d) {
            (H::V(v), _) => collect(v, d, &mut out, n)?,
            (H::A(a), Doc::Arr(xs)) => {
                for (e, x) in a.iter().zip(xs) {
                    collect(e, x, &mut out, n)?;
                }
            }
            (H::D(a), Doc::Dict(xs)) => {
                for (k, e) in a.iter() {
                    let (_, x) = xs.iter().find(|x| x.0 == k).ok_or_else(|| format!("unknown key {k:?}"))?;
                    out.keys.push((unsafe { forever(k) }, k.to_string()));
                    collect(e, x, &mut out, n)?;
                }
            }
            _ => return Err("a handle of another kind".into()),
        }
        Ok(out)
    }
    fn copy(&self) -> H {
        match self {
            H::V(v) => H::V(v.clone()),
            H::A(v) => H::A(v.clone()),
            H::D(v) => H::D(v.clone()),
        }
    }
}

const SHARED: [&str; 4] = ["key", "longer_key", "inner", "x"];

fn table() -> SharedKeys {
    let mut sk = SharedKeys::new();
    for k in SHARED {
        sk.encode_and_insert(k);
    }
    sk
}

/// Documents of all three kinds; keys shareable, not shareable, and short enough to be inline.
fn document(k: usize) -> Doc {
    let inner = dict(vec![("inner", s("a string of the inner dict")), ("x", Doc::Data(b"some bytes".to_vec()))]);
    match k {
        0 => dict(vec![
            ("key", i(7)),
            ("longer_key", Doc::Arr(vec![s("a string which is not inline"), f64d(0.1), inner])),
            ("not a shareable key", i(1 << 40)),
        ]),
        1 => Doc::Arr(vec![inner, s("text of an array"), i(-3), Doc::Arr(vec![s("a"), i(1 << 33)])]),
        _ => Doc::Arr(vec![]),
    }
}

struct World {
    doc: Doc,
    bytes: Option<Vec<u8>>,
    enc: Option<Encoder>,
    scope: Option<Arc<Scope>>,
    removed: bool,
    keys: SharedKeys,
    slots: [Option<Slot>; 3],
}

impl World {
    fn new(doc: Doc) -> R<World> {
        let mut enc = Encoder::new();
        emit(&mut enc, &doc)?;
        let mut e = Encoder::new();
        e.set_shared_keys(table());
        emit(&mut e, &doc)?;
        Ok(World {
            bytes: Some(encode(&doc)?),
            enc: Some(enc),
            scope: Some(e.finish_scoped()),
            removed: false,
            keys: table(),
            slots: [None, None, None],
            doc,
        })
    }

    fn verify(&self, n: &mut u64) -> R<()> {
        for (k, s) in self.slots.iter().enumerate() {
            let Some(s) = s else { continue };
            let found = s.from != From::Scope || (self.scope.is_some() && !self.removed);
            let keys = if found { Keys::Scoped } else { Keys::Explicit(&self.keys) };
            s.h.verify(&s.doc, keys).map_err(|e| format!("handle {k}: {e}"))?;
            *n += 1;
            if let Some(r) = &s.refs {
                for (got, want) in &r.keys {
                    // not assumed to be a string any more
                    if got.as_bytes() != want.as_bytes() {
                        return Err(format!("handle {k}: the key {want:?} taken from it earlier now reads as {:?}", got.as_bytes()));
                    }
                }
                for (got, want) in &r.values {
                    verify(got, want, keys).map_err(|e| format!("a value taken from handle {k} earlier: {e}"))?;
                }
                *n += (r.keys.len() + r.values.len()) as u64;
            }
        }
        Ok(())
    }
}

const NAMES: [&str; 18] = [
    "stop",
    "copy the bytes",
    "copy the bytes as a collection",
    "copy the bytes unchecked",
    "finish the encoder",
    "take the root of the scope",
    "an empty array",
    "an empty dict",
    "overwrite and drop the bytes",
    "remove the scope",
    "drop the scope",
    "clone",
    "drop",
    "convert to an array",
    "convert to a dict",
    "take references from",
    "give up the references from",
    "swap with another of its kind",
];

fn histories(cx: &mut Cx, depth: usize, docs: usize) {
    let d = document(cx.choose(docs));
    let _q = mem::quarantine();
    let w = cx.call("set up", || World::new(d));
    let mut w = cx.want("set up", w);
    for _ in 0..depth {
        let free = w.slots.iter().position(Option::is_none);
        let mut ops: Vec<(usize, usize)> = vec![(0, 0)];
        if free.is_some() {
            if w.bytes.is_some() {
                ops.extend([(1, 0), (2, 0), (3, 0)]);
            }
            if w.enc.is_some() {
                ops.push((4, 0));
            }
            if w.scope.is_some() {
                ops.push((5, 0));
            }
            ops.extend([(6, 0), (7, 0)]);
        }
        if w.bytes.is_some() {
            ops.push((8, 0));
        }
        if w.scope.is_some() {
            if !w.removed {
                ops.push((9, 0));
            }
            ops.push((10, 0));
        }
        for (k, s) in w.slots.iter().enumerate() {
            let Some(s) = s else { continue };
            if free.is_some() {
                ops.push((11, k));
            }
            if s.refs.is_none() {
                ops.push((12, k));
                if matches!(*s.h, H::V(_)) {
                    ops.extend([(13, k), (14, k)]);
                }
                ops.push((15, k));
            } else {
                ops.push((16, k));
            }
        }
        let (op, k) = ops[cx.choose(ops.len())];
        if op == 0 {
            break;
        }
        cx.ops(1);
        cx.note(|| if op < 11 { NAMES[op].into() } else { format!("{} handle {k}", NAMES[op]) });
        let r = cx.call(NAMES[op], || step(&mut w, op, k, free));
        let n = cx.want("read", r);
        cx.cases(n);
    }
    // whatever is left: the sources go first, then the handles one by one
    let r = cx.call("end", || -> R<u64> {
        let mut n = 0;
        w.bytes = None;
        w.enc = None;
        if let Some(s) = w.scope.take() {
            s.remove();
        }
        w.verify(&mut n)?;
        for k in 0..3 {
            w.slots[k] = None;
            w.verify(&mut n)?;
        }
        Ok(n)
    });
    let n = cx.want("read", r);
    cx.cases(n);
}

fn step(w: &mut World, op: usize, k: usize, free: Option<usize>) -> R<u64> {
    let mut n = 0;
    let put = |w: &mut World, h: H, doc: Doc, from: From| {
        w.slots[free.unwrap()] = Some(Slot { h: Box::new(h), doc, from, refs: None });
    };
    let doc = w.doc.clone();
    match op {
        1 => {
            let v = Value::clone_from_bytes(w.bytes.as_ref().unwrap()).map_err(|e| format!("{e:?}"))?;
            put(w, H::V(v), doc, From::Copy);
        }
        2 => {
            let b = w.bytes.as_ref().unwrap();
            let (a, d) = (Array::clone_from_bytes(b), Dict::clone_from_bytes(b));
            let h = match (doc.clone(), a, d) {
                (Doc::Arr(_), Ok(a), Err(_)) => H::A(a),
                (Doc::Dict(_), Err(_), Ok(d)) => H::D(d),
                (_, a, d) => return Err(format!("copied as array: {}, as dict: {}", a.is_ok(), d.is_ok())),
            };
            put(w, h, doc, From::Copy);
        }
        3 => {
            let v = unsafe { Value::clone_from_bytes_unchecked(w.bytes.as_ref().unwrap()) };
            put(w, H::V(v), doc, From::Copy);
        }
        4 => {
            let v = w.enc.take().unwrap().finish_value();
            put(w, H::V(v), doc, From::Copy);
        }
        5 => {
            let v = w.scope.as_ref().unwrap().root().ok_or("the scope has no root")?;
            put(w, H::V(v), doc, From::Scope);
        }
        6 => put(w, H::A(AllocedArray::empty()), Doc::Arr(vec![]), From::Empty),
        7 => put(w, H::D(AllocedDict::empty()), Doc::Dict(vec![]), From::Empty),
        8 => {
            let mut b = w.bytes.take().unwrap();
            b.fill(0x5a);
        }
        9 => {
            w.scope.as_ref().unwrap().remove();
            w.removed = true;
        }
        10 => w.scope = None,
        11 => {
            let s = w.slots[k].as_ref().unwrap();
            let (h, doc, from) = (s.h.copy(), s.doc.clone(), s.from);
            put(w, h, doc, from);
        }
        12 => w.slots[k] = None,
        13 | 14 => {
            let s = w.slots[k].take().unwrap();
            let H::V(v) = *s.h else { unreachable!() };
            let is = if op == 13 { matches!(s.doc, Doc::Arr(_)) } else { matches!(s.doc, Doc::Dict(_)) };
            let h = if op == 13 { v.to_array().map(H::A) } else { v.to_dict().map(H::D) };
            if h.is_some() != is {
                return Err(format!("converting gives {}", h.is_some()));
            }
            w.slots[k] = h.map(|h| Slot { h: Box::new(h), doc: s.doc, from: s.from, refs: None });
        }
        15 => {
            let s = w.slots[k].as_mut().unwrap();
            s.refs = Some(s.h.refs(&s.doc, &mut n)?);
        }
        _ => w.slots[k].as_mut().unwrap().refs = None,
    }
    w.verify(&mut n)?;
    Ok(n)
}

/// One document through every constructor, its sources gone before it is read.
fn construct(d: &Doc) -> R<u64> {
    let mut n = 0;
    let mut b = encode(d)?;
    let mut all: Vec<(&str, H)> = vec![];
    let copy = |b: &[u8]| Value::clone_from_bytes(b).map_err(|e| format!("clone_from_bytes: {e:?}"));
    all.push(("clone_from_bytes", H::V(copy(&b)?)));
    all.push(("clone_from_bytes_unchecked", H::V(unsafe { Value::clone_from_bytes_unchecked(&b) })));
    match d {
        Doc::Arr(_) => {
            all.push(("Array::clone_from_bytes", H::A(Array::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?)));
            all.push(("to_array", H::A(copy(&b)?.to_array().ok_or("to_array gives nothing")?)));
        }
        Doc::Dict(_) => {
            all.push(("Dict::clone_from_bytes", H::D(Dict::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?)));
            all.push(("to_dict", H::D(copy(&b)?.to_dict().ok_or("to_dict gives nothing")?)));
        }
        _ => {}
    }
    b.fill(0x5a);
    drop(b);
    let mut e = Encoder::new();
    emit(&mut e, d)?;
    all.push(("finish_value", H::V(e.finish_value())));
    // appended to other data, the root is at the end
    let mut e = Encoder::new_to_vec(b"other data".to_vec());
    emit(&mut e, d)?;
    all.push(("finish_value after other data", H::V(e.finish_value())));
    let mut e = Encoder::new();
    emit(&mut e, d)?;
    let sc = e.finish_scoped();
    all.push(("root", H::V(sc.root().ok_or("no root")?)));
    sc.remove();
    drop(sc);
    let sc = Scope::new(encode(d)?, None);
    all.push(("root of a scope of bytes", H::V(sc.root().ok_or("no root")?)));
    sc.remove();
    drop(sc);
    let clones: Vec<(&str, H)> = all.iter().map(|(w, h)| (*w, h.copy())).collect();
    for (w, h) in &all {
        h.verify(d, Keys::Plain).map_err(|e| format!("{w}: {e}"))?;
        n += 1;
    }
    drop(all);
    for (w, h) in &clones {
        h.verify(d, Keys::Plain).map_err(|e| format!("clone of {w}: {e}"))?;
        let mut m = 0;
        h.refs(d, &mut m)?;
        n += 1;
    }
    Ok(n)
}

/// Keys read while another scope of the same data with a table of its own is the one that is found.
fn second_scope(cx: &mut Cx) {
    let of_data = cx.flag();
    let order = cx.choose(3);
    let _q = mem::quarantine();
    let r = cx.call("scopes", || -> R<bool> {
        let doc = document(0);
        let mut e = Encoder::new();
        e.set_shared_keys(table());
        emit(&mut e, &doc)?;
        let one = e.finish_scoped();
        let root = one.root().ok_or("no root")?;
        let data = one.data().ok_or("no data")?;
        if of_data {
            drop(root);
            one.remove();
            drop(one);
            let two = Scope::new(data, Some(Arc::new(table())));
            let root = two.root().ok_or("no root")?;
            return keys_stay(root, vec![two], &doc, order);
        }
        let two = Scope::new(data, Some(Arc::new(table())));
        keys_stay(root, vec![one, two], &doc, order)
    });
    let ok = cx.want("read", r);
    cx.cases(1);
    cx.check(ok, if of_data { "key-dangles" } else { "second-scope:key-dangles" }, || "a key string read through a self-owning dict does not stay while the dict is held".into());
}

fn keys_stay(root: AllocedValue, scopes: Vec<Arc<Scope>>, doc: &Doc, order: usize) -> R<bool> {
    let h = H::V(root);
    let refs = h.refs(doc, &mut 0)?;
    if refs.keys.len() != 5 {
        return Err(format!("{} keys are found instead of 5", refs.keys.len()));
    }
    let mut scopes = scopes;
    if order == 1 {
        scopes.reverse();
    }
    for s in scopes {
        if order == 2 {
            s.remove();
        }
        drop(s);
    }
    let ok = refs.keys.iter().all(|(g, w)| g.as_bytes() == w.as_bytes());
    for (v, d) in &refs.values {
        verify(v, d, Keys::Explicit(&table()))?;
    }
    Ok(ok)
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = t.sel(5usize, 6);
    v.push(scen(
        "histories",
        format!("3 documents, all histories of up to {depth} operations on up to 3 handles: copy bytes (4 ways), finish an encoder, take the root of a scope with shared keys, empty ones, clone, convert, drop, take references and keys, overwrite and drop the bytes, remove and drop the scope; freed memory is poisoned and not reused, everything held is read again after each"),
        3,
        move |cx| histories(cx, depth, 3),
    ));
    let cfg = TreeCfg {
        nodes: t.sel(4, 5),
        depth: t.sel(2, 3),
        leaves: vec![i(-5), s("é"), s("fourteen bytes"), i(1 << 40), Doc::Data(vec![1; 20])],
        keys: gen::KEYS.to_vec(),
        key_orders: false,
    };
    v.push(scen(
        "documents",
        format!("all documents of up to {} values, through 12 ways to make a self-owning value, converted and cloned, read after the source, then the other handles, are gone", cfg.nodes),
        2,
        move |cx| {
            let d = gen::tree(cx, &cfg);
            cx.note(|| d.show());
            let _q = mem::quarantine();
            let r = cx.call("make", || construct(&d));
            let n = cx.want("read", r);
            cx.cases(n);
        },
    ));
    v.push(scen(
        "leaves",
        "every leaf value on its own and in an array, the same way",
        1,
        |cx| {
            let leaves = gen::leaves();
            let leaf = cx.pick(&leaves).clone();
            let d = if cx.flag() { Doc::Arr(vec![leaf]) } else { dict(vec![("k", leaf)]) };
            let _q = mem::quarantine();
            let r = cx.call("make", || construct(&d));
            let n = cx.want("read", r);
            cx.cases(n);
        },
    ));
    v.push(scen(
        "second scope",
        "keys read through a self-owning value while a second scope of the same data, with a table of its own, exists; scopes dropped in 3 orders",
        1,
        second_scope,
    ));
    v
}
