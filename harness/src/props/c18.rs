//! C18: mutable copies equal their source and are independent of it.

use super::mutops::{check, Coll};
use crate::doc::*;
use crate::engine::*;
use crate::gen;
use crate::mem;
use crate::props::c05::{self, Dev};
use crate::refcodec::{self, encode_styled};
use fleece::alloced::AllocedValue;
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::Arc;

type R<T> = Result<T, String>;

/// Every conversion of a borrowed value: (name, copy).
fn of_value(v: &Value, d: &Doc, out: &mut Vec<(&'static str, Coll)>) -> R<()> {
    match d {
        Doc::Arr(_) => {
            let a: &Array = v.as_array().ok_or("not an array")?;
            out.push(("Array::to_mutable", Coll::Arr(a.to_mutable())));
            out.push(("MutableArray::clone_from", Coll::Arr(MutableArray::clone_from(a))));
            out.push(("From<&Array>", Coll::Arr(MutableArray::from(a))));
        }
        Doc::Dict(_) => {
            let a: &Dict = v.as_dict().ok_or("not a dict")?;
            out.push(("Dict::to_mutable", Coll::Dict(a.to_mutable())));
            out.push(("MutableDict::clone_from", Coll::Dict(MutableDict::clone_from(a))));
        }
        _ => {}
    }
    Ok(())
}

fn of_alloced(v: AllocedValue, d: &Doc, out: &mut Vec<(&'static str, Coll)>) -> R<()> {
    of_value(&v, d, out)?;
    let v = match d {
        Doc::Arr(_) => {
            out.push(("From<AllocedArray>", Coll::Arr(v.to_array().ok_or("to_array")?.into())));
            return Ok(());
        }
        Doc::Dict(_) => v,
        _ => return Ok(()),
    };
    out.push(("From<AllocedDict>", Coll::Dict(v.to_dict().ok_or("to_dict")?.into())));
    Ok(())
}

fn of_scope(sc: &Arc<Scope>, d: &Doc, out: &mut Vec<(&'static str, Coll)>) -> R<()> {
    match d {
        Doc::Arr(_) => {
            out.push(("MutableArray::from_scope", Coll::Arr(MutableArray::from_scope(sc).ok_or("from_scope gives nothing")?)));
            out.push(("TryFrom<&Scope>", Coll::Arr(MutableArray::try_from(&**sc).map_err(|()| "try_from fails")?)));
            if MutableDict::from_scope(sc).is_some() || MutableDict::try_from(&**sc).is_ok() {
                return Err("an array becomes a mutable dict".into());
            }
        }
        Doc::Dict(_) => {
            out.push(("MutableDict::from_scope", Coll::Dict(MutableDict::from_scope(sc).ok_or("from_scope gives nothing")?)));
            out.push(("TryFrom<&Scope>", Coll::Dict(MutableDict::try_from(&**sc).map_err(|()| "try_from fails")?)));
            if MutableArray::from_scope(sc).is_some() || MutableArray::try_from(&**sc).is_ok() {
                return Err("a dict becomes a mutable array".into());
            }
        }
        _ => {
            if MutableArray::from_scope(sc).is_some() || MutableDict::from_scope(sc).is_some() || MutableArray::try_from(&**sc).is_ok() || MutableDict::try_from(&**sc).is_ok() {
                return Err("a scalar becomes a mutable collection".into());
            }
        }
    }
    of_alloced(sc.root().ok_or("no root")?, d, out)
}

/// A decoded value pushed and set into a mutable array; the array and its model.
fn inside(v: &Value, d: &Doc) -> (Coll, Doc) {
    let mut m = MutableArray::new();
    m.push(&1);
    m.push_fleece(v);
    m.push(&2);
    m.set_fleece(0, v);
    (Coll::Arr(m), Doc::Arr(vec![d.clone(), d.clone(), i(2)]))
}

/// Edit a collection everywhere, innermost first.
fn scribble(c: &mut Coll, d: &mut Doc) -> R<()> {
    fn arr(m: &mut MutableArray, xs: &mut Vec<Doc>) -> R<()> {
        for (k, x) in xs.iter_mut().enumerate() {
            match x {
                Doc::Arr(xs) => arr(m.get_array_mut(k).ok_or("no nested array")?, xs)?,
                Doc::Dict(xs) => dic(m.get_dict_mut(k).ok_or("no nested dict")?, xs)?,
                _ => {}
            }
        }
        if let Some(l) = xs.len().checked_sub(1) {
            if !xs[0].is_collection() {
                m.set(0, "edited");
                xs[0] = s("edited");
            }
            if !xs[l].is_collection() && l > 0 {
                m.remove(l);
                xs.pop();
            }
        }
        m.push("pushed onto the copy");
        xs.push(s("pushed onto the copy"));
        Ok(())
    }
    fn dic(m: &mut MutableDict, xs: &mut Vec<(String, Doc)>) -> R<()> {
        for (k, x) in xs.iter_mut() {
            match x {
                Doc::Arr(xs) => arr(m.get_array_mut(k).ok_or("no nested array")?, xs)?,
                Doc::Dict(xs) => dic(m.get_dict_mut(k).ok_or("no nested dict")?, xs)?,
                _ => {}
            }
        }
        if !xs.is_empty() && !xs[0].1.is_collection() {
            m.remove(&xs[0].0);
            xs.remove(0);
        }
        if let Some((k, x)) = xs.last_mut() {
            if !x.is_collection() {
                m.insert(k, i64::MIN);
                *x = i(i64::MIN.into());
            }
        }
        for k in ["new key", "k", "key"] {
            m.insert(k, 0.5);
            match xs.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = f64d(0.5),
                None => xs.push((k.into(), f64d(0.5))),
            }
        }
        Ok(())
    }
    match (c, d) {
        (Coll::Arr(m), Doc::Arr(xs)) => arr(m, xs),
        (Coll::Dict(m), Doc::Dict(xs)) => dic(m, xs),
        _ => Err("kind".into()),
    }
}

const PROBE: [&str; 4] = ["new key", "ab", "k", "key"];

/// Copies of one source: equal, edited without effect on the source, and equal after the source is gone.
fn judge(mut copies: Vec<(&'static str, Coll)>, d: &Doc, extra: Option<(Coll, Doc)>, source: &mut dyn FnMut(bool) -> R<()>) -> R<u64> {
    let n = copies.len() as u64;
    for (how, c) in &copies {
        check(c, d, &PROBE).map_err(|e| format!("{how}: {e}"))?;
    }
    if let Some((c, d)) = &extra {
        check(c, d, &PROBE).map_err(|e| format!("push_fleece and set_fleece: {e}"))?;
    }
    // edit every second one
    let mut edited = vec![];
    for k in (0..copies.len()).rev().step_by(2) {
        let (how, mut c) = copies.remove(k);
        let mut m = d.clone();
        scribble(&mut c, &mut m).map_err(|e| format!("{how}: {e}"))?;
        source(false).map_err(|e| format!("the source changed when its copy by {how} was edited: {e}"))?;
        edited.push((how, c, m));
    }
    source(true)?;
    // the source is gone
    for (how, c, m) in &edited {
        check(c, m, &PROBE).map_err(|e| format!("{how}, edited, the source gone: {e}"))?;
    }
    for (how, mut c) in copies {
        check(&c, d, &PROBE).map_err(|e| format!("{how}, the source gone: {e}"))?;
        let mut m = d.clone();
        scribble(&mut c, &mut m).map_err(|e| format!("{how}: {e}"))?;
        check(&c, &m, &PROBE).map_err(|e| format!("{how}, edited after the source was gone: {e}"))?;
    }
    if let Some((mut c, mut d)) = extra {
        check(&c, &d, &PROBE).map_err(|e| format!("push_fleece and set_fleece, the source gone: {e}"))?;
        scribble(&mut c, &mut d)?;
        check(&c, &d, &PROBE).map_err(|e| format!("push_fleece and set_fleece, edited: {e}"))?;
    }
    Ok(n)
}

fn plain_sources(b: &[u8], d: &Doc, thin: bool) -> R<u64> {
    let mut n = 0;
    let _q = mem::quarantine();
    {
        let mut own = Some(b.to_vec());
        let mut copies = vec![];
        let v = Value::from_bytes(own.as_ref().unwrap()).map_err(|e| format!("{e:?}"))?;
        of_value(v, d, &mut copies)?;
        let extra = inside(v, d);
        n += judge(copies, d, Some(extra), &mut |gone| {
            if gone {
                own = None;
                return Ok(());
            }
            let o = own.as_ref().unwrap();
            if o != b {
                return Err("the bytes differ".into());
            }
            verify(Value::from_bytes(o).map_err(|e| format!("{e:?}"))?, d, Keys::Plain)
        })
        .map_err(|e| format!("borrowed: {e}"))?;
    }
    {
        let mut own = Some(Value::clone_from_bytes(b).map_err(|e| format!("{e:?}"))?);
        let mut copies = vec![];
        of_alloced(own.clone().unwrap(), d, &mut copies)?;
        let extra = inside(own.as_ref().unwrap(), d);
        n += judge(copies, d, Some(extra), &mut |gone| {
            if gone {
                own = None;
                return Ok(());
            }
            verify(own.as_ref().unwrap(), d, Keys::Plain)
        })
        .map_err(|e| format!("self-owning: {e}"))?;
    }
    if !thin {
        n += scope_source(b, d, None)?;
    }
    Ok(n)
}

fn scope_source(b: &[u8], d: &Doc, sk: Option<Arc<SharedKeys>>) -> R<u64> {
    let sc = Scope::new(b.to_vec(), sk.clone());
    let r = live_scope(sc, d);
    if let Some(sk) = &sk {
        if Arc::strong_count(sk) != 1 {
            return r.and_then(|_| Err("the shared keys are still held after everything was dropped".into()));
        }
    }
    r
}

fn live_scope(sc: Arc<Scope>, d: &Doc) -> R<u64> {
    let _q = mem::quarantine();
    let mut own = Some(sc);
    let r = (|| {
        let mut copies = vec![];
        let sc = own.as_ref().unwrap();
        of_scope(sc, d, &mut copies)?;
        let extra = inside(&sc.root().ok_or("no root")?, d);
        judge(copies, d, Some(extra), &mut |gone| {
            if gone {
                let sc = own.take().unwrap();
                sc.remove();
                drop(sc);
                return Ok(());
            }
            let v = own.as_ref().unwrap().root().ok_or("no root")?;
            verify(&v, d, Keys::Scoped)
        })
        .map_err(|e| format!("scope: {e}"))
    })();
    if let Some(sc) = own {
        sc.remove();
    }
    r
}

/// Documents with dicts, for shared keys.
fn keyed() -> Vec<Doc> {
    vec![
        dict(vec![("ab", i(1)), ("cd", s("a string on the heap")), ("a key that cannot be shared", f64d(-0.0))]),
        dict(vec![("ab", dict(vec![("ab", dict(vec![("cd", i(i128::from(u64::MAX)))])), ("k", Doc::Undef)])), ("k", Doc::Arr(vec![dict(vec![("ab", Doc::Null)])]))]),
        Doc::Arr(vec![dict(vec![("cd", f32d(1.5))]), Doc::Arr(vec![dict(vec![("ab", i(-1)), ("é", Doc::Data(vec![1, 2]))])]), dict(vec![])]),
        dict(vec![("key", Doc::Arr(vec![])), ("k", dict(vec![]))]),
    ]
}

fn table(which: usize) -> SharedKeys {
    let mut sk = SharedKeys::new();
    let keys: &[&str] = match which {
        0 => &[],
        1 => &["zz", "new key", "key", "cd", "ab"],
        _ => &["ab"],
    };
    for k in keys {
        sk.encode_and_insert(k);
    }
    sk
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let dev = t.sel(2usize, 3);
    v.push(scen("styles", format!("27 documents in every legal encoding with up to {dev} deviations from the plain style, as borrowed, self-owning and scoped source; every conversion; copies compared, edited everywhere, compared again after the source is gone (freed memory is overwritten)"), 2, move |cx| {
        let docs = c05::docs();
        let d = cx.pick(&docs).clone();
        let mut x = Dev { cx, left: dev, log: vec![] };
        let b = encode_styled(&d, &mut x, &refcodec::no_sk_enc);
        cx.note(|| format!("{} as {}", d.show(), hex(&b)));
        let r = cx.call("convert", || plain_sources(&b, &d, false));
        let n = cx.want("mutable copy", r.map_err(|e| format!("{} as {}: {e}", d.show(), hex(&b))));
        cx.cases(n);
    }));
    for sp in gen::spaces(t) {
        let mk = sp.make.clone();
        let big = matches!(sp.name, "lengths" | "counts" | "characters");
        if sp.name == "key-orders" || (sp.name == "trees" && !t.thorough()) {
            continue;
        }
        v.push(scen(sp.name, format!("{}; written by the encoder; every conversion", sp.bounds), sp.split, move |cx| {
            let d = mk(cx);
            cx.note(|| d.show());
            let r = cx.call("convert", || plain_sources(&encode(&d)?, &d, !big));
            let n = cx.want("mutable copy", r.map_err(|e| format!("{}: {e}", d.show())));
            cx.cases(n);
        }));
    }
    if !t.thorough() {
        let cfg = gen::TreeCfg { nodes: 3, depth: 3, leaves: gen::leaves()[..4].to_vec(), keys: vec!["a", "ab", "", gen::LONG_KEY], key_orders: true };
        v.push(scen("trees", "all trees of <= 3 nodes below the root, depth <= 3, 4 leaf classes, all ordered selections of 4 keys; every conversion", 3, move |cx| {
            let d = gen::tree(cx, &cfg);
            cx.note(|| d.show());
            let r = cx.call("convert", || plain_sources(&encode(&d)?, &d, false));
            let n = cx.want("mutable copy", r.map_err(|e| format!("{}: {e}", d.show())));
            cx.cases(n);
        }));
    }
    v.push(scen("shared keys", format!("documents with dicts of shared and plain keys in every legal encoding with up to {} deviations, 3 tables, every subset of 4 keys shared; every conversion from a live scope", dev - 1), 3, move |cx| {
        let docs = keyed();
        let d = cx.pick(&docs).clone();
        let mut sk = table(cx.choose(3));
        const NAMES: [&str; 4] = ["ab", "cd", "key", "é"];
        let mask = cx.choose(16);
        for (k, n) in NAMES.iter().enumerate() {
            if mask >> k & 1 == 1 {
                sk.encode_and_insert(n);
            }
        }
        let mut x = Dev { cx, left: dev - 1, log: vec![] };
        let b = encode_styled(&d, &mut x, &|k: &str| NAMES.iter().position(|n| *n == k).filter(|p| mask >> p & 1 == 1).and_then(|_| sk.encode(k)));
        cx.note(|| format!("{} shared {mask:#b} as {}", d.show(), hex(&b)));
        let r = cx.call("convert", || scope_source(&b, &d, Some(Arc::new(sk))));
        let n = cx.want("mutable copy", r.map_err(|e| format!("{} shared {mask:#b} as {}: {e}", d.show(), hex(&b))));
        cx.cases(n);
    }));
    let cfg = gen::TreeCfg {
        nodes: t.sel(4, 5),
        depth: 3,
        leaves: vec![i(1), s("hello")],
        keys: vec!["ab", "a b", "b"],
        key_orders: true,
    };
    v.push(scen("trees with shared keys", format!("all trees of <= {} nodes, depth <= 3, written by an encoder with shared keys (fresh or known); every conversion from the finished scope", cfg.nodes), 4, move |cx| {
        let known = cx.flag();
        let d = gen::tree(cx, &cfg);
        cx.note(|| d.show());
        let r = cx.call("convert", || {
            let mut e = Encoder::new();
            e.set_shared_keys(table(usize::from(known)));
            emit(&mut e, &d)?;
            live_scope(e.finish_scoped(), &d)
        });
        let n = cx.want("mutable copy", r.map_err(|e| format!("{}: {e}", d.show())));
        cx.cases(n);
    }));
    v
}
