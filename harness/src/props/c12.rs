//! C12: shared keys are invisible to readers.

use crate::anydoc::AnyDoc;
use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use crate::props::c05::Dev;
use crate::props::c26::{apply, calls};
use crate::refcodec::{encode_styled, Plain};
use fleece::{Encoder, MutableArray, MutableDict, Scope, SharedKeys, Value};
use std::sync::Arc;

/// Shareable, stored inline, and not shareable keys.
const KEYS: [&str; 7] = ["ab", "key", "a b", "a", "sixteen_bytes_ab", "sixteen_bytes_abc", "éé"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Table {
    Fresh,
    /// knows some keys under other numbers, and others
    Known,
    /// one place left
    LastPlace,
    /// no place left, knows one of the keys
    Full,
}

fn table(t: Table) -> SharedKeys {
    let mut sk = SharedKeys::new();
    match t {
        Table::Fresh => {}
        Table::Known => {
            for k in ["zz", "éé", "unused", "ab", "a", "b"] {
                sk.encode_and_insert(k);
            }
        }
        Table::LastPlace | Table::Full => {
            let n = if t == Table::Full { 2047 } else { 2046 };
            for k in 0..n {
                sk.encode_and_insert(&format!("fill-{k}"));
            }
            sk.encode_and_insert("key");
        }
    }
    sk
}

fn any(b: &[u8]) -> Result<Doc, String> {
    let AnyDoc(d) = fleece::from_bytes(b).map_err(|e| format!("from_bytes: {e:?}"))?;
    Ok(d)
}

/// Every way to read the document a scope holds, against the document and against a plain encoding.
fn paths(sc: &Arc<Scope>, d: &Doc, plain: &Doc, thin: bool) -> Result<(), String> {
    let root = sc.root().ok_or("the scope has no root")?;
    let sk = sc.shared_keys().ok_or("the scope has no shared keys")?.clone();
    verify(&root, d, Keys::Scoped).map_err(|e| format!("keys found automatically: {e}"))?;
    verify(&root, d, Keys::Explicit(&sk)).map_err(|e| format!("keys given explicitly: {e}"))?;
    let got = read(&root);
    if got.canon() != d.canon() {
        return Err(format!("iteration reads {}", got.show()));
    }
    let data = sc.data().ok_or("the scope has no data")?;
    let got = any(&data).map_err(|e| format!("deserialized: {e}"))?;
    if got.canon() != *plain {
        return Err(format!("deserialized: {} instead of {}", got.show(), plain.show()));
    }
    // into an encoder without and with shared keys of its own
    for own in [false, true] {
        if thin && own {
            continue;
        }
        let mut e = Encoder::new();
        if own {
            e.set_shared_keys(table(Table::Known));
        }
        e.write_fleece(&root).map_err(|e| format!("write_fleece: {e:?}"))?;
        if own {
            let s2 = e.finish_scoped();
            let r = s2.root().ok_or("copy has no root".to_string()).and_then(|v| verify(&v, d, Keys::Scoped));
            s2.remove();
            r.map_err(|e| format!("copied into an encoder with shared keys: {e}"))?;
        } else {
            let b = e.finish();
            let v = Value::from_bytes(&b).map_err(|e| format!("copied into a plain encoder: {e:?}"))?;
            verify(v, d, Keys::Plain).map_err(|e| format!("copied into a plain encoder: {e}"))?;
        }
    }
    // to mutable collections
    let mut at = String::from("$");
    match d {
        Doc::Arr(xs) => {
            let a = root.as_array().ok_or("not an array")?;
            let m = MutableArray::from_scope(sc).ok_or("MutableArray::from_scope gives nothing")?;
            verify_marr(&m, xs, &mut at).map_err(|e| format!("MutableArray::from_scope: {e}"))?;
            verify_marr(&MutableArray::clone_from(a), xs, &mut at).map_err(|e| format!("MutableArray::clone_from: {e}"))?;
            if MutableDict::from_scope(sc).is_some() {
                return Err("MutableDict::from_scope of an array".into());
            }
        }
        Doc::Dict(xs) => {
            let a = root.as_dict().ok_or("not a dict")?;
            crate::iter::agrees("iterating", &|| a.iter(), &|(k, v): (&str, &Value)| (k.to_string(), std::ptr::from_ref(v).cast::<u8>() as usize))?;
            let m = MutableDict::from_scope(sc).ok_or("MutableDict::from_scope gives nothing")?;
            verify_mdict(&m, xs, &mut at).map_err(|e| format!("MutableDict::from_scope: {e}"))?;
            verify_mdict(&MutableDict::clone_from(a), xs, &mut at).map_err(|e| format!("MutableDict::clone_from: {e}"))?;
            if MutableArray::from_scope(sc).is_some() {
                return Err("MutableArray::from_scope of a dict".into());
            }
        }
        _ => {}
    }
    Ok(())
}

fn scoped(d: &Doc, sk: SharedKeys, thin: bool) -> Result<(), String> {
    let plain = any(&encode(d)?)?.canon();
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    emit(&mut e, d)?;
    let sc = e.finish_scoped();
    let r = paths(&sc, d, &plain, thin);
    sc.remove();
    r
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let cfg = TreeCfg {
        nodes: t.sel(4, 5),
        depth: 3,
        leaves: vec![i(1), s("hello")],
        keys: KEYS[..t.sel(4, 5)].to_vec(),
        key_orders: true,
    };
    v.push(scen(
        "trees",
        format!("all trees of <= {} nodes, depth <= 3, 2 leaves, ordered selections of {} keys, with a fresh table; every read path", cfg.nodes, cfg.keys.len()),
        4,
        move |cx| {
            let d = gen::tree(cx, &cfg);
            cx.note(|| d.show());
            cx.cases(1);
            let r = cx.call("read", || scoped(&d, table(Table::Fresh), true));
            cx.want("shared", r.map_err(|e| format!("{}: {e}", d.show())));
        },
    ));
    let cfg2 = TreeCfg {
        nodes: t.sel(3, 4),
        depth: 3,
        leaves: gen::leaves()[..t.sel(2, 3)].to_vec(),
        keys: KEYS.to_vec(),
        key_orders: true,
    };
    v.push(scen(
        "trees with a known table",
        format!("all trees of <= {} nodes, depth <= 3, ordered selections of {} keys, with a table that knows other keys", cfg2.nodes, cfg2.keys.len()),
        4,
        move |cx| {
            let d = gen::tree(cx, &cfg2);
            cx.note(|| d.show());
            cx.cases(1);
            let r = cx.call("read", || scoped(&d, table(Table::Known), false));
            cx.want("shared", r.map_err(|e| format!("{}: {e}", d.show())));
        },
    ));
    let cfg3 = TreeCfg {
        nodes: t.sel(2, 3),
        depth: 2,
        leaves: vec![i(1)],
        keys: KEYS.to_vec(),
        key_orders: true,
    };
    v.push(scen(
        "trees with a full table",
        format!("all trees of <= {} nodes, depth <= 2, ordered selections of {} keys, with a table with one or no free place", cfg3.nodes, cfg3.keys.len()),
        3,
        move |cx| {
            let tab = [Table::LastPlace, Table::Full][cx.choose(2)];
            let d = gen::tree(cx, &cfg3);
            cx.note(|| d.show());
            cx.cases(1);
            let r = cx.call("read", || scoped(&d, table(tab), true));
            cx.want("shared", r.map_err(|e| format!("{tab:?} {}: {e}", d.show())));
        },
    ));
    // which keys of a document are shared is up to its writer
    v.push(scen(
        "mixed dicts",
        "6 documents over 7 keys, every subset of keys that the writer shares (the reader's table knows all or just those), 3 numberings, x narrow or wide style",
        2,
        |cx| {
            let ds = mixed_docs();
            let d = cx.pick(&ds).clone();
            let order = cx.choose(3);
            let knows_all = cx.flag();
            let hi = cx.choose(8);
            for lo in 0..16usize {
                let mask = hi * 16 + lo;
                for wide in [false, true] {
                    cx.cases(1);
                    let r = cx.call("read", || mixed(&d, mask, order, knows_all, &mut Wide(wide)));
                    cx.want("shared", r.map_err(|e| format!("{} shared {mask:#b} order {order} all {knows_all} wide {wide}: {e}", d.show())));
                }
            }
        },
    ));
    let late = t.sel(3, 4);
    v.push(scen(
        "table given late",
        format!("all trees of <= {late} nodes, depth <= 3, ordered selections of 5 keys; the table is given to the encoder before any one of the calls, 3 tables"),
        4,
        move |cx| {
            let cfg = TreeCfg { nodes: late, depth: 3, leaves: vec![i(1)], keys: vec!["key", "ab", "a b", "a", "zz-top"], key_orders: true };
            let d = gen::tree(cx, &cfg);
            let tab = [Table::Fresh, Table::Known, Table::LastPlace][cx.choose(3)];
            let mut ops = vec![];
            calls(&d, &mut ops);
            for at in 1..=ops.len() {
                cx.cases(1);
                let r = cx.call("read", || {
                    let plain = any(&encode(&d)?)?.canon();
                    let mut e = Encoder::new();
                    for (k, op) in ops.iter().enumerate() {
                        if k == at {
                            e.set_shared_keys(table(tab));
                        }
                        apply(&mut e, op, |n| n)?;
                    }
                    if at == ops.len() {
                        e.set_shared_keys(table(tab));
                    }
                    let sc = e.finish_scoped();
                    let r = paths(&sc, &d, &plain, true);
                    sc.remove();
                    r
                });
                cx.want("shared", r.map_err(|e| format!("{tab:?} given before call {at} of {}: {e}", d.show())));
            }
        },
    ));
    let dev = t.sel(2usize, 3);
    v.push(scen(
        "mixed dicts in every style",
        format!("6 documents over 7 keys, 6 subsets of shared keys, every encoding style with at most {dev} departures from the plain one"),
        3,
        move |cx| {
            let ds = mixed_docs();
            let d = cx.pick(&ds).clone();
            let mask = *cx.pick(&[0b0100011usize, 0b1111111, 0b0000010, 0b1000001, 0b0001000, 0b0011010]);
            let mut st = Dev { cx, left: dev, log: vec![] };
            let enc = |k: &str| KEYS.iter().position(|x| *x == k).filter(|p| mask >> p & 1 == 1).map(|p| p as u16);
            let b = encode_styled(&d, &mut st, &enc);
            cx.note(|| format!("{} shared {mask:#b}: {}", d.show(), hex(&b)));
            cx.cases(1);
            let r = cx.call("read", || {
                let plain = any(&encode(&d)?)?.canon();
                let mut sk = SharedKeys::new();
                for (k, key) in KEYS.iter().enumerate() {
                    // numbers of ineligible keys are taken by others
                    if sk.encode_and_insert(key).is_none() {
                        sk.encode_and_insert(&format!("other{k}"));
                    }
                }
                // a dict cannot share what a table cannot hold
                if KEYS.iter().any(|k| enc(k).is_some() && sk.encode(k) != enc(k)) {
                    return Ok(false);
                }
                let sc = Scope::new(b.clone(), Some(Arc::new(sk)));
                let r = any_style_paths(&sc, &d, &plain);
                sc.remove();
                r.map(|()| true)
            });
            cx.want("shared", r.map_err(|e| format!("{} as {}: {e}", d.show(), hex(&b))));
        },
    ));
    let steps = t.sel(3usize, 4);
    v.push(scen(
        "one after the other",
        format!("all sequences of {steps} of 3 documents x 3 numberings of their keys, each in the memory of the one before, which was dropped or removed and dropped, while all tables stay alive"),
        2,
        move |cx| {
            let ds = mixed_docs();
            let at = crate::props::c13::region();
            let mut tables: Vec<Arc<SharedKeys>> = vec![];
            for _ in 0..steps {
                let k = cx.choose(9);
                let (d, order) = (&ds[[0, 2, 5][k / 3]], k % 3);
                let remove = cx.flag();
                cx.note(|| format!("{} numbering {order}", d.show()));
                cx.cases(1);
                let r = cx.call("read", || {
                    let mut names: Vec<&str> = KEYS.to_vec();
                    names.rotate_left(order);
                    let mut sk = SharedKeys::new();
                    for k in names {
                        sk.encode_and_insert(k);
                    }
                    let sk = Arc::new(sk);
                    tables.push(sk.clone());
                    let b = encode_styled(d, &mut Wide(false), &|k| sk.encode(k));
                    let sc = Scope::new(crate::props::c13::arc_at(at, &b), Some(sk.clone()));
                    let root = sc.root().ok_or("no root")?;
                    verify(&root, d, Keys::Scoped)?;
                    verify(&root, d, Keys::Explicit(&sk))?;
                    if read(&root).canon() != d.canon() {
                        return Err(format!("iteration reads {}", read(&root).show()));
                    }
                    if remove {
                        sc.remove();
                    }
                    Ok(())
                });
                cx.want("shared", r);
            }
        },
    ));
    for sp in gen::spaces(t).into_iter().filter(|s| matches!(s.name, "key-orders" | "nesting" | "counts" | "characters")) {
        if sp.name == "counts" && !t.thorough() {
            continue;
        }
        let mk = sp.make.clone();
        let n = sp.name;
        v.push(scen(n, format!("{}; every read path", sp.bounds), sp.split, move |cx| {
            let d = mk(cx);
            cx.cases(1);
            let r = cx.call("read", || scoped(&d, table(Table::Fresh), true));
            cx.want("shared", r.map_err(|e| format!("{}: {e}", d.show())));
        }));
    }
    let sizes: Vec<usize> = t.sel(vec![1, 100, 2047, 2048, 2049, 2100], (0..64).chain(2040..2060).chain([300, 1000, 3000]).collect());
    v.push(scen(
        "tables that run full",
        format!("{} dicts of up to {} entries each written in two halves, nested or side by side, with ineligible keys between", sizes.len(), sizes.iter().max().unwrap()),
        2,
        move |cx| {
            let n = *cx.pick(&sizes);
            let nested = cx.flag();
            let key = |k: usize| if k % 13 == 5 { format!("key {k}") } else { format!("key-{k}") };
            let val = |k: usize| if k % 3 == 0 { i(k as i128) } else { s(&format!("value {k}")) };
            let half = |from: usize, to: usize| -> Vec<(String, Doc)> { (from..to).map(|k| (key(k * 7919 % n.max(1)), val(k))).collect() };
            let d = if n % 7919 == 0 {
                Doc::Dict(vec![])
            } else if nested {
                let mut xs = half(0, n / 2);
                xs.push(("the rest!".into(), Doc::Dict(half(n / 2, n))));
                Doc::Dict(xs)
            } else {
                Doc::Arr(vec![Doc::Dict(half(0, n / 2)), Doc::Dict(half(0, n)), Doc::Dict(half(n / 3, n))])
            };
            cx.cases(n as u64);
            let r = cx.call("read", || scoped(&d, table(Table::Fresh), false));
            cx.want("shared", r.map_err(|e| format!("{n} keys: {e}")));
        },
    ));
    v
}

fn mixed_docs() -> Vec<Doc> {
    let all: Vec<(&str, Doc)> = KEYS.iter().enumerate().map(|(k, key)| (*key, i(k as i128))).collect();
    let mut rev = all.clone();
    rev.reverse();
    vec![
        dict(all.clone()),
        dict(rev),
        dict(vec![("key", dict(vec![("key", i(1)), ("ab", s("x y z"))])), ("ab", Doc::Arr(vec![dict(vec![("ab", Doc::Null)])]))]),
        Doc::Arr(vec![dict(vec![("éé", i(1))]), dict(vec![("ab", i(1)), ("sixteen_bytes_ab", i(2))]), dict(vec![])]),
        dict(vec![("sixteen_bytes_ab", i(70_000)), ("sixteen_bytes_abc", i(-70_000))]),
        dict(vec![("a", dict(vec![("a", dict(vec![("a", f64d(1.5)), ("a b", Doc::Data(vec![1, 2, 3]))]))]))]),
    ]
}

struct Wide(bool);
impl crate::refcodec::Style for Wide {
    fn choice(&mut self, n: usize, what: &'static str) -> usize {
        match what {
            "wide" | "width" if self.0 && n == 2 => 1,
            _ => Plain.choice(n, what),
        }
    }
}

fn mixed(d: &Doc, mask: usize, order: usize, knows_all: bool, st: &mut dyn crate::refcodec::Style) -> Result<(), String> {
    let mut names: Vec<&str> = KEYS.to_vec();
    match order {
        0 => {}
        1 => names.reverse(),
        _ => names.rotate_left(3),
    }
    let shared = |k: &str| mask >> KEYS.iter().position(|x| *x == k).unwrap() & 1 == 1;
    let mut sk = SharedKeys::new();
    for k in names {
        if shared(k) || knows_all {
            sk.encode_and_insert(k);
        }
    }
    let enc = |k: &str| if KEYS.contains(&k) && shared(k) { sk.encode(k) } else { None };
    let b = encode_styled(d, st, &enc);
    let plain = any(&encode(d)?)?.canon();
    let sc = Scope::new(b, Some(Arc::new(sk.clone())));
    let r = any_style_paths(&sc, d, &plain);
    sc.remove();
    r
}

/// Serde keeps a float's stored width, which is the writer's choice.
fn norm(d: &Doc) -> Doc {
    match d {
        Doc::F32(b) => f64d(f32::from_bits(*b).into()),
        Doc::Arr(v) => Doc::Arr(v.iter().map(norm).collect()),
        Doc::Dict(v) => Doc::Dict(v.iter().map(|(k, x)| (k.clone(), norm(x))).collect()),
        d => d.clone(),
    }
}

fn any_style_paths(sc: &Arc<Scope>, d: &Doc, plain: &Doc) -> Result<(), String> {
    let data = sc.data().ok_or("no data")?;
    let got = any(&data).map_err(|e| format!("deserialized: {e}"))?.canon();
    if norm(&got) != norm(plain) {
        return Err(format!("deserialized: {} instead of {}", got.show(), plain.show()));
    }
    paths(sc, d, &got, true)
}
