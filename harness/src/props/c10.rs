//! C10: copying a decoded value into an encoder preserves it.

use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use crate::props::c05::{self, Dev};
use crate::refcodec::{self, encode_styled};
use fleece::{Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    Plain,
    Fresh,
    /// the table already knows some of the keys, under other numbers
    Known,
}

fn encoder(t: Target) -> Encoder {
    let mut e = Encoder::new();
    match t {
        Target::Plain => {}
        Target::Fresh => e.set_shared_keys(SharedKeys::new()),
        Target::Known => {
            let mut sk = SharedKeys::new();
            for k in ["unused", "zz", "abc", "key", "ab", "aa", "kk", "bb"] {
                sk.encode_and_insert(k);
            }
            e.set_shared_keys(sk);
        }
    }
    e
}

fn st<T>(what: &str, r: Result<T, fleece::encoder::EncodeError>) -> Result<T, String> {
    r.map_err(|x| format!("{what}: {x:?}"))
}

/// Copy `v` (whose meaning is `d`) everywhere a value can go.
fn copies(v: &Value, d: &Doc, thin: bool, plain: bool) -> Result<u64, String> {
    let mut n = 0;
    for t in [Target::Plain, Target::Fresh, Target::Known] {
        for place in 0..4 {
            if thin && place == 3 {
                continue;
            }
            let mut e = encoder(t);
            let what = format!("{t:?}, place {place}");
            let want = match place {
                0 => {
                    let r = e.write_fleece(v);
                    if !d.is_collection() {
                        if r.is_ok() {
                            return Err(format!("{what}: a scalar was accepted outside a collection"));
                        }
                        continue;
                    }
                    st("write_fleece", r).map_err(|x| format!("{what}: {x}"))?;
                    d.clone()
                }
                1 => {
                    st("", e.begin_array(3))?;
                    st("", e.write_value("before"))?;
                    st(&what, e.write_fleece(v))?;
                    st(&what, e.write_fleece(v))?;
                    st("", e.write_value("after"))?;
                    st("", e.end_array())?;
                    Doc::Arr(vec![s("before"), d.clone(), d.clone(), s("after")])
                }
                2 => {
                    st("", e.begin_dict())?;
                    st("", e.write_key("zz"))?;
                    st(&what, e.write_fleece(v))?;
                    st("", e.write_key("aa"))?;
                    st("", e.begin_dict())?;
                    st("", e.write_key("the copy"))?;
                    st(&what, e.write_fleece(v))?;
                    st("", e.end_dict())?;
                    st("", e.end_dict())?;
                    dict(vec![("zz", d.clone()), ("aa", dict(vec![("the copy", d.clone())]))])
                }
                _ => {
                    // far from the start: wide
                    st("", e.begin_array(0))?;
                    st(&what, e.write_fleece(v))?;
                    st("", e.write_value(vec![1u8; 0x8010].as_slice()))?;
                    st(&what, e.write_fleece(v))?;
                    st("", e.end_array())?;
                    Doc::Arr(vec![d.clone(), Doc::Data(vec![1; 0x8010]), d.clone()])
                }
            };
            n += 1;
            if t == Target::Plain {
                let b = e.finish();
                let c = Value::from_bytes(&b).map_err(|x| format!("{what}: the copy is invalid: {x:?}"))?;
                verify(c, &want, Keys::Plain).map_err(|x| format!("{what}: {x}; {}", hex(&b)))?;
                if c.as_array().is_some() || c.as_dict().is_some() {
                    let copy = |c: &Value| {
                        let mut e = Encoder::new();
                        st("copy of the copy", e.write_fleece(c))?;
                        Ok::<_, String>(e.finish())
                    };
                    let b2 = copy(c)?;
                    let c2 = Value::from_bytes(&b2).map_err(|x| format!("{what}: the copy of the copy is invalid: {x:?}"))?;
                    verify(c2, &want, Keys::Plain).map_err(|x| format!("{what}: copy of the copy: {x}"))?;
                    let b3 = copy(c2)?;
                    if b2 != b3 {
                        return Err(format!("{what}: copying a copy gives {} instead of {}", hex(&b3), hex(&b2)));
                    }
                    if plain && place == 0 && b != b2 {
                        return Err(format!("{what}: copying the copy gives {} instead of {}", hex(&b2), hex(&b)));
                    }
                }
            } else {
                let sc = e.finish_scoped();
                let r = (|| {
                    let c = sc.root().ok_or("the copy has no root")?;
                    verify(&c, &want, Keys::Scoped)?;
                    // back out of the shared keys
                    let mut e = Encoder::new();
                    st("copy back", e.write_fleece(&c))?;
                    let b = e.finish();
                    let v = Value::from_bytes(&b).map_err(|x| format!("copied back, it is invalid: {x:?}"))?;
                    verify(v, &want, Keys::Plain).map_err(|x| format!("copied back: {x}"))
                })();
                sc.remove();
                r.map_err(|x| format!("{what}: {x}"))?;
            }
        }
    }
    Ok(n)
}

fn sources(cx: &mut Cx, d: &Doc, thin: bool) {
    cx.note(|| format!("document {}", d.show()));
    let r = cx.call("copy", || -> Result<u64, String> {
        let b = encode(d)?;
        let v = Value::from_bytes(&b).map_err(|x| format!("{x:?}"))?;
        let mut n = copies(v, d, thin, true).map_err(|x| format!("from bytes: {x}"))?;
        let mut e = encoder(Target::Fresh);
        emit(&mut e, d)?;
        let sc = e.finish_scoped();
        let r = sc.root().ok_or("no root".to_string()).and_then(|v| copies(&v, d, thin, false)).map_err(|x| format!("from a scope with shared keys: {x}"));
        sc.remove();
        n += r?;
        Ok(n)
    });
    let n = cx.want("copy", r.map_err(|e| format!("{} {e}", d.show())));
    cx.cases(n);
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let cfg = TreeCfg {
        nodes: t.sel(3, 4),
        depth: 3,
        leaves: gen::leaves()[..t.sel(4, 4)].to_vec(),
        keys: vec!["ab", "", "abc", gen::LONG_KEY],
        key_orders: true,
    };
    v.push(scen(
        "trees",
        format!("all trees of <= {} nodes, depth <= 3, 4 leaf classes, all ordered selections of 4 keys; from bytes and from a scope with shared keys; to 4 places x 3 shared key tables", cfg.nodes),
        4,
        move |cx| {
            let d = gen::tree(cx, &cfg);
            sources(cx, &d, false);
        },
    ));
    for sp in gen::spaces(t).into_iter().filter(|s| matches!(s.name, "leaf-pairs" | "nesting" | "key-orders" | "counts" | "lengths" | "characters")) {
        let mk = sp.make.clone();
        let thin = matches!(sp.name, "lengths" | "counts" | "characters");
        if sp.name == "key-orders" && !t.thorough() {
            continue;
        }
        v.push(scen(sp.name, format!("{}; from bytes and from a scope; to {} places x 3 shared key tables", sp.bounds, if thin { 3 } else { 4 }), sp.split, move |cx| {
            let d = mk(cx);
            sources(cx, &d, thin);
        }));
    }
    let dev = t.sel(2usize, 4);
    v.push(scen(
        "styles",
        format!("{} documents in every encoding style with at most {dev} departures from the plain one", c05::docs().len()),
        3,
        move |cx| {
            let ds = c05::docs();
            let d = cx.pick(&ds).clone();
            let mut st = Dev { cx, left: dev, log: vec![] };
            let b = encode_styled(&d, &mut st, &refcodec::no_sk_enc);
            let log = std::mem::take(&mut st.log);
            cx.note(|| format!("{} {log:?} {}", d.show(), hex(&b)));
            let r = cx.call("copy", || -> Result<u64, String> {
                let v = Value::from_bytes(&b).map_err(|x| format!("{x:?}"))?;
                copies(v, &d, true, true)
            });
            let n = cx.want("copy", r.map_err(|e| format!("{} as {}: {e}", d.show(), hex(&b))));
            cx.cases(n);
        },
    ));
    v.push(scen(
        "styles with shared keys",
        format!("4 documents with known shared keys in a scope, every style with at most {dev} departures"),
        3,
        move |cx| {
            let ds: Vec<Doc> = vec![
                dict(vec![("a", i(1)), ("b", s("xy"))]),
                dict(vec![("key", dict(vec![("key", i(-1)), ("other one", i(2))]))]),
                dict(vec![("aa", Doc::Arr(vec![i(1), dict(vec![("b", Doc::Null)])])), ("ab", Doc::Null), ("b", f64d(-0.0)), ("not-shared key!", s("q"))]),
                dict(vec![("zz", s("hello")), ("aa", s("hello")), ("ab", i(300_000))]),
            ];
            let d = cx.pick(&ds).clone();
            let known = ["zz", "b", "key", "aa"];
            let enc = |k: &str| known.iter().position(|x| *x == k).map(|p| p as u16);
            let mut st = Dev { cx, left: dev, log: vec![] };
            let b = encode_styled(&d, &mut st, &enc);
            let r = cx.call("copy", || -> Result<u64, String> {
                let mut sk = SharedKeys::new();
                for k in known {
                    sk.encode_and_insert(k);
                }
                let sc = Scope::new(b.clone(), Some(Arc::new(sk)));
                let r = sc.root().ok_or("no root".to_string()).and_then(|v| copies(&v, &d, true, false));
                sc.remove();
                r
            });
            let n = cx.want("copy", r.map_err(|e| format!("{} as {}: {e}", d.show(), hex(&b))));
            cx.cases(n);
        },
    ));
    let most = t.sel(3usize, 4);
    v.push(scen(
        "one after the other from one buffer",
        format!("{most} of 16 documents, many of the same size, all copied into one encoder; each is read into the memory of the one before it (at its beginning or its end), or is a self-owning value or scope which is dropped as soon as it was copied; 3 shared key tables"),
        2,
        move |cx| {
            let ds: Vec<Doc> = ["a", "b"]
                .iter()
                .flat_map(|c| {
                    let (l, k) = (c.repeat(40), c.repeat(20));
                    vec![
                        Doc::Arr(vec![s(&l)]),
                        Doc::Arr(vec![Doc::Data(l.clone().into_bytes())]),
                        Doc::Arr(vec![s(&c.repeat(7)), s(&c.repeat(2))]),
                        Doc::Arr(vec![i(if *c == "a" { 70_000 } else { -70_001 }), f64d(if *c == "a" { 0.1 } else { 0.2 })]),
                        dict(vec![(k.as_str(), i(1)), (c, s(&l))]),
                        dict(vec![(c.repeat(3).as_str(), Doc::Arr(vec![s(&c.repeat(16))]))]),
                        Doc::Arr(vec![Doc::Arr(vec![s(&k)]), Doc::Arr(vec![s(&k)])]),
                        Doc::Arr(vec![dict(vec![(k.as_str(), dict(vec![(c.repeat(5).as_str(), Doc::Null)]))])]),
                    ]
                })
                .collect();
            let picks: Vec<usize> = (0..most).map(|_| cx.choose(ds.len())).collect();
            let target = *cx.pick(&[Target::Plain, Target::Fresh, Target::Known]);
            let source = cx.choose(4);
            cx.note(|| format!("{target:?}, source {source}: {}", picks.iter().map(|p| ds[*p].show()).collect::<Vec<_>>().join(" then ")));
            cx.cases(1);
            let r = cx.call("copy", || -> Result<(), String> {
                let bytes: Vec<Vec<u8>> = picks.iter().map(|p| encode(&ds[*p])).collect::<Result<_, _>>()?;
                let room = bytes.iter().map(Vec::len).max().unwrap_or(0);
                let mut buf = vec![0u8; room];
                let mut e = encoder(target);
                st("", e.begin_array(most))?;
                for (b, p) in bytes.iter().zip(&picks) {
                    match source {
                        0 | 1 => {
                            let at = if source == 0 { 0 } else { room - b.len() };
                            buf[at..at + b.len()].copy_from_slice(b);
                            let v = Value::from_bytes(&buf[at..at + b.len()]).map_err(|x| format!("{x:?}"))?;
                            st("write_fleece", e.write_fleece(v))?;
                        }
                        2 => {
                            let v = Value::clone_from_bytes(b).map_err(|x| format!("{x:?}"))?;
                            st("write_fleece", e.write_fleece(&v))?;
                        }
                        _ => {
                            let mut own = encoder(Target::Fresh);
                            emit(&mut own, &ds[*p])?;
                            let sc = own.finish_scoped();
                            let r = sc.root().ok_or("no root".to_string()).and_then(|v| st("write_fleece", e.write_fleece(&v)));
                            sc.remove();
                            r?;
                        }
                    }
                }
                st("", e.end_array())?;
                buf.fill(0xEE);
                let want = Doc::Arr(picks.iter().map(|p| ds[*p].clone()).collect());
                if target == Target::Plain {
                    let b = e.finish();
                    let c = Value::from_bytes(&b).map_err(|x| format!("the copy is invalid: {x:?}"))?;
                    verify(c, &want, Keys::Plain)
                } else {
                    let sc = e.finish_scoped();
                    let r = sc.root().ok_or("the copy has no root".to_string()).and_then(|c| verify(&c, &want, Keys::Scoped));
                    sc.remove();
                    r
                }
            });
            cx.want("copy", r);
        },
    ));
    v
}
