//! C27: printing with `{:?}` shows the content.
//!
//! The exact format is not part of the property: what is asked for is that every key and value is
//! there, in order, and that text which is there once in the document is not there twice.

use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use crate::props::c05::{self, Dev};
use crate::refcodec::{self, encode_styled};
use fleece::{Array, Dict, Encoder, SharedKeys, Value};
use std::collections::HashMap;
use std::fmt::Debug;

/// The layout is of no importance.
fn squash(x: &str) -> String {
    let t: String = x.chars().filter(|c| !c.is_whitespace()).collect();
    t.replace(",]", "]").replace(",)", ")").replace(",}", "}")
}

/// What has to be seen, in order.  Several alternatives for one thing are tried in turn.
fn tokens(d: &Doc, out: &mut Vec<Vec<String>>) {
    let one = |x: String| vec![squash(&x)];
    match d {
        Doc::Null => out.push(vec!["null".into(), "Null".into()]),
        Doc::Undef => out.push(vec!["undefined".into(), "Undefined".into()]),
        Doc::Bool(b) => out.push(if *b { vec!["True".into(), "true".into()] } else { vec!["False".into(), "false".into()] }),
        Doc::Int(n) => out.push(one(n.to_string())),
        Doc::F32(b) => {
            let x = f32::from_bits(*b);
            out.push(vec![squash(&format!("{:?}", f64::from(x))), squash(&format!("{x:?}"))]);
        }
        Doc::F64(b) => out.push(one(format!("{:?}", f64::from_bits(*b)))),
        Doc::Str(s) => out.push(one(format!("{s:?}"))),
        Doc::Data(b) => {
            let inner = squash(&format!("{b:?}"));
            out.push(vec![inner, squash(&format!("{b:02x?}"))]);
        }
        Doc::Arr(v) => {
            out.push(vec!["[".into()]);
            v.iter().for_each(|x| tokens(x, out));
            out.push(vec!["]".into()]);
        }
        Doc::Dict(v) => {
            out.push(vec!["{".into()]);
            for (k, x) in v {
                out.push(one(format!("{k:?}")));
                tokens(x, out);
            }
            out.push(vec!["}".into()]);
        }
    }
}

fn strings(d: &Doc, out: &mut HashMap<String, usize>) {
    match d {
        Doc::Str(s) => *out.entry(s.clone()).or_default() += 1,
        Doc::Arr(v) => v.iter().for_each(|x| strings(x, out)),
        Doc::Dict(v) => v.iter().for_each(|(k, x)| {
            *out.entry(k.clone()).or_default() += 1;
            strings(x, out);
        }),
        _ => {}
    }
}

fn cut(x: &str) -> String {
    x.chars().take(300).collect()
}

/// The earliest end of any of `words` in `t` from `at` on, looking not much further than that.
fn next(t: &str, at: usize, words: &[String]) -> Option<usize> {
    let mut size = 1000 + words.iter().map(String::len).sum::<usize>();
    loop {
        let mut end = (at + size).min(t.len());
        while !t.is_char_boundary(end) {
            end += 1;
        }
        let found = words.iter().filter_map(|w| t[at..end].find(w.as_str()).map(|p| at + p + w.len())).min();
        if found.is_some() || end == t.len() {
            return found;
        }
        size *= 2;
    }
}

/// `d` has its dicts in the order in which they are iterated.
fn shows(how: &str, text: &str, d: &Doc) -> Result<(), String> {
    let t = squash(text);
    let mut want = vec![];
    tokens(d, &mut want);
    let mut at = 0;
    for w in &want {
        let Some(p) = next(&t, at, w) else {
            return Err(format!("{how} of {} does not show {} where it belongs: {}", d.show(), w[0], cut(text)));
        };
        at = p;
    }
    let mut all = HashMap::new();
    strings(d, &mut all);
    // of many strings, some
    let mut all: Vec<_> = all.into_iter().collect();
    all.sort_unstable();
    let step = all.len() / 150 + 1;
    for (x, n) in all.into_iter().step_by(step) {
        if x.len() < 4 || ["Null", "True", "False", "Undefined", "Empty"].contains(&x.as_str()) {
            continue;
        }
        let seen = t.matches(&squash(&format!("{x:?}"))).count();
        if seen != n {
            return Err(format!("{how} of {} shows {x:?} {seen} times instead of {n}: {}", d.show(), cut(text)));
        }
    }
    Ok(())
}

fn depth(d: &Doc) -> usize {
    match d {
        Doc::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        Doc::Dict(v) => 1 + v.iter().map(|x| depth(&x.1)).max().unwrap_or(0),
        _ => 0,
    }
}

/// One line and pretty.
fn prints(how: &str, x: &(impl Debug + ?Sized), d: &Doc) -> Result<u64, String> {
    shows(how, &format!("{x:?}"), d)?;
    // every level of indentation costs, for each character
    let depth = depth(d);
    if depth <= 24 || depth % 64 == 0 {
        shows(&format!("{how}, {{:#?}}"), &format!("{x:#?}"), d)?;
    }
    Ok(2)
}

fn every(v: &Value, d: &Doc) -> Result<u64, String> {
    let mut n = prints("Value", v, d)?;
    if let Some(a) = v.as_array() {
        n += prints("Array", a, d)?;
        // from the middle of an iteration on
        if let Doc::Arr(xs) = d {
            for (e, x) in a.iter().zip(xs).take(3) {
                n += prints("element", e, x)?;
            }
        }
    }
    if let Some(a) = v.as_dict() {
        n += prints("Dict", a, d)?;
        if let Doc::Dict(xs) = d {
            for ((k, e), (kd, x)) in a.iter().zip(xs).take(3) {
                shows("key", &format!("{k:?}"), &Doc::Str(kd.to_string()))?;
                n += 1 + prints("entry", e, x)?;
            }
        }
    }
    Ok(n)
}

/// The dicts in the order of iteration.
fn sorted(v: &Value) -> Doc {
    read(v)
}

fn owned(bytes: &[u8], d: &Doc) -> Result<u64, String> {
    let v = Value::clone_from_bytes(bytes).map_err(|e| format!("clone_from_bytes: {e:?}"))?;
    let mut n = prints("AllocedValue", &v, d)?;
    if let Doc::Arr(_) = d {
        n += prints("AllocedArray", &Array::clone_from_bytes(bytes).map_err(|e| format!("{e:?}"))?, d)?;
    }
    if let Doc::Dict(_) = d {
        n += prints("AllocedDict", &Dict::clone_from_bytes(bytes).map_err(|e| format!("{e:?}"))?, d)?;
    }
    Ok(n)
}

fn go(cx: &mut Cx, what: &str, d: &Doc, f: impl FnOnce() -> Result<u64, String>) {
    cx.note(|| format!("document {}", d.show()));
    let r = cx.call(what, f);
    let n = cx.want("printed", r);
    cx.cases(n);
    cx.ops(n);
    cx.outcome(n);
}

fn plain(cx: &mut Cx, d: &Doc) {
    let b = cx.call("encode", || encode(d));
    let b = cx.want("encode", b);
    go(cx, "print", d, || {
        let v = Value::from_bytes(&b).map_err(|e| format!("from_bytes: {e:?}"))?;
        let d = d.canon();
        if sorted(v).canon() != d {
            return Err("another document is read".into());
        }
        Ok(every(v, &d)? + owned(&b, &d)?)
    });
}

fn scoped(cx: &mut Cx, d: &Doc, pre: &[&str]) {
    go(cx, "print with shared keys", d, || {
        let mut sk = SharedKeys::new();
        for k in pre {
            sk.encode_and_insert(k);
        }
        let mut e = Encoder::new();
        e.set_shared_keys(sk);
        emit(&mut e, d)?;
        let sc = e.finish_scoped();
        let r = (|| {
            let v = sc.root().ok_or("no root")?;
            let it = sorted(&v);
            if it.canon() != d.canon() {
                return Err("another document is read".to_string());
            }
            let mut n = every(&v, &it)? + prints("AllocedValue", &v, &it)?;
            let sk = sc.shared_keys().ok_or("no shared keys")?;
            n += table(sk)?;
            Ok(n)
        })();
        sc.remove();
        r
    });
}

/// A table shows each of its keys once.
fn table(sk: &SharedKeys) -> Result<u64, String> {
    let text = squash(&format!("{sk:?}"));
    let mut pairs = 0;
    for k in 0..sk.len() {
        let Some(s) = sk.decode(k) else { return Err(format!("number {k} is unknown")) };
        let seen = text.matches(&format!("{s:?}")).count();
        if seen != 1 {
            return Err(format!("SharedKeys shows {s:?} {seen} times: {}", cut(&text)));
        }
        let num = k.to_string();
        if !text.contains(&format!("{num}:{s:?}")) && !text.contains(&format!("{s:?}:{num}")) {
            return Err(format!("SharedKeys does not show that {s:?} is {num}: {}", cut(&text)));
        }
        pairs += 1;
    }
    Ok(pairs)
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for sp in gen::spaces(t) {
        if matches!(sp.name, "trees" | "shapes" | "lengths" | "counts" | "characters") {
            continue;
        }
        let make = sp.make.clone();
        v.push(scen(sp.name, sp.bounds.clone(), sp.split, move |cx| {
            let d = make(cx);
            plain(cx, &d);
        }));
    }
    let all = gen::leaves();
    let nodes = t.sel(4, 5);
    v.push(scen("trees", format!("all trees of <= {nodes} nodes below the root, depth <= 3, 4 leaf classes"), 4, move |cx| {
        let cfg = TreeCfg { nodes, depth: 3, leaves: all[..4].to_vec(), keys: vec!["b", "key", "", gen::LONG_KEY], key_orders: false };
        let d = gen::tree(cx, &cfg);
        plain(cx, &d);
    }));
    let nodes = t.sel(4, 5);
    v.push(scen("trees, shared keys", format!("all trees of <= {nodes} nodes below the root, depth <= 3, 3 leaf classes, all ordered selections of 4 keys x 2 initial tables"), 4, move |cx| {
        let cfg = TreeCfg { nodes, depth: 3, leaves: vec![i(1), s("hello"), Doc::Null], keys: vec!["bbbb", "key_a", "not shareable", "sixteen_bytes_ab"], key_orders: true };
        let d = gen::tree(cx, &cfg);
        let pre: &[&str] = if cx.flag() { &["zzzz", "key_a", "other"] } else { &[] };
        scoped(cx, &d, pre);
    }));
    let dev = t.sel(2, 3);
    v.push(scen("styles", format!("{} documents, every encoding style with at most {dev} departures from the plain one", c05::docs().len()), 3, move |cx| {
        let ds = c05::docs();
        let d = cx.pick(&ds).canon();
        let mut st = Dev { cx, left: dev, log: vec![] };
        let b = encode_styled(&d, &mut st, &refcodec::no_sk_enc);
        go(cx, "print", &d, || {
            let v = Value::from_bytes(&b).map_err(|e| format!("from_bytes: {e:?}"))?;
            Ok(every(v, &d)? + owned(&b, &d)?)
        });
    }));
    let sizes: Vec<usize> = t.sel((0..40).chain([100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 1025, 2046, 2047, 2048, 2049, 4097, 5000, 8193, 10_001, 16_385, 65_537]).collect(), (0..700).chain(2040..2056).chain(16380..16390).chain([32_769, 65_537, 100_001]).collect());
    v.push(scen("sizes", format!("{} sizes of arrays, dicts, strings and keys", sizes.len()), 1, move |cx| {
        let n = *cx.pick(&sizes);
        let d = match cx.choose(4) {
            0 => Doc::Arr((0..n).map(|k| i(k as i128 * 37)).collect()),
            1 => Doc::Dict((0..n).map(|k| (format!("key{k:05}"), s("value"))).collect()),
            2 => Doc::Arr(vec![Doc::Str(gen::text(n, 3, true)), i(3), Doc::Data(gen::bytes(n, 1))]),
            _ => Doc::Dict(vec![(gen::text(n, 1, false), f64d(0.5)), ("zz".into(), Doc::Bool(true))]),
        };
        plain(cx, &d);
    }));
    v.push(scen("tables", "shared key tables of every size up to 300 and 2040..2048", 1, |cx| {
        let k = cx.choose(300 + 9);
        let n = if k < 300 { k } else { 2040 + k - 300 };
        go(cx, "print", &Doc::Int(n as i128), || {
            let mut sk = SharedKeys::new();
            for k in 0..n {
                sk.encode_and_insert(&format!("key_{:04}", (k * 7) % 10_000)).ok_or("a key is refused")?;
            }
            table(&sk)
        });
    }));
    v
}
