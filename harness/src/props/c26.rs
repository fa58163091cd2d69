//! C26: the bytes of a finished document are determined by the document that was written.

use crate::doc::*;
use crate::engine::*;
use crate::gen::{self, TreeCfg};
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Encoder, Scope, SharedKeys};
use std::sync::Arc;

/// One call.
#[derive(Clone, Debug)]
pub enum Op {
    Leaf(Doc),
    Key(String),
    BeginArray(usize),
    EndArray,
    BeginDict,
    EndDict,
}

pub fn calls(d: &Doc, out: &mut Vec<Op>) {
    match d {
        Doc::Arr(v) => {
            out.push(Op::BeginArray(v.len()));
            v.iter().for_each(|x| calls(x, out));
            out.push(Op::EndArray);
        }
        Doc::Dict(v) => {
            out.push(Op::BeginDict);
            for (k, x) in v {
                out.push(Op::Key(k.clone()));
                calls(x, out);
            }
            out.push(Op::EndDict);
        }
        d => out.push(Op::Leaf(d.clone())),
    }
}

pub fn apply(e: &mut Encoder, op: &Op, hint: impl FnOnce(usize) -> usize) -> Result<(), String> {
    match op {
        Op::Leaf(d) => match d {
            Doc::Null => e.write_value(NullValue),
            Doc::Undef => e.write_value(UndefinedValue),
            Doc::Bool(b) => e.write_value(*b),
            Doc::Int(v) => match i64::try_from(*v) {
                Ok(x) => e.write_value(x),
                Err(_) => e.write_value(u64::try_from(*v).expect("ENGINE: integer out of range")),
            },
            Doc::F32(b) => e.write_value(f32::from_bits(*b)),
            Doc::F64(b) => e.write_value(f64::from_bits(*b)),
            Doc::Str(s) => e.write_value(s.as_str()),
            Doc::Data(b) => e.write_value(b.as_slice()),
            Doc::Arr(_) | Doc::Dict(_) => unreachable!("ENGINE: not a leaf"),
        },
        Op::Key(k) => e.write_key(k),
        Op::BeginArray(n) => e.begin_array(hint(*n)),
        Op::EndArray => e.end_array(),
        Op::BeginDict => e.begin_dict(),
        Op::EndDict => e.end_dict(),
    }
    .map_err(|x| format!("{op:?}: {x:?}"))
}

/// Calls the protocol refuses at this place (the ones it accepts are not made).
fn refused(e: &mut Encoder, open: &[bool], key_due: bool, done: bool) -> Result<u64, String> {
    let mut n = 0;
    let mut no = |what: &str, r: Result<(), fleece::encoder::EncodeError>| {
        n += 1;
        match r {
            Err(_) => Ok(()),
            Ok(()) => Err(format!("{what} is accepted")),
        }
    };
    let in_dict = open.last() == Some(&true);
    let value_ok = !done && !open.is_empty() && !(in_dict && key_due);
    if !value_ok {
        no("a value", e.write_value("a value that is refused"))?;
        no("a value", e.write_value(1.25f64))?;
        no("an inline value", e.write_value(7i64))?;
    }
    if !(in_dict && key_due) || done {
        no("a key", e.write_key("a key that is refused"))?;
        no("a key", e.write_key("refused"))?;
        no("an inline key", e.write_key("r"))?;
    }
    if open.last() != Some(&false) || done {
        no("end_array", e.end_array())?;
    }
    if !in_dict || !key_due || done {
        no("end_dict", e.end_dict())?;
    }
    Ok(n)
}

fn run(e: &mut Encoder, ops: &[Op], hint: impl Fn(usize, usize) -> usize, misuse: bool) -> Result<u64, String> {
    let mut open: Vec<bool> = vec![];
    let mut due: Vec<bool> = vec![];
    let mut n = 0;
    for (k, op) in ops.iter().enumerate() {
        if misuse {
            n += refused(e, &open, due.last() == Some(&true), false)?;
        }
        apply(e, op, |x| hint(k, x))?;
        match op {
            Op::Key(_) => *due.last_mut().expect("ENGINE: key") = false,
            Op::BeginArray(_) => {
                open.push(false);
                due.push(false);
            }
            Op::BeginDict => {
                open.push(true);
                due.push(true);
            }
            Op::EndArray | Op::EndDict => {
                open.pop();
                due.pop();
            }
            Op::Leaf(_) => {}
        }
        if !matches!(op, Op::Key(_) | Op::BeginArray(_) | Op::BeginDict) && open.last() == Some(&true) {
            *due.last_mut().expect("ENGINE: value") = true;
        }
    }
    if misuse {
        n += refused(e, &open, false, true)?;
    }
    Ok(n)
}

fn diff(how: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Err(format!("{how}: byte {at} differs ({} bytes instead of {}): {} instead of {}", got.len(), want.len(), hex(&got[at.saturating_sub(8)..]), hex(&want[at.saturating_sub(8)..])))
}

const PREFIXES: [&[u8]; 4] = [b"", b"ab", b"abc", b"0123456789abcdef0123456789abcdef"];

/// Every way to write the same document.
fn ways(d: &Doc, thin: bool) -> Result<u64, String> {
    let mut ops = vec![];
    calls(d, &mut ops);
    let once = |e: Encoder, hint: &dyn Fn(usize, usize) -> usize, misuse: bool| -> Result<(Encoder, u64), String> {
        let mut e = e;
        let n = run(&mut e, &ops, hint, misuse)?;
        Ok((e, n))
    };
    let exact = |_: usize, n: usize| n;
    let base = once(Encoder::new(), &exact, false)?.0.finish();
    let mut n = 1;
    diff("written a second time", &once(Encoder::default(), &exact, false)?.0.finish(), &base)?;
    type Hint = fn(usize, usize) -> usize;
    let hints: [(&str, Hint); 6] = [
        ("hint 0", |_, _| 0),
        ("hint 1", |_, _| 1),
        ("hints too small and too large", |k, n| if k % 2 == 0 { n / 2 } else { n + 3 }),
        ("hint 5000", |_, _| 5000),
        ("hint 20000", |_, _| 20000),
        ("hint 70000", |_, _| 70000),
    ];
    for (what, h) in hints.iter().take(if thin { 2 } else { 6 }) {
        n += 1;
        diff(what, &once(Encoder::new(), h, false)?.0.finish(), &base)?;
    }
    n += 1;
    let mut e = Encoder::new();
    emit_from(&mut e, d, &mut Vec::with_capacity(room(d)))?;
    diff("every text read from the same place", &e.finish(), &base)?;
    for p in PREFIXES {
        n += 1;
        let b = once(Encoder::new_to_vec(p.to_vec()), &exact, false)?.0.finish();
        let skip = p.len() + p.len() % 2;
        if b.len() < skip || b[..p.len()] != *p {
            return Err(format!("the {} bytes which the vector held are changed: {}", p.len(), hex(&b)));
        }
        diff(&format!("appended to {} bytes", p.len()), &b[skip..], &base)?;
    }
    n += 1;
    let mut v = Vec::with_capacity(base.len() * 2);
    v.extend_from_slice(&base);
    v.clear();
    diff("written to a used vector", &once(Encoder::new_to_vec(v), &exact, false)?.0.finish(), &base)?;
    if !thin {
        let (e, m) = once(Encoder::new(), &exact, true)?;
        n += m;
        diff("with refused calls in between", &e.finish(), &base)?;
    }
    // ways of finishing
    let sc = once(Encoder::new(), &exact, false)?.0.finish_scoped();
    let data = sc.data().ok_or("the scope has no data")?;
    sc.remove();
    diff("finish_scoped", &data, &base)?;
    let v = once(Encoder::new(), &exact, false)?.0.finish_value();
    if d.is_collection() {
        let copy = |v: &fleece::Value| {
            let mut e = Encoder::new();
            e.write_fleece(v).map_err(|x| format!("write_fleece: {x:?}"))?;
            Ok::<_, String>(e.finish())
        };
        let of_bytes = copy(fleece::Value::from_bytes(&base).map_err(|x| format!("from_bytes: {x:?}"))?)?;
        diff("copied from finish_value", &copy(&v)?, &of_bytes)?;
        diff("copied from a value again", &copy(&v)?, &of_bytes)?;
    }
    // shared keys which nothing uses, and the same table twice
    let scoped = |sk: SharedKeys, hint: &dyn Fn(usize, usize) -> usize| -> Result<(Arc<[u8]>, Arc<Scope>), String> {
        let mut e = Encoder::new();
        e.set_shared_keys(sk);
        let sc = once(e, hint, false)?.0.finish_scoped();
        Ok((sc.data().ok_or("the scope has no data")?, sc))
    };
    let mut known = SharedKeys::new();
    for k in ["zz", "b", "unused", "key"] {
        known.encode_and_insert(k);
    }
    for sk in [SharedKeys::new(), known] {
        n += 3;
        let (b, sc) = scoped(sk.clone(), &exact)?;
        let state = sc.shared_keys().ok_or("no shared keys")?.get_state_bytes();
        let (b2, sc2) = scoped(sk.clone(), &|_, _| 3)?;
        diff("with the same shared keys again", &b2, &b)?;
        diff("state of the shared keys", &sc2.shared_keys().ok_or("no shared keys")?.get_state_bytes(), &state)?;
        // the table it has now knows every key: it gives the same numbers
        let (b3, sc3) = scoped((**sc.shared_keys().ok_or("no shared keys")?).clone(), &exact)?;
        diff("with the shared keys of the first time", &b3, &b)?;
        diff("state of the shared keys used again", &sc3.shared_keys().ok_or("no shared keys")?.get_state_bytes(), &state)?;
        if d.canon() == (Doc::Arr(vec![])).canon() {
            diff("with shared keys and no dict", &b, &base)?;
        }
        sc.remove();
        sc2.remove();
        sc3.remove();
    }
    Ok(n)
}

fn same(cx: &mut Cx, d: &Doc, thin: bool) {
    cx.note(|| format!("document {}", d.show()));
    let r = cx.call("encode", || ways(d, thin));
    let n = cx.want("same bytes", r);
    cx.cases(n);
    cx.ops(n);
    cx.outcome(n);
}

/// Documents short enough for every interleaving of two of them.
fn short() -> Vec<Doc> {
    vec![
        Doc::Arr(vec![s("hello"), i(1), f64d(1.5)]),
        dict(vec![("bb", s("x")), ("aa", s("a longer string than fits"))]),
        Doc::Arr(vec![Doc::Arr(vec![s("hello")]), i(70000)]),
        dict(vec![("key", dict(vec![("a", Doc::Null)]))]),
        Doc::Arr(vec![Doc::Data(vec![7; 20]), Doc::Dict(vec![])]),
        dict(vec![("a key of more than sixteen bytes", Doc::Arr(vec![]))]),
    ]
}

/// Two documents written at the same time, in one order of the calls.
fn together(cx: &mut Cx, sk: bool) {
    let docs = short();
    let (a, b) = (cx.pick(&docs).clone(), cx.pick(&docs).clone());
    cx.note(|| format!("{} and {}{}", a.show(), b.show(), if sk { ", shared keys" } else { "" }));
    let mut ops: [Vec<Op>; 2] = [vec![], vec![]];
    calls(&a, &mut ops[0]);
    calls(&b, &mut ops[1]);
    let table = |n: usize| {
        let mut t = SharedKeys::new();
        for k in ["zz", "key", "bb"].iter().take(n + 1) {
            t.encode_and_insert(k);
        }
        t
    };
    let start = |n: usize| {
        let mut e = Encoder::new();
        if sk {
            e.set_shared_keys(table(n));
        }
        e
    };
    let end = |e: Encoder| -> Vec<u8> {
        if sk {
            let sc = e.finish_scoped();
            let mut v = sc.data().map_or(vec![], |x| x.to_vec());
            v.extend_from_slice(&sc.shared_keys().map_or(Box::default(), |x| x.get_state_bytes()));
            v
        } else {
            e.finish()
        }
    };
    // alone
    let r = cx.call("alone", || -> Result<Vec<Vec<u8>>, String> {
        (0..2)
            .map(|w| {
                let mut e = start(w);
                run(&mut e, &ops[w], |_, n| n, false)?;
                Ok(end(e))
            })
            .collect()
    });
    let want = cx.want("alone", r);
    let mut e = [start(0), start(1)];
    let mut at = [0usize; 2];
    let mut log = String::new();
    while at[0] < ops[0].len() || at[1] < ops[1].len() {
        let w = if at[0] == ops[0].len() {
            1
        } else if at[1] == ops[1].len() {
            0
        } else {
            cx.choose(2)
        };
        log.push(if w == 0 { 'a' } else { 'b' });
        let r = cx.call("step", || apply(&mut e[w], &ops[w][at[w]], |n| n));
        cx.want("step", r);
        at[w] += 1;
    }
    cx.note(|| format!("order of the calls {log}"));
    cx.cases(1);
    cx.ops((at[0] + at[1]) as u64);
    let [x, y] = e;
    let r = cx.call("finish", || -> Result<(), String> {
        let got = if cx_parity(&log) { let gy = end(y); [end(x), gy] } else { [end(x), end(y)] };
        diff("the first document, written while another one is", &got[0], &want[0])?;
        diff("the second document, written while another one is", &got[1], &want[1])
    });
    cx.want("same bytes", r);
}

/// What other encoders did before: each wrote a part of a document.
const BEFORE: [&str; 7] = ["dropped", "finished", "finished as value", "finished as scope", "with a refused value", "with the wrong end", "with shared keys"];

fn earlier(ops: &[Op], how: usize) -> Result<Option<Arc<Scope>>, String> {
    let mut e = Encoder::new();
    if how == 6 {
        e.set_shared_keys(SharedKeys::new());
    }
    for op in ops {
        apply(&mut e, op, |n| n)?;
    }
    match how {
        1 => drop(e.finish()),
        2 => drop(e.finish_value()),
        3 => return Ok(Some(e.finish_scoped())),
        // either may be fine here
        4 => drop(e.write_value("a value which may be refused")),
        5 => drop((e.end_dict(), e.end_array(), e.write_key("a key which may be refused"))),
        _ => {}
    }
    Ok(None)
}

/// One or two encoders, each left after any number of calls, then a document.
fn after(cx: &mut Cx, most: usize) {
    let docs = short();
    let n = 1 + cx.choose(most);
    let mut log = String::new();
    let mut kept = vec![];
    let r = cx.call("alone", || docs.iter().map(encode).collect::<Result<Vec<_>, _>>());
    let plain = cx.want("alone", r);
    for _ in 0..n {
        let mut ops = vec![];
        let d = cx.pick(&docs).clone();
        calls(&d, &mut ops);
        let k = cx.choose(ops.len() + 1);
        let how = cx.choose(BEFORE.len());
        if how == 2 && k < ops.len() {
            // an unfinished document is no value
            cx.prune();
        }
        log.push_str(&format!("{k} calls for {} {}; ", d.show(), BEFORE[how]));
        let r = cx.call("earlier", || earlier(&ops[..k], how));
        kept.push(cx.want("earlier", r));
    }
    cx.note(|| log);
    for (d, want) in docs.iter().zip(&plain) {
        let r = cx.call("encode", || encode(d).and_then(|b| diff(&d.show(), &b, want)));
        cx.want("same bytes", r);
        cx.cases(1);
    }
    cx.ops(n as u64);
    for sc in kept.into_iter().flatten() {
        sc.remove();
    }
}

fn cx_parity(s: &str) -> bool {
    s.bytes().last() == Some(b'a')
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    for sp in gen::spaces(t) {
        let make = sp.make.clone();
        let name = sp.name;
        if matches!(name, "trees" | "shapes") {
            continue;
        }
        v.push(scen(format!("{name}, ways"), format!("{}; each written in every way (twice, capacity hints, into a vector with bytes, with refused calls before every call, three ways of finishing, copied, shared keys)", sp.bounds), sp.split, move |cx| {
            let d = make(cx);
            same(cx, &d, matches!(name, "counts" | "lengths" | "characters"));
        }));
    }
    let all = gen::leaves();
    let nodes = t.sel(4, 5);
    v.push(scen("trees, ways", format!("all trees of <= {nodes} nodes below the root, depth <= 3, 4 leaf classes, all ordered selections of 4 keys; each written in every way"), 4, move |cx| {
        let cfg = TreeCfg { nodes, depth: 3, leaves: all[..4].to_vec(), keys: vec!["b", "key", "", gen::LONG_KEY], key_orders: true };
        let d = gen::tree(cx, &cfg);
        same(cx, &d, false);
    }));
    let shape_nodes = t.sel(7, 8);
    v.push(scen("shapes, ways", format!("all tree shapes of <= {shape_nodes} nodes below the root, depth <= 4, one leaf class; each written in every way"), 4, move |cx| {
        let cfg = TreeCfg { nodes: shape_nodes, depth: 4, leaves: vec![s("leaf")], keys: vec!["b", "ab", "", "a", "abc"], key_orders: false };
        let d = gen::tree(cx, &cfg);
        same(cx, &d, false);
    }));
    for sk in [false, true] {
        v.push(scen(if sk { "interleaved encoders, shared keys" } else { "interleaved encoders" }, format!("{} x {} documents, every interleaving of the calls of two encoders", short().len(), short().len()), 6, move |cx| together(cx, sk)));
    }
    let most = t.sel(2, 3);
    v.push(scen("after other encoders", format!("all histories of up to {most} encoders, each left after every number of calls for one of {} documents and dropped, finished in three ways, or after wrong calls; then every document written", short().len()), 3, move |cx| after(cx, most)));
    v
}
