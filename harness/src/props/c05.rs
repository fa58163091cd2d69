//! C05: every well-formed document decodes to its meaning, whatever its writer's style.

use crate::doc::*;
use crate::engine::*;
use crate::refcodec::{self, encode_styled, Ref, Strict, Style};
use fleece::{Array, Dict, Scope, SharedKeys, Value};
use std::sync::Arc;

/// Choices made by the explorer, at most `left` of them away from the plain style.
pub struct Dev<'a> {
    pub cx: &'a mut Cx,
    pub left: usize,
    pub log: Vec<String>,
}

impl Style for Dev<'_> {
    fn choice(&mut self, n: usize, what: &'static str) -> usize {
        if self.left == 0 || n < 2 {
            return 0;
        }
        let c = self.cx.choose(n);
        if c > 0 {
            self.left -= 1;
            if self.cx.verbose() {
                self.log.push(format!("{what}={c}"));
            }
        }
        c
    }
}

pub fn docs() -> Vec<Doc> {
    vec![
        Doc::Arr(vec![i(1)]),
        Doc::Arr(vec![s("a"), s("a")]),
        Doc::Arr(vec![]),
        Doc::Dict(vec![]),
        dict(vec![("a", i(1)), ("b", s("xy"))]),
        Doc::Arr(vec![f64d(1.5), f32d(1.5)]),
        Doc::Arr(vec![f64d(0.1), i(-3000), i(70000)]),
        Doc::Arr(vec![i(i128::from(u64::MAX)), i(i128::from(i64::MIN))]),
        Doc::Arr(vec![Doc::Null, Doc::Undef, Doc::Bool(true), Doc::Bool(false)]),
        Doc::Arr(vec![s(""), Doc::Data(vec![]), Doc::Data(vec![1])]),
        Doc::Arr(vec![Doc::Arr(vec![]), Doc::Arr(vec![])]),
        Doc::Arr(vec![Doc::Dict(vec![]), Doc::Dict(vec![])]),
        dict(vec![("key", dict(vec![("key", i(-1))]))]),
        Doc::Arr(vec![Doc::Arr(vec![s("hello"), i(7)]), Doc::Arr(vec![s("hello"), i(7)])]),
        dict(vec![("aa", Doc::Arr(vec![i(1), i(2)])), ("ab", Doc::Null), ("b", f64d(-0.0))]),
        Doc::Arr(vec![s("fourteen bytes"), s("exactly fifteen"), Doc::Data(vec![9; 16])]),
        dict(vec![("", i(0)), ("x", s("")), ("long key over 16 bytes", s("é"))]),
        dict(vec![("a", Doc::Arr(vec![dict(vec![("b", Doc::Arr(vec![s("deep")]))])]))]),
        Doc::Arr(vec![i(-1), i(0), i(127), i(128), i(-128), i(-129), i(255), i(256)]),
        // root scalars
        i(5),
        i(-100_000),
        s("z"),
        s("a root string"),
        f64d(2.0),
        Doc::Null,
        Doc::Bool(true),
        Doc::Data(vec![1, 2, 3]),
        dict(vec![("k1", s("same")), ("k2", s("same")), ("k3", s("same")), ("k4", i(4))]),
    ]
}

fn all_entries(bytes: &[u8], d: &Doc) -> Result<(), String> {
    let v = Value::from_bytes(bytes).map_err(|e| format!("from_bytes refused it: {e:?}"))?;
    verify(v, d, Keys::Plain)?;
    let back = read(v);
    if back.canon() != d.canon() {
        return Err(format!("iteration reads {}", back.show()));
    }
    let u = unsafe { Value::from_bytes_unchecked(bytes) };
    verify(u, d, Keys::Plain).map_err(|e| format!("from_bytes_unchecked: {e}"))?;
    let c = Value::clone_from_bytes(bytes).map_err(|e| format!("clone_from_bytes refused it: {e:?}"))?;
    verify(&c, d, Keys::Plain).map_err(|e| format!("clone_from_bytes: {e}"))?;
    let c = unsafe { Value::clone_from_bytes_unchecked(bytes) };
    verify(&c, d, Keys::Plain).map_err(|e| format!("clone_from_bytes_unchecked: {e}"))?;
    let is_a = matches!(d, Doc::Arr(_));
    let is_d = matches!(d, Doc::Dict(_));
    match Array::from_bytes(bytes) {
        Ok(a) if is_a => verify(v, d, Keys::Plain).and_then(|()| {
            if a.len() == v.as_array().map_or(usize::MAX, Array::len) { Ok(()) } else { Err("Array::from_bytes".into()) }
        })?,
        Err(_) if !is_a => {}
        r => return Err(format!("Array::from_bytes gives {}", r.is_ok())),
    }
    match Dict::from_bytes(bytes) {
        Ok(a) if is_d => {
            if a.len() != v.as_dict().map_or(usize::MAX, Dict::len) {
                return Err("Dict::from_bytes".into());
            }
        }
        Err(_) if !is_d => {}
        r => return Err(format!("Dict::from_bytes gives {}", r.is_ok())),
    }
    Ok(())
}

fn styled(cx: &mut Cx, d: &Doc, dev: usize) {
    cx.note(|| format!("document {}", d.show()));
    let mut st = Dev { cx, left: dev, log: vec![] };
    let bytes = encode_styled(d, &mut st, &refcodec::no_sk_enc);
    let log = std::mem::take(&mut st.log);
    cx.note(|| format!("style {log:?}; bytes {}", hex(&bytes)));
    cx.cases(1);
    cx.outcome(hash_bytes(&bytes));
    // the reference decoder agrees with the reference encoder
    match refcodec::decode(&bytes, &refcodec::no_sk, Strict { sorted: true, even: true }) {
        Ref::Ok(g) if g.canon() == d.canon() => {}
        x => panic!("ENGINE: reference codec disagrees with itself: {x:?} for {} {}", d.show(), hex(&bytes)),
    }
    let r = cx.call("decode", || all_entries(&bytes, d));
    cx.want("meaning", r.map_err(|e| format!("{e}; {}", hex(&bytes))));
}

fn styled_shared(cx: &mut Cx, d: &Doc, dev: usize, known: &[&str]) {
    cx.note(|| format!("document {}, shared keys {known:?}", d.show()));
    let enc = |k: &str| known.iter().position(|x| *x == k).map(|p| p as u16);
    let mut st = Dev { cx, left: dev, log: vec![] };
    let bytes = encode_styled(d, &mut st, &enc);
    let log = std::mem::take(&mut st.log);
    cx.note(|| format!("style {log:?}; bytes {}", hex(&bytes)));
    cx.cases(1);
    cx.outcome(hash_bytes(&bytes));
    let r = cx.call("decode", || -> Result<(), String> {
        let mut sk = SharedKeys::new();
        for k in known {
            sk.encode_and_insert(k).ok_or("ENGINE: key not added")?;
        }
        let v = Value::from_bytes(&bytes).map_err(|e| format!("from_bytes refused it: {e:?}"))?;
        verify(v, d, Keys::Explicit(&sk))?;
        let sc = Scope::new(bytes.clone(), Some(Arc::new(sk)));
        let r = sc.root().ok_or("no root".to_string()).and_then(|v| verify(&v, d, Keys::Scoped));
        sc.remove();
        r
    });
    cx.want("meaning with shared keys", r.map_err(|e| format!("{e}; {}", hex(&bytes))));
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let dev = t.sel(3, 5);
    let mut v = vec![
        scen(
            "styles",
            format!("{} documents, every encoding style with at most {dev} departures from the plain one (form of each scalar, inline or referenced, shared sub-values, inline empty collections, chains of up to 2 extra references, wide, gap, extended count, root indirection)", docs().len()),
            3,
            move |cx| {
                let ds = docs();
                let d = cx.pick(&ds).clone();
                styled(cx, &d, dev);
            },
        ),
        scen(
            "styles, shared keys",
            format!("dicts with shared keys 0..3, every style with at most {dev} departures"),
            3,
            move |cx| {
                let ds: Vec<Doc> = vec![
                    dict(vec![("a", i(1)), ("b", s("xy"))]),
                    dict(vec![("key", dict(vec![("key", i(-1)), ("other one", i(2))]))]),
                    dict(vec![("aa", Doc::Arr(vec![i(1), dict(vec![("b", Doc::Null)])])), ("ab", Doc::Null), ("b", f64d(-0.0)), ("not-shared key!", s("q"))]),
                    dict(vec![("zz", s("hello")), ("aa", s("hello")), ("ab", i(300_000))]),
                ];
                let d = cx.pick(&ds).clone();
                styled_shared(cx, &d, dev, &["zz", "b", "key", "aa"]);
            },
        ),
    ];
    // extended counts and lengths for real
    let counts: Vec<usize> = t.sel(vec![0, 1, 2, 126, 127, 128, 2046, 2047, 2048, 2049, 16383, 16384], (0..300).chain(2000..2100).chain(16380..16390).collect());
    let dev2 = t.sel(2, 3);
    v.push(scen(
        "large styles",
        format!("arrays/dicts/strings of {} sizes, styles with at most {dev2} departures on the container", counts.len()),
        2,
        move |cx| {
            let n = *cx.pick(&counts);
            let d = match cx.choose(4) {
                0 => Doc::Arr(vec![Doc::Str(crate::gen::text(n, 1, false)), i(3)]),
                1 => Doc::Arr(vec![Doc::Arr((0..n).map(|_| Doc::Null).collect()), i(3)]),
                2 => Doc::Dict(vec![("d".into(), Doc::Dict((0..n).map(|k| (format!("{k:05}"), Doc::Bool(true))).collect()))]),
                _ => Doc::Arr(vec![Doc::Data(crate::gen::bytes(n, 1)), Doc::Data(crate::gen::bytes(n, 1))]),
            };
            cx.note(|| format!("size {n}"));
            let mut st = Limited { cx, left: dev2, seen: 0 };
            let bytes = encode_styled(&d, &mut st, &refcodec::no_sk_enc);
            cx.cases(1);
            cx.outcome(hash_bytes(&bytes));
            let r = cx.call("decode", || all_entries(&bytes, &d));
            cx.want("meaning", r);
        },
    ));
    v
}

/// Like `Dev`, but per-element choices of huge collections are not enumerated.
struct Limited<'a> {
    cx: &'a mut Cx,
    left: usize,
    seen: usize,
}
impl Style for Limited<'_> {
    fn choice(&mut self, n: usize, what: &'static str) -> usize {
        let elementwise = matches!(what, "form" | "inline/pointer" | "share" | "pointer chain" | "inline empty collection");
        if elementwise {
            self.seen += 1;
        }
        if self.left == 0 || n < 2 || (elementwise && self.seen > 8) {
            return 0;
        }
        let c = self.cx.choose(n);
        self.left -= usize::from(c > 0);
        c
    }
}
