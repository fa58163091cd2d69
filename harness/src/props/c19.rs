//! C19: serde round-trips every supported value.

use crate::engine::*;
use crate::shape::{self, Ser, Ty, Val};
use std::rc::Rc;

type R<T> = Result<T, String>;

/// Whether a value is written as a collection, which the top level has to be.
pub fn top_ok(t: &Ty, v: &Val) -> bool {
    shape::layout(t, v).is_collection()
}

/// There and back, without and with shared keys.
pub fn round(t: &Ty, v: &Val) -> R<u64> {
    let back = |how: &str, b: &[u8]| -> R<()> {
        let got = shape::from_bytes(t, b).map_err(|e| format!("{how}: from_bytes: {e}"))?;
        if let Some(h) = shape::hint() {
            return Err(format!("{how}: {h}"));
        }
        if got != *v {
            return Err(format!("{how}: {got:?} comes back instead of {v:?}"));
        }
        Ok(())
    };
    let b = fleece::to_bytes(Ser(t, v)).map_err(|e| format!("to_bytes: {e}"))?;
    back("plain", &b)?;
    let sc = fleece::to_bytes_with_shared_keys(Ser(t, v)).map_err(|e| format!("to_bytes_with_shared_keys: {e}"))?;
    let data = sc.data().ok_or("the scope has no data")?;
    let r = back("with shared keys", &data);
    sc.remove();
    r?;
    Ok(2)
}

fn go(cx: &mut Cx, t: &Ty, v: &Val) {
    if !top_ok(t, v) || !shape::distinguishable(t, v) {
        cx.prune();
    }
    cx.note(|| format!("{} = {v:?}", shape::show(t)));
    let r = cx.call("round trip", || round(t, v));
    let n = cx.want("round trip", r);
    cx.cases(n);
    cx.ops(2 * n);
}

/// A leaf type in a chain of wrappers.
pub fn chain(cx: &mut Cx, len: usize) -> (Ty, Ty, Val) {
    let leaves = shape::leaf_types();
    let w = shape::wrappers();
    let mut fs = vec![w[cx.choose(w.len())]];
    for _ in 1..len {
        let k = cx.choose(w.len() + 1);
        if k == w.len() {
            break;
        }
        fs.push(w[k]);
    }
    let leaf = cx.pick(&leaves).clone();
    let v = cx.pick(&shape::leaf_values(&leaf)).clone();
    let mut t = leaf.clone();
    for f in fs.iter().rev() {
        t = f(Rc::new(t));
    }
    (t, leaf, v)
}

pub fn some_leaves() -> Vec<Ty> {
    vec![Ty::I(32), Ty::Str, Ty::UnitStruct, Ty::Unit]
}

/// All types up to a size and all their values.
pub fn shapes(cx: &mut Cx, budget: usize, leaf: usize) -> (Rc<Ty>, Val) {
    let mut b = budget;
    let t = shape::ty(cx, &some_leaves(), &mut b, true);
    let v = shape::val(cx, &t, 2, leaf);
    (t, v)
}

pub fn big(cx: &mut Cx, top: usize) -> (Ty, Val) {
    let n = cx.choose(top + 1);
    let int = |k: usize| Val::Int(k as i128);
    match cx.choose(5) {
        0 => (Ty::Seq(Rc::new(Ty::U(16))), Val::Seq((0..n).map(int).collect())),
        1 => (Ty::Seq(Rc::new(Ty::Str)), Val::Seq((0..n).map(|k| Val::Str(format!("text {}", k % 7))).collect())),
        2 => (Ty::Map(Rc::new(Ty::Str), Rc::new(Ty::U(32))), Val::Map((0..n).map(|k| (Val::Str(format!("key-{}", k * 7919 % 65536)), int(k))).collect())),
        3 => (Ty::Seq(Rc::new(Ty::Enum(Rc::new(Ty::Str)))), Val::Seq((0..n).map(|k| if k % 2 == 0 { Val::Var(0, vec![]) } else { Val::Var(1, vec![Val::Str("x".repeat(k % 40))]) }).collect())),
        _ => {
            // one deep value
            let mut t = Ty::Struct(vec![Rc::new(Ty::U(8))]);
            let mut v = Val::Seq(vec![Val::Int(1)]);
            for k in 0..n.min(100) {
                if k % 2 == 0 {
                    t = Ty::Seq(Rc::new(t));
                    v = Val::Seq(vec![v]);
                } else {
                    t = Ty::Struct(vec![Rc::new(t)]);
                    v = Val::Seq(vec![v]);
                }
            }
            (t, v)
        }
    }
}

/// Lengths of texts, data and keys.
pub fn lengths(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=t.sel(400, 2200)).collect();
    for k in 9..=t.sel(16, 21) {
        v.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// A long text, data or key somewhere in a value.
pub fn long(cx: &mut Cx, lens: &[usize]) -> (Ty, Val) {
    let n = *cx.pick(lens);
    let str = |n: usize, seed: usize| Val::Str(crate::gen::text(n, seed, seed % 2 == 1));
    let rc = Rc::new;
    match cx.choose(12) {
        0 => (Ty::Seq(rc(Ty::Str)), Val::Seq(vec![str(n, 2), str(3, 1), str(n, 4)])),
        1 => (Ty::Struct(vec![rc(Ty::Bytes), rc(Ty::Bytes)]), Val::Seq(vec![Val::Bytes(crate::gen::bytes(n, 5)), Val::Bytes(crate::gen::bytes(n / 2, 1))])),
        2 => (Ty::Map(rc(Ty::Str), rc(Ty::U(8))), Val::Map(vec![(str(n, 6), Val::Int(1)), (Val::Str("another key".into()), Val::Int(2))])),
        3 => (Ty::Enum(rc(Ty::Str)), Val::Var(1, vec![str(n, 3)])),
        4 => {
            // keys that differ only at the end, or only at the beginning
            let p = crate::gen::text(n, 2, false);
            (Ty::Map(rc(Ty::Str), rc(Ty::U(8))), Val::Map([format!("{p}b"), format!("{p}a"), p.clone(), format!("c{p}"), format!("_{p}")].into_iter().enumerate().map(|(k, s)| (Val::Str(s), Val::Int(k as i128))).collect()))
        }
        5 => (Ty::Struct(vec![rc(Ty::Opt(rc(Ty::Str))), rc(Ty::Newtype(rc(Ty::Str)))]), Val::Seq(vec![Val::Some(Box::new(str(n, 3))), Val::New(Box::new(str(n, 8)))])),
        6 => (Ty::Map(rc(Ty::Str), rc(Ty::Seq(rc(Ty::Bytes)))), Val::Map(vec![(Val::Str("k".into()), Val::Seq(vec![Val::Bytes(crate::gen::bytes(n, 9)); 2]))])),
        k @ 7..=10 => {
            // a collection with keys beside or around the long text, within a variant
            let inner = rc(Ty::Struct(vec![rc(Ty::Str), rc(Ty::U(8)), rc(Ty::Map(rc(Ty::Str), rc(Ty::U(8))))]));
            let value = Val::Seq(vec![str(n, 3), Val::Int(9), Val::Map(vec![(Val::Str("a key".into()), Val::Int(1)), (Val::Str("key".into()), Val::Int(2))])]);
            let vars = shape::variants(&inner);
            let payload = |v: &shape::Var| match v {
                shape::Var::Unit => vec![],
                shape::Var::New(_) => vec![value.clone()],
                shape::Var::Tuple(ts) => ts.iter().map(|t| if **t == *inner { value.clone() } else { Val::Int(1) }).collect(),
                shape::Var::Struct(ts) => ts.iter().map(|t| if **t == *inner { value.clone() } else { Val::Int(1) }).collect(),
            };
            let which = [1, 2, 3, 7][k - 7];
            (Ty::Seq(rc(Ty::Enum(inner.clone()))), Val::Seq(vec![Val::Var(which, payload(&vars[which])), Val::Var(0, vec![])]))
        }
        _ => (Ty::Tuple(vec![rc(Ty::U(8)), rc(Ty::Str), rc(Ty::U(8))]), Val::Seq(vec![Val::Int(1), str(n, 7), Val::Int(2)])),
    }
}

/// A special character or byte somewhere in a value.
pub fn special(cx: &mut Cx) -> (Ty, Val) {
    let rc = Rc::new;
    let chars = crate::gen::characters();
    let k = cx.choose(chars.len() + 256);
    let place = cx.choose(5);
    let around = *cx.pick(&["xy", "twelve chars"]);
    if k >= chars.len() {
        let b = crate::gen::with_character('#', place, around).bytes().map(|b| if b == b'#' { (k - chars.len()) as u8 } else { b }).collect();
        return (Ty::Seq(rc(Ty::Bytes)), Val::Seq(vec![Val::Bytes(b)]));
    }
    let text = || Val::Str(crate::gen::with_character(chars[k], place, around));
    match cx.choose(5) {
        0 => (Ty::Seq(rc(Ty::Str)), Val::Seq(vec![text(), Val::Str("x".into()), text()])),
        1 => (Ty::Map(rc(Ty::Str), rc(Ty::Str)), Val::Map(vec![(text(), text()), (Val::Str("other key".into()), text())])),
        2 => (Ty::Struct(vec![rc(Ty::Opt(rc(Ty::Str))), rc(Ty::Newtype(rc(Ty::Str)))]), Val::Seq(vec![Val::Some(Box::new(text())), Val::New(Box::new(text()))])),
        3 => (Ty::Enum(rc(Ty::Str)), Val::Var(1, vec![text()])),
        _ => (Ty::Map(rc(Ty::Char), rc(Ty::Seq(rc(Ty::Char)))), Val::Map(vec![(Val::Char(chars[k]), Val::Seq(vec![Val::Char(chars[k]), Val::Char('a'), Val::Char(chars[k])]))])),
    }
}

/// Calls of which some fail: nothing of them may be left for the next.
fn mishap(k: usize) -> R<()> {
    use serde::ser::{Error, Serialize, SerializeMap, SerializeSeq, Serializer};
    struct Fails(usize);
    impl Serialize for Fails {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            match self.0 {
                0 => Err(S::Error::custom("no")),
                1 => {
                    let mut q = s.serialize_seq(None)?;
                    q.serialize_element("before")?;
                    q.serialize_element(&Fails(0))?;
                    q.end()
                }
                2 => {
                    let mut q = s.serialize_map(None)?;
                    q.serialize_entry("before", &1)?;
                    q.serialize_entry("key", &Fails(1))?;
                    q.end()
                }
                3 => {
                    let mut q = s.serialize_map(None)?;
                    q.serialize_entry(&5u8, &1)?;
                    q.end()
                }
                4 => s.serialize_i128(1),
                5 => s.serialize_u8(1),
                6 => {
                    let mut q = s.serialize_map(None)?;
                    q.serialize_key("key without a value")?;
                    Err(S::Error::custom("no"))
                }
                _ => panic!("serialization panics"),
            }
        }
    }
    let some = Ty::Map(Rc::new(Ty::Str), Rc::new(Ty::U(8)));
    match k {
        0..=7 => {
            let r = guard(|| fleece::to_bytes(Fails(k)).map(|_| ()));
            if matches!(r, Ok(Ok(()))) {
                return Err(format!("number {k} is serialized"));
            }
        }
        8..=15 => {
            let r = guard(|| fleece::to_bytes_with_shared_keys(Fails(k - 8)).map(|s| s.remove()));
            if matches!(r, Ok(Ok(()))) {
                return Err(format!("number {k} is serialized"));
            }
        }
        16 => drop(shape::from_bytes(&some, &[0x60, 1, 0x00, 5, 0x80, 2])),
        17 => drop(shape::from_bytes(&some, &[0xff; 6])),
        18 => {
            let sc = fleece::to_bytes_with_shared_keys(Ser(&some, &Val::Map(vec![(Val::Str("other".into()), Val::Int(9))]))).map_err(|e| format!("{e}"))?;
            let _ = shape::from_bytes(&Ty::Seq(Rc::new(Ty::Str)), &sc.data().ok_or("no data")?);
            drop(sc);
        }
        _ => drop(fleece::to_bytes(Ser(&some, &Val::Map(vec![(Val::Str("other".into()), Val::Int(9))]))).map_err(|e| format!("{e}"))?),
    }
    Ok(())
}
const MISHAPS: usize = 20;

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let len = t.sel(2usize, 3);
    v.push(scen(
        "leaves",
        format!("{} leaf types with all their boundary values in all chains of up to {len} of {} wrappers (newtype, option, sequence, tuples, maps, structs, the variants of an enum)", shape::leaf_types().len(), shape::wrappers().len()),
        2,
        move |cx| {
            let (t, leaf, v) = chain(cx, len);
            let v = shape::fill(cx, &t, &leaf, &v);
            go(cx, &t, &v);
        },
    ));
    let b = t.sel(4usize, 5);
    v.push(scen(
        "shapes",
        format!("all types of up to {b} nodes over i32, string, unit and unit struct, all their values (up to 2 entries, 2 values of a leaf)"),
        3,
        move |cx| {
            let (t, v) = shapes(cx, b, 2);
            go(cx, &t, &v);
        },
    ));
    let top = t.sel(1500usize, 9000);
    v.push(scen(
        "sizes",
        format!("sequences and maps of every length 0 to {top}, nesting to 100"),
        1,
        move |cx| {
            let (t, v) = big(cx, top);
            go(cx, &t, &v);
        },
    ));
    let lens = lengths(t);
    v.push(scen("lengths", format!("strings, data and keys of {} lengths, also keys with such a common beginning or end, in 12 places", lens.len()), 1, move |cx| {
        let (t, v) = long(cx, &lens);
        if !top_ok(&t, &v) || !shape::distinguishable(&t, &v) {
            cx.prune();
        }
        let r = cx.call("round trip", || round(&t, &v).map_err(|e| e.chars().take(300).collect::<String>()));
        let n = cx.want("round trip", r);
        cx.cases(n);
        cx.ops(2 * n);
    }));
    v.push(scen("characters", "each of 614 characters and each byte value: alone, first, last, in the middle, repeated; in texts, chars, names of keys, data, options, variants", 1, |cx| {
        let (t, v) = special(cx);
        if !top_ok(&t, &v) || !shape::distinguishable(&t, &v) {
            cx.prune();
        }
        let r = cx.call("round trip", || round(&t, &v));
        let n = cx.want("round trip", r);
        cx.cases(n);
        cx.ops(2 * n);
    }));
    let most = t.sel(2usize, 3);
    v.push(scen("after other calls", format!("all sequences of up to {most} of {MISHAPS} calls that fail, panic, or deal with other values; then 4 values go there and back"), 2, move |cx| {
        let mut did = vec![];
        for _ in 0..most {
            let k = cx.choose(MISHAPS + 1);
            if k == MISHAPS {
                break;
            }
            did.push(k);
        }
        let rc = Rc::new;
        let m = (Ty::Map(rc(Ty::Str), rc(Ty::U(8))), Val::Map(vec![(Val::Str("zz".into()), Val::Int(1)), (Val::Str("before".into()), Val::Int(2))]));
        let values = [
            (Ty::Seq(rc(Ty::U(8))), Val::Seq(vec![])),
            m.clone(),
            (Ty::Enum(rc(Ty::Str)), Val::Var(0, vec![])),
            (Ty::Struct(vec![rc(m.0.clone())]), Val::Seq(vec![m.1.clone()])),
        ];
        cx.cases(values.len() as u64);
        let r = cx.call("round trip", || -> R<()> {
            for k in &did {
                mishap(*k)?;
            }
            for (t, v) in &values {
                round(t, v).map_err(|e| format!("after {did:?}: {e}"))?;
            }
            Ok(())
        });
        cx.want("round trip", r);
    }));
    v.extend(super::derived::scenarios(t));
    v
}
