//! C20: serialized data has the documented layout.

use super::c05::Dev;
use super::c19;
use crate::doc::*;
use crate::engine::*;
use crate::refcodec::{encode_styled, no_sk_enc, Plain};
use crate::shape::{self, Ser, Ty, Val};
use fleece::{Encoder, SharedKeys, Value};

type R<T> = Result<T, String>;

fn table(k: usize) -> SharedKeys {
    let mut sk = SharedKeys::new();
    if k == 1 {
        // knows some of the names under other numbers
        for n in ["unused", "x", "é", "ab"] {
            sk.encode_and_insert(n);
        }
    }
    sk
}

fn back(t: &Ty, v: &Val, b: &[u8], how: &str) -> R<()> {
    let got = shape::from_bytes(t, b).map_err(|e| format!("{how}: from_bytes: {e}"))?;
    if got != *v {
        return Err(format!("{how}: reads as {got:?}"));
    }
    Ok(())
}

fn layout(t: &Ty, v: &Val) -> R<u64> {
    let d = shape::layout(t, v);
    let b = fleece::to_bytes(Ser(t, v)).map_err(|e| format!("to_bytes: {e}"))?;
    let value = Value::from_bytes(&b).map_err(|e| format!("serialized data is refused: {e:?}"))?;
    verify(value, &d, Keys::Plain)?;
    let sc = fleece::to_bytes_with_shared_keys(Ser(t, v)).map_err(|e| format!("to_bytes_with_shared_keys: {e}"))?;
    let r = (|| {
        let root = sc.root().ok_or("the scope has no root")?;
        verify(&root, &d, Keys::Scoped)?;
        let sk = sc.shared_keys().ok_or("the scope has no shared keys")?;
        verify(&root, &d, Keys::Explicit(sk))
    })();
    sc.remove();
    r.map_err(|e| format!("with shared keys: {e}"))?;
    if !shape::distinguishable(t, v) {
        return Ok(2);
    }
    // the same layout written by hand
    back(t, v, &encode(&d)?, "written with the encoder")?;
    for k in 0..2 {
        let mut e = Encoder::new();
        e.set_shared_keys(table(k));
        emit(&mut e, &d)?;
        let sc = e.finish_scoped();
        let data = sc.data().ok_or("no data")?;
        let r = back(t, v, &data, "written with the encoder and shared keys");
        sc.remove();
        r?;
    }
    back(t, v, &encode_styled(&d, &mut Plain, &no_sk_enc), "written by another encoder")?;
    Ok(6)
}

fn go(cx: &mut Cx, t: &Ty, v: &Val) {
    if !c19::top_ok(t, v) {
        cx.prune();
    }
    cx.note(|| format!("{} = {v:?}", shape::show(t)));
    let r = cx.call("layout", || layout(t, v));
    let n = cx.want("layout", r);
    cx.cases(n);
    cx.ops(2 * n);
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let len = t.sel(2usize, 3);
    v.push(scen(
        "leaves",
        format!("{} leaf types with all their boundary values in all chains of up to {len} of {} wrappers: serialized and read with the value API, and written by hand and deserialized, both without and with shared keys", shape::leaf_types().len(), shape::wrappers().len()),
        2,
        move |cx| {
            let (t, leaf, v) = c19::chain(cx, len);
            let v = shape::fill(cx, &t, &leaf, &v);
            go(cx, &t, &v);
        },
    ));
    let b = t.sel(4usize, 5);
    v.push(scen(
        "shapes",
        format!("all types of up to {b} nodes over i32, string, unit and unit struct, all their values (up to 2 entries, {} of a leaf), the same way", t.sel(1, 2)),
        3,
        move |cx| {
            let (t, v) = c19::shapes(cx, b, t.sel(1, 2));
            go(cx, &t, &v);
        },
    ));
    let top = t.sel(800usize, 6000);
    v.push(scen("sizes", format!("sequences and maps of every length 0 to {top}, nesting to 100, the same way"), 1, move |cx| {
        let (t, v) = c19::big(cx, top);
        go(cx, &t, &v);
    }));
    let lens = c19::lengths(t);
    v.push(scen("lengths", format!("strings, data and keys of {} lengths in 11 places, the same way", lens.len()), 1, move |cx| {
        let (t, v) = c19::long(cx, &lens);
        if !c19::top_ok(&t, &v) {
            cx.prune();
        }
        let r = cx.call("layout", || layout(&t, &v).map_err(|e| e.chars().take(300).collect::<String>()));
        let n = cx.want("layout", r);
        cx.cases(n);
        cx.ops(2 * n);
    }));
    v.push(scen("characters", "each of 614 characters and each byte value in every place of a text or data, the same way", 1, |cx| {
        let (t, v) = c19::special(cx);
        if !c19::top_ok(&t, &v) {
            cx.prune();
        }
        let r = cx.call("layout", || layout(&t, &v));
        let n = cx.want("layout", r);
        cx.cases(n);
        cx.ops(2 * n);
    }));
    let dev = t.sel(1usize, 2);
    v.push(scen(
        "styles",
        format!("all types of up to 3 nodes: the layout written by another encoder with every choice of styles (pointer and value widths, number sizes, placement) up to {dev} away from the plain one, deserialized"),
        3,
        move |cx| {
            let (t, v) = c19::shapes(cx, 3, 1);
            if !c19::top_ok(&t, &v) || !shape::distinguishable(&t, &v) {
                cx.prune();
            }
            let d = shape::layout(&t, &v);
            let mut style = Dev { cx, left: dev, log: vec![] };
            let b = encode_styled(&d, &mut style, &no_sk_enc);
            let log = style.log.join(", ");
            cx.note(|| format!("{} = {v:?} {log}", shape::show(&t)));
            let r = cx.call("from_bytes", || back(&t, &v, &b, "written in another style"));
            cx.want("layout", r);
            cx.cases(1);
        },
    ));
    v
}
