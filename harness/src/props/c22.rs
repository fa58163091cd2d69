//! C22: reading a scalar as another type converts it predictably.

use crate::doc::*;
use crate::engine::*;
use crate::refcodec::{self, Ref, Strict};
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Array, Dict, Encoder, MutableArray, MutableDict, Value, ValueType};

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Every accessor of `v`, which holds `d`.  Conversions of integers that do not fit, and of negative floats to unsigned, only must not panic.
fn accessors(v: &Value, d: &Doc) -> Result<(), String> {
    let (short, ushort, int, uint) = (v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int());
    let (float, double, truth) = (v.to_float(), v.to_double(), v.to_bool());
    let (text, data) = (v.to_str(), v.to_data());
    let bad = |what: &str, got: String, want: String| Err(format!("{} of {}: {got} instead of {want}", what, d.show()));
    // as an integer, if it has one
    let whole: Option<i128> = match d {
        Doc::Bool(b) => Some((*b).into()),
        Doc::Int(x) => Some(*x),
        Doc::F32(b) => {
            let x = f64::from(f32::from_bits(*b)).trunc();
            (x.abs() < 1e30).then_some(x as i128)
        }
        Doc::F64(b) => {
            let x = f64::from_bits(*b).trunc();
            (x.abs() < 1e30).then_some(x as i128)
        }
        _ => Some(0),
    };
    if let Some(x) = whole {
        if let Ok(w) = i16::try_from(x) {
            if short != w {
                return bad("to_short", short.to_string(), w.to_string());
            }
        }
        if let Ok(w) = u16::try_from(x) {
            if ushort != w {
                return bad("to_unsigned_short", ushort.to_string(), w.to_string());
            }
        }
        if let Ok(w) = i64::try_from(x) {
            if int != w {
                return bad("to_int", int.to_string(), w.to_string());
            }
        }
        if let Ok(w) = u64::try_from(x) {
            if uint != w {
                return bad("to_unsigned_int", uint.to_string(), w.to_string());
            }
        }
    }
    // floats that do not fit: the nearest that does, as far as the sign allows it
    if let Doc::F32(_) | Doc::F64(_) = d {
        let x = match d {
            Doc::F32(b) => f64::from(f32::from_bits(*b)),
            Doc::F64(b) => f64::from_bits(*b),
            _ => 0.0,
        };
        if short != x as i16 {
            return bad("to_short", short.to_string(), (x as i16).to_string());
        }
        if int != x as i64 {
            return bad("to_int", int.to_string(), (x as i64).to_string());
        }
        if x > 0.0 || x.is_nan() {
            if ushort != x as u16 {
                return bad("to_unsigned_short", ushort.to_string(), (x as u16).to_string());
            }
            if uint != x as u64 {
                return bad("to_unsigned_int", uint.to_string(), (x as u64).to_string());
            }
        }
    }
    let (wf, wd): (f32, f64) = match d {
        Doc::Bool(b) => (f32::from(u8::from(*b)), f64::from(u8::from(*b))),
        Doc::Int(x) => (*x as f32, *x as f64),
        Doc::F32(b) => (f32::from_bits(*b), f64::from(f32::from_bits(*b))),
        Doc::F64(b) => (f64::from_bits(*b) as f32, f64::from_bits(*b)),
        _ => (0.0, 0.0),
    };
    if !same(double, wd) {
        return bad("to_double", format!("{double:?}"), format!("{wd:?}"));
    }
    if !same(float.into(), wf.into()) {
        return bad("to_float", format!("{float:?}"), format!("{wf:?}"));
    }
    let wt = match d {
        Doc::Bool(b) => Some(*b),
        Doc::Int(x) => Some(*x != 0),
        Doc::F32(_) | Doc::F64(_) => None,
        _ => Some(true),
    };
    if wt.is_some_and(|w| w != truth) {
        return bad("to_bool", truth.to_string(), (!truth).to_string());
    }
    let (ws, wb): (&str, &[u8]) = match d {
        Doc::Str(x) => (x, x.as_bytes()),
        Doc::Data(x) => ("", x),
        _ => ("", &[]),
    };
    if text != ws {
        return bad("to_str", format!("{text:?}"), format!("{ws:?}"));
    }
    if data != wb {
        return bad("to_data", hex(data), hex(wb));
    }
    if v.as_array().is_some() != matches!(d, Doc::Arr(_)) {
        return bad("as_array", v.as_array().is_some().to_string(), "the opposite".into());
    }
    if v.as_dict().is_some() != matches!(d, Doc::Dict(_)) {
        return bad("as_dict", v.as_dict().is_some().to_string(), "the opposite".into());
    }
    let _ = (v.len(), v.is_empty(), v.is_mutable(), v.required_size(), format!("{v:?}"));
    Ok(())
}

/// The accessors of a value wherever it can live.
fn everywhere(d: &Doc) -> Result<(), String> {
    let mut e = Encoder::new();
    e.begin_array(1).map_err(|e| format!("{e:?}"))?;
    emit(&mut e, d)?;
    e.begin_dict().map_err(|e| format!("{e:?}"))?;
    e.write_key("k").map_err(|e| format!("{e:?}"))?;
    emit(&mut e, d)?;
    e.end_dict().map_err(|e| format!("{e:?}"))?;
    e.end_array().map_err(|e| format!("{e:?}"))?;
    let b = e.finish();
    let a = Array::from_bytes(&b).map_err(|e| format!("{e:?}"))?;
    accessors(&a[0], d)?;
    accessors(a[1].as_dict().and_then(|x| x.get("k")).ok_or("no value")?, d)?;
    if d.is_collection() {
        return Ok(());
    }
    let mut m = MutableArray::new();
    m.push_fleece(&a[0]);
    accessors(m.get(0).ok_or("no value")?, d).map_err(|e| format!("in a mutable array: {e}"))?;
    let m: MutableDict = a[1].as_dict().ok_or("not a dict")?.to_mutable();
    accessors(m.get("k").ok_or("no value")?, d).map_err(|e| format!("in a mutable dict: {e}"))
}

/// Numbers around every power of two.
fn lattice() -> Vec<i128> {
    let mut v = vec![];
    for k in 0..65 {
        for d in -3..=3i128 {
            for x in [(1i128 << k) + d, -((1i128 << k) + d), (1i128 << k) + (1i128 << k) / 2 + d, -((1i128 << k) + (1i128 << k) / 2 + d)] {
                if x >= i64::MIN.into() && x <= u64::MAX.into() {
                    v.push(x);
                }
            }
        }
        // halfway between two floats, and next to it
        for bits in [24, 53] {
            if k > bits {
                for m in 0..4i128 {
                    for d in -1..=1 {
                        let x = (1i128 << k) + (2 * m + 1) * (1i128 << (k - bits)) + d;
                        v.extend([x, -x].into_iter().filter(|x| *x >= i64::MIN.into() && *x <= u64::MAX.into()));
                    }
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn doubles() -> Vec<f64> {
    let mut v = vec![0.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE, f64::from_bits(1), f64::MAX, 0.1, 1e300, 1e-300];
    for x in lattice() {
        let f = x as f64;
        let b = f.to_bits();
        v.push(f);
        if f != 0.0 {
            v.extend([f64::from_bits(b - 1), f64::from_bits(b + 1), f64::from_bits(b - 2), f64::from_bits(b + 2)]);
        }
        for q in [0.5, 0.25, 0.75, 0.999_999_999_999, 0.000_000_1] {
            v.extend([f + q, f - q]);
        }
        // around floats of half the size
        let g = f as f32;
        if g.is_finite() && g != 0.0 {
            let (p, n) = (f32::from_bits(g.to_bits() - 1), f32::from_bits(g.to_bits() + 1));
            for y in [p, n] {
                let mid = (f64::from(g) + f64::from(y)) / 2.0;
                v.extend([f64::from(y), mid, f64::from_bits(mid.to_bits() + 1), f64::from_bits(mid.to_bits() - 1)]);
            }
        }
    }
    for k in -1074..1024 {
        let p = 2f64.powi(k);
        v.extend([p, p * 1.5, p * 1.000_000_1]);
    }
    let neg: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.sort_by(f64::total_cmp);
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}

fn others() -> Vec<Doc> {
    let mut v = vec![Doc::Null, Doc::Undef, Doc::Bool(false), Doc::Bool(true), Doc::Arr(vec![]), Doc::Arr(vec![i(7)]), Doc::Arr(vec![i(1), i(2)]), dict(vec![]), dict(vec![("a", i(7))])];
    for n in [0, 1, 2, 3, 13, 14, 15, 16, 127, 128, 129, 300] {
        for c in ["0", "7", "a", "\0", "é"] {
            v.push(s(&c.repeat(n)));
        }
        for c in [0u8, 1, 0x7f, 0xff] {
            v.push(Doc::Data(vec![c; n]));
        }
    }
    for t in ["true", "false", "1.5", "-3", "null", "日本", "\u{10ffff}"] {
        v.push(s(t));
        v.push(Doc::Data(t.as_bytes().to_vec()));
    }
    v
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(scen("all 16 bit numbers", "every integer from -32768 to 65535, as element, dict value and mutable value; every accessor", 1, |cx| {
        let hi = cx.choose(96) as i128;
        for lo in 0..1024 {
            let d = i(-32768 + hi * 1024 + lo);
            let r = cx.call("accessors", || everywhere(&d));
            cx.want("conversion", r);
            cx.cases(1);
        }
    }));
    v.push(scen("number lattice", "+-2^k+d and +-1.5*2^k+d for k <= 64, |d| <= 3, and numbers around the middle between two floats or doubles; every accessor", 1, |cx| {
        let l = lattice();
        let part = cx.choose(16);
        for x in l.iter().skip(part).step_by(16) {
            let r = cx.call("accessors", || everywhere(&i(*x)));
            cx.want("conversion", r);
            cx.cases(1);
        }
    }));
    v.push(scen("doubles", "doubles at, next to, and a fraction away from every number of the lattice, at every power of two, and around the middle between floats; every accessor", 1, |cx| {
        let l = doubles();
        let part = cx.choose(64);
        for x in l.iter().skip(part).step_by(64) {
            let r = cx.call("accessors", || everywhere(&f64d(*x)));
            cx.want("conversion", r);
            cx.cases(1);
        }
    }));
    let step = t.sel(8, 13);
    v.push(scen("floats", format!("every sign, exponent and {step} leading mantissa bits, with the last bits 00, 01, 10 and 11, as floats; every accessor"), 1, move |cx| {
        let top = cx.choose(512) as u32;
        for m in 0..1u32 << step {
            for low in 0..4 {
                let b = top << 23 | m << (23 - step) | low;
                let r = cx.call("accessors", || everywhere(&Doc::F32(b)));
                cx.want("conversion", r);
                cx.cases(1);
            }
        }
    }));
    v.push(scen("other kinds", "null, undefined, booleans, strings and data of every length class (also with digits), arrays, dicts, and the constants; every accessor", 1, |cx| {
        let l = others();
        let d = cx.pick(&l).clone();
        cx.cases(1);
        cx.note(|| d.show());
        let r = cx.call("accessors", || {
            everywhere(&d)?;
            let k: Option<&Value> = match d {
                Doc::Null => Some(Value::null()),
                Doc::Undef => Some(Value::undefined()),
                Doc::Bool(b) => Some(Value::bool(b)),
                _ => None,
            };
            if let Some(k) = k {
                accessors(k, &d).map_err(|e| format!("constant: {e}"))?;
            }
            let mut m = MutableArray::new();
            match &d {
                Doc::Null => m.push(&NullValue),
                Doc::Undef => m.push(&UndefinedValue),
                Doc::Bool(b) => m.push(b),
                Doc::Str(x) => m.push(x.as_str()),
                Doc::Data(x) => m.push(x.as_slice()),
                _ => return Ok(()),
            }
            accessors(m.get(0).ok_or("no value")?, &d).map_err(|e| format!("mutable: {e}"))
        });
        cx.want("conversion", r);
    }));
    v.push(scen("two byte documents", "every document of two bytes that is accepted, with what the reference decoder makes of it; every accessor", 1, |cx| {
        let hi = cx.choose(256) as u8;
        for lo in 0..=255u8 {
            let b = [hi, lo];
            let r = cx.call("accessors", || {
                let Ok(v) = Value::from_bytes(&b) else { return Ok(()) };
                match refcodec::decode(&b, &refcodec::no_sk, Strict::default()) {
                    Ref::Ok(d) => accessors(v, &d).map_err(|e| format!("{}: {e}", hex(&b))),
                    _ => {
                        let _ = (v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int(), v.to_float(), v.to_double(), v.to_bool());
                        let _ = (v.to_str(), v.to_data(), v.as_array(), v.as_dict(), format!("{v:?}"));
                        Ok(())
                    }
                }
            });
            cx.want("conversion", r);
            cx.cases(1);
        }
    }));
    v.push(scen("raw numbers", "integers of every stored size, signed and unsigned, with byte patterns (00, 01, 7f, 80, ff in each place), and floats in every stored form; every accessor", 2, |cx| {
        const PAT: [u8; 5] = [0, 1, 0x7f, 0x80, 0xff];
        let form = cx.choose(16 + 3);
        let mut b: Vec<u8>;
        if form < 16 {
            let n = form % 8 + 1;
            b = vec![0x10 | (if form >= 8 { 8 } else { 0 }) | (n as u8 - 1)];
            // all combinations for up to 4 bytes, else the two ends
            for k in 0..n {
                b.push(if n <= 4 || k < 2 || k >= n - 2 { *cx.pick(&PAT) } else { 0 });
            }
        } else {
            let (tag, n) = [(0x20, 4), (0x24, 4), (0x28, 8)][form - 16];
            b = vec![tag, 0];
            for k in 0..n {
                b.push(if k < 2 || k >= n - 2 { *cx.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x3f, 0x47, 0xc7, 0xf0]) } else { 0 });
            }
        }
        if b.len() % 2 == 1 {
            b.push(0);
        }
        let back = (b.len() / 2) as u8;
        b.extend([0x60, 1, 0x80, back + 1, 0x80, 2]);
        cx.cases(1);
        cx.note(|| hex(&b));
        let r = cx.call("accessors", || {
            let a = Array::from_bytes(&b).map_err(|e| format!("{} refused: {e:?}", hex(&b)))?;
            let Ref::Ok(Doc::Arr(d)) = refcodec::decode(&b, &refcodec::no_sk, Strict::default()) else {
                panic!("ENGINE: the reference decoder refuses {}", hex(&b));
            };
            accessors(&a[0], &d[0]).map_err(|e| format!("{}: {e}", hex(&b)))
        });
        cx.want("conversion", r);
    }));
    let _ = (Dict::empty(), ValueType::Null);
    v
}
