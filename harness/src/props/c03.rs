//! C03: size and distance never change what is read back.

use crate::doc::*;
use crate::engine::*;
use crate::gen::{bytes, text, LONG_KEY};
use fleece::{Encoder, SharedKeys, Value};

type Shape = (&'static str, fn(usize) -> Doc);

fn data(n: usize) -> Doc {
    Doc::Data(bytes(n, 1))
}

/// Documents in which `n` bytes (or so) separate references from their targets.
pub const FILL: [Shape; 12] = [
    ("array: string, filler, string", |n| Doc::Arr(vec![s("first"), data(n), s("last one")])),
    ("dict: pointer key and value before the filler", |n| {
        dict(vec![(LONG_KEY, s("value")), ("zz", data(n))])
    }),
    ("dict: inline key, far value, near value", |n| {
        dict(vec![("a", f64d(2.5)), ("m", data(n)), ("z", s("tail")), ("b", i(1))])
    }),
    ("array: 60 strings, then filler", |n| {
        let mut v: Vec<Doc> = (0..60).map(|k| Doc::Str(format!("s{k}"))).collect();
        v.push(data(n));
        Doc::Arr(v)
    }),
    ("array: shorts, string, filler, 40 strings", |n| {
        let mut v: Vec<Doc> = (0..30).map(i).collect();
        v.push(s("far"));
        v.push(data(n));
        v.extend((0..40).map(|k| Doc::Str(format!("t{k}"))));
        Doc::Arr(v)
    }),
    ("dict: 50 pointer keys, filler", |n| {
        let mut v: Vec<(String, Doc)> = (0..50).map(|k| (format!("key{:02}", (k * 7) % 50), i(k))).collect();
        v.push(("key_z".into(), data(n)));
        Doc::Dict(v)
    }),
    ("nested array, filler, outer string", |n| {
        Doc::Arr(vec![Doc::Arr(vec![s("in"), i(5)]), data(n), Doc::Dict(vec![]), s("x")])
    }),
    ("filler inside a nested dict", |n| {
        dict(vec![
            ("one", Doc::Arr(vec![s("early"), f32d(0.5)])),
            ("two", dict(vec![("k", s("vv")), ("fill", data(n)), ("y", s("q"))])),
            ("tri", s("late")),
        ])
    }),
    ("empty collections before the filler", |n| {
        Doc::Arr(vec![Doc::Arr(vec![]), Doc::Dict(vec![]), data(n)])
    }),
    ("one-byte and empty strings beside the filler", |n| {
        dict(vec![("a", s("c")), ("b", s("")), ("c", Doc::Data(vec![7])), ("dd", data(n)), ("e", Doc::Data(vec![]))])
    }),
    ("one filler only", |n| Doc::Arr(vec![data(n)])),
    ("filler first, then dict", |n| {
        Doc::Arr(vec![data(n), dict(vec![("key one", s("a b c")), ("k2", i(70000))]), i(-9)])
    }),
];

/// Documents of `n` elements.
pub const COUNT: [Shape; 9] = [
    ("n short strings", |n| Doc::Arr((0..n).map(|k| Doc::Str(format!("{:02}", k % 100))).collect())),
    ("n shorts", |n| Doc::Arr((0..n).map(|k| i((k % 4096) as i128 - 2048)).collect())),
    ("string, then n shorts", |n| {
        let mut v = vec![s("far string")];
        v.extend((0..n).map(|k| i((k % 100) as i128)));
        Doc::Arr(v)
    }),
    ("dict of n pointer keys", |n| Doc::Dict((0..n).map(|k| (format!("k{k:04}"), i((k % 2000) as i128))).collect())),
    ("dict of n pointer keys and values", |n| {
        Doc::Dict((0..n).rev().map(|k| (format!("key {k:05}"), i(100_000 + k as i128))).collect())
    }),
    ("string, then an array of n shorts, then a string", |n| {
        Doc::Arr(vec![s("far"), Doc::Arr((0..n).map(|k| i((k % 100) as i128)).collect()), s("near")])
    }),
    ("n nested one-element arrays", |n| Doc::Arr((0..n).map(|k| Doc::Arr(vec![i((k % 9) as i128)])).collect())),
    ("dict holding a far string and an array of n nulls", |n| {
        dict(vec![("aa", s("far")), ("bb", Doc::Arr(vec![Doc::Null; n])), ("cc", s("near"))])
    }),
    ("n doubles", |n| Doc::Arr((0..n).map(|k| f64d(k as f64 + 0.25)).collect())),
];

fn check(cx: &mut Cx, d: &Doc) {
    cx.note(|| format!("document {}", d.show()));
    cx.cases(1);
    let r = cx.call("encode/decode", || -> Result<u64, String> {
        let b = encode(d)?;
        let v = Value::from_bytes(&b).map_err(|e| format!("from_bytes refused the document: {e:?}"))?;
        verify(v, d, Keys::Plain)?;
        Ok(b.len() as u64)
    });
    let n = cx.want("content changed", r);
    cx.outcome(n);
}

fn check_shared(cx: &mut Cx, d: &Doc) {
    cx.note(|| format!("with shared keys: document {}", d.show()));
    cx.cases(1);
    let r = cx.call("encode/decode with shared keys", || -> Result<u64, String> {
        let mut e = Encoder::new();
        e.set_shared_keys(SharedKeys::new());
        emit(&mut e, d)?;
        let sc = e.finish_scoped();
        let v = sc.root().ok_or("no root")?;
        let r = verify(&v, d, Keys::Scoped);
        let n = sc.data().map_or(0, |x| x.len());
        sc.remove();
        r.map(|()| n as u64)
    });
    let n = cx.want("content changed", r);
    cx.outcome(n);
}

fn thousands(n: usize, kind: usize) -> Result<(), String> {
    let mut e = Encoder::new();
    let bad = |x| format!("refused: {x:?}");
    let value = |k: usize| (k.wrapping_mul(0x9e37_79b1) >> 7) % if kind == 0 { 2048 } else { 40_000 };
    let key = |k: usize| format!("{:07x}", k.wrapping_mul(0x9e_3779) & 0xfff_ffff);
    match kind {
        2 => e.begin_dict().map_err(bad)?,
        _ => e.begin_array(n).map_err(bad)?,
    }
    for k in 0..n {
        if kind == 2 {
            e.write_key(&key(k)).map_err(bad)?;
        }
        // a number of more than 12 bits now and then
        e.write_value(if kind > 0 && k % 64 != 0 { k % 100 } else { value(k) }).map_err(bad)?;
    }
    let want = |k: usize| if kind > 0 && k % 64 != 0 { k % 100 } else { value(k) } as i64;
    let b = e.finish();
    let v = Value::from_bytes(&b).map_err(|x| format!("from_bytes: {x:?}"))?;
    if kind == 2 {
        let d = v.as_dict().ok_or("no dict")?;
        if d.len() != n {
            return Err(format!("a dict of {n} entries has {}", d.len()));
        }
        for k in 0..n {
            let got = d.get(&*key(k)).map(Value::to_int);
            if got != Some(want(k)) {
                return Err(format!("the dict of {n} entries gives {got:?} for {:?}, expected {}", key(k), want(k)));
            }
        }
        let c = d.iter().count();
        return if c == n { Ok(()) } else { Err(format!("iterating a dict of {n} entries gives {c}")) };
    }
    let a = v.as_array().ok_or("no array")?;
    if a.len() != n {
        return Err(format!("an array of {n} elements has {}", a.len()));
    }
    let mut it = a.iter();
    for k in 0..n {
        let x = [a.get(k), it.next()].map(|x| x.map(Value::to_int));
        if x != [Some(want(k)); 2] {
            return Err(format!("the array of {n} elements has {x:?} at {k}, expected {}", want(k)));
        }
    }
    if it.next().is_some() || a.get(n).is_some() {
        return Err(format!("the array of {n} elements does not end"));
    }
    Ok(())
}

/// The largest distance which the encoder writes.
const FAR: usize = 0x3fff_ffff;

const HUGE: [&str; 6] = [
    "array: string, filler, string",
    "dict: far key and value, filler",
    "array: array, filler",
    "dict: shared keys, far value, filler",
    "array: filler, string",
    "dict in an array: filler, then a key and a value",
];

/// A document whose filler has the bytes `fill`: written and read back, or refused.  True when it was written.
fn huge(shape: usize, fill: &[u8]) -> Result<bool, String> {
    let mut e = Encoder::new();
    let mut refused = None;
    {
        let mut ok = |r: Result<(), fleece::encoder::EncodeError>| {
            if let Err(x) = r {
                refused = Some(format!("{x:?}"));
            }
            refused.is_none()
        };
        let _ = match shape {
            0 => ok(e.begin_array(3)) && ok(e.write_value("far one")) && ok(e.write_value(fill)) && ok(e.write_value("near one")) && ok(e.end_array()),
            1 => ok(e.begin_dict()) && ok(e.write_key("key one")) && ok(e.write_value("far one")) && ok(e.write_key("zz")) && ok(e.write_value(fill)) && ok(e.end_dict()),
            2 => ok(e.begin_array(2)) && ok(e.begin_array(2)) && ok(e.write_value("far one")) && ok(e.write_value(70_000)) && ok(e.end_array()) && ok(e.write_value(fill)) && ok(e.end_array()),
            3 => {
                e.set_shared_keys(SharedKeys::new());
                ok(e.begin_dict()) && ok(e.write_key("key")) && ok(e.write_value("far one")) && ok(e.write_key("zz")) && ok(e.write_value(fill)) && ok(e.end_dict())
            }
            4 => ok(e.begin_array(2)) && ok(e.write_value(fill)) && ok(e.write_value("near one")) && ok(e.end_array()),
            _ => {
                ok(e.begin_array(1)) && ok(e.begin_dict()) && ok(e.write_key("aa")) && ok(e.write_value(fill)) && ok(e.write_key("key one")) && ok(e.write_value(1.5f64)) && ok(e.end_dict()) && ok(e.end_array())
            }
        };
    }
    if let Some(x) = refused {
        return if fill.len() < FAR - 100 { Err(format!("refused although the format can hold it: {x}")) } else { Ok(false) };
    }
    let (b, sk) = if shape == 3 {
        let sc = e.finish_scoped();
        let b = sc.data().ok_or("the scope has no data")?;
        sc.remove();
        (b, sc.shared_keys().cloned())
    } else {
        (e.finish().into(), None)
    };
    let v = Value::from_bytes(&b).map_err(|e| format!("it was written without an error, but from_bytes refuses it: {e:?}"))?;
    let wrong = |what: &str, got: &Value| Err(format!("it was written without an error, but {what} is read as {:?} of {} bytes", got.value_type(), got.len()));
    let text = |v: Option<&Value>, want: &str| -> Result<(), String> {
        match v {
            None => Err(format!("it was written without an error, but {want:?} is missing")),
            Some(v) if v.to_str() != want => wrong(&format!("{want:?}"), v),
            Some(_) => Ok(()),
        }
    };
    let filler = |v: Option<&Value>| match v {
        None => Err("it was written without an error, but the filler is missing".to_string()),
        Some(v) if v.to_data() != fill => wrong("the filler", v),
        Some(_) => Ok(()),
    };
    let arr = |v: &Value, n: usize| match v.as_array() {
        Some(a) if a.len() == n => Ok(()),
        _ => wrong("the array", v),
    };
    let a = v.as_array();
    let d = v.as_dict();
    let missing = "it was written without an error, but the root is of another kind";
    match shape {
        0 => {
            arr(v, 3)?;
            let a = a.ok_or(missing)?;
            text(a.get(0), "far one")?;
            filler(a.get(1))?;
            text(a.get(2), "near one")?;
        }
        1 => {
            let d = d.ok_or(missing)?;
            text(d.get("key one"), "far one")?;
            filler(d.get("zz"))?;
            if d.iter().map(|(k, _)| k).ne(["key one", "zz"]) {
                return Err("it was written without an error, but has other keys".into());
            }
        }
        2 => {
            arr(v, 2)?;
            let a = a.ok_or(missing)?;
            let inner = a.get(0).ok_or(missing)?;
            arr(inner, 2)?;
            let x = inner.as_array().ok_or(missing)?;
            text(x.get(0), "far one")?;
            if x.get(1).map(|x| x.to_int()) != Some(70_000) {
                return Err("it was written without an error, but the number is another one".into());
            }
            filler(a.get(1))?;
        }
        3 => {
            let d = d.ok_or(missing)?;
            let sk = sk.ok_or("no shared keys")?;
            text(d.get_with_shared_keys("key", &sk), "far one")?;
            filler(d.get_with_shared_keys("zz", &sk))?;
        }
        4 => {
            arr(v, 2)?;
            let a = a.ok_or(missing)?;
            filler(a.get(0))?;
            text(a.get(1), "near one")?;
        }
        _ => {
            arr(v, 1)?;
            let d = a.and_then(|a| a.get(0)).and_then(|v| v.as_dict()).ok_or(missing)?;
            filler(d.get("aa"))?;
            if d.get("key one").map(|x| x.to_double()) != Some(1.5) {
                return Err("it was written without an error, but the number is another one".into());
            }
        }
    }
    Ok(true)
}

pub fn windows(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    if t.thorough() {
        v.extend(0..34_000);
        v.extend(65_000..66_500);
        v.extend((66_500..140_000).step_by(997));
    } else {
        v.extend((0..34_000).step_by(61));
        v.extend(0..80);
        v.extend(16_000..16_480);
        v.extend(32_400..32_860);
        v.extend(65_400..65_560);
    }
    v.extend([1 << 20, (1 << 21) + 1]);
    v.sort_unstable();
    v.dedup();
    v
}

fn counts(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    if t.thorough() {
        v.extend(0..8_800);
        v.extend(16_200..16_600);
        v.extend(32_600..32_900);
        v.extend(65_500..65_560);
    } else {
        v.extend((0..8_800).step_by(53));
        v.extend(0..40);
        for c in [1365usize, 2047, 2730, 4095, 5460, 8190, 8192] {
            v.extend(c - 22..c + 22);
        }
        v.extend(16_380..16_390);
        v.extend(32_764..32_770);
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let w = windows(t);
    let c = counts(t);
    let mut v = vec![];
    let (w1, w2, c1, c2) = (w.clone(), w.clone(), c.clone(), c.clone());
    v.push(scen(
        "distance",
        format!("{} document shapes x {} filler sizes ({})", FILL.len(), w.len(), t.sel("strided to 34000, every size around 2^14, 2^15, 2^16", "every size to 34000 and 65000..66500")),
        2,
        move |cx| {
            let n = *cx.pick(&w1);
            let (name, f) = *cx.pick(&FILL);
            cx.note(|| format!("{name}; filler {n}"));
            check(cx, &f(n));
        },
    ));
    v.push(scen(
        "count",
        format!("{} document shapes x {} element counts ({})", COUNT.len(), c.len(), t.sel("strided to 8800, every count around each threshold", "every count to 8800 and around 2^14, 2^15, 2^16")),
        2,
        move |cx| {
            let n = *cx.pick(&c1);
            let (name, f) = *cx.pick(&COUNT);
            cx.note(|| format!("{name}; n = {n}"));
            check(cx, &f(n));
        },
    ));
    v.push(scen(
        "distance, shared keys",
        format!("5 dict shapes encoded with shared keys x {} filler sizes", w.len()),
        2,
        move |cx| {
            let n = *cx.pick(&w2);
            let k = *cx.pick(&[1usize, 2, 5, 7, 9]);
            cx.note(|| format!("{}; filler {n}", FILL[k].0));
            check_shared(cx, &FILL[k].1(n));
        },
    ));
    v.push(scen(
        "count, shared keys",
        format!("dicts of n entries encoded with shared keys (the table runs full at 2048) x {} counts", c.len()),
        2,
        move |cx| {
            let n = *cx.pick(&c2);
            let k = *cx.pick(&[3usize, 4, 7]);
            cx.note(|| format!("{}; n = {n}", COUNT[k].0));
            check_shared(cx, &COUNT[k].1(n));
        },
    ));
    // two fillers: every combination of two distances around the thresholds
    let span = t.sel(7usize, 24);
    v.push(scen(
        "two distances",
        "array/dict with two fillers whose sizes run over all pairs around 2^14 and 2^15",
        2,
        move |cx| {
            let c0 = *cx.pick(&[8192usize, 16384, 32768]);
            let a = c0 - span + cx.choose(2 * span) - 10;
            let b = *cx.pick(&[8192usize, 16384]) - span + cx.choose(2 * span) - 10;
            let d = if cx.flag() {
                Doc::Arr(vec![s("one"), data(a), s("two"), data(b), s("three")])
            } else {
                dict(vec![("kk1", s("one")), ("x", data(a)), ("kk0", s("two")), ("y", data(b)), ("kk2", s(&text(3, 3, false)))])
            };
            cx.note(|| format!("fillers {a} and {b}"));
            check(cx, &d);
        },
    ));
    // headers of every length between the elements and what they refer to
    let around = t.sel(6usize, 16);
    v.push(scen(
        "distance and header",
        format!("arrays of 15 element counts (every length of a header) whose first, second, middle or 8000th element refers back over any distance within {around} of 2^14, 2^15 or 2^16; dicts of 1 to 2048 entries with shared keys likewise"),
        3,
        move |cx| {
            let n = *cx.pick(&[1usize, 2, 3, 100, 2046, 2047, 2048, 2174, 2175, 2176, 18_429, 18_430, 18_431, 18_432, 19_000]);
            let slot = *cx.pick(&[0usize, 1, 1050, 8000]);
            let kind = cx.choose(3);
            let limit = *cx.pick(&[1usize << 14, 1 << 15, 1 << 16]);
            if slot >= n || kind > 0 && n > 2048 {
                cx.prune();
            }
            let per = if kind == 0 { 2 } else { 4 };
            let dist = limit - around + cx.choose(2 * around);
            // the bytes of "far one" and of the filler's own header come in between as well
            let Some(fill) = dist.checked_sub(slot * per + 16) else { cx.prune() };
            let d = match kind {
                0 => Doc::Arr((0..slot).map(|k| i((k % 9) as i128)).chain([s("far one"), data(fill)]).chain((slot + 2..n).map(|k| i((k % 7) as i128))).collect()),
                _ => {
                    let mut e: Vec<(String, Doc)> = (0..n).map(|k| (format!("k{k:04}"), i((k % 9) as i128))).collect();
                    e[slot].1 = s("far one");
                    e.push((if kind == 1 { "x".into() } else { "zz not shareable".to_string() }, data(fill)));
                    Doc::Dict(e)
                }
            };
            cx.note(|| format!("{n} elements, element {slot} refers back over about {dist} bytes, kind {kind}"));
            if kind == 0 {
                check(cx, &d);
            } else {
                check_shared(cx, &d);
            }
        },
    ));
    // one execution, so that it needs its memory only once
    let near: Vec<usize> = t.sel(vec![40, 28, 20, 14, 0], (0..64).step_by(2).chain([65, 300, 4096]).collect());
    let beyond: Vec<(usize, &[usize])> = t.sel(
        vec![(FAR + 2, &[0, 1][..]), (4 << 30, &[0, 2, 3, 4, 5][..])],
        vec![(FAR + 2, &[0, 1, 2, 3, 4, 5][..]), (FAR + 40, &[0, 1]), ((2 << 30) - 8, &[0, 1, 2, 4]), (2 << 30, &[0, 1, 2, 5]), ((4 << 30) - 30, &[0, 1]), ((4 << 30) - 8, &[0, 1, 2, 3, 4, 5]), (4 << 30, &[0, 1, 2, 3, 4, 5]), ((4 << 30) + 100, &[0, 1, 4, 5]), (5 << 30, &[0, 1, 2, 5])],
    );
    let mut many: Vec<usize> = [65_536usize, 1 << 20, 1 << 21].iter().flat_map(|c| [c - 1, *c, c + 1]).collect();
    if t.thorough() {
        many.extend([1 << 22, 1 << 24, (1 << 27) - 1, 1 << 27, (1 << 28) + 1]);
    }
    v.push(scen("many elements", format!("arrays and dicts of {many:?} elements (dicts at most 2^22): every element read by index and by iteration, every key looked up"), 1, move |cx| {
        let n = *cx.pick(&many);
        let kind = cx.choose(3);
        if kind == 2 && n > 1 << 22 {
            cx.prune();
        }
        cx.cases(n as u64);
        let r = cx.call("encode/decode", || thousands(n, kind));
        cx.want("content changed", r);
    }));
    v.push(scen(
        "largest distances",
        format!("documents in which something is away from what refers to it by {} distances around the largest that can be written (2^30), and by {} larger ones up to beyond 2^32: read back the same, or refused with an error; data of lengths around 2^22 to 2^28", near.len(), beyond.len()),
        0,
        move |cx| {
            let top = beyond.iter().map(|x| x.0).max().unwrap_or(0);
            let mut fill = vec![0u8; top];
            let mut todo: Vec<(usize, usize)> = near.iter().enumerate().map(|(k, d)| (k % 4, FAR - d)).collect();
            // lengths whose own length grows
            todo.extend((22..=28).flat_map(|k| [(0, (1usize << k) - 1), (1, 1 << k), (4, (1 << k) + 1), (0, 3 << (k - 1))]));
            todo.extend(beyond.iter().flat_map(|(n, shapes)| shapes.iter().map(move |s| (*s, *n))));
            for (shape, n) in todo {
                cx.beat();
                cx.note(|| format!("{}: filler of {n} bytes", HUGE[shape]));
                // most of it is untouched memory
                let marks = [0, 1, 0x77, n / 2, n - 2, n - 1];
                marks.iter().for_each(|m| fill[*m] = 0xa5);
                let r = cx.call("encode/decode", || huge(shape, &fill[..n]));
                let written = cx.want("content changed", r);
                marks.iter().for_each(|m| fill[*m] = 0);
                cx.cases(1);
                cx.ops(u64::from(written));
            }
        },
    ));
    v
}
