//! C08: array indexing and iteration agree and respect bounds.

use crate::doc::*;
use crate::engine::*;
use crate::gen;
use crate::refcodec::{self, encode_styled, Style};
use fleece::{Array, Encoder, Value};

/// Element `k` of the test arrays of one family.
fn elem(fam: usize, k: usize) -> Doc {
    match fam {
        0 => i((k % 4096) as i128 - 2048),
        1 => i(k as i128 * 100_003),
        2 => Doc::Str(format!("s{k}")),
        3 => match k % 5 {
            0 => Doc::Arr(vec![i((k % 2000) as i128)]),
            1 => Doc::Null,
            2 => Doc::Dict(vec![]),
            3 => s(["", "x", "yy"][k / 5 % 3]),
            _ => f64d(k as f64),
        },
        _ => s("same"),
    }
}

fn check_array(a: &Array, xs: &[Doc]) -> Result<(), String> {
    verify_array(a, xs, Keys::Plain, &mut String::from("$"))?;
    let n = xs.len();
    // outside
    let mut out: Vec<usize> = vec![n, n + 1, n + 2, n * 2, n * 2 + 1, n + 2047, n + 2048, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 4, usize::MAX / 4 + 1, usize::MAX - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1usize << 63) | 1, 1 << 62];
    out.retain(|k| *k >= n);
    for k in out {
        if a.get(k).is_some() {
            return Err(format!("get({k}) of {n} elements gives something"));
        }
        if let Ok(v) = guard(|| format!("{:?}", a[k].value_type())) {
            return Err(format!("[{k}] of {n} elements gives {v} instead of panicking"));
        }
    }
    // iteration, every step
    let mut it = a.iter();
    for k in 0..n {
        if it.size_hint() != (n - k, Some(n - k)) {
            return Err(format!("size_hint {:?} with {} left", it.size_hint(), n - k));
        }
        let Some(e) = it.next() else {
            return Err(format!("iteration ends after {k} of {n}"));
        };
        let g = a.get(k).ok_or("get gives nothing")?;
        if !std::ptr::eq(e, g) || !std::ptr::eq(&a[k], g) {
            return Err(format!("iteration, get and indexing differ at {k}"));
        }
    }
    for _ in 0..3 {
        if it.size_hint() != (0, Some(0)) {
            return Err(format!("size_hint {:?} at the end", it.size_hint()));
        }
        if it.next().is_some() {
            return Err("iteration goes on after the end".into());
        }
    }
    // the standard adaptors rely on all that
    let id = |v: &Value| std::ptr::from_ref(v).cast::<u8>() as usize;
    crate::iter::agrees("array", &|| a.iter(), &id)?;
    if n <= 64 {
        crate::iter::agrees("array", &|| a.into_iter(), &id)?;
    }
    let c: Vec<&Value> = a.iter().collect();
    if c.len() != n {
        return Err("collect".into());
    }
    Ok(())
}

fn find<'a>(v: &'a Value, inner: bool) -> Option<&'a Array> {
    let a = v.as_array()?;
    if inner {
        a.get(1).and_then(Value::as_array)
    } else {
        Some(a)
    }
}

/// The width of a float is the writer's choice.
fn norm(d: &Doc) -> Doc {
    match d {
        Doc::F32(b) => f64d(f32::from_bits(*b).into()),
        Doc::Arr(v) => Doc::Arr(v.iter().map(norm).collect()),
        Doc::Dict(v) => Doc::Dict(v.iter().map(|(k, x)| (k.clone(), norm(x))).collect()),
        d => d.clone(),
    }
}

struct Wide(bool);
impl Style for Wide {
    fn choice(&mut self, n: usize, what: &'static str) -> usize {
        if self.0 && what == "wide" {
            n - 1
        } else {
            0
        }
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut sizes: Vec<usize> = (0..t.sel(900, 2200)).collect();
    for c in [1023usize, 1024, 2045, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 8191, 8192, 16383, 16384, 16385] {
        sizes.extend(c - 1..=c + 1);
    }
    if t.thorough() {
        sizes.extend([32767, 32768, 65535, 65536, 65537, 200_000]);
    }
    sizes.sort_unstable();
    sizes.dedup();
    let mut v = vec![];
    let sz = sizes.clone();
    v.push(scen(
        "lengths",
        format!("arrays of {} lengths x 5 element families x at the root, behind and inside a narrow or wide array", sizes.len()),
        2,
        move |cx| {
            let n = *cx.pick(&sz);
            let fam = cx.choose(5);
            let place = cx.choose(3);
            let xs: Vec<Doc> = (0..n).map(|k| elem(fam, k)).collect();
            cx.note(|| format!("{n} elements of family {fam}, place {place}"));
            cx.cases(n as u64);
            let r = cx.call("array", || -> Result<(), String> {
                let mut e = Encoder::new();
                let inner = place > 0;
                let step = |r: Result<(), fleece::encoder::EncodeError>| r.map_err(|x| format!("{x:?}"));
                if inner {
                    step(e.begin_array(3))?;
                    if place == 2 {
                        step(e.write_value(vec![7u8; 40_000].as_slice()))?;
                    } else {
                        step(e.write_value("first"))?;
                    }
                }
                emit(&mut e, &Doc::Arr(xs.clone()))?;
                if inner {
                    step(e.write_value("last one"))?;
                    step(e.end_array())?;
                }
                let b = e.finish();
                let v = Value::from_bytes(&b).map_err(|x| format!("from_bytes: {x:?}"))?;
                check_array(find(v, inner).ok_or("no array")?, &xs)?;
                if !inner {
                    check_array(Array::from_bytes(&b).map_err(|x| format!("Array::from_bytes: {x:?}"))?, &xs)?;
                    let c = Array::clone_from_bytes(&b).map_err(|x| format!("Array::clone_from_bytes: {x:?}"))?;
                    check_array(&c, &xs)?;
                }
                Ok(())
            });
            cx.want("array", r);
        },
    ));
    let sz: Vec<usize> = sizes.iter().copied().filter(|n| *n <= t.sel(300, 600) || (2040..2055).contains(n)).collect();
    v.push(scen(
        "widths",
        format!("{} lengths x 5 element families written narrow and wide by an independent writer", sz.len()),
        2,
        move |cx| {
            let n = *cx.pick(&sz);
            let fam = cx.choose(5);
            let wide = cx.flag();
            let xs: Vec<Doc> = (0..n).map(|k| elem(fam, k)).collect();
            cx.cases(n as u64);
            let r = cx.call("array", || -> Result<(), String> {
                let b = encode_styled(&Doc::Arr(xs.clone()), &mut Wide(wide), &refcodec::no_sk_enc);
                let a = Array::from_bytes(&b).map_err(|x| format!("{x:?}"))?;
                if n > 0 && a.is_wide() != wide {
                    return Err(format!("is_wide is {}", a.is_wide()));
                }
                check_array(a, &xs)
            });
            cx.want("array", r);
        },
    ));
    let leaves = gen::leaves();
    let max = t.sel(3usize, 4);
    let leaves: Vec<Doc> = leaves.into_iter().chain([Doc::Arr(vec![]), Doc::Dict(vec![]), Doc::Arr(vec![s("nested")]), dict(vec![("k", i(3))])]).collect();
    v.push(scen(
        "elements",
        format!("every array of up to {max} elements out of {} kinds", leaves.len()),
        2,
        move |cx| {
            let n = cx.choose(max + 1);
            let xs: Vec<Doc> = (0..n).map(|_| cx.pick(&leaves).clone()).collect();
            cx.cases(1);
            let r = cx.call("array", || -> Result<(), String> {
                let b = encode(&Doc::Arr(xs.clone()))?;
                check_array(Array::from_bytes(&b).map_err(|x| format!("{x:?}"))?, &xs)
            });
            cx.want("array", r.map_err(|e| format!("{} {e}", Doc::Arr(xs.clone()).show())));
        },
    ));
    let sz: Vec<usize> = sizes.iter().copied().filter(|n| *n <= t.sel(300, 600) || (1023..1026).contains(n) || (2040..2055).contains(n)).collect();
    v.push(scen(
        "what a visitor is told",
        format!("arrays and dicts of {} lengths x 5 element families, narrow and wide, with and without shared keys: what a serde visitor gets and how many elements it is told are left at every position", sz.len()),
        2,
        move |cx| {
            let n = *cx.pick(&sz);
            let fam = cx.choose(5);
            let kind = cx.choose(3);
            let wide = cx.flag();
            let xs: Vec<Doc> = (0..n).map(|k| elem(fam, k)).collect();
            cx.note(|| format!("{n} elements of family {fam}, kind {kind}, wide {wide}"));
            cx.cases(n as u64);
            let r = cx.call("visit", || -> Result<(), String> {
                let mut sk = fleece::SharedKeys::new();
                let d = if kind == 0 {
                    Doc::Arr(xs)
                } else {
                    for k in (0..n).step_by(2).filter(|_| kind == 2) {
                        sk.encode_and_insert(&format!("k{k}"));
                    }
                    Doc::Dict(xs.into_iter().enumerate().map(|(k, x)| (format!("k{k}"), x)).collect())
                };
                let b = encode_styled(&d, &mut Wide(wide), &|k| sk.encode(k));
                let sc = (kind == 2).then(|| fleece::Scope::new(b.clone(), Some(std::sync::Arc::new(sk.clone()))));
                let data = sc.as_ref().and_then(|s| s.data());
                let b: &[u8] = data.as_deref().unwrap_or(&b);
                let want = d.canon();
                let r = (|| {
                    let crate::iter::Hinted(got) = fleece::from_bytes(b).map_err(|e| format!("{e}"))?;
                    let again = if kind == 0 { fleece::from_bytes::<crate::iter::HintedAs>(b).map(|x| x.0) } else { fleece::from_bytes::<crate::iter::HintedMap>(b).map(|x| x.0) }.map_err(|e| format!("{e}"))?;
                    let plain = norm(&want);
                    for g in [got, again] {
                        if norm(&g.canon()) != plain {
                            return Err(format!("a visitor gets {}", g.show()));
                        }
                    }
                    Ok(())
                })();
                if let Some(s) = sc {
                    s.remove();
                }
                r
            });
            cx.want("visitor", r);
        },
    ));
    v.push(scen("the empty array", "Array::empty() and the empty self-owning array", 0, |cx| {
        cx.choose(1);
        let r = cx.call("empty", || check_array(Array::empty(), &[]));
        cx.want("empty", r);
        let a = fleece::alloced::AllocedArray::empty();
        let r = cx.call("empty", || check_array(&a, &[]));
        cx.want("empty", r);
    }));
    v
}
