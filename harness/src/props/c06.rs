//! C06: decoding untrusted bytes is total and memory safe.
//!
//! Every input is decoded twice: in a buffer ending exactly at an inaccessible page and in one
//! starting exactly at one.  Whatever is accepted is walked completely through the public API, and
//! everything handed out must lie inside the buffer.

use crate::anydoc::AnyDoc;
use crate::doc::{hex, Doc};
use crate::engine::*;
use crate::mem::{self, Fate};
use crate::props::c05;
use crate::refcodec::{self, encode_styled, Style};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value, ValueType};
use std::collections::HashMap;

pub struct Walk {
    lo: usize,
    hi: usize,
    seen: HashMap<(usize, usize), u64>,
    depth: usize,
}

const PROBES: [&str; 5] = ["", "a", "b", "abcdefghijklmnop", "é"];

impl Walk {
    pub fn new(b: &[u8]) -> Walk {
        let lo = b.as_ptr() as usize;
        Walk { lo, hi: lo + b.len(), seen: HashMap::new(), depth: 0 }
    }
    fn inside(&self, p: usize, n: usize, what: &str) -> Result<(), String> {
        if p >= self.lo && p + n <= self.hi {
            Ok(())
        } else {
            Err(format!("{what} of {n} bytes at offset {} lies outside the {} input bytes", p as i64 - self.lo as i64, self.hi - self.lo))
        }
    }
    fn slice(&self, b: &[u8], what: &str) -> Result<(), String> {
        if b.is_empty() {
            return Ok(()); // may be a constant
        }
        self.inside(b.as_ptr() as usize, b.len(), what)
    }
    /// Every read the API offers on a value and on everything reachable from it.  Returns the
    /// number of values met when nothing is shared.
    pub fn value(&mut self, v: &Value, sk: &SharedKeys) -> Result<u64, String> {
        let p = std::ptr::from_ref(v).cast::<u8>() as usize;
        self.inside(p, v.len(), "a value")?;
        if let Some(n) = self.seen.get(&(p, v.len())) {
            return Ok(*n);
        }
        let t = v.value_type();
        if t == ValueType::Pointer {
            return Err("a pointer was handed out as a value".into());
        }
        let sink = (v.to_bool(), v.to_short(), v.to_unsigned_short(), v.to_int(), v.to_unsigned_int(), v.to_double(), v.to_float());
        std::hint::black_box(sink);
        std::hint::black_box((v.required_size(), v.is_empty(), v.is_mutable()));
        self.slice(v.to_data(), "data")?;
        let s = v.to_str();
        self.slice(s.as_bytes(), "a string")?;
        if std::str::from_utf8(s.as_bytes()).is_err() {
            return Err("a string is not UTF-8".into());
        }
        self.depth += 1;
        let mut n = 1u64;
        if let Some(a) = v.as_array() {
            n = n.saturating_add(self.array(a, sk)?);
        }
        if let Some(d) = v.as_dict() {
            n = n.saturating_add(self.dict(d, sk)?);
        }
        self.depth -= 1;
        self.seen.insert((p, v.len()), n);
        Ok(n)
    }
    fn array(&mut self, a: &Array, sk: &SharedKeys) -> Result<u64, String> {
        let n = a.len();
        if n > self.hi - self.lo {
            return Err(format!("an array claims {n} elements"));
        }
        let mut total = 0u64;
        let mut it = a.iter();
        for k in 0..n {
            let Some(e) = it.next() else {
                return Err(format!("iteration of {n} elements ended after {k}"));
            };
            match a.get(k) {
                Some(g) if std::ptr::eq(g, e) => {}
                _ => return Err(format!("get({k}) of {n} differs from iteration")),
            }
            total = total.saturating_add(self.value(e, sk)?);
        }
        if it.next().is_some() {
            return Err("iteration goes on after the last element".into());
        }
        for k in [n, n + 1, n * 2, usize::MAX / 4, usize::MAX / 2, usize::MAX] {
            if k >= n && a.get(k).is_some() {
                return Err(format!("get({k}) of {n} gives something"));
            }
        }
        std::hint::black_box((a.is_empty(), a.is_wide(), a.width()));
        Ok(total)
    }
    fn dict(&mut self, d: &Dict, sk: &SharedKeys) -> Result<u64, String> {
        let n = d.len();
        if n > self.hi - self.lo {
            return Err(format!("a dict claims {n} entries"));
        }
        let mut total = 0u64;
        let mut count = 0;
        for (k, e) in d {
            count += 1;
            if count > n {
                return Err(format!("iteration goes on after the last of {n} entries"));
            }
            self.slice(k.as_bytes(), "a key")?;
            if std::str::from_utf8(k.as_bytes()).is_err() {
                return Err("a key is not UTF-8".into());
            }
            total = total.saturating_add(self.value(e, sk)?);
            self.probe(d, k, sk)?;
        }
        for k in PROBES {
            self.probe(d, k, sk)?;
        }
        if let Some((k, e)) = d.first() {
            self.value(k, sk)?;
            self.value(e, sk)?;
        }
        std::hint::black_box((d.is_empty(), d.is_wide(), d.width()));
        Ok(total)
    }
    fn probe(&mut self, d: &Dict, k: &str, sk: &SharedKeys) -> Result<(), String> {
        let a = d.get(k);
        if d.contains_key(k) != a.is_some() {
            return Err(format!("contains_key({k:?}) and get disagree"));
        }
        let b = d.get_with_shared_keys(k, sk);
        if d.contains_key_with_shared_keys(k, sk) != b.is_some() {
            return Err(format!("contains_key_with_shared_keys({k:?}) and get disagree"));
        }
        for x in [a, b].into_iter().flatten() {
            self.inside(std::ptr::from_ref(x).cast::<u8>() as usize, x.len(), "a looked up value")?;
            // usually reached by iteration as well
            self.value(x, sk)?;
        }
        Ok(())
    }
}

thread_local! {
    static SK: SharedKeys = {
        let mut sk = SharedKeys::new();
        sk.encode_and_insert("a");
        sk.encode_and_insert("abcdefghijklmnop");
        sk
    };
}

fn whole(v: &Value, size: u64) {
    if size > 20_000 {
        return;
    }
    std::hint::black_box(format!("{v:?}").len());
    if let Some(a) = v.as_array() {
        std::hint::black_box(a.to_mutable().len());
    }
    if let Some(d) = v.as_dict() {
        std::hint::black_box(d.to_mutable().len());
    }
    for shared in [false, true] {
        let mut e = Encoder::new();
        if shared {
            e.set_shared_keys(SharedKeys::new());
        }
        let _ = e.begin_array(1);
        let _ = e.write_fleece(v);
        std::hint::black_box(e.finish().len());
    }
}

/// Decode one input, placed both ways.  True when it was accepted.
pub fn one(b: &[u8], cap: usize) -> Result<bool, String> {
    let g = mem::guarded(0, cap);
    let at_end = g.at_end(b);
    mem::current(at_end);
    let accepted = probe_root(at_end)?;
    if accepted {
        let g = mem::guarded(1, cap);
        let at_start = g.at_start(b);
        mem::current(at_start);
        if !probe_root(at_start)? {
            return Err("accepted or not, depending on where it lies".into());
        }
        typed(b)?;
    } else if Value::clone_from_bytes(b).is_ok() || Array::clone_from_bytes(b).is_ok() || Dict::clone_from_bytes(b).is_ok() || Array::from_bytes(b).is_ok() || Dict::from_bytes(b).is_ok() {
        return Err("from_bytes refuses what another entry point accepts".into());
    }
    Ok(accepted)
}

fn probe_root(b: &[u8]) -> Result<bool, String> {
    let Ok(v) = Value::from_bytes(b) else {
        return Ok(false);
    };
    let n = SK.with(|sk| Walk::new(b).value(v, sk))?;
    whole(v, n);
    if let Ok(AnyDoc(d)) = fleece::from_bytes::<AnyDoc>(b) {
        std::hint::black_box(matches!(d, Doc::Null));
    }
    Ok(true)
}

/// The other checked entry points.
fn typed(b: &[u8]) -> Result<(), String> {
    let t = Value::from_bytes(b).map_err(|_| "refused the second time")?.value_type();
    if Array::from_bytes(b).is_ok() != (t == ValueType::Array) {
        return Err("Array::from_bytes disagrees".into());
    }
    if Dict::from_bytes(b).is_ok() != (t == ValueType::Dict) {
        return Err("Dict::from_bytes disagrees".into());
    }
    let c = Value::clone_from_bytes(b).map_err(|e| format!("clone_from_bytes refused it: {e:?}"))?;
    let v: &Value = &c;
    if v.value_type() != t {
        return Err("clone_from_bytes gives another kind".into());
    }
    if Array::clone_from_bytes(b).is_ok() != (t == ValueType::Array) || Dict::clone_from_bytes(b).is_ok() != (t == ValueType::Dict) {
        return Err("typed clone_from_bytes disagrees".into());
    }
    std::hint::black_box(SharedKeys::from_state_bytes(b).is_some());
    Ok(())
}

fn scope_too(b: &[u8]) -> Result<(), String> {
    let ok = Value::from_bytes(b).is_ok();
    let mut sk = SharedKeys::new();
    sk.encode_and_insert("a");
    let sc = Scope::new(b.to_vec(), Some(std::sync::Arc::new(sk)));
    let r = (|| {
        if sc.root().is_some() != ok {
            return Err("Scope::root and from_bytes disagree".to_string());
        }
        if let Some(r) = sc.root() {
            let data = sc.data().ok_or("no data")?;
            let mut w = ScopeWalk(Walk::new(&data));
            let n = w.0.value_scoped(&r)?;
            whole(&r, n);
        }
        Ok(())
    })();
    sc.remove();
    r
}
struct ScopeWalk(Walk);
impl Walk {
    /// Like `value`, but key strings come from the shared keys (not from the input).
    fn value_scoped(&mut self, v: &Value) -> Result<u64, String> {
        let p = std::ptr::from_ref(v).cast::<u8>() as usize;
        self.inside(p, v.len(), "a value")?;
        let mut n = 1;
        std::hint::black_box((v.to_int(), v.to_double(), v.to_bool()));
        self.slice(v.to_data(), "data")?;
        if self.depth > 40 {
            return Ok(1 << 20);
        }
        self.depth += 1;
        if let Some(a) = v.as_array() {
            for e in a {
                n += self.value_scoped(e)?;
            }
        }
        if let Some(d) = v.as_dict() {
            let mut c = 0;
            for (k, e) in d {
                c += 1;
                if c > d.len() || std::str::from_utf8(k.as_bytes()).is_err() {
                    return Err("scoped dict iteration".into());
                }
                n += self.value_scoped(e)?;
                std::hint::black_box(d.get(k).is_some());
            }
            for k in PROBES {
                std::hint::black_box(d.get(k).is_some());
            }
        }
        self.depth -= 1;
        Ok(n)
    }
}

fn finish(cx: &mut Cx, what: &str, r: Result<Result<(), String>, String>) {
    let h = mem::current_hex();
    mem::current_done();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.fail(what, format!("{e}; input {h}")),
        Err(e) => cx.fail(format!("panic:{what}"), format!("{e}; input {h}")),
    }
}

/// 16-bit units from which structured inputs are built.
fn words(t: Tier) -> Vec<u16> {
    let mut w = vec![
        0x6001, 0x6002, 0x6801, 0x7001, 0x8001, 0x8002, 0x4161, 0x0001, 0x8000, 0x0000, 0x67ff, 0x7801, 0x4262, 0x8003, 0x4f01, 0x6000, 0x0200, 0x2000,
        0x2800, 0x1700, 0x1000, 0x8004, 0x77ff, 0x3000, 0xc001, 0x5f81, 0x6003, 0x7002, 0x6fff, 0x7fff, 0x4000, 0x5180, 0x1f00, 0xffff,
    ];
    if t.thorough() {
        w.extend([0x8005, 0x4f02, 0x8101, 0x6802, 0x3800, 0x1100, 0x4f80, 0x0a00]);
    }
    w
}

fn push(b: &mut Vec<u8>, w: u16) {
    b.extend(w.to_be_bytes());
}

pub fn base_docs() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    for d in c05::docs() {
        out.push((format!("plain {}", d.show()), encode_styled(&d, &mut Zero, &refcodec::no_sk_enc)));
        out.push((format!("wide/varied {}", d.show()), encode_styled(&d, &mut Spread(0), &refcodec::no_sk_enc)));
        if d.is_collection() {
            out.push((format!("encoder {}", d.show()), crate::doc::encode(&d).expect("ENGINE")));
        }
    }
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    crate::doc::emit(&mut e, &crate::doc::dict(vec![("a", crate::doc::i(1)), ("b b", crate::doc::s("x")), ("c", Doc::Arr(vec![crate::doc::dict(vec![("a", Doc::Null)])]))])).expect("ENGINE");
    out.push(("shared keys".into(), e.finish()));
    out
}

struct Zero;
impl Style for Zero {
    fn choice(&mut self, _: usize, _: &'static str) -> usize {
        0
    }
}
struct Spread(usize);
impl Style for Spread {
    fn choice(&mut self, n: usize, _: &'static str) -> usize {
        self.0 += 1;
        self.0 % n
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    // every short byte string
    v.push(scen(
        "short strings",
        "every byte string of length 0..3, and every 4-byte string (quick: with one of 208 last words)",
        1,
        move |cx| {
            let tails: Vec<u16> = if t.thorough() {
                (0..=u16::MAX).collect()
            } else {
                (0..=0x3fu16).flat_map(|k| [k << 10, (k << 10) | 1, 0x8000 | k]).chain((0..16).map(|k| k << 12 | 0x61)).collect()
            };
            let hi = cx.choose(256);
            let mut n = 0u64;
            let mut acc = 0u64;
            let r = guard(|| -> Result<(), String> {
                if hi == 0 {
                    for b in [&[][..], &[0], &[0x80], &[0xff]] {
                        one(b, 64)?;
                    }
                }
                for lo in 0..=255u8 {
                    one(&[hi as u8, lo], 64)?;
                    for z in 0..=255 {
                        one(&[hi as u8, lo, z], 64)?;
                        n += 1;
                    }
                    for w in &tails {
                        acc += u64::from(one(&[hi as u8, lo, (w >> 8) as u8, *w as u8], 64)?);
                        n += 1;
                    }
                    cx.beat();
                }
                Ok(())
            });
            cx.cases(n);
            cx.outcome(acc);
            finish(cx, "short strings", r);
        },
    ));
    // a free word in front of structured ones
    {
        let w = words(t);
        let tail: Vec<u16> = vec![0x8001, 0x8002, 0x8003];
        v.push(scen(
            "free word",
            format!("6-byte inputs: any 16-bit word, then any of 65536 words (quick: {} structured ones) in either order, then a root reference of 1..3", w.len()),
            1,
            move |cx| {
                let root = *cx.pick(&tail);
                let chunk = cx.choose(64);
                let full: Vec<u16> = (0..=u16::MAX).collect();
                let second = if t.thorough() { &full } else { &w };
                let mut n = 0;
                let mut acc = 0u64;
                let r = guard(|| -> Result<(), String> {
                    for lo in 0..1024u16 {
                        let a = ((chunk as u16) << 10) | lo;
                        for s in second {
                            let mut b = vec![];
                            push(&mut b, a);
                            push(&mut b, *s);
                            push(&mut b, root);
                            acc += u64::from(one(&b, 64)?);
                            b[..4].rotate_left(2);
                            acc += u64::from(one(&b, 64)?);
                            n += 2;
                        }
                        cx.beat();
                    }
                    Ok(())
                });
                cx.cases(n);
                cx.outcome(acc);
                finish(cx, "free word", r);
            },
        ));
    }
    for (name, len, take) in t.sel(
        vec![("words 4", 4usize, 28usize), ("words 6", 6, 10), ("words 8", 8, 5)],
        vec![("words 5", 5, 42), ("words 6", 6, 18), ("words 8", 8, 9)],
    ) {
        let w: Vec<u16> = words(t).into_iter().take(take).collect();
        v.push(scen(
            name,
            format!("every document of up to {len} words out of {take} plus a root reference of any in-range offset (and one beyond)"),
            2,
            move |cx| {
                // the first two words are choices of the explorer, the rest is enumerated here
                let a = *cx.pick(&w);
                let b2 = *cx.pick(&w);
                let mut n = 0u64;
                let mut acc = 0u64;
                let r = guard(|| -> Result<(), String> {
                    for l in 2..=len {
                        let mut ix = vec![0usize; l - 2];
                        loop {
                            let mut b = Vec::with_capacity(2 * l + 2);
                            push(&mut b, a);
                            push(&mut b, b2);
                            for k in &ix {
                                push(&mut b, w[*k]);
                            }
                            push(&mut b, 0);
                            let at = b.len() - 1;
                            b[at - 1] = 0x80;
                            // mid-document roots were covered by shorter documents, except the far ones
                            for off in 1..=l + 1 {
                                b[at] = off as u8;
                                acc += u64::from(one(&b, 64)?);
                                n += 1;
                            }
                            let mut p = ix.len();
                            let done = loop {
                                if p == 0 {
                                    break true;
                                }
                                p -= 1;
                                ix[p] += 1;
                                if ix[p] < w.len() {
                                    break false;
                                }
                                ix[p] = 0;
                            };
                            if done {
                                break;
                            }
                        }
                        cx.beat();
                    }
                    Ok(())
                });
                cx.cases(n);
                cx.outcome(acc);
                finish(cx, "words", r);
            },
        ));
    }
    // extended counts and lengths
    {
        let heads: Vec<(u8, Option<u8>)> = vec![
            (0x4f, None), (0x5f, None), (0x67, Some(0xff)), (0x6f, Some(0xff)), (0x77, Some(0xff)), (0x7f, Some(0xff)),
        ];
        let bytes: Vec<u8> = vec![0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0xff];
        let deep = t.sel(4usize, 6);
        v.push(scen(
            "extended lengths",
            format!("string, data, array, dict headers with every length encoding of up to {deep} bytes out of {} values, padded with the extremes to every length up to 11, followed by 0..12 bytes of content, root first or in an array", bytes.len()),
            2,
            move |cx| {
                let h = *cx.pick(&heads);
                let inner = cx.choose(2);
                let l = cx.choose(deep) + 1;
                let mut var: Vec<u8> = (0..l).map(|_| *cx.pick(&bytes)).collect();
                let r = guard(|| -> Result<(), String> {
                    // extend to 11 bytes by repeating one value before the end
                    let base = var.clone();
                    for total in l..=11 {
                        for fill in [0x80u8, 0xff] {
                            if total == l && fill == 0xff {
                                continue;
                            }
                            var.clone_from(&base);
                            while var.len() < total {
                                var.insert(var.len() - 1, fill);
                            }
                            for pad in 0..=12usize {
                                let mut b = vec![h.0];
                                b.extend(h.1);
                                b.extend(&var);
                                for k in 0..pad {
                                    b.push([0x00, 0x01, 0x40, 0x61][k % 4]);
                                }
                                if b.len() % 2 == 1 {
                                    b.push(0x61);
                                }
                                if inner == 1 {
                                    let off = b.len() / 2 + 1;
                                    push(&mut b, 0x6001);
                                    push(&mut b, 0x8000 | off as u16);
                                    push(&mut b, 0x8002);
                                } else {
                                    let off = b.len() / 2;
                                    push(&mut b, 0x8000 | off as u16);
                                }
                                one(&b, 64)?;
                            }
                        }
                    }
                    Ok(())
                });
                cx.cases(26 * 13);
                finish(cx, "extended lengths", r);
            },
        ));
    }
    // every small damage to real documents
    {
        let docs = base_docs();
        v.push(scen(
            "one byte changed",
            format!("{} documents in different styles: every byte replaced by every value, every truncation at either end, every byte removed, doubled, every word swapped with the next, zeroed or copied elsewhere", docs.len()),
            2,
            move |cx| {
                let (name, b) = cx.pick(&docs).clone();
                cx.note(|| format!("{name}: {}", hex(&b)));
                let pos = cx.choose(b.len());
                let mut n = 0;
                let mut acc = 0u64;
                let r = guard(|| -> Result<(), String> {
                    let mut go = |m: &[u8]| -> Result<(), String> {
                        n += 1;
                        let a = one(m, 4096)?;
                        if n % 16 == 0 {
                            mem::current(m);
                            scope_too(m)?;
                        }
                        acc += u64::from(a);
                        Ok(())
                    };
                    let mut m = b.clone();
                    for x in 0..=255u8 {
                        m[pos] = x;
                        go(&m)?;
                    }
                    go(&b[pos..])?;
                    go(&b[..pos])?;
                    let mut m = b.clone();
                    m.remove(pos);
                    go(&m)?;
                    let mut m = b.clone();
                    m.insert(pos, b[pos]);
                    go(&m)?;
                    if pos % 2 == 0 && pos + 2 <= b.len() {
                        let mut m = b.clone();
                        m.drain(pos..pos + 2);
                        go(&m)?;
                        for w in [[0u8, 0], [0x80, 1], [0x80, 2], [0x60, 0], [0x67, 0xff], [0x68, 1], [0xff, 0xff], [0x4f, 0xff], [0xc0, 1]] {
                            let mut m = b.clone();
                            m[pos..pos + 2].copy_from_slice(&w);
                            go(&m)?;
                            let mut m = b.clone();
                            m.splice(pos..pos, w);
                            go(&m)?;
                        }
                        for q in (0..b.len() - 1).step_by(2) {
                            let mut m = b.clone();
                            m.swap(pos, q);
                            m.swap(pos + 1, q + 1);
                            go(&m)?;
                            let mut m = b.clone();
                            let w = [b[q], b[q + 1]];
                            m[pos..pos + 2].copy_from_slice(&w);
                            go(&m)?;
                        }
                    }
                    Ok(())
                });
                cx.cases(n);
                cx.outcome(acc);
                finish(cx, "one byte changed", r);
            },
        ));
        let docs = base_docs();
        let limit = t.sel(26usize, 80);
        let docs: Vec<_> = docs.into_iter().filter(|d| d.1.len() <= limit).collect();
        let vals: Vec<u8> = t.sel(vec![0x00, 0x01, 0x02, 0x0f, 0x4f, 0x60, 0x67, 0x68, 0x70, 0x7f, 0x80, 0xff], vec![0x00, 0x01, 0x02, 0x03, 0x07, 0x08, 0x0f, 0x10, 0x1f, 0x20, 0x28, 0x41, 0x4f, 0x5f, 0x60, 0x67, 0x68, 0x6f, 0x70, 0x77, 0x7f, 0x80, 0x81, 0xc0, 0xff]);
        v.push(scen(
            "two bytes changed",
            format!("{} documents of at most {limit} bytes: every pair of positions, {} values each", docs.len(), vals.len()),
            2,
            move |cx| {
                let (name, b) = cx.pick(&docs).clone();
                cx.note(|| format!("{name}: {}", hex(&b)));
                let p = cx.choose(b.len());
                let mut n = 0;
                let r = guard(|| -> Result<(), String> {
                    let mut m = b.clone();
                    for q in p + 1..b.len() {
                        for x in &vals {
                            for y in &vals {
                                m[p] = *x;
                                m[q] = *y;
                                one(&m, 4096)?;
                                n += 1;
                            }
                        }
                        m[q] = b[q];
                        cx.beat();
                    }
                    Ok(())
                });
                cx.cases(n);
                finish(cx, "two bytes changed", r);
            },
        ));
    }
    // text which is none, somewhere in a string
    {
        let lens: Vec<usize> = (2..=t.sel(80, 300)).chain([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4097, 16_385]).collect();
        v.push(scen("broken text", "strings and keys of every length up to 80 (thorough: 300) and around powers of two, ASCII and not, with each of 9 malformed sequences at every position", 1, move |cx| {
            let n = *cx.pick(&lens);
            let fill = *cx.pick(&["#", "é"]);
            let place = cx.choose(4);
            let mut cases = 0u64;
            let mut acc = 0u64;
            let r = guard(|| -> Result<(), String> {
                let text: String = if n % fill.len() == 0 { fill.repeat(n / fill.len()) } else { format!("#{}", fill.repeat(n / fill.len())) };
                let d = match place {
                    0 => Doc::Arr(vec![Doc::Str(text.clone())]),
                    1 => Doc::Arr(vec![Doc::Int(1), Doc::Dict(vec![("b".into(), Doc::Null), (text.clone(), Doc::Int(1))])]),
                    2 => Doc::Dict(vec![(text.clone(), Doc::Str("value".into()))]),
                    _ => Doc::Dict(vec![("key".into(), Doc::Str(text.clone()))]),
                };
                let good = crate::doc::encode(&d)?;
                let at = good.windows(n).position(|w| w == text.as_bytes()).ok_or("the text is not in the document")?;
                let bad: [&[u8]; 9] = [&[0xff], &[0x80], &[0xc3], &[0xc0, 0xaf], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xe0, 0x80, 0xaf], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x9f, 0x98]];
                let spots: Vec<usize> = if n <= 300 { (0..n).collect() } else { (0..40).chain([n / 2, n / 2 + 1]).chain(n - 40..n).collect() };
                for x in bad {
                    for p in &spots {
                        if p + x.len() > n {
                            continue;
                        }
                        let mut b = good.clone();
                        b[at + p..at + p + x.len()].copy_from_slice(x);
                        acc += u64::from(one(&b, 1 << 15)?);
                        cases += 1;
                    }
                }
                Ok(())
            });
            cx.cases(cases);
            cx.outcome(acc);
            finish(cx, "broken text", r);
        }));
    }
    // one bad element among many
    {
        let lens: Vec<usize> = (1..=40usize).chain([63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1025, 2046]).collect();
        v.push(scen("one bad element", "arrays and dicts of every size up to 40 and around powers of two to 2046, narrow and wide, of small integers or references, with each of 15 doubtful words in the place of one element", 1, move |cx| {
            let n = *cx.pick(&lens);
            let dict = cx.flag();
            let wide = cx.flag();
            let refs = cx.flag();
            let mut cases = 0u64;
            let mut acc = 0u64;
            let words: [u16; 15] = [0x4f61, 0x5f61, 0x4261, 0x4361, 0x5261, 0x67ff, 0x77ff, 0x6001, 0x7001, 0x1761, 0x2800, 0x8000, 0xbfff, 0xffff, 0x3f00];
            let slots = if dict { 2 * n } else { n };
            let r = guard(|| -> Result<(), String> {
                let mut good = b"\x43abc".to_vec();
                push(&mut good, if dict { 0x7000 } else { 0x6000 } | if wide { 0x0800 } else { 0 } | n as u16);
                let first = good.len();
                for k in 0..slots {
                    let key = dict && k % 2 == 0;
                    let here = good.len();
                    if key || refs {
                        // a reference to the string at the beginning
                        let off = (here / 2) as u32;
                        if wide {
                            good.extend((0x8000_0000 | off).to_be_bytes());
                        } else {
                            push(&mut good, 0x8000 | off as u16);
                        }
                    } else {
                        push(&mut good, (k % 2048) as u16);
                        if wide {
                            push(&mut good, 0);
                        }
                    }
                }
                let off = (good.len() - 4) / 2;
                push(&mut good, 0x8000 | off as u16);
                one(&good, 1 << 15)?;
                let spots: Vec<usize> = if slots <= 140 { (0..slots).collect() } else { (0..6).chain((6..slots - 6).step_by(slots / 60)).chain((6..slots - 6).step_by(slots / 30 | 1)).chain(slots - 6..slots).collect() };
                for p in spots {
                    for w in words {
                        let mut b = good.clone();
                        let at = first + p * if wide { 4 } else { 2 };
                        b[at..at + 2].copy_from_slice(&w.to_be_bytes());
                        acc += u64::from(one(&b, 1 << 15)?);
                        cases += 1;
                        if wide && w >= 0x8000 {
                            b[at + 2..at + 4].copy_from_slice(&[0xff, 0xff]);
                            acc += u64::from(one(&b, 1 << 15)?);
                        }
                    }
                    cx.beat();
                }
                Ok(())
            });
            cx.cases(cases);
            cx.outcome(acc);
            finish(cx, "one bad element", r);
        }));
    }
    // nesting: everything up to a generous depth works on an ordinary stack
    v.push(scen(
        "nesting",
        "arrays, dicts and reference chains nested 1, 10, 100, 500, 1000 and 1500 deep, whole and damaged at the innermost value",
        1,
        |cx| {
            let n = [1, 10, 100, 500, 1000, 1500][cx.choose(6)];
            let kind = cx.choose(3);
            let broken = cx.flag();
            let b = deep(kind, n, broken);
            let fate = mem::in_child(60, || match guard(|| one_shallow(&b)) {
                Ok(Ok(_)) => 0,
                Ok(Err(_)) => 3,
                Err(_) => 4,
            });
            cx.cases(1);
            cx.check(fate == Fate::Ok, "nesting", || format!("kind {kind}, depth {n}: {fate:?}"));
        },
    ));
    // beyond: see known_findings.txt
    v.push(scen("deep nesting", "arrays nested 100000 deep", 0, |cx| {
        cx.choose(1);
        let b = deep(0, 100_000, false);
        let fate = mem::in_child(60, || i32::from(Value::from_bytes(&b).is_err()) * 0);
        cx.cases(1);
        cx.check(fate == Fate::Ok, "deep-nesting-100000", || format!("decoding 100000 nested arrays: {fate:?}"));
    }));
    v.push(scen("reference chain", "a chain of 100000 references", 0, |cx| {
        cx.choose(1);
        let b = deep(2, 100_000, false);
        let fate = mem::in_child(60, || i32::from(one_shallow(&b).is_err()));
        cx.cases(1);
        cx.check(fate == Fate::Ok, "reference-chain", || format!("decoding a chain of 100000 references: {fate:?}"));
    }));
    v.push(scen("shared sub-arrays", "34 arrays, each holding the previous one twice", 0, |cx| {
        cx.choose(1);
        let b = dag(34);
        let fate = mem::in_child(3, || i32::from(Value::from_bytes(&b).is_err()) * 0);
        cx.cases(1);
        cx.check(fate == Fate::Ok, "shared-subarrays-34", || format!("decoding 34 levels of doubly referenced arrays ({} bytes): {fate:?}", b.len()));
    }));
    v
}

fn dag(levels: usize) -> Vec<u8> {
    let mut b = vec![0x60, 0x00];
    let mut prev = 0usize;
    for _ in 0..levels {
        let at = b.len();
        push(&mut b, 0x6002);
        for _ in 0..2 {
            let off = (b.len() - prev) / 2;
            push(&mut b, 0x8000 | off as u16);
        }
        prev = at;
    }
    let off = (b.len() - prev) / 2;
    push(&mut b, 0x8000 | off as u16);
    b
}

fn deep(kind: usize, n: usize, broken: bool) -> Vec<u8> {
    let mut b = vec![];
    push(&mut b, if broken { 0x6fff } else { 0x6000 });
    if kind == 2 {
        // wide references, each to the one before
        let mut off = 1u32;
        for _ in 0..n {
            b.extend((0x8000_0000 | off).to_be_bytes());
            off = 2;
        }
        push(&mut b, 0x8002);
        return b;
    }
    let mut off = 1u16;
    for _ in 0..n {
        if kind == 0 {
            push(&mut b, 0x6001);
            push(&mut b, 0x8000 | (off + 1));
            off = 2;
        } else {
            push(&mut b, 0x7001);
            push(&mut b, 0x4161);
            push(&mut b, 0x8000 | (off + 2));
            off = 3;
        }
    }
    push(&mut b, 0x8000 | off);
    b
}

fn one_shallow(b: &[u8]) -> Result<bool, String> {
    let Ok(v) = Value::from_bytes(b) else {
        return Ok(false);
    };
    SK.with(|sk| Walk::new(b).value(v, sk))?;
    Ok(true)
}
