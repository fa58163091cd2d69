//! An independent implementation of the Fleece wire format, written from the format description
//! (and the C++ implementation's documentation), not from the crate: a strict decoder and an
//! encoder whose every legal choice is made by the caller.

use crate::doc::Doc;
use std::collections::HashMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ref {
    Ok(Doc),
    /// not a well-formed document: says why
    Bad(&'static str),
}

/// Rules the strict decoder enforces on top of well-formedness, for judging this crate's encoder.
#[derive(Clone, Copy, Default)]
pub struct Strict {
    /// dict keys sorted: shared integers ascending first, then strings by bytes
    pub sorted: bool,
    /// every value starts at an even offset
    pub even: bool,
}

struct Dec<'a> {
    b: &'a [u8],
    sk: &'a dyn Fn(u16) -> Option<String>,
    st: Strict,
    budget: usize,
}

pub fn decode(b: &[u8], sk: &dyn Fn(u16) -> Option<String>, st: Strict) -> Ref {
    let mut d = Dec { b, sk, st, budget: 2_000_000 };
    if b.len() < 2 || b.len() % 2 != 0 {
        return Ref::Bad("size");
    }
    let r = b.len() - 2;
    let res = if b[r] & 0x80 != 0 {
        d.slot(r, 2, r)
    } else if b.len() == 2 {
        d.value(0, 2)
    } else {
        return Ref::Bad("root is not a pointer");
    };
    match res {
        Ok(v) => Ref::Ok(v),
        Err(e) => Ref::Bad(e),
    }
}

type R<T> = Result<T, &'static str>;

impl Dec<'_> {
    /// The value in the slot at `at` (width 2 or 4); `end` is the first byte a pointed-to value must
    /// not reach (a value lies before whatever refers to it).
    fn slot(&mut self, at: usize, width: usize, end: usize) -> R<Doc> {
        if self.b[at] & 0x80 == 0 {
            return self.value(at, at + width);
        }
        let (mut at, mut width, mut end) = (at, width, end);
        loop {
            if self.budget == 0 {
                return Err("budget");
            }
            self.budget -= 1;
            if self.b[at] & 0x40 != 0 {
                return Err("external pointer");
            }
            let off = if width == 2 {
                (usize::from(self.b[at] & 0x3f) << 8 | usize::from(self.b[at + 1])) * 2
            } else {
                (usize::from(self.b[at] & 0x3f) << 24
                    | usize::from(self.b[at + 1]) << 16
                    | usize::from(self.b[at + 2]) << 8
                    | usize::from(self.b[at + 3]))
                    * 2
            };
            if off == 0 || off > at {
                return Err("pointer out of bounds");
            }
            let t = at - off;
            if self.st.even && t % 2 != 0 {
                return Err("odd address");
            }
            end = end.min(at);
            if self.b[t] & 0x80 != 0 {
                // a pointer reached through a pointer is always wide
                if t + 4 > end {
                    return Err("chained pointer does not fit");
                }
                at = t;
                width = 4;
                continue;
            }
            return self.value(t, end);
        }
    }

    fn varint(&self, at: usize, end: usize) -> R<(usize, u64)> {
        let mut v: u64 = 0;
        for k in 0..10 {
            if at + k >= end {
                return Err("truncated varint");
            }
            let x = self.b[at + k];
            let bits = u64::from(x & 0x7f);
            if k == 9 && x > 1 {
                return Err("varint overflow");
            }
            v |= bits << (7 * k);
            if x < 0x80 {
                if k > 0 && x == 0 {
                    return Err("non-canonical varint");
                }
                return Ok((k + 1, v));
            }
        }
        Err("varint too long")
    }

    fn value(&mut self, at: usize, end: usize) -> R<Doc> {
        if self.budget == 0 {
            return Err("budget");
        }
        self.budget -= 1;
        if at + 2 > end {
            return Err("value does not fit");
        }
        let (h, lo) = (self.b[at] >> 4, self.b[at] & 0x0f);
        match h {
            0 => {
                let v = (u16::from(lo) << 8) | u16::from(self.b[at + 1]);
                let v = if v & 0x800 != 0 { i128::from(v) - 0x1000 } else { i128::from(v) };
                Ok(Doc::Int(v))
            }
            1 => {
                let n = usize::from(lo & 7) + 1;
                if at + 1 + n > end {
                    return Err("int does not fit");
                }
                let mut v: i128 = 0;
                for k in 0..n {
                    v |= i128::from(self.b[at + 1 + k]) << (8 * k);
                }
                if lo & 8 == 0 && self.b[at + n] & 0x80 != 0 {
                    v -= 1i128 << (8 * n);
                }
                Ok(Doc::Int(v))
            }
            2 => {
                let n = if lo & 8 != 0 { 8 } else { 4 };
                if lo & 3 != 0 {
                    return Err("reserved float bits");
                }
                if at + 2 + n > end {
                    return Err("float does not fit");
                }
                if self.b[at + 1] != 0 {
                    return Err("float padding");
                }
                let raw = &self.b[at + 2..at + 2 + n];
                if n == 8 {
                    if lo & 4 != 0 {
                        return Err("reserved float bits");
                    }
                    Ok(Doc::F64(u64::from_le_bytes(raw.try_into().unwrap())))
                } else {
                    let f = f32::from_bits(u32::from_le_bytes(raw.try_into().unwrap()));
                    if lo & 4 != 0 {
                        Ok(Doc::F64(f64::from(f).to_bits()))
                    } else {
                        Ok(Doc::F32(f.to_bits()))
                    }
                }
            }
            3 => match lo {
                0 => Ok(Doc::Null),
                0xC => Ok(Doc::Undef),
                4 => Ok(Doc::Bool(false)),
                8 => Ok(Doc::Bool(true)),
                _ => Err("reserved special"),
            },
            4 | 5 => {
                let (start, len) = if lo == 0xF {
                    let (k, v) = self.varint(at + 1, end)?;
                    (at + 1 + k, usize::try_from(v).map_err(|_| "length")?)
                } else {
                    (at + 1, usize::from(lo))
                };
                if len > end || start + len > end {
                    return Err("string does not fit");
                }
                let raw = &self.b[start..start + len];
                if h == 4 {
                    match std::str::from_utf8(raw) {
                        Ok(x) => Ok(Doc::Str(x.to_string())),
                        Err(_) => Err("invalid UTF-8"),
                    }
                } else {
                    Ok(Doc::Data(raw.to_vec()))
                }
            }
            6 | 7 => {
                let wide = lo & 8 != 0;
                let w = if wide { 4 } else { 2 };
                let mut n = u64::from(lo & 7) << 8 | u64::from(self.b[at + 1]);
                let mut first = at + 2;
                if n == 0x7ff {
                    let (k, v) = self.varint(at + 2, end)?;
                    n = v;
                    first += k + (k & 1);
                }
                let slots = n.checked_mul(if h == 7 { 2 } else { 1 }).ok_or("count")?;
                let bytes = slots.checked_mul(w as u64).ok_or("count")?;
                if bytes > (end.saturating_sub(first)) as u64 || first > end {
                    return Err("collection does not fit");
                }
                let mut out = vec![];
                if h == 6 {
                    for k in 0..slots as usize {
                        let p = first + k * w;
                        out.push(self.slot(p, w, p)?);
                    }
                    Ok(Doc::Arr(out))
                } else {
                    let mut ents: Vec<(String, Doc)> = vec![];
                    let mut last: Option<(bool, u16, Vec<u8>)> = None;
                    for k in 0..n as usize {
                        let p = first + 2 * k * w;
                        let key = self.slot(p, w, p)?;
                        let (name, ord) = match key {
                            Doc::Str(x) => (x.clone(), (true, 0u16, x.into_bytes())),
                            Doc::Int(v) if (0..2048).contains(&v) => {
                                let v = v as u16;
                                match (self.sk)(v) {
                                    Some(x) => (x, (false, v, vec![])),
                                    None => return Err("unknown shared key"),
                                }
                            }
                            _ => return Err("dict key is neither a string nor a shared key"),
                        };
                        if self.st.sorted {
                            if let Some(l) = &last {
                                if *l >= ord {
                                    return Err("dict keys are not sorted");
                                }
                            }
                        }
                        last = Some(ord);
                        let val = self.slot(p + w, w, p + w)?;
                        ents.push((name, val));
                    }
                    Ok(Doc::Dict(ents))
                }
            }
            _ => unreachable!(),
        }
    }
}

/// Makes the encoding choices: `choice(n, what)` returns a value below `n`; 0 is the plain style.
pub trait Style {
    fn choice(&mut self, n: usize, what: &'static str) -> usize;
}

pub struct Plain;
impl Style for Plain {
    fn choice(&mut self, _: usize, _: &'static str) -> usize {
        0
    }
}

/// What a slot will hold.
#[derive(Clone, Debug)]
enum Cell {
    Inline(Vec<u8>),
    /// address of the value (or of a wide pointer to it)
    At(usize),
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    st: &'a mut dyn Style,
    /// key -> shared integer
    sk: &'a dyn Fn(&str) -> Option<u16>,
    seen: HashMap<String, usize>,
}

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 0x80 {
        o.push((v & 0x7f) as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
    o
}

/// All byte forms of a scalar; the first is the canonical one.
fn scalar_forms(d: &Doc) -> Vec<Vec<u8>> {
    let mut f: Vec<Vec<u8>> = vec![];
    match d {
        Doc::Null => f.push(vec![0x30, 0]),
        Doc::Undef => f.push(vec![0x3C, 0]),
        Doc::Bool(b) => f.push(vec![if *b { 0x38 } else { 0x34 }, 0]),
        Doc::Int(v) => {
            if (-2048..2048).contains(v) {
                let x = (*v as i16 as u16) & 0x0fff;
                f.push(vec![(x >> 8) as u8, x as u8]);
            }
            for n in 1..=8usize {
                // signed
                let (lo, hi) = (-(1i128 << (8 * n - 1)), (1i128 << (8 * n - 1)) - 1);
                if (lo..=hi).contains(v) {
                    let mut b = vec![0x10 | (n as u8 - 1)];
                    b.extend_from_slice(&v.to_le_bytes()[..n]);
                    f.push(b);
                }
            }
            for n in 1..=8usize {
                if (0..1i128 << (8 * n)).contains(v) {
                    let mut b = vec![0x18 | (n as u8 - 1)];
                    b.extend_from_slice(&v.to_le_bytes()[..n]);
                    f.push(b);
                }
            }
        }
        Doc::F32(b) => {
            let mut x = vec![0x20, 0];
            x.extend_from_slice(&b.to_le_bytes());
            f.push(x);
        }
        Doc::F64(b) => {
            let mut x = vec![0x28, 0];
            x.extend_from_slice(&b.to_le_bytes());
            f.push(x);
            let v = f64::from_bits(*b);
            let n = v as f32;
            if f64::from(n).to_bits() == *b {
                let mut x = vec![0x24, 0];
                x.extend_from_slice(&n.to_bits().to_le_bytes());
                f.push(x);
            }
        }
        Doc::Str(_) | Doc::Data(_) => {
            let (t, raw) = match d {
                Doc::Str(x) => (0x40u8, x.as_bytes()),
                Doc::Data(x) => (0x50u8, x.as_slice()),
                _ => unreachable!(),
            };
            if raw.len() < 15 {
                let mut x = vec![t | raw.len() as u8];
                x.extend_from_slice(raw);
                if x.len() < 2 {
                    x.push(0);
                }
                f.push(x);
            }
            let mut x = vec![t | 15];
            x.extend(varint(raw.len() as u64));
            x.extend_from_slice(raw);
            f.push(x);
        }
        _ => unreachable!(),
    }
    f
}

impl<'a> Enc<'a> {
    pub fn new(st: &'a mut dyn Style, sk: &'a dyn Fn(&str) -> Option<u16>) -> Self {
        Enc { out: vec![], st, sk, seen: HashMap::new() }
    }

    fn align(&mut self) {
        if self.out.len() % 2 != 0 {
            self.out.push(0);
        }
    }

    /// Write a value out of line; returns its address.
    fn place(&mut self, bytes: &[u8]) -> usize {
        self.align();
        let at = self.out.len();
        self.out.extend_from_slice(bytes);
        self.align();
        at
    }

    fn share_key(d: &Doc) -> String {
        format!("{d:?}")
    }

    /// Prepare a value for a slot: either inline bytes (at most `inline` of them) or an address.
    fn prepare(&mut self, d: &Doc, inline: usize) -> Cell {
        if !d.is_collection() {
            let forms = scalar_forms(d);
            let k = self.st.choice(forms.len(), "form");
            let b = forms[k].clone();
            // values of up to `inline` bytes may be stored in the slot itself
            if b.len() <= inline {
                // 0 = as plain writers do: inline when it fits in two bytes
                let c = self.st.choice(2, "inline/pointer");
                let inl = if b.len() <= 2 { c == 0 } else { c == 1 };
                if inl {
                    return Cell::Inline(b);
                }
            }
            let key = Self::share_key(d) + &format!("{k}");
            if let Some(at) = self.seen.get(&key) {
                let at = *at;
                if self.st.choice(2, "share") == 1 {
                    return Cell::At(at);
                }
            }
            let at = self.place(&b);
            self.seen.insert(key, at);
            return self.chain(at);
        }
        let key = Self::share_key(d);
        if let Some(at) = self.seen.get(&key) {
            let at = *at;
            if self.st.choice(2, "share") == 1 {
                return Cell::At(at);
            }
        }
        let empty = matches!(d, Doc::Arr(v) if v.is_empty()) || matches!(d, Doc::Dict(v) if v.is_empty());
        if empty && self.st.choice(2, "inline empty collection") == 1 {
            let t = if matches!(d, Doc::Arr(_)) { 0x60 } else { 0x70 };
            return Cell::Inline(vec![t, 0]);
        }
        let at = self.collection(d);
        self.seen.insert(key, at);
        self.chain(at)
    }

    /// Possibly insert wide pointers between the slot and the value.
    fn chain(&mut self, at: usize) -> Cell {
        let n = self.st.choice(3, "pointer chain");
        let mut at = at;
        for _ in 0..n {
            self.align();
            let p = self.out.len();
            let off = ((p - at) / 2) as u32;
            self.out.extend_from_slice(&(off | 0x8000_0000).to_be_bytes());
            at = p;
        }
        Cell::At(at)
    }

    fn collection(&mut self, d: &Doc) -> usize {
        let wide_wanted = self.st.choice(2, "wide") == 1;
        let inl = if wide_wanted { 4 } else { 2 };
        // slots, keys first for dicts
        let mut cells: Vec<Cell> = vec![];
        let n;
        match d {
            Doc::Arr(v) => {
                n = v.len();
                for x in v {
                    let c = self.prepare(x, inl);
                    cells.push(c);
                }
            }
            Doc::Dict(v) => {
                n = v.len();
                let mut ents: Vec<(Option<u16>, &String, &Doc)> = v
                    .iter()
                    .map(|(k, x)| ((self.sk)(k), k, x))
                    .collect();
                ents.sort_by(|a, b| match (a.0, b.0) {
                    (Some(x), Some(y)) => x.cmp(&y),
                    (Some(_), None) => std::cmp::Ordering::Less,
                    (None, Some(_)) => std::cmp::Ordering::Greater,
                    (None, None) => a.1.as_bytes().cmp(b.1.as_bytes()),
                });
                for (sk, k, x) in ents {
                    let kc = match sk {
                        Some(i) => Cell::Inline(vec![(i >> 8) as u8, i as u8]),
                        None => self.prepare(&Doc::Str(k.clone()), inl),
                    };
                    cells.push(kc);
                    let c = self.prepare(x, inl);
                    cells.push(c);
                }
            }
            _ => unreachable!(),
        }
        if self.st.choice(2, "gap") == 1 {
            self.align();
            self.out.extend_from_slice(&[0xEE, 0xEE]);
        }
        self.align();
        let at = self.out.len();
        let ext = n >= 0x7ff || self.st.choice(2, "extended count") == 1;
        let mut head = vec![];
        let t = if matches!(d, Doc::Arr(_)) { 0x60u8 } else { 0x70 };
        let c = if ext { 0x7ff } else { n as u16 };
        head.push(t | (c >> 8) as u8);
        head.push(c as u8);
        if ext {
            head.extend(varint(n as u64));
        }
        if head.len() % 2 != 0 {
            head.push(0);
        }
        let first = at + head.len();
        // does it fit in narrow slots?
        let need_wide = cells.iter().enumerate().any(|(k, c)| match c {
            Cell::At(a) => first + 2 * k - a > 2 * 0x3fff,
            Cell::Inline(b) => b.len() > 2,
        });
        let wide = wide_wanted || need_wide;
        if wide {
            head[0] |= 8;
        }
        self.out.extend_from_slice(&head);
        for c in &cells {
            let here = self.out.len();
            match c {
                Cell::Inline(b) => {
                    let mut b = b.clone();
                    b.resize(if wide { 4 } else { 2 }, 0);
                    self.out.extend_from_slice(&b);
                }
                Cell::At(a) => {
                    let off = (here - a) / 2;
                    if wide {
                        self.out.extend_from_slice(&(off as u32 | 0x8000_0000).to_be_bytes());
                    } else {
                        self.out.extend_from_slice(&(off as u16 | 0x8000).to_be_bytes());
                    }
                }
            }
        }
        at
    }

    pub fn finish(mut self, d: &Doc) -> Vec<u8> {
        if !d.is_collection() {
            let forms = scalar_forms(d);
            let k = self.st.choice(forms.len(), "form");
            let b = forms[k].clone();
            if b.len() == 2 && self.st.choice(2, "root scalar") == 0 {
                return b;
            }
            let at = self.place(&b);
            return self.root(at);
        }
        let at = self.collection(d);
        self.root(at)
    }

    fn root(mut self, at: usize) -> Vec<u8> {
        let n = self.st.choice(3, "root pointer chain");
        let mut at = at;
        self.align();
        for k in 0..3 {
            let far = self.out.len() - at > 2 * 0x3fff;
            if k >= n && !far {
                break;
            }
            let p = self.out.len();
            let off = ((p - at) / 2) as u32;
            self.out.extend_from_slice(&(off | 0x8000_0000).to_be_bytes());
            at = p;
        }
        let off = (self.out.len() - at) / 2;
        self.out.extend_from_slice(&(off as u16 | 0x8000).to_be_bytes());
        self.out
    }
}

pub fn encode_styled(d: &Doc, st: &mut dyn Style, sk: &dyn Fn(&str) -> Option<u16>) -> Vec<u8> {
    Enc::new(st, sk).finish(d)
}

pub fn no_sk(_: u16) -> Option<String> {
    None
}
pub fn no_sk_enc(_: &str) -> Option<u16> {
    None
}
