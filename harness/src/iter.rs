//! Everything an iterator can be asked for, against what it yields when it is asked one element at a time.

use crate::anydoc::AnyDoc;
use crate::doc::Doc;
use serde::de::{self, Deserialize, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use std::fmt::Debug;

/// `mk` makes a fresh iterator over the same thing every time; `id` tells its items apart.
pub fn agrees<I: Iterator, T: PartialEq + Debug>(what: &str, mk: &dyn Fn() -> I, id: &dyn Fn(I::Item) -> T) -> Result<usize, String> {
    check(what, mk, id, true)
}

/// The same for an iterator that does not claim to know how many elements are left: its hint only has to be right.
pub fn agrees_inexact<I: Iterator, T: PartialEq + Debug>(what: &str, mk: &dyn Fn() -> I, id: &dyn Fn(I::Item) -> T) -> Result<usize, String> {
    check(what, mk, id, false)
}

fn check<I: Iterator, T: PartialEq + Debug>(what: &str, mk: &dyn Fn() -> I, id: &dyn Fn(I::Item) -> T, exact: bool) -> Result<usize, String> {
    let hint = |(lo, hi): (usize, Option<usize>), n: usize| if exact { lo == n && hi == Some(n) } else { lo <= n && hi.is_none_or(|h| n <= h) };
    let mut all = vec![];
    let mut it = mk();
    while let Some(x) = it.next() {
        all.push(id(x));
    }
    let n = all.len();
    let starts: Vec<usize> = if n <= 24 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
    for &from in &starts {
        let mk = || {
            let mut it = mk();
            for _ in 0..from {
                it.next();
            }
            it
        };
        let rest = &all[from..];
        let bad = |how: &str, got: &dyn Debug, want: &dyn Debug| Err(format!("{what} of {n}, {from} taken: {how} gives {got:?}, expected {want:?}"));
        if !hint(mk().size_hint(), rest.len()) {
            return bad("size_hint", &mk().size_hint(), &rest.len());
        }
        let c = mk().count();
        if c != rest.len() {
            return bad("count", &c, &rest.len());
        }
        let l = mk().last().map(id);
        if l.as_ref() != rest.last() {
            return bad("last", &l, &rest.last());
        }
        // one by one through the combinators, which use nth, fold, size_hint ...
        let skips: Vec<usize> = if n <= 24 { (0..=rest.len() + 1).collect() } else { vec![0, 1, 2, 5, rest.len() / 2, rest.len().saturating_sub(1), rest.len(), rest.len() + 1, usize::MAX] };
        for k in skips {
            let mut it = mk();
            let g = it.nth(k).map(id);
            if g.as_ref() != rest.get(k) {
                return bad(&format!("nth({k})"), &g, &rest.get(k));
            }
            let left = rest.len().saturating_sub(k).saturating_sub(1);
            if !hint(it.size_hint(), left) {
                return bad(&format!("size_hint after nth({k})"), &it.size_hint(), &left);
            }
            let g = it.next().map(id);
            let w = k.checked_add(1).and_then(|k| rest.get(k));
            if g.as_ref() != w {
                return bad(&format!("next after nth({k})"), &g, &w);
            }
            let c = mk().skip(k).count();
            if c != rest.len().saturating_sub(k) {
                return bad(&format!("skip({k}).count"), &c, &rest.len().saturating_sub(k));
            }
        }
        let v: Vec<T> = mk().map(id).collect();
        if v != rest {
            return bad("collect", &v.len(), &rest.len());
        }
        let mut v = vec![];
        mk().for_each(|x| v.push(id(x)));
        if v != rest {
            return bad("for_each", &v.len(), &rest.len());
        }
        for step in [2usize, 3] {
            let v: Vec<T> = mk().step_by(step).map(id).collect();
            if v.iter().ne(rest.iter().step_by(step)) {
                return bad(&format!("step_by({step})"), &v.len(), &rest.iter().step_by(step).count());
            }
        }
    }
    Ok(n)
}

/// What a serde visitor is told and given: the content, and whether every hint was right.
pub struct Hinted(pub Doc);

struct H;

fn hint<E: de::Error>(hints: &[Option<usize>]) -> Result<(), E> {
    let n = hints.len() - 1;
    for (k, h) in hints.iter().enumerate() {
        if h.is_some_and(|h| h != n - k) {
            return Err(E::custom(format!("a visitor of {n} elements is told {h:?} when {} are left", n - k)));
        }
    }
    Ok(())
}

impl<'de> Visitor<'de> for H {
    type Value = Hinted;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("an array or a dict")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
        let mut hints = vec![a.size_hint()];
        let mut v = vec![];
        while let Some(AnyDoc(x)) = a.next_element()? {
            v.push(x);
            hints.push(a.size_hint());
        }
        hint(&hints)?;
        if a.next_element::<IgnoredAny>()?.is_some() || !matches!(a.size_hint(), None | Some(0)) {
            return Err(de::Error::custom("there is more after the end"));
        }
        Ok(Hinted(Doc::Arr(v)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Hinted, A::Error> {
        let mut hints = vec![a.size_hint()];
        let mut v = vec![];
        while let Some(AnyDoc(k)) = a.next_key()? {
            let Doc::Str(k) = k else {
                return Err(de::Error::custom("key is not a string"));
            };
            let AnyDoc(x) = a.next_value()?;
            v.push((k, x));
            hints.push(a.size_hint());
        }
        hint(&hints)?;
        if a.next_key::<IgnoredAny>()?.is_some() || !matches!(a.size_hint(), None | Some(0)) {
            return Err(de::Error::custom("there is more after the end"));
        }
        Ok(Hinted(Doc::Dict(v)))
    }
}

impl<'de> Deserialize<'de> for Hinted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hinted, D::Error> {
        d.deserialize_any(H)
    }
}

/// The same asked for as a sequence or as a map.
pub struct HintedAs(pub Doc);

impl<'de> Deserialize<'de> for HintedAs {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<HintedAs, D::Error> {
        d.deserialize_seq(H).map(|h| HintedAs(h.0))
    }
}

/// A map.
pub struct HintedMap(pub Doc);

impl<'de> Deserialize<'de> for HintedMap {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<HintedMap, D::Error> {
        d.deserialize_map(H).map(|h| HintedMap(h.0))
    }
}
