//! C28: handles compare by what they refer to.

use crate::doc::*;
use crate::engine::*;
use fleece::alloced::{Alloced, AllocedArray, AllocedDict, AllocedValue};
use fleece::{Array, Dict, Encoder, Scope, SharedKeys, Value};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// All that equality and order have to satisfy among these handles; equal numbers are the same value in memory.
fn relations<T: ?Sized>(all: &[(u32, Alloced<T>)]) -> Result<u64, String> {
    let mut n = 0;
    for (i, (a, x)) in all.iter().enumerate() {
        let p: *const T = x.value();
        let q: &T = x.as_ref();
        let b: &T = <Alloced<T> as Borrow<T>>::borrow(x);
        let d: &T = x;
        let r: &*const T = <Alloced<T> as Borrow<*const T>>::borrow(x);
        if ![q, b, d, unsafe { &**r }].iter().all(|y| std::ptr::addr_eq(p, *y as *const T)) {
            return Err(format!("handle {i}: value, as_ref, borrow and deref differ"));
        }
        for (j, (b, y)) in all.iter().enumerate() {
            n += 1;
            let same = a == b;
            if (x == y) != same || (x != y) == same {
                return Err(format!("handles {i} and {j} are {}the same value, == gives {}, != gives {}", if same { "" } else { "not " }, x == y, x != y));
            }
            let o = x.cmp(y);
            if (o == Ordering::Equal) != same || o != y.cmp(x).reverse() || x.partial_cmp(y) != Some(o) {
                return Err(format!("handles {i} and {j}: cmp gives {o:?} and {:?}, partial_cmp {:?}", y.cmp(x), x.partial_cmp(y)));
            }
            if (x < y, x <= y, x > y, x >= y) != (o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()) {
                return Err(format!("handles {i} and {j}: the operators disagree with cmp"));
            }
            if std::ptr::eq(x.clone().max(y.clone()).value(), if o.is_gt() { x.value() } else { y.value() }) {
                // the greater one
            } else {
                return Err(format!("handles {i} and {j}: max gives the other one"));
            }
            for (k, (_, z)) in all.iter().enumerate() {
                if o.is_le() && y <= z && !(x <= z) {
                    return Err(format!("handles {i} <= {j} <= {k}, but not {i} <= {k}"));
                }
            }
        }
    }
    Ok(n)
}

/// Ordered collections of handles.
fn ordered<T: ?Sized>(all: &[(u32, Alloced<T>)], order: &[usize]) -> Result<(), String> {
    let mut set = BTreeSet::new();
    let mut map: BTreeMap<Alloced<T>, u32> = BTreeMap::new();
    let mut model: BTreeSet<u32> = BTreeSet::new();
    for k in order {
        let (id, x) = &all[*k];
        if set.insert(x.clone()) != model.insert(*id) {
            return Err(format!("inserting handle {k} in an ordered set says {}", model.contains(id)));
        }
        *map.entry(x.clone()).or_insert(*id) += 0;
        for (j, (b, y)) in all.iter().enumerate() {
            let p: *const T = y.value();
            let want = model.contains(b);
            let by_pointer = set.contains::<*const T>(&p);
            if set.contains(y) != want || by_pointer != want || map.get(y).copied() != want.then_some(*b) || map.get::<*const T>(&p).copied() != want.then_some(*b) {
                return Err(format!("after inserting {order:?} up to {k}: handle {j} is found {} by itself, {by_pointer} by its pointer, {:?} in a map, expected {want}", set.contains(y), map.get(y)));
            }
        }
    }
    let mut sorted: Vec<_> = all.iter().map(|x| x.1.clone()).collect();
    sorted.sort();
    if sorted.windows(2).any(|w| w[0] > w[1]) {
        return Err("sorted handles are not in order".into());
    }
    for k in order {
        let (id, x) = &all[*k];
        let p: *const T = x.value();
        if set.remove::<*const T>(&p) != model.remove(id) {
            return Err(format!("removing handle {k} by its pointer says {}", !model.contains(id)));
        }
    }
    Ok(())
}

struct World {
    values: Vec<(u32, AllocedValue)>,
    dicts: Vec<(u32, AllocedDict)>,
    arrays: Vec<(u32, AllocedArray)>,
    scopes: Vec<(u32, Arc<Scope>)>,
    next: u32,
}

impl World {
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn check(&self) -> Result<u64, String> {
        let mut n = relations(&self.values).map_err(|e| format!("values: {e}"))?;
        n += relations(&self.dicts).map_err(|e| format!("dicts: {e}"))?;
        n += relations(&self.arrays).map_err(|e| format!("arrays: {e}"))?;
        for (i, (a, x)) in self.scopes.iter().enumerate() {
            for (j, (b, y)) in self.scopes.iter().enumerate() {
                n += 1;
                if (x == y) != (a == b) || (**x != **y) == (a == b) {
                    return Err(format!("scopes {i} and {j} are {}of the same data, == gives {}", if a == b { "" } else { "not " }, x == y));
                }
            }
        }
        let count = self.values.len();
        let forth: Vec<usize> = (0..count).collect();
        let back: Vec<usize> = (0..count).rev().collect();
        let mixed: Vec<usize> = (0..count).map(|k| if k % 2 == 0 { k / 2 } else { count - 1 - k / 2 }).collect();
        for o in [forth, back, mixed] {
            ordered(&self.values, &o).map_err(|e| format!("values: {e}"))?;
        }
        let o: Vec<usize> = (0..self.dicts.len()).rev().collect();
        ordered(&self.dicts, &o).map_err(|e| format!("dicts: {e}"))?;
        let o: Vec<usize> = (0..self.arrays.len()).collect();
        ordered(&self.arrays, &o).map_err(|e| format!("arrays: {e}"))?;
        Ok(n)
    }
}

const OPS: [&str; 11] = [
    "copy of the dict's bytes", "copy of the array's bytes", "finished by an encoder", "clone of the first", "clone of the last", "last converted to its kind", "empty ones", "a scope and its root",
    "root of the last scope again", "another scope of the same data", "drop the first",
];

fn step(w: &mut World, op: usize, bytes: &[Vec<u8>; 2]) -> bool {
    match op {
        0 | 1 => {
            let id = w.fresh();
            w.values.push((id, Value::clone_from_bytes(&bytes[op]).expect("ENGINE: decode")));
            let id = w.fresh();
            if op == 0 {
                w.dicts.push((id, Dict::clone_from_bytes(&bytes[op]).expect("ENGINE: decode")));
            } else {
                w.arrays.push((id, Array::clone_from_bytes(&bytes[op]).expect("ENGINE: decode")));
            }
        }
        2 => {
            let mut e = Encoder::new();
            emit(&mut e, &dict(vec![("key", s("a value"))])).expect("ENGINE: emit");
            let id = w.fresh();
            w.values.push((id, e.finish_value()));
        }
        3 | 4 => {
            let k = if op == 3 { 0 } else { usize::MAX };
            let some = !w.values.is_empty() || !w.dicts.is_empty() || !w.arrays.is_empty();
            if !some {
                return false;
            }
            if let Some(x) = w.values.get(k.min(w.values.len().wrapping_sub(1))).cloned() {
                w.values.push(x);
            }
            if let Some(x) = w.dicts.get(k.min(w.dicts.len().wrapping_sub(1))).cloned() {
                w.dicts.push(x);
            }
            if let Some(x) = w.arrays.get(k.min(w.arrays.len().wrapping_sub(1))).cloned() {
                w.arrays.push(x);
            }
        }
        5 => {
            let Some((id, x)) = w.values.last().cloned() else { return false };
            // numbers of converted handles are those of the value
            let id = id + 1000;
            match x.clone().to_dict() {
                Some(d) => w.dicts.push((id, d)),
                None => w.arrays.push((id, x.to_array().expect("ENGINE: neither"))),
            }
        }
        6 => {
            w.dicts.push((0, AllocedDict::empty()));
            w.arrays.push((0, AllocedArray::empty()));
        }
        7 => {
            let sc = Scope::new(bytes[0].clone(), (w.next % 2 == 0).then(|| Arc::new(SharedKeys::new())));
            let id = w.fresh();
            w.values.push((id, sc.root().expect("ENGINE: root")));
            w.scopes.push((id, sc));
        }
        8 => {
            let Some((id, sc)) = w.scopes.last().cloned() else { return false };
            w.values.push((id, sc.root().expect("ENGINE: root")));
            w.scopes.push((id, sc));
        }
        9 => {
            let Some((id, sc)) = w.scopes.last().cloned() else { return false };
            let other = Scope::new(sc.data().expect("ENGINE: data"), None);
            w.values.push((id, other.root().expect("ENGINE: root")));
            w.scopes.push((id, other));
        }
        _ => {
            if w.values.is_empty() {
                return false;
            }
            w.values.remove(0);
            if !w.dicts.is_empty() {
                w.dicts.remove(0);
            }
            if !w.scopes.is_empty() {
                w.scopes.remove(0);
            }
        }
    }
    true
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let steps = t.sel(6usize, 7);
    v.push(scen("histories", format!("all histories of up to {steps} steps out of {} ({})", OPS.len(), OPS.join(", ")), 2, move |cx| {
        let bytes = [encode(&dict(vec![("key", s("a value"))])).expect("ENGINE: encode"), encode(&Doc::Arr(vec![s("a value"), i(1)])).expect("ENGINE: encode")];
        let mut w = World { values: vec![], dicts: vec![], arrays: vec![], scopes: vec![], next: 0 };
        let n = 1 + cx.choose(steps);
        for k in 0..n {
            let op = cx.choose(OPS.len());
            cx.note(|| OPS[op].to_string());
            cx.ops(1);
            if !step(&mut w, op, &bytes) {
                cx.prune();
            }
            // the histories that end earlier have looked at the rest
            if k + 1 == n {
                let r = cx.call("compare", || w.check());
                let c = cx.want("compare", r);
                cx.cases(c);
            }
        }
    }));
    let many = t.sel(60usize, 200);
    v.push(scen("many handles", format!("1 to {many} handles of separate copies, every third cloned, in one ordered set"), 1, move |cx| {
        let n = 1 + cx.choose(many);
        let docs = [Doc::Arr(vec![]), dict(vec![("k", i(1))]), Doc::Arr(vec![Doc::Str("x".repeat(n)), i(1)])];
        let r = cx.call("compare", || -> Result<u64, String> {
            let mut all = vec![];
            for k in 0..n {
                let b = encode(&docs[k % 3])?;
                let x = Value::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?;
                if k % 3 == 0 {
                    all.push((k as u32, x.clone()));
                }
                all.push((k as u32, x));
            }
            let order: Vec<usize> = (0..all.len()).map(|k| k * 7919 % all.len()).collect();
            ordered(&all, &order)?;
            relations(&all)
        });
        let c = cx.want("compare", r);
        cx.cases(c);
    }));
    v
}
