//! Mutable collections driven by all operation sequences, against a plain model (C16, C17).

use crate::doc::*;
use crate::engine::*;
use fleece::encoder::{NullValue, UndefinedValue};
use fleece::{Array, Dict, MutableArray, MutableDict, SharedKeys, Value};
use std::sync::Arc;

pub enum Coll {
    Arr(MutableArray),
    Dict(MutableDict),
}

enum CollMut<'a> {
    Arr(&'a mut MutableArray),
    Dict(&'a mut MutableDict),
}

impl Coll {
    fn copy(&self) -> Coll {
        match self {
            Coll::Arr(a) => Coll::Arr(Clone::clone(a)),
            Coll::Dict(a) => Coll::Dict(Clone::clone(a)),
        }
    }
}

#[derive(Clone, Debug)]
enum Step {
    At(usize),
    Key(String),
}

#[derive(Clone, Debug)]
enum New {
    Leaf(Doc),
    /// a fresh empty collection
    EmptyArr,
    EmptyDict,
    /// a fresh dict with shared keys of its own
    SharedDict,
    /// a decoded value: handed in as such, or as a self-owning collection
    Fleece(Doc),
    Alloced(Doc),
    /// a clone of the whole current collection
    Whole,
}

#[derive(Clone, Debug)]
enum Op {
    Insert(String, New),
    RemoveKey(String),
    Push(New),
    Set(usize, New),
    Remove(usize),
    /// clone; go on with the original (0) or with the clone (1)
    Clone(bool),
    /// go on with the handle kept aside longest
    Swap,
}

pub struct Cfg {
    pub depth: usize,
    pub keys: Vec<&'static str>,
    pub leaves: Vec<Doc>,
    pub decoded: Vec<Doc>,
    /// the other ways to build nested collections
    pub rich: bool,
    pub nodes: usize,
    pub nest: usize,
}

pub fn shared(keys: &[&str]) -> Arc<SharedKeys> {
    let mut sk = SharedKeys::new();
    for k in keys {
        sk.encode_and_insert(k);
    }
    Arc::new(sk)
}

fn size(d: &Doc) -> usize {
    1 + match d {
        Doc::Arr(x) => x.iter().map(size).sum::<usize>(),
        Doc::Dict(x) => x.iter().map(|x| size(&x.1)).sum(),
        _ => 0,
    }
}

/// The collections of a document, outermost first.
fn places(d: &Doc, nest: usize, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    if !d.is_collection() {
        return;
    }
    out.push(at.clone());
    if nest == 0 {
        return;
    }
    match d {
        Doc::Arr(xs) => {
            for (i, x) in xs.iter().enumerate() {
                at.push(Step::At(i));
                places(x, nest - 1, at, out);
                at.pop();
            }
        }
        Doc::Dict(xs) => {
            for (k, x) in xs {
                at.push(Step::Key(k.clone()));
                places(x, nest - 1, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn find<'a>(d: &'a mut Doc, at: &[Step]) -> &'a mut Doc {
    let Some((first, rest)) = at.split_first() else { return d };
    match (d, first) {
        (Doc::Arr(xs), Step::At(i)) => find(&mut xs[*i], rest),
        (Doc::Dict(xs), Step::Key(k)) => find(&mut xs.iter_mut().find(|x| x.0 == *k).unwrap().1, rest),
        _ => unreachable!(),
    }
}

fn reach<'a>(c: CollMut<'a>, at: &[Step]) -> Result<CollMut<'a>, String> {
    let Some((first, rest)) = at.split_first() else { return Ok(c) };
    let none = || format!("the nested collection at {first:?} cannot be reached");
    let next = match (c, first) {
        (CollMut::Arr(a), Step::At(i)) => {
            if a.get_array(*i).is_some() {
                if a.get_dict_mut(*i).is_some() {
                    return Err(format!("get_dict_mut gives an array at {first:?}"));
                }
                CollMut::Arr(a.get_array_mut(*i).ok_or_else(none)?)
            } else {
                if a.get_array_mut(*i).is_some() {
                    return Err(format!("get_array_mut gives something at {first:?}"));
                }
                CollMut::Dict(a.get_dict_mut(*i).ok_or_else(none)?)
            }
        }
        (CollMut::Dict(a), Step::Key(k)) => {
            if a.get_array(k).is_some() {
                if a.get_dict_mut(k).is_some() {
                    return Err(format!("get_dict_mut gives an array at {first:?}"));
                }
                CollMut::Arr(a.get_array_mut(k).ok_or_else(none)?)
            } else {
                if a.get_array_mut(k).is_some() {
                    return Err(format!("get_array_mut gives something at {first:?}"));
                }
                CollMut::Dict(a.get_dict_mut(k).ok_or_else(none)?)
            }
        }
        _ => return Err("the kind of a nested collection changed".into()),
    };
    reach(next, rest)
}

pub fn insert_leaf(m: &mut MutableDict, k: &str, d: &Doc) {
    match d {
        Doc::Null => m.insert(k, NullValue),
        Doc::Undef => m.insert(k, UndefinedValue),
        Doc::Bool(x) => m.insert(k, *x),
        Doc::Int(x) => match i64::try_from(*x) {
            Ok(x) => m.insert(k, x),
            Err(_) => m.insert(k, *x as u64),
        },
        Doc::F32(b) => m.insert(k, f32::from_bits(*b)),
        Doc::F64(b) => m.insert(k, f64::from_bits(*b)),
        Doc::Str(x) => m.insert(k, x.as_str()),
        Doc::Data(x) => m.insert(k, x.as_slice()),
        _ => unreachable!(),
    }
}

pub fn push_leaf(m: &mut MutableArray, d: &Doc) {
    match d {
        Doc::Null => m.push(&NullValue),
        Doc::Undef => m.push(&UndefinedValue),
        Doc::Bool(x) => m.push(x),
        Doc::Int(x) => match i64::try_from(*x) {
            Ok(x) => m.push(&x),
            Err(_) => m.push(&(*x as u64)),
        },
        Doc::F32(b) => m.push(&f32::from_bits(*b)),
        Doc::F64(b) => m.push(&f64::from_bits(*b)),
        Doc::Str(x) => m.push(x.as_str()),
        Doc::Data(x) => m.push(x.as_slice()),
        _ => unreachable!(),
    }
}

pub fn set_leaf(m: &mut MutableArray, i: usize, d: &Doc) {
    match d {
        Doc::Null => m.set(i, NullValue),
        Doc::Undef => m.set(i, UndefinedValue),
        Doc::Bool(x) => m.set(i, *x),
        Doc::Int(x) => match i64::try_from(*x) {
            Ok(x) => m.set(i, x),
            Err(_) => m.set(i, *x as u64),
        },
        Doc::F32(b) => m.set(i, f32::from_bits(*b)),
        Doc::F64(b) => m.set(i, f64::from_bits(*b)),
        Doc::Str(x) => m.set(i, x.as_str()),
        Doc::Data(x) => m.set(i, x.as_slice()),
        _ => unreachable!(),
    }
}

/// A decoded document; its bytes are overwritten when it goes.
struct Src(Vec<u8>);
impl Src {
    fn new(d: &Doc) -> Result<Src, String> {
        Ok(Src(encode(&Doc::Arr(vec![d.clone()]))?))
    }
    fn value(&self) -> Result<&Value, String> {
        let a = Array::from_bytes(&self.0).map_err(|e| format!("{e:?}"))?;
        a.get(0).ok_or_else(|| "no value".into())
    }
}

fn model_of(n: &New, whole: &Doc) -> Doc {
    match n {
        New::Leaf(d) | New::Fleece(d) | New::Alloced(d) => d.clone(),
        New::EmptyArr => Doc::Arr(vec![]),
        New::EmptyDict | New::SharedDict => Doc::Dict(vec![]),
        New::Whole => whole.clone(),
    }
}

fn alloced(d: &Doc) -> Result<Coll, String> {
    let b = encode(d)?;
    Ok(match d {
        Doc::Arr(_) => Coll::Arr(Array::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?.into()),
        _ => Coll::Dict(Dict::clone_from_bytes(&b).map_err(|e| format!("{e:?}"))?.into()),
    })
}

fn made(n: &New, whole: &Coll) -> Result<Option<Coll>, String> {
    Ok(Some(match n {
        New::Leaf(_) | New::Fleece(_) => return Ok(None),
        New::EmptyArr => Coll::Arr(MutableArray::new()),
        New::EmptyDict => Coll::Dict(MutableDict::new()),
        New::SharedDict => Coll::Dict(MutableDict::new_with_shared_keys(shared(&["b", "a"]))),
        New::Alloced(d) => alloced(d)?,
        New::Whole => whole.copy(),
    }))
}

fn apply(c: &mut Coll, at: &[Step], op: &Op, whole: Option<Coll>) -> Result<(), String> {
    let root = match c {
        Coll::Arr(a) => CollMut::Arr(a),
        Coll::Dict(a) => CollMut::Dict(a),
    };
    match (reach(root, at)?, op) {
        (CollMut::Dict(m), Op::Insert(k, n)) => match (n, whole) {
            (New::Leaf(d), _) => insert_leaf(m, k, d),
            (_, Some(Coll::Arr(a))) => m.insert_array(k, a),
            (_, Some(Coll::Dict(a))) => m.insert_dict(k, a),
            (New::Fleece(d), None) => {
                // there is no insert_fleece: the borrowed conversions are used
                let s = Src::new(d)?;
                let v = s.value()?;
                if let Some(a) = v.as_array() {
                    m.insert_array(k, a);
                } else if let Some(a) = v.as_dict() {
                    m.insert_dict(k, a.to_mutable());
                }
            }
            _ => unreachable!(),
        },
        (CollMut::Dict(m), Op::RemoveKey(k)) => m.remove(k),
        (CollMut::Arr(m), Op::Push(n)) => match (n, whole) {
            (New::Leaf(d), _) => push_leaf(m, d),
            (New::Fleece(d), _) => m.push_fleece(Src::new(d)?.value()?),
            _ => unreachable!(),
        },
        (CollMut::Arr(m), Op::Set(i, n)) => match (n, whole) {
            (New::Leaf(d), _) => set_leaf(m, *i, d),
            (New::Fleece(d), _) => m.set_fleece(*i, Src::new(d)?.value()?),
            (_, Some(Coll::Arr(a))) => m.set_array(*i, a),
            (_, Some(Coll::Dict(a))) => m.set_dict(*i, a),
            _ => unreachable!(),
        },
        (CollMut::Arr(m), Op::Remove(i)) => m.remove(*i),
        _ => return Err("the kind of a nested collection changed".into()),
    }
    Ok(())
}

fn apply_model(d: &mut Doc, op: &Op, new: Option<Doc>) {
    match (d, op) {
        (Doc::Dict(xs), Op::Insert(k, _)) => match xs.iter_mut().find(|x| x.0 == *k) {
            Some(x) => x.1 = new.unwrap(),
            None => xs.push((k.clone(), new.unwrap())),
        },
        (Doc::Dict(xs), Op::RemoveKey(k)) => xs.retain(|x| x.0 != *k),
        (Doc::Arr(xs), Op::Push(_)) => xs.push(new.unwrap()),
        (Doc::Arr(xs), Op::Set(i, _)) => xs[*i] = new.unwrap(),
        (Doc::Arr(xs), Op::Remove(i)) => {
            if *i < xs.len() {
                xs.remove(*i);
            }
        }
        _ => unreachable!(),
    }
}

/// Tells slots apart.
pub fn slot_id(v: Option<&Value>, a: Option<&MutableArray>, d: Option<&MutableDict>) -> (usize, usize, usize) {
    (
        v.map_or(0, |x| std::ptr::from_ref(x).cast::<u8>() as usize),
        a.map_or(0, |x| std::ptr::from_ref(x) as usize),
        d.map_or(0, |x| std::ptr::from_ref(x) as usize),
    )
}

fn dict_absent(m: &MutableDict, xs: &[(String, Doc)], keys: &[&str]) -> Result<(), String> {
    for k in keys {
        for k in [(*k).to_string(), format!("{k}~"), format!("{k}\0")] {
            let w = xs.iter().any(|x| x.0 == k);
            if m.contains_key(&k) != w {
                return Err(format!("contains_key({k:?}) gives {}", !w));
            }
            if !w && (m.get(&k).is_some() || m.get_array(&k).is_some() || m.get_dict(&k).is_some()) {
                return Err(format!("something is found under {k:?}"));
            }
        }
    }
    for (k, x) in xs {
        if x.is_collection() {
            continue;
        }
        if !std::ptr::eq(&m[k.as_str()], m.get(k).ok_or("nothing")?) {
            return Err(format!("indexing with {k:?} gives another value"));
        }
    }
    Ok(())
}

pub fn check(c: &Coll, d: &Doc, keys: &[&str]) -> Result<(), String> {
    let mut at = String::from("$");
    match (c, d) {
        (Coll::Arr(m), Doc::Arr(xs)) => {
            verify_marr(m, xs, &mut at)?;
            for i in [xs.len(), xs.len() + 1, 1 << 16, usize::MAX] {
                if m.get(i).is_some() || m.get_array(i).is_some() || m.get_dict(i).is_some() {
                    return Err(format!("something at index {i} of {}", xs.len()));
                }
            }
            for (i, x) in xs.iter().enumerate() {
                if !x.is_collection() && !std::ptr::eq(&m[i], m.get(i).ok_or("nothing")?) {
                    return Err(format!("indexing with {i} gives another value"));
                }
            }
            if (&*m).into_iter().count() != xs.len() {
                return Err("into_iter".into());
            }
            Ok(())
        }
        (Coll::Dict(m), Doc::Dict(xs)) => {
            verify_mdict(m, xs, &mut at)?;
            if m.into_iter().count() != xs.len() {
                return Err("into_iter".into());
            }
            dict_absent(m, xs, keys)
        }
        _ => Err("kind".into()),
    }
}

/// All operations offered at a place holding `d`.
fn ops(d: &Doc, cfg: &Cfg, root: bool, room: usize, out: &mut Vec<Op>) {
    let mut news: Vec<New> = cfg.leaves.iter().cloned().map(New::Leaf).collect();
    if room > 1 || root {
        news.extend([New::EmptyArr, New::EmptyDict]);
        if cfg.rich && root {
            news.push(New::SharedDict);
            news.push(New::Whole);
        }
    }
    match d {
        Doc::Dict(_) => {
            for (ki, k) in cfg.keys.iter().enumerate() {
                for (vi, n) in news.iter().enumerate() {
                    // the first key gets everything, the others one leaf and one collection
                    if ki > 0 && (vi > 0 && !(ki == 1 && matches!(n, New::EmptyDict))) {
                        continue;
                    }
                    out.push(Op::Insert((*k).into(), n.clone()));
                }
                out.push(Op::RemoveKey((*k).into()));
            }
            if cfg.rich {
                for x in &cfg.decoded {
                    if x.is_collection() && root {
                        out.push(Op::Insert(cfg.keys[0].into(), New::Fleece(x.clone())));
                        out.push(Op::Insert(cfg.keys[1].into(), New::Alloced(x.clone())));
                    }
                }
            }
        }
        Doc::Arr(xs) => {
            for n in &news {
                if let New::Leaf(_) = n {
                    out.push(Op::Push(n.clone()));
                }
                for i in 0..xs.len() {
                    if i > 0 && !matches!(n, New::Leaf(_) | New::EmptyDict) {
                        continue;
                    }
                    out.push(Op::Set(i, n.clone()));
                }
            }
            if cfg.rich {
                for x in &cfg.decoded {
                    out.push(Op::Push(New::Fleece(x.clone())));
                    if !xs.is_empty() && root {
                        out.push(Op::Set(xs.len() - 1, New::Fleece(x.clone())));
                        if x.is_collection() {
                            out.push(Op::Set(0, New::Alloced(x.clone())));
                        }
                    }
                }
            }
            for i in 0..=xs.len() {
                out.push(Op::Remove(i));
            }
            if root {
                out.push(Op::Remove(xs.len() + 1));
                out.push(Op::Remove(usize::MAX));
            }
        }
        _ => {}
    }
}

/// Drive one collection through all operation sequences within the bounds.
pub fn drive(cx: &mut Cx, cfg: &Cfg, start: Coll, d0: Doc) {
    let mut cur = (start, d0);
    let mut aside: Vec<(Coll, Doc)> = vec![];
    for step in 0..cfg.depth {
        let mut at = vec![];
        let mut where_ = vec![];
        places(&cur.1, cfg.nest, &mut at, &mut where_);
        let mut all: Vec<(usize, Op)> = vec![];
        let room = cfg.nodes.saturating_sub(size(&cur.1));
        for (pi, p) in where_.iter().enumerate() {
            let mut o = vec![];
            let d = find(&mut cur.1, p).clone();
            ops(&d, cfg, p.is_empty(), room, &mut o);
            all.extend(o.into_iter().map(|o| (pi, o)));
        }
        if step + 1 < cfg.depth {
            all.push((0, Op::Clone(false)));
            all.push((0, Op::Clone(true)));
            if !aside.is_empty() {
                all.push((0, Op::Swap));
            }
        }
        let k = cx.choose(all.len() + 1);
        if k == all.len() {
            break;
        }
        let (pi, op) = all.swap_remove(k);
        let p = &where_[pi];
        cx.ops(1);
        cx.note(|| format!("at {p:?}: {op:?}"));
        let fresh = cx.fresh();
        let r = cx.call("operation", || -> Result<(), String> {
            match &op {
                Op::Clone(swap) => {
                    let c = (cur.0.copy(), cur.1.clone());
                    aside.push(if *swap { std::mem::replace(&mut cur, c) } else { c });
                }
                Op::Swap => {
                    let c = aside.remove(0);
                    aside.push(std::mem::replace(&mut cur, c));
                }
                Op::Insert(_, n) | Op::Push(n) | Op::Set(_, n) => {
                    let new = made(n, &cur.0)?;
                    apply(&mut cur.0, p, &op, new)?;
                    let new = model_of(n, &cur.1);
                    apply_model(find(&mut cur.1, p), &op, Some(new));
                }
                Op::RemoveKey(_) | Op::Remove(_) => {
                    apply(&mut cur.0, p, &op, None)?;
                    apply_model(find(&mut cur.1, p), &op, None);
                }
            }
            if fresh {
                check(&cur.0, &cur.1, &cfg.keys).map_err(|e| format!("after {op:?} at {p:?}: {e}; expected {}", cur.1.show()))?;
                for (c, d) in &aside {
                    check(c, d, &cfg.keys).map_err(|e| format!("a clone changed by {op:?} at {p:?}: {e}; expected {}", d.show()))?;
                }
            }
            Ok(())
        });
        cx.want("mutable collection", r);
        if fresh {
            cx.outcome(hash_bytes(cur.1.show().as_bytes()));
        }
    }
    cx.cases(1);
}
