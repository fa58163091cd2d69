//! C25: nothing is kept once every handle is gone.
//!
//! The drivers of the other properties are run under an allocator that counts: blocks which an
//! execution leaves behind, and leaves behind again each time it is repeated, are kept by the library.

use crate::anydoc::AnyDoc;
use crate::doc::*;
use crate::engine::*;
use fleece::{Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

const FROM: [&str; 21] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23",
];
/// Many cases and nothing new about memory: in the thorough tier only.
const HEAVY: [&str; 22] = [
    "C02 i8/u8/i16/u16 all", "C02 32-bit strides", "C02 byte lattice", "C02 f32 lattice", "C02 f64 exponents", "C05 large styles", "C06 short strings", "C06 words 4", "C06 words 6", "C06 words 8", "C06 free word",
    "C06 extended lengths", "C06 shared sub-arrays", "C07 subsets", "C10 counts", "C10 lengths", "C18 counts", "C18 lengths", "C20 leaves",
    "C09 all calls", "C07 ordered selections", "C16 sequences, all sources",
];

fn leaks(cx: &mut Cx, f: &dyn Fn(&mut Cx)) {
    let (blocks, bytes) = cx.kept(f);
    cx.check(blocks <= 0, "memory is kept", || format!("every time this is done, {blocks} blocks ({bytes} bytes) stay allocated although every handle is gone"));
}

fn keys(n: usize) -> SharedKeys {
    let mut sk = SharedKeys::new();
    for k in 0..n {
        sk.encode_and_insert(&format!("key{k}"));
    }
    sk
}

/// Anything a program can hold, dropped in the order it came or the reverse.
#[allow(dead_code)]
enum Held {
    Scope(Arc<Scope>),
    Value(fleece::alloced::AllocedValue),
    Array(fleece::alloced::AllocedArray),
    Dict(fleece::alloced::AllocedDict),
    MArray(fleece::MutableArray),
    MDict(fleece::MutableDict),
    Keys(Arc<SharedKeys>),
    Data(Arc<[u8]>),
    Bytes(Vec<u8>),
}

fn shared_doc(sk: SharedKeys) -> Encoder {
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    emit(&mut e, &dict(vec![("key1", Doc::Arr(vec![s("a string on the heap"), dict(vec![("key2", i(1))])])), ("not shareable", f64d(1.5))])).expect("ENGINE: emit");
    e
}

/// Get one thing more from what is held; false if this is not possible.
fn derive(held: &mut Vec<Held>, op: usize) -> bool {
    let Some(last) = held.last() else {
        held.push(match op {
            0 => Held::Scope(shared_doc(keys(3)).finish_scoped()),
            1 => Held::Value(shared_doc(keys(0)).finish_value()),
            2 => Held::Bytes({
                let mut e = Encoder::new();
                emit(&mut e, &Doc::Arr(vec![s("a string"), dict(vec![("k", Doc::Data(vec![1; 40]))])])).expect("ENGINE: emit");
                e.finish()
            }),
            3 => Held::Keys(Arc::new(keys(40))),
            4 => Held::MDict(fleece::MutableDict::new_with_shared_keys(Arc::new(keys(2)))),
            _ => return false,
        });
        return true;
    };
    let new = match (last, op) {
        (Held::Scope(x), 0) => x.root().map(Held::Value),
        (Held::Scope(x), 1) => fleece::MutableDict::try_from(&**x).ok().map(Held::MDict),
        (Held::Scope(x), 2) => Scope::containing(x.range().map_or(0, |r| r.start) as *const u8).map(Held::Scope),
        (Held::Scope(x), 3) => {
            x.remove();
            x.data().map(Held::Data)
        }
        (Held::Scope(x), 4) => x.shared_keys().cloned().map(Held::Keys),
        (Held::Data(x), 0) => Some(Held::Scope(Scope::new(x.clone(), Some(Arc::new(keys(3)))))),
        (Held::Data(x), 1) => Some(Held::Scope(Scope::new(x.to_vec(), None))),
        (Held::Data(x), 2) => Value::clone_from_bytes(x).ok().map(Held::Value),
        (Held::Data(x), 3) => Value::clone_from_bytes(&x[..x.len() - 2]).ok().map(Held::Value).or(Some(Held::Data(x.clone()))),
        (Held::Value(x), 0) => match x.clone().to_array() {
            Some(a) => Some(Held::Array(a)),
            None => x.clone().to_dict().map(Held::Dict),
        },
        (Held::Value(x), 1) => {
            // the wrong kind
            let a = x.clone().to_array().is_none();
            let d = x.clone().to_dict().is_none();
            (a != d).then(|| Held::Value(x.clone()))
        }
        (Held::Value(x), 2) => {
            let n = format!("{x:?}").len() + x.as_dict().map_or(0, |d| d.iter().map(|(k, _)| k.len()).sum());
            (n > 0).then(|| Held::Value(x.clone()))
        }
        (Held::Value(x), 3) => {
            let mut e = shared_doc(keys(1));
            let r = e.write_fleece(x);
            if r.is_ok() {
                return false;
            }
            let mut e = Encoder::new();
            e.begin_array(1).expect("ENGINE: emit");
            e.write_fleece(x).expect("ENGINE: emit");
            Some(Held::Bytes(e.finish()))
        }
        (Held::Value(x), 4) => x.as_dict().map(|d| Held::MDict(d.to_mutable())).or_else(|| x.as_array().map(|a| Held::MArray(a.to_mutable()))),
        (Held::Array(x), 0) => Some(Held::MArray(x.to_mutable())),
        (Held::Array(x), 1) => Some(Held::MArray(x.clone().into())),
        (Held::Dict(x), 0) => Some(Held::MDict(x.to_mutable())),
        (Held::Dict(x), 1) => Some(Held::MDict(x.clone().into())),
        (Held::Dict(x), 2) => x.iter().next().map(|(_, v)| v.len()).and(Some(Held::Dict(x.clone()))),
        (Held::Bytes(x), 0) => Value::clone_from_bytes(x).ok().map(Held::Value),
        (Held::Bytes(x), 1) => fleece::Array::clone_from_bytes(x).ok().map(Held::Array),
        (Held::Bytes(x), 2) => Some(Held::Scope(Scope::new(x.clone(), None))),
        (Held::Bytes(x), 3) => fleece::Dict::clone_from_bytes(x).err().and(Some(Held::Bytes(x.clone()))),
        (Held::Bytes(x), 4) => SharedKeys::from_state_bytes(x).is_none().then(|| Held::Bytes(x.clone())),
        (Held::Keys(x), 0) => Some(Held::Keys(Arc::new((**x).clone()))),
        (Held::Keys(x), 1) => Some(Held::Bytes(x.get_state_bytes().into())),
        (Held::Keys(x), 2) => SharedKeys::from_state_bytes(&x.get_state_bytes()).map(|k| Held::Keys(Arc::new(k))),
        (Held::Keys(x), 3) => Some(Held::Scope(shared_doc((**x).clone()).finish_scoped())),
        (Held::MDict(x), 0) => {
            let mut c = Clone::clone(x);
            c.insert("key1", "another string on the heap");
            c.insert_dict("key9", Clone::clone(x));
            c.insert("key9", 1);
            c.remove("not shareable");
            Some(Held::MDict(c))
        }
        (Held::MDict(x), 1) => x.get_array("key1").map(|a| Held::MArray(a.clone())),
        (Held::MArray(x), 0) => {
            let mut c = x.clone();
            c.push("another string on the heap");
            c.set(0, 1);
            c.set_array(0, x.clone());
            c.set(0, "yet another string on the heap");
            c.remove(1);
            Some(Held::MArray(c))
        }
        _ => None,
    };
    new.map(|n| held.push(n)).is_some()
}

const THREADED: usize = 7;

/// One use of scopes in a thread that has a handle of a common one.
fn threaded(op: usize, common: &mut Option<Arc<Scope>>, address: usize) {
    crate::sched::point();
    match op {
        0 => drop(Scope::new(vec![0u8, 0, 0x80, 1], Some(Arc::new(keys(2))))),
        1 => {
            let s = Scope::new(vec![0u8, 0, 0x80, 1], None);
            s.remove();
        }
        2 => drop(common.take()),
        3 => drop(Scope::containing(address as *const u8)),
        4 => {
            if let Some(root) = common.as_ref().and_then(|c| c.root()) {
                drop(format!("{root:?}"));
            }
        }
        5 => drop(shared_doc(keys(1)).finish_scoped()),
        _ => {
            if let Some(c) = common {
                c.remove();
            }
        }
    }
}

thread_local! {
    static LAST: std::cell::RefCell<std::collections::VecDeque<(Arc<[u8]>, Option<Arc<SharedKeys>>)>> = const { std::cell::RefCell::new(std::collections::VecDeque::new()) };
}

fn threads(cx: &mut Cx, preempt: usize) {
    let a: Vec<usize> = vec![cx.choose(THREADED), cx.choose(THREADED + 1)];
    let b = vec![cx.choose(THREADED)];
    let both = cx.flag();
    // Each execution has other data at another address: what is kept for one would otherwise be replaced by the next.
    let (data, sk) = {
        let _own = crate::mem::unwatched();
        let made = shared_doc(keys(3)).finish_scoped();
        let both = (made.data().expect("ENGINE: no data"), made.shared_keys().cloned());
        drop(made);
        LAST.with_borrow_mut(|l| {
            l.push_back(both.clone());
            if l.len() > 16 {
                l.pop_front();
            }
        });
        both
    };
    let common = Scope::new(data, sk);
    let address = common.range().map_or(0, |r| r.start);
    let mut one = Some(common);
    let mut two = if both { one.clone() } else { None };
    cx.cases(1);
    let _own = crate::mem::unwatched();
    let jobs: Vec<crate::sched::Job<'_>> = vec![
        Box::new(|| {
            crate::mem::in_team(|| {
                for op in &a {
                    if *op < THREADED {
                        threaded(*op, &mut one, address);
                    }
                }
                drop(one.take());
            });
        }),
        Box::new(|| {
            crate::mem::in_team(|| {
                threaded(b[0], &mut two, address);
                drop(two.take());
            });
        }),
    ];
    match crate::sched::interleave(cx, preempt, jobs) {
        crate::sched::Outcome::Done { trace, .. } => {
            cx.ops(trace.len() as u64);
            cx.note(|| format!("thread 0 does {a:?}, thread 1 does {b:?}, schedule {trace:?}"));
        }
        _ => cx.prune(),
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = t.sel(6, 8);
    v.push(scen("abandoned encoders", format!("all sequences of up to {depth} encoder calls (right and wrong ones), the encoder dropped or its result dropped at once"), 2, move |cx| {
        leaks(cx, &|cx| {
            let mut e = Encoder::new();
            let n = 1 + cx.choose(depth);
            for _ in 0..n {
                match cx.choose(7) {
                    0 => drop(e.begin_array(40)),
                    1 => drop(e.begin_dict()),
                    2 => drop(e.write_key("a key on the heap")),
                    3 => drop(e.write_value("a value on the heap")),
                    4 => drop(e.end_array()),
                    5 => drop(e.end_dict()),
                    _ => e.set_shared_keys(keys(2)),
                }
            }
            if cx.flag() {
                drop(e.finish_scoped());
            }
        });
    }));
    let steps = t.sel(5, 6);
    v.push(scen("chains of handles", format!("all chains of up to {steps} handles, each got from the one before (scopes, data, roots, conversions that succeed and fail, copies, tables, saved states), dropped in both orders"), 3, move |cx| {
        leaks(cx, &|cx| {
            let mut held = vec![];
            let n = 1 + cx.choose(steps);
            for _ in 0..n {
                if !derive(&mut held, cx.choose(5)) {
                    cx.prune();
                }
            }
            if cx.flag() {
                while let Some(x) = held.pop() {
                    drop(x);
                }
            }
        });
    }));
    v.push(scen("refused input", "5 documents, each cut after every byte and with every byte replaced by each of 12 values, given to every entry point that copies it: what is refused is not kept, neither is what is accepted", 2, |cx| {
        let docs = [
            Doc::Arr(vec![s("a string on the heap"), i(70000)]),
            dict(vec![("key", Doc::Data(vec![1; 20])), ("another key", Doc::Null)]),
            Doc::Arr(vec![dict(vec![("k", Doc::Arr(vec![f64d(1.5)]))])]),
            dict(vec![]),
            Doc::Arr(vec![s("a"), s("b"), s("cc")]),
        ];
        let mut b = encode(cx.pick(&docs)).expect("ENGINE: encode");
        let at = cx.choose(b.len());
        let with = cx.choose(13);
        if with == 12 {
            b.truncate(at);
        } else {
            b[at] = [0, 1, 2, 0x0f, 0x10, 0x3f, 0x40, 0x60, 0x70, 0x7f, 0x80, 0xff][with];
        }
        let by = cx.choose(7);
        leaks(cx, &|cx| {
            cx.cases(1);
            cx.ops(1);
            match by {
                0 => drop(Value::clone_from_bytes(&b)),
                1 => drop(fleece::Array::clone_from_bytes(&b)),
                2 => drop(fleece::Dict::clone_from_bytes(&b)),
                3 => drop(SharedKeys::from_state_bytes(&b)),
                4 => {
                    let sc = Scope::new(b.clone(), Some(Arc::new(keys(1))));
                    drop(sc.root());
                    drop(fleece::MutableDict::try_from(&*sc));
                    drop(fleece::MutableArray::try_from(&*sc));
                }
                5 => drop(fleece::from_bytes::<AnyDoc>(&b)),
                _ => {
                    if let Ok(v) = Value::from_bytes(&b) {
                        let mut e = shared_doc(keys(1));
                        drop(e.write_fleece(v));
                        let mut e = Encoder::new();
                        drop(e.write_fleece(v));
                    }
                }
            }
        });
    }));
    let pre = t.sel(2usize, 4);
    v.push(scen("in threads", format!("two threads with one of {THREADED} uses of scopes each, one of them with a second; all schedules at lock operations with at most {pre} preemptions; then everything is dropped"), 3, move |cx| {
        leaks(cx, &|cx| threads(cx, pre));
    }));
    for id in FROM {
        for s in super::scenarios(id, t).expect("ENGINE: property") {
            let name = format!("{id} {}", s.name);
            if name == "C03 largest distances" {
                // needs gigabytes, each time
                continue;
            }
            if !t.thorough() && HEAVY.contains(&name.as_str()) {
                continue;
            }
            v.push(scen(name, s.bounds, s.split, move |cx| leaks(cx, &*s.f)));
        }
    }
    v
}
