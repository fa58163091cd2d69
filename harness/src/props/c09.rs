//! C09: encoder misuse is rejected and has no effect.
//!
//! All sequences of encoder calls up to a depth, against an automaton of the protocol.  Every call's
//! outcome is compared with the automaton's; every sequence is then finished, and the result must be
//! byte for byte what the accepted calls alone produce, and decode to the automaton's document.

use crate::doc::*;
use crate::engine::*;
use fleece::{Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    BeginArray,
    BeginDict,
    /// a key that is stored inside the dict
    KeyShort,
    /// a key that is stored apart or shared
    KeyLong,
    /// a key that can't be shared
    KeyOdd,
    ValueShort,
    ValueLong,
    EndArray,
    EndDict,
    FleeceScalar,
    FleeceString,
    FleeceColl,
    FleeceDict,
}
use Op::*;

const ALL: [Op; 13] = [BeginArray, BeginDict, KeyShort, KeyLong, EndArray, EndDict, ValueShort, ValueLong, FleeceColl, KeyOdd, FleeceScalar, FleeceString, FleeceDict];
const CORE: [Op; 9] = [BeginArray, BeginDict, KeyShort, KeyLong, EndArray, EndDict, ValueShort, ValueLong, FleeceColl];

#[derive(Clone, Debug)]
enum Frame {
    Arr(Vec<Doc>),
    Dict(Vec<(String, Doc)>, Option<String>),
}

/// The protocol, as documented on the encoder's methods.
#[derive(Clone, Default)]
struct Model {
    stack: Vec<Frame>,
    root: Option<Doc>,
    keys: usize,
    values: i128,
    table: Vec<String>,
}

impl Model {
    fn value_expected(&self) -> bool {
        match self.stack.last() {
            Some(Frame::Arr(_)) => true,
            Some(Frame::Dict(_, pending)) => pending.is_some(),
            None => false,
        }
    }
    fn begin_ok(&self) -> bool {
        self.value_expected() || (self.stack.is_empty() && self.root.is_none())
    }
    fn accepts(&self, op: Op) -> bool {
        match op {
            BeginArray | BeginDict | FleeceColl | FleeceDict => self.begin_ok(),
            KeyShort | KeyLong | KeyOdd => matches!(self.stack.last(), Some(Frame::Dict(_, None))),
            ValueShort | ValueLong | FleeceScalar | FleeceString => self.value_expected(),
            EndArray => matches!(self.stack.last(), Some(Frame::Arr(_))),
            EndDict => matches!(self.stack.last(), Some(Frame::Dict(_, None))),
        }
    }
    fn put(&mut self, d: Doc) {
        match self.stack.last_mut() {
            None => self.root = Some(d),
            Some(Frame::Arr(v)) => v.push(d),
            Some(Frame::Dict(v, p)) => {
                let k = p.take().expect("ENGINE: value without key");
                v.push((k, d));
            }
        }
    }
    fn next_key(&self, op: Op) -> String {
        let n = self.keys;
        match op {
            KeyShort => ((b'a' + (25 - n % 26) as u8) as char).to_string(),
            KeyLong => format!("key{}", 9 - n % 10),
            _ => format!("odd key {}", 9 - n % 10),
        }
    }
    fn next_value(&self, op: Op) -> Doc {
        match op {
            ValueShort => Doc::Int(self.values),
            ValueLong => Doc::Str(format!("value{}", self.values)),
            FleeceScalar => Doc::Int(5),
            FleeceString => s("from fleece"),
            FleeceColl => Doc::Arr(vec![i(1), dict(vec![("x", s("v")), ("xyz", i(2))]), s("deep")]),
            _ => dict(vec![("p", Doc::Arr(vec![])), ("qqq", i(100_000))]),
        }
    }
    /// Only for accepted calls.
    fn apply(&mut self, op: Op) {
        match op {
            BeginArray => self.stack.push(Frame::Arr(vec![])),
            BeginDict => self.stack.push(Frame::Dict(vec![], None)),
            KeyShort | KeyLong | KeyOdd => {
                let k = self.next_key(op);
                if op == KeyLong && !self.table.contains(&k) {
                    self.table.push(k.clone());
                }
                let Some(Frame::Dict(_, p)) = self.stack.last_mut() else { panic!("ENGINE") };
                *p = Some(k);
            }
            EndArray | EndDict => {
                let d = match self.stack.pop().expect("ENGINE") {
                    Frame::Arr(v) => Doc::Arr(v),
                    Frame::Dict(v, _) => Doc::Dict(v),
                };
                self.put(d);
            }
            _ => {
                let d = self.next_value(op);
                for k in match op {
                    FleeceColl => &["xyz"][..],
                    FleeceDict => &["qqq"],
                    _ => &[],
                } {
                    if !self.table.iter().any(|x| x == k) {
                        self.table.push((*k).to_string());
                    }
                }
                self.put(d);
            }
        }
    }
    /// Numbers advance with every call, accepted or not, so that a trace of a rejected call shows.
    fn tick(&mut self, op: Op) {
        match op {
            KeyShort | KeyLong | KeyOdd => self.keys += 1,
            ValueShort | ValueLong => self.values += 1,
            _ => {}
        }
    }
    fn finished(mut self) -> Option<Doc> {
        while let Some(f) = self.stack.pop() {
            let d = match f {
                Frame::Arr(v) => Doc::Arr(v),
                Frame::Dict(v, _) => Doc::Dict(v),
            };
            self.put(d);
        }
        self.root
    }
}

struct Sources {
    scalar: Vec<u8>,
    coll: Vec<u8>,
    dict: Vec<u8>,
}
thread_local! {
    static SRC: Sources = {
        let m = Model::default();
        Sources {
            scalar: encode(&Doc::Arr(vec![m.next_value(FleeceScalar), m.next_value(FleeceString)])).expect("ENGINE"),
            coll: encode(&m.next_value(FleeceColl)).expect("ENGINE"),
            dict: encode(&m.next_value(FleeceDict)).expect("ENGINE"),
        }
    };
}

fn call(e: &mut Encoder, m: &Model, op: Op) -> bool {
    let fl = |e: &mut Encoder, b: &[u8], at: Option<usize>| {
        let v = Value::from_bytes(b).expect("ENGINE");
        match at {
            None => e.write_fleece(v),
            Some(k) => e.write_fleece(v.as_array().unwrap().get(k).unwrap()),
        }
    };
    match op {
        BeginArray => e.begin_array(2),
        BeginDict => e.begin_dict(),
        KeyShort | KeyLong | KeyOdd => e.write_key(&m.next_key(op)),
        ValueShort => e.write_value(m.values as i64),
        ValueLong => e.write_value(format!("value{}", m.values).as_str()),
        EndArray => e.end_array(),
        EndDict => e.end_dict(),
        FleeceScalar => SRC.with(|x| fl(e, &x.scalar, Some(0))),
        FleeceString => SRC.with(|x| fl(e, &x.scalar, Some(1))),
        FleeceColl => SRC.with(|x| fl(e, &x.coll, None)),
        FleeceDict => SRC.with(|x| fl(e, &x.dict, None)),
    }
    .is_ok()
}

#[derive(Clone, Copy, Debug)]
struct Mode {
    shared: bool,
    prefix: usize,
    finish: usize,
}

const PREFIX: [u8; 3] = [0x4f, 0x80, 0x60];

fn fresh(m: Mode) -> Encoder {
    let mut e = if m.prefix > 0 { Encoder::new_to_vec(PREFIX[..m.prefix].to_vec()) } else { Encoder::new() };
    if m.shared {
        e.set_shared_keys(SharedKeys::new());
    }
    e
}

enum Done {
    Bytes(Vec<u8>),
    Scope(Arc<Scope>),
}
impl Done {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Done::Bytes(b) => b.clone(),
            Done::Scope(s) => s.data().expect("ENGINE: scope without data").to_vec(),
        }
    }
    fn table(&self) -> Vec<(String, u16)> {
        match self {
            Done::Bytes(_) => vec![],
            Done::Scope(s) => {
                let mut v: Vec<_> = s.shared_keys().map(|k| k.iter().map(|(k, n)| (k.to_string(), n)).collect()).unwrap_or_default();
                v.sort_by_key(|x| x.1);
                v
            }
        }
    }
}

fn finish(e: Encoder, m: Mode) -> Done {
    if m.shared || m.finish == 1 {
        Done::Scope(e.finish_scoped())
    } else {
        Done::Bytes(e.finish())
    }
}

/// Finish the encoder and compare with what the accepted calls alone make.
fn conclude(e: Encoder, calls: &[(Op, bool)], model: &Model, mode: Mode) -> Result<u64, String> {
    let done = finish(e, mode);
    let res = (|| {
        let bytes = done.bytes();
        // the accepted calls alone
        let mut only = fresh(mode);
        let mut m2 = Model::default();
        for (op, ok) in calls {
            if *ok && !call(&mut only, &m2, *op) {
                return Err(format!("{op:?} is accepted after rejected calls, but not without them"));
            }
            m2.tick(*op);
        }
        let other = finish(only, mode);
        let same = other.bytes() == bytes && other.table() == done.table();
        let b2 = other.bytes();
        if let Done::Scope(s) = &other {
            s.remove();
        }
        if !same {
            return Err(format!("rejected calls left a trace: {} {:?} instead of {} {:?}", hex(&bytes), done.table(), hex(&b2), other.table()));
        }
        if !bytes.starts_with(&PREFIX[..mode.prefix]) {
            return Err(format!("the bytes the encoder was to append to changed: {}", hex(&bytes)));
        }
        match model.clone().finished() {
            None => {
                let p = mode.prefix + mode.prefix % 2;
                if bytes.len() != p {
                    return Err(format!("nothing was written, but the result is {}", hex(&bytes)));
                }
                if let Done::Scope(s) = &done {
                    if p == 0 && s.root().is_some() {
                        return Err("a root although nothing was written".into());
                    }
                }
            }
            Some(d) => {
                match &done {
                    Done::Bytes(b) => {
                        let v = Value::from_bytes(b).map_err(|x| format!("not valid: {x:?}: {}", hex(b)))?;
                        verify(v, &d, Keys::Plain).map_err(|x| format!("{x}: {}", hex(b)))?;
                    }
                    Done::Scope(s) => {
                        let r = s.root().ok_or_else(|| format!("no root: {}", hex(&bytes)))?;
                        verify(&r, &d, if mode.shared { Keys::Scoped } else { Keys::Plain }).map_err(|x| format!("{x}: {}", hex(&bytes)))?;
                    }
                }
            }
        }
        if mode.shared {
            let got: Vec<String> = done.table().into_iter().map(|x| x.0).collect();
            if got != model.table {
                return Err(format!("shared keys {got:?}, expected {:?}", model.table));
            }
        }
        if mode.finish == 2 {
            if let Some(d) = model.clone().finished() {
                let mut only = fresh(Mode { prefix: 0, ..mode });
                let mut m2 = Model::default();
                for (op, _) in calls {
                    call(&mut only, &m2, *op);
                    m2.tick(*op);
                }
                let v = only.finish_value();
                verify(&v, &d, Keys::Plain).map_err(|x| format!("finish_value: {x}"))?;
            }
        }
        Ok(hash_bytes(&bytes))
    })();
    if let Done::Scope(s) = &done {
        s.remove();
    }
    res
}

fn modes() -> Vec<Mode> {
    vec![
        Mode { shared: false, prefix: 0, finish: 0 },
        Mode { shared: true, prefix: 0, finish: 1 },
        Mode { shared: false, prefix: 3, finish: 1 },
        Mode { shared: false, prefix: 0, finish: 2 },
        Mode { shared: true, prefix: 2, finish: 1 },
        Mode { shared: false, prefix: 1, finish: 0 },
    ]
}

fn explore(cx: &mut Cx, ops: &[Op], depth: usize, mode: Mode, rejections: usize) {
    let mut model = Model::default();
    let mut e = fresh(mode);
    let mut calls: Vec<(Op, bool)> = vec![];
    let mut left = rejections;
    cx.note(|| format!("{mode:?}"));
    for _ in 0..depth {
        // stop here, or one more call
        let allowed: Vec<Op> = ops.iter().copied().filter(|o| left > 0 || model.accepts(*o)).collect();
        let k = cx.choose(allowed.len() + 1);
        if k == 0 {
            break;
        }
        let op = allowed[k - 1];
        let want = model.accepts(op);
        left -= usize::from(!want);
        let got = cx.call("encoder", || call(&mut e, &model, op));
        cx.ops(1);
        cx.note(|| format!("{op:?} -> {}", if got { "accepted" } else { "rejected" }));
        if got != want {
            cx.fail(
                if want { "rejected" } else { "accepted" },
                format!("after {:?}: {op:?} was {}", calls, if got { "accepted out of order" } else { "rejected" }),
            );
        }
        if want {
            model.apply(op);
        }
        model.tick(op);
        calls.push((op, got));
    }
    let r = cx.call("finish", || conclude(e, &calls, &model, mode));
    match r {
        Ok(h) => cx.outcome(h),
        Err(x) => cx.fail("finish", format!("{calls:?}: {x}")),
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let d1 = t.sel(6usize, 7);
    v.push(scen(
        "all calls",
        format!("every sequence of up to {d1} calls out of 9, finished after every prefix, x 6 ways of setting up and finishing"),
        4,
        move |cx| {
            let m = *cx.pick(&modes());
            explore(cx, &CORE, d1, m, usize::MAX);
        },
    ));
    let d2 = t.sel(4usize, 5);
    v.push(scen(
        "every kind of call",
        format!("every sequence of up to {d2} calls out of 13, finished after every prefix, x 6 ways of setting up and finishing"),
        4,
        move |cx| {
            let m = *cx.pick(&modes());
            explore(cx, &ALL, d2, m, usize::MAX);
        },
    ));
    let d3 = t.sel(9usize, 10);
    v.push(scen(
        "long sequences, few mistakes",
        format!("every sequence of up to {d3} calls out of 8 with at most one rejected"),
        5,
        move |cx| {
            let m = modes()[cx.choose(2)];
            let ops: Vec<Op> = CORE.iter().copied().filter(|o| *o != FleeceColl && *o != ValueShort).collect();
            explore(cx, &ops, d3, m, 1);
        },
    ));
    let d4 = t.sel(9usize, 11);
    v.push(scen(
        "long sequences, no mistake",
        format!("every sequence of up to {d4} calls out of 7, all in order"),
        5,
        move |cx| {
            let m = modes()[cx.choose(2)];
            let ops: Vec<Op> = CORE.iter().copied().filter(|o| *o != FleeceColl && *o != ValueShort).collect();
            explore(cx, &ops, d4, m, 0);
        },
    ));
    v
}
