//! C13: address lookup finds exactly the live scope that owns the address.

use crate::doc::*;
use crate::engine::*;
use crate::mem;
use fleece::alloced::AllocedValue;
use fleece::{Encoder, Scope, SharedKeys};
use std::sync::Arc;

const REGION: usize = 512;
const ARENA: usize = 32 << 20;

/// A fresh region of addresses for every execution.
pub fn region() -> usize {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static BASE: AtomicUsize = AtomicUsize::new(0);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    if BASE.load(Ordering::Relaxed) == 0 {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
        };
        assert!(p != libc::MAP_FAILED, "ENGINE: mmap");
        BASE.store(p as usize, Ordering::Relaxed);
        mem::set_arena(p as usize, p as usize + ARENA);
    }
    BASE.load(Ordering::Relaxed) + NEXT.fetch_add(REGION, Ordering::Relaxed) % ARENA
}

/// An `Arc<[u8]>` whose allocation (counters, then bytes) starts at `addr`.
pub fn arc_at(addr: usize, b: &[u8]) -> Arc<[u8]> {
    mem::place_next((16 + b.len() + 7) & !7, addr);
    let a: Arc<[u8]> = Arc::from(b);
    assert!(!mem::place_cancel() && a.as_ptr() as usize == addr + 16, "ENGINE: the data was not placed");
    a
}

/// Tables are told apart by address only.
pub fn table(k: usize) -> Arc<SharedKeys> {
    thread_local!(static T: std::cell::RefCell<Vec<Arc<SharedKeys>>> = const { std::cell::RefCell::new(vec![]) });
    T.with(|t| {
        let mut t = t.borrow_mut();
        while t.len() <= k {
            let mut sk = SharedKeys::new();
            sk.encode_and_insert("key");
            t.push(Arc::new(sk));
        }
        t[k].clone()
    })
}

/// Tables in which "key" has the number `k % 3`, and two other keys the other numbers.
fn keyed(k: usize) -> Arc<SharedKeys> {
    thread_local!(static T: std::cell::RefCell<Vec<Arc<SharedKeys>>> = const { std::cell::RefCell::new(vec![]) });
    T.with(|t| {
        let mut t = t.borrow_mut();
        while t.len() <= k {
            let mut names = ["key", "other", "third"];
            names.rotate_right(t.len() % 3);
            let mut sk = SharedKeys::new();
            for n in names {
                sk.encode_and_insert(n);
            }
            t.push(Arc::new(sk));
        }
        t[k].clone()
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// 8 bytes, {key: n} with shared keys
    Dict,
    /// 24 bytes, no shared keys
    Plain,
    /// 8 bytes that are not a document
    Junk,
    /// 48 bytes with shared keys
    Long,
    Empty,
}

pub fn content(k: Kind, n: u8) -> (Vec<u8>, Option<Doc>) {
    content_with(k, n, 0)
}

/// `number` is what the table of the scope has for "key".
fn content_with(k: Kind, n: u8, number: usize) -> (Vec<u8>, Option<Doc>) {
    // {shared number: n}
    let dict_bytes = [0x70u8, 1, 0, number as u8, 0, n, 0x80, 3];
    match k {
        Kind::Dict => (dict_bytes.to_vec(), Some(dict(vec![("key", i(n.into()))]))),
        Kind::Plain => {
            // ["...", n]
            let mut b = vec![0x4fu8, 14];
            b.extend_from_slice(b"fourteen bytes");
            b.extend_from_slice(&[0x60, 2, 0x80, 9, 0, n, 0x80, 3]);
            (b, Some(Doc::Arr(vec![s("fourteen bytes"), i(n.into())])))
        }
        Kind::Junk => (vec![0xff; 8], None),
        Kind::Long => {
            let mut b = vec![0u8; 40];
            b.extend_from_slice(&dict_bytes);
            (b, Some(dict(vec![("key", i(n.into()))])))
        }
        Kind::Empty => (vec![], None),
    }
}

/// A scope under test; `scope` is gone once its last handle was dropped.
struct Slot {
    start: usize,
    len: usize,
    doc: Option<Doc>,
    sk: Option<Arc<SharedKeys>>,
    scope: Option<Vec<Arc<Scope>>>,
    addr: usize,
    removed: bool,
    data: Option<Arc<[u8]>>,
    root: Option<AllocedValue>,
    n: u8,
}

fn lookups(slots: &[Option<Slot>], lo: usize, hi: usize) -> Result<u64, String> {
    let mut n = 0;
    for a in lo - 2..=hi + 2 {
        if a % 8 > 1 && a % 8 < 7 {
            continue;
        }
        n += 1;
        let owner = slots.iter().flatten().find(|s| s.scope.is_some() && !s.removed && (s.start..s.start + s.len).contains(&a));
        let got = Scope::containing(a as *const u8);
        let want = owner.map(|o| o.addr);
        let gp = got.as_ref().map(|g| Arc::as_ptr(g) as usize);
        if gp != want {
            let name = |p: Option<usize>| match p {
                None => "nothing".to_string(),
                Some(p) => slots.iter().position(|s| s.as_ref().is_some_and(|s| s.scope.is_some() && s.addr == p)).map_or("an unknown scope".into(), |k| format!("scope {k}")),
            };
            return Err(format!("address +{} finds {}, expected {}", a as isize - lo as isize, name(gp), name(want)));
        }
        let sk = Scope::find_shared_keys(a as *const u8).map(|x| Arc::as_ptr(&x) as usize);
        if sk != owner.and_then(|o| o.sk.as_ref()).map(|x| Arc::as_ptr(x) as usize) {
            return Err(format!("address +{} finds the wrong shared keys", a as isize - lo as isize));
        }
    }
    Ok(n)
}

fn handles(slots: &[Option<Slot>]) -> Result<(), String> {
    for (k, s) in slots.iter().enumerate() {
        let Some(s) = s else { continue };
        let doc = |v: &AllocedValue| -> Result<(), String> {
            let d = s.doc.as_ref().ok_or("a root value of data that is not a document")?;
            // the keys of a scope that can be found are resolved, else at least its values stay
            let live = s.scope.is_some() && !s.removed;
            match (d, live, s.sk.is_some()) {
                (Doc::Dict(_), false, true) => {
                    let sk = s.sk.as_ref().unwrap();
                    verify(v, d, Keys::Explicit(sk))
                }
                _ => verify(v, d, Keys::Scoped),
            }
        };
        for h in s.scope.iter().flatten() {
            let r = (|| {
                match h.data() {
                    Some(b) if b.as_ptr() as usize == s.start && b.len() == s.len => {}
                    b => return Err(format!("data() gives {:?}", b.map(|b| b.len()))),
                }
                if h.range() != Some(s.start..s.start + s.len) {
                    return Err("range() is wrong".into());
                }
                if h.shared_keys().map(Arc::as_ptr) != s.sk.as_ref().map(Arc::as_ptr) {
                    return Err("shared_keys() is wrong".into());
                }
                match h.root() {
                    Some(v) => doc(&v),
                    None if s.doc.is_none() => Ok(()),
                    None => Err("root() gives nothing".into()),
                }
            })();
            r.map_err(|e| format!("scope {k}: {e}"))?;
        }
        if let Some(v) = &s.root {
            doc(v).map_err(|e| format!("root value taken from scope {k}: {e}"))?;
        }
        if let Some(b) = &s.data {
            let want = content_with(if s.len == 48 { Kind::Long } else if s.len == 24 { Kind::Plain } else if s.doc.is_some() { Kind::Dict } else if s.len == 0 { Kind::Empty } else { Kind::Junk }, s.n, k % 3).0;
            if **b != *want {
                return Err(format!("data taken from scope {k} reads {}", hex(b)));
            }
        }
    }
    Ok(())
}

/// (offset of the allocation, kind of content)
const MENU: [(usize, Kind); 9] = [
    (64, Kind::Dict),
    (64, Kind::Plain),
    (64, Kind::Long),
    (88, Kind::Dict),
    (88, Kind::Junk),
    (104, Kind::Plain),
    (80, Kind::Long),
    (88, Kind::Empty),
    (128, Kind::Dict),
];

fn histories(cx: &mut Cx, depth: usize, menu: &[(usize, Kind)], keep: bool) {
    let base = region();
    let mut slots: Vec<Option<Slot>> = vec![None, None, None];
    let mut counter = 0u8;
    let (lo, hi) = (base + 56, base + 168);
    for _ in 0..depth {
        // what can be done now
        let mut ops: Vec<(usize, usize)> = vec![(99, 0)];
        if let Some(free) = slots.iter().position(Option::is_none) {
            for (m, (off, kind)) in menu.iter().enumerate() {
                let (from, to) = (base + off, base + off + 16 + content(*kind, 0).0.len());
                // only free memory can be allocated
                if slots.iter().flatten().all(|s| to <= s.start - 16 || from >= s.start + s.len) {
                    ops.push((100 + free, m));
                }
            }
        }
        for k in 0..3 {
            let Some(s) = &slots[k] else { continue };
            if let Some(h) = &s.scope {
                ops.push((k, 0)); // drop a handle
                ops.push((k, 1)); // remove
                if keep {
                    if h.len() == 1 {
                        ops.push((k, 2)); // clone
                    }
                    if s.data.is_none() && s.root.is_none() {
                        ops.push((k, 3)); // take the data
                        if s.doc.is_some() {
                            ops.push((k, 4)); // take the root
                        }
                    }
                }
            } else {
                ops.push((k, 5)); // release the memory
                if s.data.is_some() {
                    ops.push((k, 6)); // scope it again
                }
            }
        }
        let (what, arg) = ops[cx.choose(ops.len())];
        if what == 99 {
            break;
        }
        cx.ops(1);
        counter += 1;
        cx.note(|| {
            if what >= 100 {
                format!("create scope {} at +{} ({:?})", what - 100, menu[arg].0 - 56 + 16, menu[arg].1)
            } else {
                let w = ["drop a handle of", "remove", "clone a handle of", "take the data of", "take the root of", "release the memory of", "make another scope of the data of"];
                format!("{} scope {what}", w[arg])
            }
        });
        let r = cx.call("scope", || -> Result<u64, String> {
            if what >= 100 {
                let (off, kind) = menu[arg];
                let (b, doc) = content_with(kind, counter, (what - 100) % 3);
                let sk = matches!(kind, Kind::Dict | Kind::Long | Kind::Empty).then(|| keyed(what - 100));
                let data = arc_at(base + off, &b);
                let sc = Scope::new(data, sk.clone());
                let start = base + off + 16;
                slots[what - 100] = Some(Slot { start, len: b.len(), doc, sk, addr: Arc::as_ptr(&sc) as usize, scope: Some(vec![sc]), removed: false, data: None, root: None, n: counter });
            } else {
                let mut gone = false;
                let s = slots[what].as_mut().unwrap();
                match arg {
                    0 => {
                        let h = s.scope.as_mut().unwrap();
                        h.pop();
                        if h.is_empty() {
                            s.scope = None;
                            gone = s.data.is_none() && s.root.is_none();
                        }
                    }
                    1 => {
                        s.scope.as_ref().unwrap()[0].remove();
                        s.removed = true;
                    }
                    2 => {
                        let h = s.scope.as_mut().unwrap();
                        let c = h[0].clone();
                        h.push(c);
                    }
                    3 => s.data = s.scope.as_ref().unwrap()[0].data(),
                    4 => s.root = s.scope.as_ref().unwrap()[0].root(),
                    5 => gone = true,
                    _ => {
                        let sc = Scope::new(s.data.clone().unwrap(), s.sk.clone());
                        s.addr = Arc::as_ptr(&sc) as usize;
                        s.scope = Some(vec![sc]);
                        s.removed = false;
                    }
                }
                if gone {
                    slots[what] = None;
                }
            }
            handles(&slots)?;
            lookups(&slots, lo, hi)
        });
        let n = cx.want("lookup", r);
        cx.cases(n);
    }
    // leave nothing behind
    for s in slots.iter().flatten() {
        if let Some(h) = &s.scope {
            h[0].remove();
        }
    }
    let mut h = Fnv::new();
    for s in slots.iter().flatten() {
        h.u((s.start - base) as u64).u(s.len as u64).u(s.removed.into()).u(s.scope.is_some().into());
    }
    cx.outcome(h.0);
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let d = t.sel(6usize, 7);
    v.push(scen(
        "histories",
        format!("all histories of up to {d} operations on 3 scopes placed at chosen addresses: create ({} places and contents, also in memory of dropped scopes), remove, drop, clone a handle, keep data or root, make another scope of kept data; every boundary address looked up after each", MENU.len()),
        3,
        move |cx| histories(cx, d, &MENU, true),
    ));
    let d = t.sel(9usize, 11);
    v.push(scen(
        "memory reuse",
        format!("all histories of up to {d} operations that create, remove and drop scopes at 3 overlapping places"),
        3,
        move |cx| histories(cx, d, &[(64, Kind::Long), (88, Kind::Dict), (104, Kind::Plain)], false),
    ));
    v.push(scen(
        "many scopes",
        format!("1 to 60, and {MANY:?} scopes made by encoders with and without shared keys, every third removed, every third dropped, in 4 orders: every address of their data and around it looked up"),
        1,
        |cx| {
            let k = 1 + cx.choose(60 + MANY.len());
            let n = if k <= 60 { k } else { MANY[k - 61] };
            let order = cx.choose(4);
            let first_drop = cx.flag();
            let r = cx.call("scopes", || many(n, order, first_drop));
            let c = cx.want("lookup", r);
            cx.cases(c);
        },
    ));
    let top = t.sel(1200usize, 3000);
    v.push(scen(
        "lengths",
        format!("data of every length 0 to {top} with a neighbour on each side at the smallest distance (every alignment of its end), all created in 6 orders, then the middle one, or the others, removed or dropped: every address looked up"),
        1,
        move |cx| {
            let len = cx.choose(top + 1);
            let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][cx.choose(6)];
            let end = cx.choose(4);
            cx.note(|| format!("length {len}, order {order:?}, {}", ["remove the middle", "drop the middle", "remove the others", "drop the others"][end]));
            let r = cx.call("scopes", || lengths(len, order, end));
            let n = cx.want("lookup", r);
            cx.cases(n);
        },
    ));
    v.push(scen(
        "conversions",
        "the data of a new scope comes from a conversion that itself does one or two of: look up, create, remove or drop a scope, panic; before and after other scopes are there",
        1,
        |cx| {
            let acts: Vec<usize> = (0..1 + cx.choose(2)).map(|_| cx.choose(6)).collect();
            let before = cx.choose(3);
            cx.note(|| format!("{acts:?}, {before} scopes before"));
            let r = cx.call("scopes", || conversion(&acts, before));
            let n = cx.want("conversion", r);
            cx.cases(n);
        },
    ));
    v.push(scen(
        "scopes of the same data",
        "all histories of up to 6 operations on two scopes over one piece of data: create, remove, drop; a live scope that was not removed is found",
        1,
        |cx| {
            let base = region();
            let (b, _) = content(Kind::Dict, 1);
            let data = arc_at(base + 64, &b);
            let start = data.as_ptr() as usize;
            let mut sc: [Option<(Arc<Scope>, bool)>; 2] = [None, None];
            let mut hist = String::new();
            let mut later = None;
            for _ in 0..6 {
                let mut ops = vec![(9, 9)];
                for k in 0..2 {
                    if sc[k].is_some() {
                        ops.extend([(k, 1), (k, 2)]);
                    } else {
                        ops.push((k, 0));
                    }
                }
                let (k, op) = ops[cx.choose(ops.len())];
                if k == 9 {
                    break;
                }
                let name = ["A", "B"][k];
                match op {
                    0 => {
                        sc[k] = Some((cx.call("new", || Scope::new(data.clone(), None)), false));
                        later = Some(k);
                    }
                    1 => {
                        cx.call("remove", || sc[k].as_ref().unwrap().0.remove());
                        sc[k].as_mut().unwrap().1 = true;
                    }
                    _ => sc[k] = None,
                }
                hist.push_str(&format!("{}{name}", ["+", "x", "-"][op]));
                cx.cases(1);
                cx.ops(1);
                let live: Vec<*const Scope> = sc.iter().flatten().filter(|s| !s.1).map(|s| Arc::as_ptr(&s.0)).collect();
                for a in [start, start + 7] {
                    let got = cx.call("containing", || Scope::containing(a as *const u8)).map(|g| Arc::as_ptr(&g));
                    let ok = match got {
                        Some(g) => live.contains(&g),
                        None => live.is_empty(),
                    };
                    if !ok {
                        for s in sc.iter().flatten() {
                            s.0.remove();
                        }
                        // named by the last step: of which scope, and what becomes of the other
                        let o = if got.is_some() {
                            "wrong-scope"
                        } else if op != 0 && later == Some(k) {
                            "earlier-scope-hidden"
                        } else {
                            "other-scope-lost"
                        };
                        cx.fail(format!("same-data:{}:{o}", ["create", "remove", "drop"][op]), format!("after {hist} (+ create, x remove, - drop) the lookup gives {}, live scopes: {}", if got.is_some() { "a wrong scope" } else { "nothing" }, live.len()));
                    }
                }
            }
            for s in sc.iter().flatten() {
                s.0.remove();
            }
        },
    ));
    v
}

fn lengths(len: usize, order: [usize; 3], end: usize) -> Result<u64, String> {
    // enough addresses for three blocks of this size
    let base = region();
    for _ in 0..len / 128 {
        region();
    }
    let base = if base + 4 * len + 512 > mem::arena_end() { region() } else { base };
    let mut at = base + 64;
    let mut starts = [0; 3];
    for s in &mut starts {
        *s = at + 16;
        at = (*s + len + 7) & !7;
    }
    let mut sc: [Option<Arc<Scope>>; 3] = [None, None, None];
    let mut datas = vec![];
    let mut removed = [false; 3];
    let check = |sc: &[Option<Arc<Scope>>; 3], removed: &[bool; 3]| -> Result<u64, String> {
        let mut n = 0;
        for a in starts[0] - 20..starts[2] + len + 20 {
            let owner = (0..3).find(|k| sc[*k].is_some() && !removed[*k] && a >= starts[*k] && a < starts[*k] + len);
            let got = Scope::containing(a as *const u8);
            n += 1;
            if got.as_ref().map(Arc::as_ptr) != owner.and_then(|k| sc[k].as_ref()).map(Arc::as_ptr) {
                return Err(format!("address {:+} of the middle scope of {len} bytes finds {}, owned by {owner:?}", a as isize - starts[1] as isize, if got.is_some() { "a wrong scope" } else { "nothing" }));
            }
        }
        Ok(n)
    };
    let r = (|| {
        let mut n = 0;
        for k in order {
            let d = arc_at(starts[k] - 16, &vec![k as u8; len]);
            sc[k] = Some(Scope::new(d.clone(), None));
            datas.push(d);
            n += check(&sc, &removed)?;
        }
        for k in if end < 2 { vec![1] } else { vec![0, 2] } {
            if end % 2 == 0 {
                sc[k].as_ref().unwrap().remove();
                removed[k] = true;
            } else {
                sc[k] = None;
            }
            n += check(&sc, &removed)?;
        }
        Ok(n)
    })();
    for s in sc.iter().flatten() {
        s.remove();
    }
    r
}

const MANY: [usize; 12] = [63, 64, 65, 66, 99, 127, 128, 129, 130, 200, 257, 513];

fn many(n: usize, order: usize, first_drop: bool) -> Result<u64, String> {
    let mut all: Vec<(Option<Arc<Scope>>, bool, usize, usize, Option<usize>)> = vec![];
    for k in 0..n {
        let mut e = Encoder::new();
        if k % 2 == 1 {
            e.set_shared_keys((*keyed(k % 3)).clone());
        }
        emit(&mut e, &dict(vec![("key", i(k as i128)), ("text", s(&"t".repeat(k % 9)))]))?;
        let sc = e.finish_scoped();
        let r = sc.range().ok_or("no range")?;
        let p = sc.shared_keys().map(|s| Arc::as_ptr(s) as usize);
        all.push((Some(sc), false, r.start, r.end, p));
    }
    let idx: Vec<usize> = match order {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|k| (k * 7 + 3) % n).collect::<std::collections::BTreeSet<_>>().into_iter().collect(),
        _ => (0..n / 2).flat_map(|k| [k, n - 1 - k]).collect(),
    };
    let mut cases = 0;
    let mut check = |all: &Vec<(Option<Arc<Scope>>, bool, usize, usize, Option<usize>)>| -> Result<(), String> {
        for (k, s) in all.iter().enumerate() {
            // memory of dropped scopes may belong to somebody else's data, but not to a scope
            for a in (s.2 - 1..=s.3).filter(|a| n <= 60 || *a <= s.2 + 1 || *a + 2 >= s.3) {
                let owner = all.iter().find(|o| o.0.is_some() && !o.1 && (o.2..o.3).contains(&a));
                let got = Scope::containing(a as *const u8);
                cases += 1;
                if got.as_ref().map(Arc::as_ptr) != owner.and_then(|o| o.0.as_ref()).map(Arc::as_ptr) {
                    return Err(format!("address {:+} of scope {k} of {n} finds {}", a as isize - s.2 as isize, if got.is_some() { "a wrong scope" } else { "nothing" }));
                }
            }
            if let (Some(sc), removed) = (&s.0, s.1) {
                let v = sc.root().ok_or(format!("scope {k} has no root"))?;
                let d = dict(vec![("key", i(k as i128)), ("text", s_(k))]);
                if !removed {
                    verify(&v, &d, Keys::Scoped).map_err(|e| format!("scope {k}: {e}"))?;
                }
                if sc.shared_keys().map(|s| Arc::as_ptr(s) as usize) != s.4 {
                    return Err(format!("scope {k}: other shared keys"));
                }
            }
        }
        Ok(())
    };
    let r = (|| {
        check(&all)?;
        for (c, k) in idx.iter().enumerate() {
            let which = (k + usize::from(first_drop)) % 3;
            match which {
                0 => {
                    all[*k].0.as_ref().unwrap().remove();
                    all[*k].1 = true;
                }
                1 => all[*k].0 = None,
                _ => {}
            }
            if c % (if n > 60 { 64 } else { 8 }) == 7 {
                check(&all)?;
            }
        }
        check(&all)
    })();
    for s in &all {
        if let Some(s) = &s.0 {
            s.remove();
        }
    }
    r.map(|()| cases)
}

fn s_(k: usize) -> Doc {
    s(&"t".repeat(k % 9))
}

/// Data of a scope that is made while other scopes are used.
struct Source<F: FnOnce() -> Arc<[u8]>>(F);
impl<F: FnOnce() -> Arc<[u8]>> From<Source<F>> for Arc<[u8]> {
    fn from(s: Source<F>) -> Self {
        (s.0)()
    }
}

fn conversion(acts: &[usize], before: usize) -> Result<u64, String> {
    let base = region();
    let (b, _) = content(Kind::Long, 7);
    let mut sc: Vec<(Option<Arc<Scope>>, bool, usize)> = vec![];
    for k in 0..before {
        let d = arc_at(base + 64 + 64 * k, &b);
        let a = d.as_ptr() as usize;
        sc.push((Some(Scope::new(d, Some(table(k)))), false, a));
    }
    let mut panics = false;
    let made = {
        let (sc, panics) = (&mut sc, &mut panics);
        let src = Source(|| {
            for (n, a) in acts.iter().enumerate() {
                match a {
                    0 => drop(Scope::containing((base + 90) as *const u8)),
                    1 => {
                        let d = arc_at(base + 64 + 64 * (before + n), &b);
                        let a = d.as_ptr() as usize;
                        sc.push((Some(Scope::new(d, None)), false, a));
                    }
                    2 => {
                        if let Some(s) = sc.first_mut() {
                            if let Some(h) = &s.0 {
                                h.remove();
                                s.1 = true;
                            }
                        }
                    }
                    3 => {
                        if let Some(s) = sc.first_mut() {
                            s.0 = None;
                        }
                    }
                    4 => drop(Scope::find_shared_keys((base + 100) as *const u8)),
                    _ => {
                        *panics = true;
                        panic!("no data");
                    }
                }
            }
            arc_at(base + 64 + 64 * 5, &b)
        });
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Scope::new(src, None)))
    };
    match (made, panics) {
        (Ok(s), false) => sc.push((Some(s), false, base + 64 + 64 * 5 + 16)),
        (Err(_), true) => {}
        (Err(_), false) => return Err("Scope::new panics".into()),
        (Ok(_), true) => return Err("Scope::new swallows a panic".into()),
    }
    let mut n = 0;
    for a in base + 60..base + 64 + 64 * 6 + 4 {
        let owner = sc.iter().find(|o| o.0.is_some() && !o.1 && (o.2..o.2 + b.len()).contains(&a));
        let got = Scope::containing(a as *const u8);
        n += 1;
        if got.as_ref().map(Arc::as_ptr) != owner.and_then(|o| o.0.as_ref()).map(Arc::as_ptr) {
            return Err(format!("address +{} finds {}", a - base, if got.is_some() { "a wrong scope" } else { "nothing" }));
        }
    }
    for s in sc.iter().flat_map(|s| &s.0) {
        s.remove();
    }
    Ok(n)
}
