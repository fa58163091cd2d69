//! C14: scopes stay correct when several threads use them.

use super::c13::{arc_at, content, region, table, Kind};
use crate::doc::*;
use crate::engine::*;
use crate::mem;
use crate::sched::{self, Job, Outcome};
use fleece::alloced::AllocedValue;
use fleece::{Scope, SharedKeys};
use std::cell::{RefCell, UnsafeCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Op {
    LookA,
    LookB,
    GrabA,
    KeysA,
    GetA,
    IterA,
    DeA,
    RootA,
    RemA,
    DropA,
    RemB,
    New,
    LookNew,
    NewAtA,
    NewSame,
    RemNew,
    DropNew,
}
use Op::*;

/// Allocations (counters, then the data) within the region: A and B are neighbours.
const A: usize = 64;
const B: usize = A + 16 + 48;
const fn c(t: usize) -> usize {
    B + 24 + 64 * t
}
const SPAN: usize = c(3) + 64;

/// What is known of a scope without looking at it.
#[derive(Clone, Copy, Debug)]
struct Info {
    off: usize,
    len: usize,
    n: u8,
}
const IDS: usize = 2 + 4 * sched::MAX;
fn id_of(t: usize, i: usize) -> usize {
    2 + 4 * t + i
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// A lookup of the address and what it found.
    Found { addr: usize, id: Option<usize> },
    /// The same if it is not known which one; it is held for a moment.
    Seen { addr: usize, some: bool, t: usize },
    Unseen { t: usize },
    Create { id: usize, off: usize, len: usize },
    Release { id: usize },
    Remove { id: usize },
}
#[derive(Clone, Copy, Debug)]
struct Ev {
    t: usize,
    from: u32,
    to: u32,
    what: What,
}

#[derive(Default)]
struct Slot {
    a: Option<Arc<Scope>>,
    own: Option<(usize, Arc<Scope>)>,
    hist: Vec<Ev>,
    err: Option<String>,
    step: bool,
    unused: bool,
}

struct World {
    base: usize,
    tables: Vec<Arc<SharedKeys>>,
    b: Option<Arc<Scope>>,
    root: Option<AllocedValue>,
    data: Option<Arc<[u8]>>,
    /// an address within the last scope created by each thread
    addr: [usize; sched::MAX],
    slots: [UnsafeCell<Slot>; sched::MAX],
    info: UnsafeCell<[Info; IDS]>,
    clock: AtomicU32,
}
unsafe impl Sync for World {}

impl World {
    fn now(&self) -> u32 {
        self.clock.fetch_add(1, SeqCst)
    }
    /// Around what is stepped through.
    fn on(&self, t: usize) -> u32 {
        let n = self.now();
        if self.slot(t).step {
            sched::stepping(true);
        }
        n
    }
    fn off(&self, t: usize) -> u32 {
        if self.slot(t).step {
            sched::stepping(false);
        }
        self.now()
    }
    #[allow(clippy::mut_from_ref)]
    fn slot(&self, t: usize) -> &mut Slot {
        unsafe { &mut *self.slots[t].get() }
    }
    fn info(&self, id: usize) -> Info {
        unsafe { (*self.info.get())[id] }
    }

    /// Which scope this is; it has to be intact.
    fn identify(&self, s: &Arc<Scope>) -> Result<usize, String> {
        let p = s.shared_keys().map(Arc::as_ptr);
        let id = self.tables.iter().position(|t| Some(Arc::as_ptr(t)) == p).ok_or("a scope with shared keys that were never given to one")?;
        let inf = self.info(id);
        let start = self.base + inf.off + 16;
        match s.data() {
            Some(d) if d.as_ptr() as usize == start && d.len() == inf.len && d[inf.len - 3] == inf.n => {}
            d => return Err(format!("the data of scope {id} is {:?}", d.map(|d| hex(&d)))),
        }
        if s.range() != Some(start..start + inf.len) {
            return Err(format!("the range of scope {id} is wrong"));
        }
        Ok(id)
    }

    fn look(&self, t: usize, addr: usize, keep: bool) -> Result<Option<Arc<Scope>>, String> {
        let from = self.on(t);
        let r = Scope::containing((self.base + addr) as *const u8);
        let mid = self.off(t);
        let id = r.as_ref().map(|s| self.identify(s)).transpose()?;
        let h = &mut self.slot(t).hist;
        h.push(Ev { t, from, to: mid, what: What::Found { addr, id } });
        if keep {
            return Ok(r);
        }
        if let Some(id) = id {
            self.on(t);
            drop(r);
            let to = self.off(t);
            h.push(Ev { t, from: mid, to, what: What::Release { id } });
        }
        Ok(None)
    }

    /// One event around `f`, which looks up A once and lets go of it again.
    fn seen(&self, t: usize, f: impl FnOnce() -> Result<bool, String>) -> Result<(), String> {
        let from = self.on(t);
        let some = f();
        let to = self.off(t);
        let some = some?;
        let h = &mut self.slot(t).hist;
        h.push(Ev { t, from, to, what: What::Seen { addr: A + 16, some, t } });
        h.push(Ev { t, from, to, what: What::Unseen { t } });
        Ok(())
    }

    fn create(&self, t: usize, i: usize, off: usize, data: Arc<[u8]>) {
        let id = id_of(t, i);
        let (len, n) = (data.len(), data[data.len() - 3]);
        unsafe { (*self.info.get())[id] = Info { off, len, n } };
        let sk = Some(self.tables[id].clone());
        let from = self.on(t);
        let s = Scope::new(data, sk);
        let to = self.off(t);
        let sl = self.slot(t);
        sl.hist.push(Ev { t, from, to, what: What::Create { id, off, len } });
        sl.own = Some((id, s));
    }

    fn exec(&self, t: usize, i: usize, op: Op, others: usize) -> Result<(), String> {
        match op {
            LookA => drop(self.look(t, A + 16, false)?),
            LookB => drop(self.look(t, B + 16, false)?),
            GrabA => self.slot(t).a = self.look(t, A + 16 + 47, true)?,
            LookNew => {
                for o in 0..others {
                    if o != t {
                        drop(self.look(t, self.addr[o], false)?);
                    }
                }
            }
            KeysA => {
                let from = self.on(t);
                let k = Scope::find_shared_keys((self.base + A + 20) as *const u8);
                let to = self.off(t);
                let id = match k {
                    None => None,
                    Some(k) => Some(self.tables.iter().position(|t| Arc::ptr_eq(t, &k)).ok_or("unknown shared keys")?),
                };
                let h = &mut self.slot(t).hist;
                h.push(Ev { t, from, to, what: What::Found { addr: A + 20, id } });
                if let Some(id) = id {
                    h.push(Ev { t, from, to, what: What::Release { id } });
                }
            }
            GetA => {
                let v = self.root.as_ref().ok_or("ENGINE: no root")?;
                self.seen(t, || match v.as_dict().ok_or("no dict")?.get("key") {
                    None => Ok(false),
                    Some(v) if v.to_int() == 1 => Ok(true),
                    Some(v) => Err(format!("get() gives {v:?}")),
                })?;
            }
            IterA => {
                let v = self.root.as_ref().ok_or("ENGINE: no root")?;
                self.seen(t, || {
                    let mut it = v.as_dict().ok_or("no dict")?.iter();
                    let Some((k, v)) = it.next() else { return Ok(false) };
                    if v.to_int() != 1 || it.next().is_some() {
                        return Err("iter() gives other entries".into());
                    }
                    match k {
                        "key" => Ok(true),
                        "" => Ok(false),
                        k => Err(format!("iter() gives the key {k:?}")),
                    }
                })?;
            }
            DeA => {
                let b = self.data.as_ref().ok_or("ENGINE: no data")?;
                self.seen(t, || match fleece::from_bytes::<std::collections::BTreeMap<String, i32>>(b) {
                    Err(_) => Ok(false),
                    Ok(m) if m.len() == 1 && m.get("key") == Some(&1) => Ok(true),
                    Ok(m) => Err(format!("from_bytes gives {m:?}")),
                })?;
            }
            RootA => {
                if let Some(s) = self.slot(t).a.clone() {
                    self.on(t);
                    let r = s.root();
                    self.off(t);
                    let r = r.ok_or("a held scope has no root")?;
                    drop(s);
                    verify(&r, &dict(vec![("key", crate::doc::i(1))]), Keys::Explicit(&self.tables[0]))?;
                } else {
                    self.slot(t).unused = true;
                }
            }
            RemA => match self.slot(t).a.clone() {
                Some(s) => self.remove(t, &s)?,
                None => self.slot(t).unused = true,
            },
            RemB => {
                let s = self.b.as_ref().ok_or("ENGINE: no B")?;
                self.remove(t, s)?;
            }
            RemNew => {
                let s = self.slot(t).own.as_ref().map(|x| x.1.clone());
                match s {
                    Some(s) => self.remove(t, &s)?,
                    None => self.slot(t).unused = true,
                }
            }
            DropA => match self.slot(t).a.take() {
                Some(s) => {
                    let id = self.identify(&s)?;
                    self.release(t, id, s);
                }
                None => self.slot(t).unused = true,
            },
            DropNew => match self.slot(t).own.take() {
                Some((id, s)) => self.release(t, id, s),
                None => self.slot(t).unused = true,
            },
            New => {
                let (b, _) = content(Kind::Long, (10 * t + i + 10) as u8);
                let d = arc_at(self.base + c(t), &b);
                self.create(t, i, c(t), d);
            }
            NewAtA => {
                if !mem::take_freed(self.base + A) {
                    self.slot(t).unused = true;
                    return Ok(());
                }
                let (b, _) = content(Kind::Long, (10 * t + i + 10) as u8);
                let d = arc_at(self.base + A, &b);
                self.create(t, i, A, d);
            }
            NewSame => {
                let d = self.data.clone().ok_or("ENGINE: no data")?;
                self.create(t, i, A, d);
            }
        }
        Ok(())
    }

    fn remove(&self, t: usize, s: &Arc<Scope>) -> Result<(), String> {
        let id = self.identify(s)?;
        let from = self.on(t);
        s.remove();
        let to = self.off(t);
        self.slot(t).hist.push(Ev { t, from, to, what: What::Remove { id } });
        Ok(())
    }
    fn release(&self, t: usize, id: usize, s: Arc<Scope>) {
        let from = self.on(t);
        drop(s);
        let to = self.off(t);
        self.slot(t).hist.push(Ev { t, from, to, what: What::Release { id } });
    }
}

// ------------------------------------------------------- one operation at a time

#[derive(Clone, Default)]
struct Model {
    sc: Vec<(usize, usize, usize, u32, bool)>, // id, off, len, handles, removed
    held: [Vec<usize>; sched::MAX],
}

impl Model {
    fn found(&self, addr: usize) -> (Vec<usize>, bool) {
        let v: Vec<usize> = self.sc.iter().filter(|s| s.3 > 0 && !s.4 && (s.1 + 16..s.1 + 16 + s.2).contains(&addr)).map(|s| s.0).collect();
        // a known finding of C13: of scopes that share their data only the last one is found
        let last = self.sc.iter().rev().find(|s| (s.1 + 16..s.1 + 16 + s.2).contains(&addr));
        (v, last.is_some_and(|s| s.3 == 0 || s.4))
    }
    fn get(&mut self, id: usize) -> Option<&mut (usize, usize, usize, u32, bool)> {
        self.sc.iter_mut().find(|s| s.0 == id)
    }
    fn step(&mut self, w: What) -> bool {
        match w {
            What::Found { addr, id } => {
                let (v, hidden) = self.found(addr);
                let ok = match id {
                    Some(id) => v.contains(&id),
                    None => v.is_empty() || hidden,
                };
                if let (true, Some(id)) = (ok, id) {
                    self.get(id).unwrap().3 += 1;
                }
                ok
            }
            What::Seen { addr, some, t } => {
                let (v, hidden) = self.found(addr);
                if !some {
                    return v.is_empty() || hidden;
                }
                for id in &v {
                    self.get(*id).unwrap().3 += 1;
                }
                self.held[t].clone_from(&v);
                !v.is_empty()
            }
            What::Unseen { t } => std::mem::take(&mut self.held[t]).into_iter().all(|id| self.step(What::Release { id })),
            What::Create { id, off, len } => {
                if self.sc.iter().any(|s| s.3 > 0 && s.1 == off && s.2 != len) {
                    return false;
                }
                self.sc.push((id, off, len, 1, false));
                true
            }
            What::Release { id } => {
                let Some(s) = self.get(id) else { return false };
                if s.3 == 0 {
                    return false;
                }
                s.3 -= 1;
                true
            }
            What::Remove { id } => {
                let Some(s) = self.get(id) else { return false };
                s.4 = true;
                true
            }
        }
    }
}

/// Is there an order of the events that agrees with their times and the model?
fn linearizable(m: &Model, evs: &[Ev], done: u64) -> bool {
    if done.count_ones() as usize == evs.len() {
        return true;
    }
    for (i, e) in evs.iter().enumerate() {
        if done >> i & 1 == 1 {
            continue;
        }
        // everything that ended before this began, and everything of this thread before, is done
        let first = evs.iter().enumerate().all(|(j, f)| j == i || done >> j & 1 == 1 || !(f.to < e.from || f.t == e.t && j < i));
        if !first {
            continue;
        }
        let mut n = m.clone();
        if n.step(e.what) && linearizable(&n, evs, done | 1 << i) {
            return true;
        }
    }
    false
}

// -------------------------------------------------------------------- scenarios

struct Setup {
    holders: usize,
    scripts: Vec<Vec<Op>>,
}

impl Setup {
    fn any(&self, f: impl Fn(Op) -> bool) -> bool {
        self.scripts.iter().flatten().any(|o| f(*o))
    }

    /// Worth running: every operation can do something, and they can meet.
    fn makes_sense(&self) -> bool {
        let reads = self.any(|o| matches!(o, GetA | IterA | DeA | NewSame));
        for (t, s) in self.scripts.iter().enumerate() {
            let mut a = self.holders >> t & 1 == 1;
            let mut own = false;
            for o in s {
                match o {
                    GrabA if a => return false,
                    GrabA => a = true,
                    RemA | RootA if !a => return false,
                    DropA if !a => return false,
                    DropA => a = false,
                    New | NewAtA | NewSame if own => return false,
                    New | NewSame => own = true,
                    NewAtA if reads => return false,
                    NewAtA => own = true,
                    RemNew if !own => return false,
                    DropNew if !own => return false,
                    DropNew => own = false,
                    LookNew if !self.scripts.iter().enumerate().any(|(u, s)| u != t && s.iter().any(|o| matches!(o, New | NewAtA | NewSame))) => return false,
                    _ => {}
                }
            }
        }
        // the memory can be free only if every holder lets go of it
        if self.any(|o| o == NewAtA) && !(0..self.scripts.len()).all(|t| self.holders >> t & 1 == 0 || self.scripts[t].contains(&DropA)) {
            return false;
        }
        // something has to change
        self.any(|o| matches!(o, RemA | DropA | RemB | New | NewAtA | NewSame))
    }

    fn world(&self, cx: &mut Cx) -> World {
        let base = region();
        mem::clear_freed();
        let tables: Vec<_> = (0..IDS).map(table).collect();
        let (ab, _) = content(Kind::Long, 1);
        let (bb, _) = content(Kind::Dict, 2);
        let reads = self.any(|o| matches!(o, GetA | IterA | DeA | NewSame));
        let r = cx.call("Scope::new", || {
            let a = Scope::new(arc_at(base + A, &ab), Some(tables[0].clone()));
            let b = Scope::new(arc_at(base + B, &bb), Some(tables[1].clone()));
            (a, b)
        });
        let (a, b) = r;
        let mut addr = [0; sched::MAX];
        for (t, s) in self.scripts.iter().enumerate() {
            addr[t] = if s.contains(&New) { c(t) + 20 } else { A + 30 };
        }
        let w = World {
            base,
            root: if reads { a.root() } else { None },
            data: if reads { a.data() } else { None },
            tables,
            b: Some(b),
            addr,
            slots: Default::default(),
            info: UnsafeCell::new([Info { off: A, len: 48, n: 1 }; IDS]),
            clock: AtomicU32::new(1),
        };
        unsafe { (*w.info.get())[1] = Info { off: B, len: 8, n: 2 } };
        for t in 0..self.scripts.len() {
            w.slot(t).hist.reserve(24);
            if self.holders >> t & 1 == 1 {
                w.slot(t).a = Some(a.clone());
            }
        }
        w
    }

    fn job<'a>(&'a self, w: &'a World, t: usize, step: bool) -> Job<'a> {
        w.slot(t).step = step;
        Box::new(move || {
            let r = guard(|| {
                for (i, op) in self.scripts[t].iter().enumerate() {
                    sched::point();
                    w.exec(t, i, *op, self.scripts.len()).map_err(|e| format!("{op:?}: {e}"))?;
                }
                Ok(())
            });
            if step {
                sched::stepping(false);
            }
            w.slot(t).err = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(format!("panic: {e}")),
            };
        })
    }

    /// What the threads saw, and what is left, has to be explained by one order of the operations.
    fn judge(&self, cx: &mut Cx, w: &World, how: &dyn Fn() -> String) {
        let n = self.scripts.len();
        for t in 0..n {
            if let Some(e) = w.slot(t).err.take() {
                let kind = if e.starts_with("panic") { "panic" } else { "result" };
                cx.fail(format!("concurrent-{kind}"), format!("{:?}, A held by threads {:b}, {}: thread {t}: {e}", self.scripts, self.holders, how()));
            }
        }
        // afterwards
        let main = 7;
        let mut evs: Vec<Ev> = (0..n).flat_map(|t| w.slot(t).hist.clone()).collect();
        evs.sort_by_key(|e| e.from);
        let mut after = |addr: usize| -> Result<(), String> {
            let from = w.now();
            let r = Scope::containing((w.base + addr) as *const u8);
            let id = r.as_ref().map(|s| w.identify(s)).transpose()?;
            evs.push(Ev { t: main, from, to: w.now(), what: What::Found { addr, id } });
            if let Some(id) = id {
                evs.push(Ev { t: main, from: w.now(), to: w.now(), what: What::Release { id } });
            }
            Ok(())
        };
        let r = cx.call("lookup", || {
            [A + 15, A + 16, A + 63, A + 64, B + 16, B + 23, B + 24].into_iter().chain((0..n).flat_map(|t| [c(t) + 16, c(t) + 63])).try_for_each(&mut after)
        });
        cx.want("concurrent-result", r.map_err(|e| format!("{:?}, {}: after all threads: {e}", self.scripts, how())));
        // handles still work
        let r = cx.call("handles", || {
            for t in 0..n {
                let s = w.slot(t);
                for h in s.a.iter().chain(s.own.iter().map(|x| &x.1)) {
                    let id = w.identify(h)?;
                    let d = dict(vec![("key", i(w.info(id).n.into()))]);
                    verify(&h.root().ok_or("no root")?, &d, Keys::Explicit(&w.tables[id]))?;
                }
            }
            if let Some(r) = &w.root {
                verify(r, &dict(vec![("key", i(1))]), Keys::Explicit(&w.tables[0]))?;
            }
            Ok::<(), String>(())
        });
        cx.want("concurrent-handles", r.map_err(|e| format!("{:?}, {}: after all threads: {e}", self.scripts, how())));
        thread_local!(static KNOWN: RefCell<HashSet<u64>> = RefCell::new(HashSet::new()));
        let mut h = Fnv::new();
        h.u(self.holders as u64);
        let mut rank: Vec<u32> = evs.iter().flat_map(|e| [e.from, e.to]).collect();
        rank.sort_unstable();
        rank.dedup();
        for e in &evs {
            h.u(e.t as u64).u(rank.binary_search(&e.from).unwrap() as u64).u(rank.binary_search(&e.to).unwrap() as u64);
            h.bytes(format!("{:?}", e.what).as_bytes());
        }
        if KNOWN.with(|k| k.borrow().contains(&h.0)) {
            return;
        }
        cx.outcome(h.0);
        cx.cases(1);
        let mut m = Model::default();
        m.sc.push((0, A, 48, self.holders.count_ones(), false));
        m.sc.push((1, B, 8, 1, false));
        if !linearizable(&m, &evs, 0) {
            let show: Vec<String> = evs.iter().map(|e| format!("  {}..{} {}: {:?}", e.from, e.to, if e.t == main { "afterwards".into() } else { format!("thread {}", e.t) }, e.what)).collect();
            cx.fail("not-linearizable", format!("{:?}, A held by threads {:b}, {}: no order of the operations explains\n{}", self.scripts, self.holders, how(), show.join("\n")));
        }
        KNOWN.with(|k| {
            let mut k = k.borrow_mut();
            if k.len() < 2_000_000 {
                k.insert(h.0);
            }
        });
    }

    fn clean(&self, w: World) {
        for t in 0..self.scripts.len() {
            let s = w.slot(t);
            for h in s.a.take().into_iter().chain(s.own.take().map(|x| x.1)) {
                h.remove();
            }
        }
        if let Some(b) = &w.b {
            b.remove();
        }
    }

    fn unused(&self, w: &World) -> bool {
        (0..self.scripts.len()).any(|t| w.slot(t).unused)
    }
}

fn scheduled(cx: &mut Cx, s: &Setup, preempt: usize) {
    let q = mem::quarantine();
    let w = s.world(cx);
    let jobs = (0..s.scripts.len()).map(|t| s.job(&w, t, false)).collect();
    match sched::interleave(cx, preempt, jobs) {
        Outcome::Done { trace, switches } => {
            cx.ops(trace.len() as u64);
            if s.unused(&w) {
                s.clean(w);
                cx.prune();
            }
            cx.note(|| format!("{:?}, A held by {:b}, schedule {trace:?} ({switches} switches): {:?}", s.scripts, s.holders, (0..s.scripts.len()).map(|t| w.slot(t).hist.clone()).collect::<Vec<_>>()));
            s.judge(cx, &w, &|| format!("schedule {trace:?}"));
            s.clean(w);
        }
        Outcome::Diverged => {
            s.clean(w);
            cx.prune();
        }
        Outcome::Deadlock(d) => {
            std::mem::forget(w);
            std::mem::forget(q);
            cx.fail("deadlock", format!("{:?}, A held by threads {:b}: {d}", s.scripts, s.holders));
        }
        Outcome::Unusable => {
            std::mem::forget(w);
        }
    }
}

const MENU: [Op; 17] = [LookA, LookB, GrabA, KeysA, GetA, IterA, DeA, RootA, RemA, DropA, RemB, New, LookNew, NewAtA, NewSame, RemNew, DropNew];

fn scripts(cx: &mut Cx, menu: &[Op], len: &[usize], holders: &[usize]) -> Setup {
    let holders = *cx.pick(holders);
    let mut s = Setup { holders, scripts: vec![] };
    for n in len {
        s.scripts.push((0..*n).map(|_| *cx.pick(menu)).collect());
    }
    // threads that start alike may be exchanged
    for t in 1..s.scripts.len() {
        if holders >> t & 1 == holders >> (t - 1) & 1 && len[t] == len[t - 1] && s.scripts[t] < s.scripts[t - 1] {
            cx.prune();
        }
    }
    if !s.makes_sense() {
        cx.prune();
    }
    s
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let all = 99;
    v.push(scen(
        "two threads",
        "all schedules of 2 threads that do one of 17 operations each",
        3,
        move |cx| {
            let s = scripts(cx, &MENU, &[1, 1], &[1, 3]);
            scheduled(cx, &s, all);
        },
    ));
    let few = [LookA, GrabA, KeysA, GetA, RemA, DropA, New, LookNew, NewAtA, NewSame, RemNew, DropNew];
    let p = t.sel(2, 4);
    v.push(scen(
        "two operations each",
        format!("all schedules with at most {p} preemptions of 2 threads that do two of {} operations each", few.len()),
        3,
        move |cx| {
            let s = scripts(cx, &few, &[2, 2], &[1, 3]);
            scheduled(cx, &s, p);
        },
    ));
    v.push(scen(
        "three threads",
        format!("all schedules with at most {} preemptions of 3 threads that do one of 17 operations each", t.sel(2, 99)),
        3,
        move |cx| {
            let s = scripts(cx, &MENU, &[1, 1, 1], &[1, 3, 7]);
            scheduled(cx, &s, t.sel(2, 99));
        },
    ));
    let pairs: Vec<(Op, Op)> = match t {
        Tier::Quick => PAIRS.to_vec(),
        Tier::Thorough => MENU.iter().flat_map(|a| MENU.iter().map(move |b| (*a, *b))).collect(),
    };
    v.push(scen(
        "between any two instructions",
        format!("{} pairs of operations: the first one is stopped before each of its instructions while another thread does the second one, or as much of it as it can", pairs.len()),
        3,
        move |cx| stepped(cx, &pairs, 16),
    ));
    v
}

const PAIRS: [(Op, Op); 28] = [
    (LookA, RemA),
    (LookA, DropA),
    (LookA, NewSame),
    (GrabA, DropA),
    (KeysA, DropA),
    (KeysA, RemA),
    (GetA, DropA),
    (GetA, RemA),
    (IterA, RemA),
    (DeA, RemA),
    (RootA, RemA),
    (RemA, LookA),
    (RemA, NewSame),
    (RemA, New),
    (RemA, RemA),
    (RemA, DropA),
    (DropA, LookA),
    (DropA, NewAtA),
    (DropA, GrabA),
    (New, LookA),
    (New, LookNew),
    (New, New),
    (NewSame, DropA),
    (NewSame, RemA),
    (NewSame, LookA),
    (NewSame, NewSame),
    (DropA, NewSame),
    (DropA, DropA),
];

/// The first thread is stopped before its k-th instruction, the second runs, the first goes on.
fn stepped(cx: &mut Cx, menu: &[(Op, Op)], split: usize) {
    type Traces = std::collections::HashMap<(usize, Op, Op), std::rc::Rc<Vec<sched::Where>>>;
    thread_local!(static TRACES: RefCell<Traces> = RefCell::new(Default::default()));
    let holders = *cx.pick(&[1usize, 2, 3]);
    let (first, second) = *cx.pick(menu);
    let s = Setup { holders, scripts: vec![vec![first], vec![second]] };
    if !s.makes_sense() {
        cx.prune();
    }
    let part = cx.choose(split);
    let key = (holders, first, second);
    let trace = match TRACES.with(|l| l.borrow().get(&key).cloned()) {
        Some(n) => n,
        None => {
            let mut longest = vec![];
            for _ in 0..3 {
                let q = mem::quarantine();
                let w = s.world(cx);
                match sched::record(s.job(&w, 0, true), s.job(&w, 1, false)) {
                    Some(x) => longest = x,
                    None => {
                        std::mem::forget(w);
                        std::mem::forget(q);
                        cx.fail("deadlock", format!("{:?} one after the other", s.scripts));
                    }
                }
                s.clean(w);
                drop(q);
            }
            let n = std::rc::Rc::new(longest);
            TRACES.with(|l| l.borrow_mut().insert(key, n.clone()));
            n
        }
    };
    let len = (trace.len() + 16).next_multiple_of(32);
    // the number of an instruction may differ from process to process
    let confirming = cx.confirming();
    let ks = if confirming {
        0..trace.len()
    } else {
        let k = cx.choose(len / split) * split + part;
        k..k + 1
    };
    let mut some = false;
    for k in ks {
        let Some(at) = trace.get(k) else { cx.prune() };
        some |= stop(cx, &s, *at, k);
    }
    if !some || confirming {
        cx.prune();
    }
}

fn stop(cx: &mut Cx, s: &Setup, at: sched::Where, k: usize) -> bool {
    cx.beat();
    for at in [at, sched::Where::Step(k)] {
        let q = mem::quarantine();
        let w = s.world(cx);
        match sched::stopped_at(at, s.job(&w, 0, true), s.job(&w, 1, false)) {
            Some(x) => {
                if !x.reached || s.unused(&w) {
                    s.clean(w);
                    if x.reached {
                        return false;
                    }
                    continue;
                }
                cx.ops(1 + u64::from(x.waited));
                let how = || format!("thread 0 stopped before instruction {k}{}", if x.waited { ", thread 1 waits for it" } else { "" });
                cx.note(|| format!("{:?}, A held by {:b}, {}: {:?}", s.scripts, s.holders, how(), (0..2).map(|t| w.slot(t).hist.clone()).collect::<Vec<_>>()));
                s.judge(cx, &w, &how);
                s.clean(w);
                return true;
            }
            None => {
                std::mem::forget(w);
                std::mem::forget(q);
                cx.fail("deadlock", format!("{:?}, A held by threads {:b}: thread 0 stopped before instruction {k}", s.scripts, s.holders));
            }
        }
    }
    false
}
