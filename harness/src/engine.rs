//! Stateless exhaustive explorer: depth-first over the tree of choices made by a driver.
//!
//! A driver ("scenario") is an ordinary function that calls `Cx::choose(n)` wherever there is more
//! than one possibility and runs the real code in between.  The explorer re-executes it for every
//! choice sequence.  Work is shared between processes by handing out prefixes of length `split`.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn sel<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Scenario {
    pub name: String,
    /// What is enumerated, in words (goes to the evidence file).
    pub bounds: String,
    pub split: usize,
    pub f: Box<dyn Fn(&mut Cx)>,
}

pub fn scen(
    name: impl Into<String>,
    bounds: impl Into<String>,
    split: usize,
    f: impl Fn(&mut Cx) + 'static,
) -> Scenario {
    Scenario {
        name: name.into(),
        bounds: bounds.into(),
        split,
        f: Box::new(f),
    }
}

struct Skip;
/// Unwind marker: this branch is not part of the space (counted, not an execution).
struct Prune;
pub struct Fail {
    pub sig: String,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub executions: u64,
    pub pruned: u64,
    pub nodes: u64,
    pub ops: u64,
    pub cases: u64,
}

pub struct Cx {
    path: Vec<u32>,
    sizes: Vec<u32>,
    pos: usize,
    changed: usize,
    first: bool,
    split: usize,
    owned: bool,
    local_k: u64,
    ticket: u64,
    claimed: Vec<u64>,
    tickets: Tickets,
    pub c: Counters,
    verbose: bool,
    notes: Vec<String>,
    outcomes: HashSet<u64>,
    replaying: bool,
    /// Replaying an execution that failed.
    confirming: bool,
    state: Option<StateFile>,
    pub known_hits: BTreeMap<String, u64>,
}

#[derive(Clone)]
enum Tickets {
    All,
    Shared(*mut u64),
    List(std::rc::Rc<Vec<u64>>, usize),
}

/// Shared with the supervising process: heartbeat + current path (to attribute crashes and hangs).
pub struct StateFile {
    p: *mut u32,
    cap: usize,
}

impl StateFile {
    pub fn open(path: &str) -> StateFile {
        let cap = 1 << 16;
        StateFile {
            p: map_shared(path, cap * 8) as *mut u32,
            cap,
        }
    }
    fn beat(&self) {
        unsafe {
            let v = self.p.read_volatile();
            self.p.write_volatile(v.wrapping_add(1));
        }
    }
    fn set_scenario(&self, s: u32) {
        unsafe { self.p.add(1).write_volatile(s) }
    }
    fn set_len(&self, l: usize) {
        unsafe { self.p.add(2).write_volatile(l as u32) }
    }
    /// Remember a claimed ticket (second half of the file).
    fn claim(&self, k: u64) {
        unsafe {
            let n = self.p.add(self.cap).read_volatile() as usize;
            if n + 1 < self.cap {
                self.p.add(self.cap + 1 + n).write_volatile(k as u32);
            }
            self.p.add(self.cap).write_volatile(n as u32 + 1);
        }
    }
    fn reset_claims(&self) {
        unsafe { self.p.add(self.cap).write_volatile(0) }
    }
    fn set(&self, i: usize, v: u32) {
        if 3 + i < self.cap {
            unsafe { self.p.add(3 + i).write_volatile(v) }
        }
    }
}

pub fn map_shared(path: &str, size: usize) -> *mut u8 {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
        assert!(fd >= 0, "open {path}");
        let st = libc::lseek(fd, 0, libc::SEEK_END);
        if (st as usize) < size {
            assert_eq!(libc::ftruncate(fd, size as i64), 0);
        }
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        libc::close(fd);
        assert!(p != libc::MAP_FAILED);
        p as *mut u8
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// The location and message of the last panic on this thread.
pub fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_default()
}

/// Run `f`, turning a panic into `Err(description)`; explorer unwinds pass through.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Skip>() || p.is::<Fail>() || p.is::<Prune>() {
                resume_unwind(p)
            }
            let (loc, msg) = last_panic();
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

impl Cx {
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "choose({n})");
        let i = self.pos;
        if i < self.path.len() {
            if self.sizes[i] != n as u32 {
                if self.sizes[i] == 0 {
                    // replay: the sizes are not recorded
                    self.sizes[i] = n as u32;
                    if self.path[i] as usize >= n {
                        // not the same space (the length of an execution may differ)
                        resume_unwind(Box::new(Prune));
                    }
                } else {
                    panic!(
                        "ENGINE: nondeterministic driver: choice {i} had {} options, now {n}",
                        self.sizes[i]
                    );
                }
            }
        } else {
            let _u = crate::mem::unwatched();
            self.path.push(0);
            self.sizes.push(n as u32);
            if let Some(s) = &self.state {
                s.set(i, 0);
                s.set_len(i + 1);
            }
        }
        self.pos += 1;
        if self.pos == self.split {
            self.claim();
        }
        self.path[i] as usize
    }

    /// Like `choose`, but gives up if the execution does not repeat the earlier one.
    pub fn try_choose(&mut self, n: usize) -> Option<usize> {
        match self.sizes.get(self.pos) {
            Some(s) if *s != 0 && *s != n as u32 || *s == 0 && self.path[self.pos] as usize >= n => None,
            _ => Some(self.choose(n)),
        }
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }

    /// True when the node reached was not visited by an earlier execution: checks that depend only
    /// on the choices made so far need to be done only then.
    pub fn fresh(&self) -> bool {
        self.first || self.pos > self.changed || self.replaying
    }

    /// An execution that failed is done again (in a process of its own).
    pub fn confirming(&self) -> bool {
        self.confirming
    }

    pub fn verbose(&self) -> bool {
        self.verbose
    }

    fn claim(&mut self) {
        let _u = crate::mem::unwatched();
        if !self.first && self.changed >= self.split {
            return; // same prefix as before
        }
        let k = self.local_k;
        self.local_k += 1;
        let ours = match &mut self.tickets {
            Tickets::All => true,
            Tickets::Shared(_) => self.ticket == k,
            Tickets::List(v, i) => {
                if v.get(*i) == Some(&k) {
                    *i += 1;
                    true
                } else {
                    false
                }
            }
        };
        if ours {
            if let Tickets::Shared(p) = &self.tickets {
                self.ticket = take_ticket(*p);
            }
            self.owned = true;
            if let Some(s) = &self.state {
                s.claim(k);
            }
            if self.claimed.len() < 1 << 20 {
                self.claimed.push(k);
            }
        } else {
            self.owned = false;
            resume_unwind(Box::new(Skip));
        }
    }

    pub fn ops(&mut self, n: u64) {
        self.c.ops += n;
    }

    pub fn cases(&mut self, n: u64) {
        self.c.cases += n;
    }

    pub fn beat(&self) {
        if let Some(s) = &self.state {
            s.beat()
        }
    }

    pub fn prune(&mut self) -> ! {
        resume_unwind(Box::new(Prune))
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let _u = crate::mem::unwatched();
            let s = f();
            self.notes.push(s);
        }
    }

    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 50_000 {
            let _u = crate::mem::unwatched();
            self.outcomes.insert(h);
        }
    }

    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) -> ! {
        resume_unwind(Box::new(Fail {
            sig: sig.into(),
            detail: detail.into(),
        }))
    }

    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) {
        if !ok {
            let d = detail();
            self.fail(sig, d)
        }
    }

    /// Run code of the crate that must not panic.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> T {
        match guard(f) {
            Ok(v) => v,
            Err(e) => self.fail(format!("panic:{what}"), format!("{what}: {e}")),
        }
    }

    pub fn want<T>(&mut self, what: &str, r: Result<T, String>) -> T {
        match r {
            Ok(v) => v,
            Err(e) => self.fail(what, e),
        }
    }
}

impl Cx {
    /// Run a driver under watch.  If it leaves memory behind, do the same execution three times more;
    /// what every repetition leaves behind is the result (the least of them).
    pub fn kept(&mut self, f: &dyn Fn(&mut Cx)) -> (i64, i64) {
        fn watched(cx: &mut Cx, f: &dyn Fn(&mut Cx)) -> (Result<(), Box<dyn Any + Send>>, (i64, i64)) {
            crate::mem::watch();
            let r = catch_unwind(AssertUnwindSafe(|| f(cx)));
            let k = crate::mem::watched();
            (r, k)
        }
        let (r, mut kept) = watched(self, f);
        match r {
            Ok(()) => {}
            Err(p) if p.is::<Skip>() => resume_unwind(p),
            // what the driver itself looks for is the business of another property
            Err(_) => resume_unwind(Box::new(Prune)),
        }
        for _ in 0..3 {
            if kept.0 <= 0 {
                return (0, 0);
            }
            let mut cx = new_cx(usize::MAX, None);
            cx.path = self.path[..self.pos].to_vec();
            cx.sizes = vec![0; self.pos];
            let (r, k) = watched(&mut cx, f);
            if r.is_err() {
                return (0, 0);
            }
            kept = (kept.0.min(k.0), kept.1.min(k.1));
        }
        kept
    }
}

fn take_ticket(p: *mut u64) -> u64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    unsafe { (*(p as *const AtomicU64)).fetch_add(1, Ordering::SeqCst) }
}

pub struct Violation {
    pub scenario: String,
    pub path: Vec<u32>,
    pub sig: String,
    pub detail: String,
    pub notes: Vec<String>,
    pub tickets: Vec<u64>,
}

pub struct Sample {
    pub scenario: String,
    pub path: Vec<u32>,
    pub notes: Vec<String>,
}

pub struct ScenResult {
    pub name: String,
    pub bounds: String,
    pub c: Counters,
    pub complete: bool,
    pub wall: f64,
}

pub struct RunResult {
    pub scenarios: Vec<ScenResult>,
    pub violation: Option<Violation>,
    pub samples: Vec<Sample>,
    pub outcomes: Vec<u64>,
    pub known: BTreeMap<String, u64>,
    pub engine_error: Option<String>,
}

enum End {
    Complete,
    Skipped,
    Pruned,
    Failed(Fail),
    Engine(String),
}

fn run_one(s: &Scenario, cx: &mut Cx) -> End {
    let r: Result<(), Box<dyn Any + Send>> = catch_unwind(AssertUnwindSafe(|| {
        if cx.split == 0 {
            cx.claim();
        }
        (s.f)(cx);
        if cx.pos < cx.split {
            cx.claim();
        }
    }));
    match r {
        Ok(()) => End::Complete,
        Err(p) => {
            if p.is::<Skip>() {
                return End::Skipped;
            }
            if p.is::<Prune>() {
                return End::Pruned;
            }
            match p.downcast::<Fail>() {
                Ok(f) => End::Failed(*f),
                Err(_) => {
                    let (loc, msg) = last_panic();
                    if msg.starts_with("ENGINE:") {
                        End::Engine(msg)
                    } else {
                        End::Failed(Fail {
                            sig: "panic".into(),
                            detail: format!("unexpected panic at {loc}: {msg}"),
                        })
                    }
                }
            }
        }
    }
}

fn new_cx(split: usize, state: Option<StateFile>) -> Cx {
    Cx {
        path: vec![],
        sizes: vec![],
        pos: 0,
        changed: 0,
        first: true,
        split,
        owned: false,
        local_k: 0,
        ticket: 0,
        claimed: vec![],
        tickets: Tickets::All,
        c: Counters::default(),
        verbose: false,
        notes: vec![],
        outcomes: HashSet::new(),
        replaying: false,
        confirming: false,
        state,
        known_hits: BTreeMap::new(),
    }
}

/// Re-run one path, collecting the notes.
pub fn replay(s: &Scenario, path: &[u32], state: Option<StateFile>) -> (Option<Fail>, Vec<String>) {
    rerun(s, path, state, true)
}

fn rerun(s: &Scenario, path: &[u32], state: Option<StateFile>, confirming: bool) -> (Option<Fail>, Vec<String>) {
    let mut cx = new_cx(usize::MAX, state);
    cx.confirming = confirming;
    cx.path = path.to_vec();
    cx.sizes = vec![0; path.len()];
    cx.verbose = true;
    cx.replaying = true;
    let r = run_one(s, &mut cx);
    let f = match r {
        End::Failed(f) => Some(f),
        End::Engine(e) => Some(Fail {
            sig: "ENGINE".into(),
            detail: e,
        }),
        _ => None,
    };
    (f, cx.notes)
}

pub struct RunCfg {
    /// shared ticket file (one u64 per scenario), or none: explore everything
    pub tickets: Option<*mut u64>,
    pub ticket_list: Option<(usize, Vec<u64>)>,
    pub state: Option<String>,
    pub deadline: f64,
    pub known: HashSet<String>,
}

pub fn run(scens: &[Scenario], cfg: &RunCfg) -> RunResult {
    let t0 = Instant::now();
    let mut res = RunResult {
        scenarios: vec![],
        violation: None,
        samples: vec![],
        outcomes: vec![],
        known: BTreeMap::new(),
        engine_error: None,
    };
    let mut outcomes = HashSet::new();
    for (si, s) in scens.iter().enumerate() {
        if let Some((only, _)) = &cfg.ticket_list {
            if *only != si {
                continue;
            }
        }
        let t1 = Instant::now();
        let mut cx = new_cx(s.split, cfg.state.as_deref().map(StateFile::open));
        if let Some(st) = &cx.state {
            st.set_len(0);
            st.reset_claims();
            st.set_scenario(si as u32);
        }
        if let Some((_, l)) = &cfg.ticket_list {
            cx.tickets = Tickets::List(std::rc::Rc::new(l.clone()), 0);
        } else if let Some(p) = cfg.tickets {
            let p = unsafe { p.add(si) };
            cx.tickets = Tickets::Shared(p);
            cx.ticket = take_ticket(p);
        }
        let mut complete = true;
        let mut n: u64 = 0;
        loop {
            cx.pos = 0;
            cx.owned = false;
            let end = run_one(s, &mut cx);
            match end {
                End::Engine(e) => {
                    res.engine_error = Some(format!("{}: {e} path={:?}", s.name, cx.path));
                    break;
                }
                End::Skipped => {}
                End::Pruned => {
                    cx.c.pruned += 1;
                }
                End::Complete => {
                    cx.c.executions += 1;
                    let new = cx.pos.saturating_sub(if cx.first { 0 } else { cx.changed });
                    cx.c.nodes += new as u64;
                    if cx.c.executions == 1 || (cx.c.executions.is_power_of_two() && cx.c.executions >= 256 && res.samples.len() < 40) {
                        let (_, notes) = replay_quiet(s, &cx.path);
                        res.samples.push(Sample {
                            scenario: s.name.clone(),
                            path: cx.path.clone(),
                            notes,
                        });
                    }
                }
                End::Failed(f) => {
                    cx.c.executions += 1;
                    let new = cx.pos.saturating_sub(if cx.first { 0 } else { cx.changed });
                    cx.c.nodes += new as u64;
                    if cfg.known.contains(&f.sig) {
                        *res.known.entry(f.sig).or_default() += 1;
                    } else {
                        let path = cx.path[..cx.pos].to_vec();
                        let (_, notes) = replay_quiet(s, &path);
                        res.violation = Some(Violation {
                            scenario: s.name.clone(),
                            path,
                            sig: f.sig,
                            detail: f.detail,
                            notes,
                            tickets: cx.claimed.clone(),
                        });
                        break;
                    }
                }
            }
            // advance
            cx.first = false;
            cx.path.truncate(cx.pos);
            cx.sizes.truncate(cx.pos);
            loop {
                match cx.path.last() {
                    None => break,
                    Some(&v) => {
                        if v + 1 < *cx.sizes.last().unwrap() {
                            *cx.path.last_mut().unwrap() += 1;
                            break;
                        }
                        cx.path.pop();
                        cx.sizes.pop();
                    }
                }
            }
            if cx.path.is_empty() {
                break;
            }
            cx.changed = cx.path.len() - 1;
            if let Some(st) = &cx.state {
                st.beat();
                st.set(cx.changed, cx.path[cx.changed]);
                st.set_len(cx.path.len());
            }
            n += 1;
            if n % 64 == 0 && t0.elapsed().as_secs_f64() > cfg.deadline {
                complete = false;
                break;
            }
        }
        outcomes.extend(cx.outcomes.iter().copied());
        for (k, v) in &cx.known_hits {
            *res.known.entry(k.clone()).or_default() += v;
        }
        let bad = res.violation.is_some() || res.engine_error.is_some();
        res.scenarios.push(ScenResult {
            name: s.name.clone(),
            bounds: s.bounds.clone(),
            c: cx.c.clone(),
            complete: complete && !bad,
            wall: t1.elapsed().as_secs_f64(),
        });
        if bad {
            break;
        }
    }
    res.outcomes = outcomes.into_iter().collect();
    res
}

fn replay_quiet(s: &Scenario, path: &[u32]) -> (Option<Fail>, Vec<String>) {
    rerun(s, path, None, false)
}

/// FNV-1a, for outcome hashes.
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3);
        }
        self
    }
    pub fn u(&mut self, v: u64) -> &mut Self {
        self.bytes(&v.to_le_bytes())
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    Fnv::new().bytes(b).0
}
