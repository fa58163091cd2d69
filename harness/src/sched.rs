//! Threads under the explorer's control.
//!
//! `interleave`: every thread runs until a scheduling point (the start of an operation, before a
//! `ShardedLock` is acquired, after it was released; reported by the hooks of the substituted
//! crossbeam-utils); only the thread that holds the baton runs, and who gets it next is a choice of
//! the explorer.  A lock is granted only when it is free, so that no granted thread ever waits.
//! Threads that wait for something else (other kinds of locks) are noticed and set aside.
//!
//! `stopped_at`: one thread is stopped before its n-th instruction (single-stepped with the trap
//! flag) while another one runs to its end, or until it waits for the first.

use crate::engine::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Mutex, MutexGuard, Once};

pub const MAX: usize = 3;
pub type Job<'a> = Box<dyn FnOnce() + Send + 'a>;

// --------------------------------------------------------------------- futexes

fn wait(w: &AtomicU32, val: u32, ms: Option<u64>) {
    let ts = ms.map(|ms| libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: (ms % 1000 * 1_000_000) as i64 });
    let p = ts.as_ref().map_or(std::ptr::null(), |t| t as *const _);
    unsafe {
        libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, val, p);
    }
}
fn wake(w: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, w as *const _ as *const u32, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
    }
}

/// Something one thread waits for and others set.
struct Flag(AtomicU32);
impl Flag {
    const fn new() -> Flag {
        Flag(AtomicU32::new(0))
    }
    fn set(&self) {
        self.0.store(1, SeqCst);
        wake(&self.0);
    }
    fn is(&self) -> bool {
        self.0.load(SeqCst) == 1
    }
    fn clear(&self) {
        self.0.store(0, SeqCst);
    }
    fn take(&self) {
        while self.0.swap(0, SeqCst) == 0 {
            wait(&self.0, 0, None);
        }
    }
    /// False after a time-out; the flag stays set.
    fn wait_ms(&self, ms: u64) -> bool {
        if !self.is() {
            wait(&self.0, 0, Some(ms));
        }
        self.is()
    }
}

// --------------------------------------------------------------------- the pool

struct Worker {
    go: Flag,
    started: AtomicBool,
    done: Flag,
    tid: AtomicU32,
}
struct JobBox(Option<Job<'static>>);
unsafe impl Send for JobBox {}

static WORKERS: [Worker; MAX] = [const { Worker { go: Flag::new(), started: AtomicBool::new(false), done: Flag::new(), tid: AtomicU32::new(0) } }; MAX];
static JOBS: [Mutex<JobBox>; MAX] = [const { Mutex::new(JobBox(None)) }; MAX];
static START: Once = Once::new();
/// Set once threads are stuck for good: nothing can be run in this process any more.
static BROKEN: AtomicBool = AtomicBool::new(false);

thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

fn start() {
    START.call_once(|| {
        crossbeam_utils::sync::hooks::install(crossbeam_utils::sync::hooks::Hooks { acquire, try_acquire, acquired, released });
        // tell whether locks are tried before the first schedule: the choices depend on it
        let _ = std::panic::catch_unwind(|| {
            let s = fleece::Scope::new(vec![0u8, 0, 0x80, 0], None);
            let a = s.range().map_or(0, |r| r.start);
            drop(fleece::Scope::containing(a as *const u8));
            drop(fleece::Scope::find_shared_keys(a as *const u8));
            s.remove();
            drop(s);
        });
        for t in 0..MAX {
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || worker(t)).expect("ENGINE: thread");
        }
        for w in &WORKERS {
            while w.tid.load(SeqCst) == 0 {
                std::thread::yield_now();
            }
        }
    });
}

fn worker(t: usize) {
    let w = &WORKERS[t];
    ME.with(|m| m.set(t));
    w.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
    loop {
        w.go.take();
        w.started.store(true, SeqCst);
        let j = JOBS[t].lock().unwrap().0.take();
        if let Some(j) = j {
            j();
        }
        if MANAGED.load(SeqCst) {
            finished(t);
        }
        w.done.set();
        EVENT.set();
    }
}

/// The kernel says that the thread sleeps.  Does not allocate: the thread could have been stopped
/// while it held the allocator's lock.
fn sleeps(t: usize) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let (mut n, mut i) = (WORKERS[t].tid.load(SeqCst), 16);
    let mut digits = [0u8; 10];
    let mut k = 0;
    loop {
        digits[k] = b'0' + (n % 10) as u8;
        k += 1;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for d in digits[..k].iter().rev() {
        path[i] = *d;
        i += 1;
    }
    for c in b"/stat\0" {
        path[i] = *c;
        i += 1;
    }
    let mut b = [0u8; 256];
    let n = unsafe {
        let fd = libc::open(path.as_ptr().cast(), libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return false;
        }
        let n = libc::read(fd, b.as_mut_ptr().cast(), b.len());
        libc::close(fd);
        n.max(0) as usize
    };
    let b = &b[..n];
    let Some(p) = b.iter().rposition(|c| *c == b')') else { return false };
    b[p + 1..].iter().find(|c| **c != b' ') == Some(&b'S')
}

unsafe fn hand_out(jobs: Vec<Job<'_>>) {
    for (t, j) in jobs.into_iter().enumerate() {
        WORKERS[t].done.clear();
        WORKERS[t].started.store(false, SeqCst);
        JOBS[t].lock().unwrap().0 = Some(std::mem::transmute::<Job<'_>, Job<'static>>(j));
    }
}

// ------------------------------------------------------------ scheduling points

#[derive(Clone, Copy, PartialEq, Debug)]
enum Req {
    Free,
    Acquire(usize, bool),
    /// After a failed attempt: worth another try once a lock was released.
    Retry(u64),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Running,
    At(Req),
    /// Waits for something that is no scheduling point.
    Stuck,
    Done,
}
#[derive(Default, Clone)]
struct Lock {
    writer: Option<usize>,
    readers: [u32; MAX],
}
struct Ctl {
    cx: *mut Cx,
    st: [St; MAX],
    holder: Option<usize>,
    budget: usize,
    locks: Option<HashMap<usize, Lock>>,
    epoch: u64,
    steps: u64,
    failed: [bool; MAX],
    trace: Vec<u8>,
    diverged: bool,
    switches: u64,
}
unsafe impl Send for Ctl {}
static CTL: Mutex<Ctl> = Mutex::new(Ctl {
    cx: std::ptr::null_mut(),
    st: [St::Idle; MAX],
    holder: None,
    budget: 0,
    locks: None,
    epoch: 0,
    steps: 0,
    failed: [false; MAX],
    trace: Vec::new(),
    diverged: false,
    switches: 0,
});
static MANAGED: AtomicBool = AtomicBool::new(false);
static MAIN: Flag = Flag::new();

fn ctl() -> MutexGuard<'static, Ctl> {
    CTL.lock().unwrap_or_else(|e| e.into_inner())
}

impl Ctl {
    fn lock(&mut self, a: usize) -> &mut Lock {
        self.locks.get_or_insert_with(HashMap::new).entry(a).or_default()
    }
    fn free(&mut self, t: usize, a: usize, write: bool) -> bool {
        let l = self.lock(a);
        // a thread that reads may not read again while a writer waits (it could deadlock), but
        // whether it does is up to the lock; here it may
        match write {
            true => l.writer.is_none() && l.readers.iter().all(|r| *r == 0),
            false => l.writer.is_none(),
        }
        .then_some(t)
        .is_some()
    }
    fn enabled(&mut self, t: usize) -> bool {
        match self.st[t] {
            St::At(Req::Free) => true,
            St::At(Req::Acquire(a, w)) => self.free(t, a, w),
            St::At(Req::Retry(e)) => self.epoch > e,
            _ => false,
        }
    }
    fn take(&mut self, t: usize, a: usize, write: bool) {
        let l = self.lock(a);
        match write {
            true => l.writer = Some(t),
            false => l.readers[t] += 1,
        }
    }
    /// Decide who runs next; `from` is the thread that is at a scheduling point now.
    fn next(&mut self, from: Option<usize>) {
        let mut can: Vec<usize> = (0..MAX).filter(|t| self.enabled(*t)).collect();
        let mut free_choice = true;
        if let Some(f) = from {
            if let Some(i) = can.iter().position(|t| *t == f) {
                can.remove(i);
                can.insert(0, f);
                free_choice = false;
            }
        }
        if can.is_empty() {
            // a failed attempt may be repeated if there is nothing else to do
            let retry: Vec<usize> = (0..MAX).filter(|t| matches!(self.st[*t], St::At(Req::Retry(_)))).collect();
            can = retry.into_iter().take(1).collect();
        }
        self.holder = None;
        let n = if free_choice || self.budget > 0 { can.len() } else { can.len().min(1) };
        let i = match n {
            0 => {
                if self.st.iter().all(|s| matches!(s, St::Done | St::Idle)) {
                    MAIN.set();
                }
                return;
            }
            1 => 0,
            n if self.diverged => 0.min(n),
            n => match unsafe { (*self.cx).try_choose(n) } {
                Some(i) => i,
                None => {
                    self.diverged = true;
                    0
                }
            },
        };
        if !free_choice && i > 0 {
            self.budget -= 1;
        }
        let t = can[i];
        if let St::At(Req::Acquire(a, w)) = self.st[t] {
            self.take(t, a, w);
        }
        self.trace.push(t as u8);
        if from != Some(t) {
            self.switches += 1;
        }
        self.holder = Some(t);
        self.st[t] = St::Running;
        self.steps += 1;
        if from != Some(t) {
            WORKERS[t].go.set();
        }
    }
}

fn managed() -> Option<usize> {
    if !MANAGED.load(SeqCst) {
        return None;
    }
    let t = ME.with(Cell::get);
    (t < MAX).then_some(t)
}

fn at(t: usize, r: Req) {
    let _own = crate::mem::unwatched();
    let mut c = ctl();
    let r = match r {
        Req::Free if c.failed[t] => Req::Retry(c.epoch),
        r => r,
    };
    c.failed[t] = false;
    c.steps += 1;
    c.st[t] = St::At(r);
    if c.holder == Some(t) {
        c.next(Some(t));
    } else if c.holder.is_none() {
        c.next(None);
        // the baton may have come back without a signal for `from`
    }
    let mine = c.holder == Some(t);
    drop(c);
    if mine {
        // given by someone else in the meantime: the signal is consumed
        WORKERS[t].go.0.store(0, SeqCst);
        return;
    }
    WORKERS[t].go.take();
}

/// A scheduling point of its own: the start of an operation.
pub fn point() {
    if let Some(t) = managed() {
        at(t, Req::Free);
    }
}

fn acquire(a: usize, write: bool) -> bool {
    match managed() {
        None => false,
        Some(t) => {
            at(t, Req::Acquire(a, write));
            true
        }
    }
}
/// Whether any lock was ever only tried: only then can others see that a lock is held, and only then
/// is there a scheduling point right after one was taken.
static TRIES: AtomicBool = AtomicBool::new(false);

fn acquired(_: usize, _: bool) {
    if TRIES.load(SeqCst) {
        point();
    }
}
fn try_acquire(a: usize, write: bool) -> Option<bool> {
    TRIES.store(true, SeqCst);
    let t = managed()?;
    at(t, Req::Free);
    let own = crate::mem::unwatched();
    let mut c = ctl();
    let free = c.free(t, a, write);
    match free {
        true => c.take(t, a, write),
        false => c.failed[t] = true,
    }
    drop(c);
    drop(own);
    if free {
        point();
    }
    Some(free)
}
fn released(a: usize, write: bool) {
    let t = ME.with(Cell::get);
    if t >= MAX {
        return;
    }
    let own = crate::mem::unwatched();
    let mut c = ctl();
    let l = c.lock(a);
    match write {
        true => l.writer = None,
        false => l.readers[t] = l.readers[t].saturating_sub(1),
    }
    c.epoch += 1;
    drop(c);
    drop(own);
    if managed().is_some() {
        at(t, Req::Free);
    }
}
fn finished(t: usize) {
    let mut c = ctl();
    c.st[t] = St::Done;
    c.steps += 1;
    if c.holder == Some(t) || c.holder.is_none() {
        c.next(None);
    }
}

pub enum Outcome {
    Done { trace: Vec<u8>, switches: u64 },
    /// The choices could not be repeated (threads that wait for each other outside the scheduler).
    Diverged,
    /// Nothing moves any more.
    Deadlock(String),
    Unusable,
}

/// Run the jobs under all schedules with at most `preempt` switches away from a thread that could go on.
pub fn interleave(cx: &mut Cx, preempt: usize, jobs: Vec<Job<'_>>) -> Outcome {
    start();
    if BROKEN.load(SeqCst) {
        return Outcome::Unusable;
    }
    let n = jobs.len();
    unsafe { hand_out(jobs) };
    {
        let mut c = ctl();
        c.cx = cx as *mut Cx;
        c.st = [St::Idle; MAX];
        c.st[..n].fill(St::At(Req::Free));
        c.budget = preempt;
        c.locks.get_or_insert_with(HashMap::new).clear();
        c.epoch = 0;
        c.failed = [false; MAX];
        c.trace.clear();
        c.diverged = false;
        c.switches = 0;
        MAIN.clear();
        MANAGED.store(true, SeqCst);
        c.next(None);
    }
    let (mut last, mut idle) = (u64::MAX, 0);
    let mut dead = None;
    while !MAIN.wait_ms(if idle == 0 { 20 } else { 5 }) {
        let mut c = ctl();
        if c.steps != last {
            last = c.steps;
            idle = 0;
            continue;
        }
        idle += 1;
        match c.holder {
            Some(h) if WORKERS[h].started.load(SeqCst) && (sleeps(h) && idle > 2 || idle > 20) => {
                // it waits for something else than a scheduling point
                c.st[h] = St::Stuck;
                c.next(None);
            }
            None if idle > 400 => {
                dead = Some(format!("{:?} after the schedule {:?}", &c.st[..n], c.trace));
                break;
            }
            _ => {}
        }
        // nothing can be enabled and nobody is stuck elsewhere
        if c.holder.is_none() && !c.st.contains(&St::Stuck) && !c.st.contains(&St::Running) && !MAIN.is() {
            dead = Some(format!("{:?} after the schedule {:?}", &c.st[..n], c.trace));
            break;
        }
    }
    MANAGED.store(false, SeqCst);
    if let Some(d) = dead {
        BROKEN.store(true, SeqCst);
        return Outcome::Deadlock(d);
    }
    for w in &WORKERS[..n] {
        while !w.done.wait_ms(1000) {}
    }
    let mut c = ctl();
    c.cx = std::ptr::null_mut();
    if c.diverged {
        return Outcome::Diverged;
    }
    Outcome::Done { trace: std::mem::take(&mut c.trace), switches: c.switches }
}

// ------------------------------------------------------------- single stepping

/// What the first thread does between `stepping(true)` and `stepping(false)`.
const OFF: usize = 0;
/// Note the address of every instruction.
const RECORD: usize = 1;
/// Stop at the n-th visit of an address (a breakpoint: an `int3` in its place).
const BREAK: usize = 2;
/// Stop after n steps.
const COUNT: usize = 3;

static MODE: AtomicUsize = AtomicUsize::new(OFF);
const TRACE: usize = 1 << 16;
static STEPS: [AtomicUsize; TRACE] = [const { AtomicUsize::new(0) }; TRACE];
static NSTEPS: AtomicUsize = AtomicUsize::new(0);
static LAST: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicUsize = AtomicUsize::new(0);
static BP: AtomicUsize = AtomicUsize::new(0);
static BYTE: AtomicU8 = AtomicU8::new(0);
static OVER: AtomicBool = AtomicBool::new(false);
static STOPPED: Flag = Flag::new();
static EVENT: Flag = Flag::new();
static RESUME: Flag = Flag::new();
const TF: i64 = 0x100;

fn plant() {
    let a = BP.load(Relaxed) as *mut u8;
    unsafe { a.write_volatile(0xcc) }
}
fn unplant() {
    let a = BP.load(Relaxed) as *mut u8;
    unsafe { a.write_volatile(BYTE.load(Relaxed)) }
}

/// Without any code outside of this file: it could hold the breakpoint.
#[inline(always)]
fn raw_syscall(n: libc::c_long) -> i64 {
    let r: i64;
    unsafe { std::arch::asm!("syscall", inlateout("rax") n => r, out("rcx") _, out("r11") _) }
    r
}

fn stop_here() {
    MODE.store(OFF, Relaxed);
    unsafe {
        let errno = *libc::__errno_location();
        STOPPED.set();
        EVENT.set();
        RESUME.take();
        *libc::__errno_location() = errno;
    }
}

extern "C" fn trap(_: libc::c_int, info: *mut libc::siginfo_t, u: *mut libc::c_void) {
    let regs = unsafe { &mut (*(u as *mut libc::ucontext_t)).uc_mcontext.gregs };
    let (rip, efl) = (libc::REG_RIP as usize, libc::REG_EFL as usize);
    let ip = regs[rip] as usize;
    let int3 = unsafe { (*info).si_code } == 0x80;
    if int3 || MODE.load(Relaxed) == BREAK {
        if WORKERS[0].tid.load(Relaxed) != raw_syscall(libc::SYS_gettid) as u32 {
            // someone else came by: try again until the breakpoint is gone
            regs[rip] -= 1;
            raw_syscall(libc::SYS_sched_yield);
            return;
        }
        if OVER.swap(false, Relaxed) {
            regs[efl] &= !TF;
            plant();
            return;
        }
        unplant();
        regs[rip] -= 1;
        let left = LEFT.load(Relaxed);
        if left > 0 {
            LEFT.store(left - 1, Relaxed);
            OVER.store(true, Relaxed);
            regs[efl] |= TF;
            return;
        }
        stop_here();
        return;
    }
    // repeated instructions count once
    if LAST.swap(ip, Relaxed) == ip {
        return;
    }
    match MODE.load(Relaxed) {
        RECORD => {
            let n = NSTEPS.fetch_add(1, Relaxed);
            if n < TRACE {
                STEPS[n].store(ip, Relaxed);
            }
        }
        COUNT => {
            let left = LEFT.load(Relaxed);
            if left == 0 {
                regs[efl] &= !TF;
                stop_here();
            } else {
                LEFT.store(left - 1, Relaxed);
            }
        }
        _ => regs[efl] &= !TF,
    }
}

/// To be called by the first job around what is stepped through.
pub fn stepping(on: bool) {
    match (MODE.load(Relaxed), on) {
        (RECORD | COUNT, true) => unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") },
        (RECORD | COUNT, false) => unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") },
        (BREAK, true) => plant(),
        (BREAK, false) => unplant(),
        _ => {}
    }
}

fn prepare() {
    static TRAP: Once = Once::new();
    TRAP.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        // breakpoints are written into the code
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        for l in maps.lines().filter(|l| l.contains(" r-xp ") && l.contains('/')) {
            let Some((r, _)) = l.split_once(' ') else { continue };
            let Some((lo, hi)) = r.split_once('-') else { continue };
            let (Ok(lo), Ok(hi)) = (usize::from_str_radix(lo, 16), usize::from_str_radix(hi, 16)) else { continue };
            if libc::mprotect(lo as *mut _, hi - lo, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) == 0 {
                WRITABLE.lock().unwrap().push((lo, hi));
            }
        }
    });
}
static WRITABLE: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Where to stop: the n-th visit of an address, or the n-th step.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Where {
    Visit(usize, usize),
    Step(usize),
}

/// The instructions the first job executes in between; the second one runs afterwards.
pub fn record(first: Job<'_>, second: Job<'_>) -> Option<Vec<Where>> {
    start();
    prepare();
    MODE.store(RECORD, SeqCst);
    NSTEPS.store(0, SeqCst);
    LAST.store(0, SeqCst);
    two(first, second)?;
    MODE.store(OFF, SeqCst);
    let n = NSTEPS.load(SeqCst).min(TRACE);
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let ok = WRITABLE.lock().unwrap().clone();
    Some(
        (0..n)
            .map(|i| {
                let a = STEPS[i].load(SeqCst);
                let k = seen.entry(a).or_default();
                *k += 1;
                match ok.iter().any(|r| (r.0..r.1).contains(&a)) && *k < 64 {
                    true => Where::Visit(a, *k - 1),
                    false => Where::Step(i),
                }
            })
            .collect(),
    )
}

pub struct Stop {
    /// The first thread reached the instruction.
    pub reached: bool,
    /// The second one had to wait for the first.
    pub waited: bool,
}

/// Run `first` up to `at`, then `second`, then the rest; `None`: deadlock.
pub fn stopped_at(at: Where, first: Job<'_>, second: Job<'_>) -> Option<Stop> {
    start();
    prepare();
    LAST.store(0, SeqCst);
    OVER.store(false, SeqCst);
    match at {
        Where::Visit(a, n) => {
            BP.store(a, SeqCst);
            BYTE.store(unsafe { (a as *const u8).read_volatile() }, SeqCst);
            LEFT.store(n, SeqCst);
            MODE.store(BREAK, SeqCst);
        }
        Where::Step(n) => {
            LEFT.store(n, SeqCst);
            MODE.store(COUNT, SeqCst);
        }
    }
    let r = two(first, second);
    MODE.store(OFF, SeqCst);
    r
}

fn two(first: Job<'_>, second: Job<'_>) -> Option<Stop> {
    if BROKEN.load(SeqCst) {
        return None;
    }
    STOPPED.clear();
    EVENT.clear();
    RESUME.clear();
    unsafe { hand_out(vec![first, second]) };
    let (a, b) = (&WORKERS[0], &WORKERS[1]);
    a.go.set();
    // stopped or done
    let mut n = 0;
    while !STOPPED.is() && !a.done.is() {
        // may still be set by the end of the last run
        if EVENT.wait_ms(1000) {
            EVENT.clear();
        } else {
            n += 1;
        }
        if n > 20 {
            BROKEN.store(true, SeqCst);
            return None;
        }
    }
    let reached = STOPPED.is();
    let mut waited = false;
    b.go.set();
    let t0 = std::time::Instant::now();
    let mut asleep = 0;
    while !b.done.is() {
        for _ in 0..50 {
            std::hint::spin_loop();
        }
        if !reached || !b.started.load(SeqCst) {
            EVENT.wait_ms(1);
            EVENT.clear();
            continue;
        }
        if t0.elapsed().as_micros() < 30 {
            continue;
        }
        if sleeps(1) {
            asleep += 1;
        } else {
            asleep = 0;
        }
        if (asleep >= 2 || t0.elapsed().as_millis() > 30) && !b.done.is() {
            waited = true;
            break;
        }
    }
    if reached {
        RESUME.set();
    }
    for w in [a, b] {
        let mut n = 0;
        while !w.done.wait_ms(100) {
            n += 1;
            if n > 150 {
                BROKEN.store(true, SeqCst);
                return None;
            }
        }
    }
    Some(Stop { reached, waited })
}
