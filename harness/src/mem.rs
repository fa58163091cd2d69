//! Memory under the checker's control: a poisoning allocator (freed memory never keeps its old
//! content), an optional quarantine (freed blocks are not reused during an execution), an optional
//! placement arena (the addresses of chosen allocations are decided by the driver), and buffers
//! that end or start exactly at an inaccessible page.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

pub const POISON: u8 = 0xA5;
pub const FRESH: u8 = 0xC7;
/// Blocks of this size are left as the system gives them (untouched pages cost nothing).
const LARGE: usize = 64 << 20;

pub struct Alloc;

static QUARANTINE: AtomicBool = AtomicBool::new(false);
static FREED: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
// size and address of the next placed allocation of this thread (0 = none)
thread_local!(static PLACE: Cell<(usize, usize)> = const { Cell::new((0, 0)) });
static ARENA_LO: AtomicUsize = AtomicUsize::new(0);
static ARENA_HI: AtomicUsize = AtomicUsize::new(0);

// blocks and bytes handed out to and taken back from this thread while it is watched
thread_local!(static WATCH: Cell<bool> = const { Cell::new(false) });
static TEAM: (AtomicI64, AtomicI64) = (AtomicI64::new(0), AtomicI64::new(0));
thread_local!(static KEPT: Cell<(i64, i64)> = const { Cell::new((0, 0)) });

fn tally(blocks: i64, p: *mut u8) {
    if WATCH.with(Cell::get) {
        let bytes = unsafe { libc::malloc_usable_size(p as *mut _) } as i64;
        KEPT.with(|k| k.set((k.get().0 + blocks, k.get().1 + blocks * bytes)));
    }
}
/// Start watching: what is alive now does not count.
pub fn watch() {
    KEPT.with(|k| k.set((0, 0)));
    TEAM.0.store(0, Ordering::SeqCst);
    TEAM.1.store(0, Ordering::SeqCst);
    WATCH.with(|w| w.set(true));
}
/// Stop watching; the blocks and bytes that were handed out and not taken back.
pub fn watched() -> (i64, i64) {
    WATCH.with(|w| w.set(false));
    let (blocks, bytes) = KEPT.with(Cell::get);
    (blocks + TEAM.0.load(Ordering::SeqCst), bytes + TEAM.1.load(Ordering::SeqCst))
}
/// What this thread does in `f` counts for the thread that watches.
pub fn in_team(f: impl FnOnce()) {
    KEPT.with(|k| k.set((0, 0)));
    WATCH.with(|w| w.set(true));
    f();
    WATCH.with(|w| w.set(false));
    let (blocks, bytes) = KEPT.with(Cell::get);
    TEAM.0.fetch_add(blocks, Ordering::SeqCst);
    TEAM.1.fetch_add(bytes, Ordering::SeqCst);
}
/// Not watched while this is alive (the harness's own memory).
pub struct Unwatched(bool);
pub fn unwatched() -> Unwatched {
    Unwatched(WATCH.with(|w| w.replace(false)))
}
impl Drop for Unwatched {
    fn drop(&mut self) {
        WATCH.with(|w| w.set(self.0))
    }
}

struct Q(UnsafeCell<[(usize, usize, usize); 1 << 14]>, AtomicUsize);
unsafe impl Sync for Q {}
static QLIST: Q = Q(UnsafeCell::new([(0, 0, 0); 1 << 14]), AtomicUsize::new(0));

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, at) = PLACE.with(Cell::get);
        if at != 0 && l.size() == size {
            PLACE.with(|p| p.set((0, 0)));
            return at as *mut u8;
        }
        let p = System.alloc(l);
        if !p.is_null() {
            tally(1, p);
            if l.size() < LARGE {
                std::ptr::write_bytes(p, FRESH, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            tally(1, p);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        // The size handed in is not trusted: folklore's hash map frees its table with a layout four
        // times the size it allocated (harmless with the system allocator, which ignores it).
        let in_arena = a >= ARENA_LO.load(Ordering::Relaxed) && a < ARENA_HI.load(Ordering::Relaxed);
        if !in_arena {
            tally(-1, p);
        }
        let size = match in_arena {
            true => l.size(),
            false => l.size().min(libc::malloc_usable_size(p as *mut _)),
        };
        if size < LARGE {
            std::ptr::write_bytes(p, POISON, size);
        }
        if in_arena {
            for f in &FREED {
                if f.load(Ordering::Relaxed) == 0 {
                    f.store(a, Ordering::SeqCst);
                    break;
                }
            }
            return;
        }
        if QUARANTINE.load(Ordering::Relaxed) {
            let i = QLIST.1.fetch_add(1, Ordering::Relaxed);
            if i < 1 << 14 {
                (*QLIST.0.get())[i] = (a, l.size(), l.align());
                return;
            }
            QLIST.1.store(1 << 14, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() >= LARGE && new >= LARGE && !QUARANTINE.load(Ordering::Relaxed) {
            tally(-1, p);
            let np = System.realloc(p, l, new);
            tally(1, if np.is_null() { p } else { np });
            return np;
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let np = self.alloc(nl);
        if !np.is_null() {
            std::ptr::copy_nonoverlapping(p, np, l.size().min(new));
            self.dealloc(p, l);
        }
        np
    }
}

/// Keep freed blocks out of circulation (poisoned) until the returned guard is dropped.
pub struct Quarantine;
pub fn quarantine() -> Quarantine {
    QUARANTINE.store(true, Ordering::Relaxed);
    Quarantine
}
impl Drop for Quarantine {
    fn drop(&mut self) {
        QUARANTINE.store(false, Ordering::Relaxed);
        let n = QLIST.1.swap(0, Ordering::Relaxed).min(1 << 14);
        for i in 0..n {
            unsafe {
                let (a, s, al) = (*QLIST.0.get())[i];
                System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(s, al));
            }
        }
    }
}

/// Forget which placed allocations were freed.
pub fn clear_freed() {
    for f in &FREED {
        f.store(0, Ordering::SeqCst);
    }
}
/// Was the allocation placed at `addr` freed?  Whoever asks has it then.
pub fn take_freed(addr: usize) -> bool {
    FREED.iter().any(|f| f.compare_exchange(addr, 0, Ordering::SeqCst, Ordering::SeqCst).is_ok())
}

/// The next allocation of exactly `size` bytes is served at `addr` (inside the arena).
pub fn place_next(size: usize, addr: usize) {
    PLACE.with(|p| p.set((size, addr)));
}
/// Cancel a pending placement; true if it had not been used.
pub fn place_cancel() -> bool {
    PLACE.with(|p| p.replace((0, 0))).1 != 0
}
pub fn arena_end() -> usize {
    ARENA_HI.load(Ordering::Relaxed)
}
pub fn set_arena(lo: usize, hi: usize) {
    ARENA_LO.store(lo, Ordering::Relaxed);
    ARENA_HI.store(hi, Ordering::Relaxed);
}

pub const PAGE: usize = 4096;

/// An accessible window between two inaccessible pages.
pub struct Guarded {
    base: usize,
    cap: usize,
}

impl Guarded {
    pub fn new(cap: usize) -> Guarded {
        let cap = cap.div_ceil(PAGE).max(1) * PAGE;
        // a generous inaccessible area around: wild offsets must not hit other mappings
        let margin = 64 * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                cap + 2 * margin,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = p as usize + margin;
            assert_eq!(
                libc::mprotect(base as *mut _, cap, libc::PROT_READ | libc::PROT_WRITE),
                0
            );
            Guarded { base, cap }
        }
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    /// A copy of `data` whose last byte is the last accessible byte.
    pub fn at_end<'a>(&'a self, data: &[u8]) -> &'a [u8] {
        assert!(data.len() <= self.cap);
        let p = (self.base + self.cap - data.len()) as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
    /// A copy of `data` whose first byte is the first accessible byte.
    pub fn at_start<'a>(&'a self, data: &[u8]) -> &'a [u8] {
        assert!(data.len() <= self.cap);
        let p = self.base as *mut u8;
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
}

thread_local! {
    static POOL: UnsafeCell<Vec<&'static Guarded>> = const { UnsafeCell::new(Vec::new()) };
}

/// A reusable guarded window of at least `cap` bytes.  `slot` selects one of several.
pub fn guarded(slot: usize, cap: usize) -> &'static Guarded {
    POOL.with(|p| {
        let v = unsafe { &mut *p.get() };
        while v.len() <= slot {
            v.push(Box::leak(Box::new(Guarded::new(1 << 16))));
        }
        if v[slot].cap() < cap {
            v[slot] = Box::leak(Box::new(Guarded::new(cap * 2)));
        }
        v[slot]
    })
}

// The input being worked on, printed if the process dies on it.
static CUR_P: AtomicUsize = AtomicUsize::new(0);
static CUR_N: AtomicUsize = AtomicUsize::new(0);

#[inline]
pub fn current(b: &[u8]) {
    CUR_P.store(b.as_ptr() as usize, Ordering::Relaxed);
    CUR_N.store(b.len(), Ordering::Relaxed);
}
pub fn current_hex() -> String {
    let (p, n) = (CUR_P.load(Ordering::Relaxed), CUR_N.load(Ordering::Relaxed));
    if p == 0 {
        return String::new();
    }
    crate::doc::hex(unsafe { std::slice::from_raw_parts(p as *const u8, n) })
}
pub fn current_done() {
    CUR_P.store(0, Ordering::Relaxed);
}

extern "C" fn on_crash(sig: libc::c_int) {
    let (p, n) = (CUR_P.load(Ordering::Relaxed), CUR_N.load(Ordering::Relaxed));
    let mut out = [0u8; 700];
    let mut k = 0;
    for c in b"\ncrash while working on " {
        out[k] = *c;
        k += 1;
    }
    if p != 0 {
        for i in 0..n.min(300) {
            let x = unsafe { *((p + i) as *const u8) };
            for h in [x >> 4, x & 15] {
                out[k] = b"0123456789abcdef"[h as usize];
                k += 1;
            }
        }
    }
    out[k] = b'\n';
    k += 1;
    unsafe {
        libc::write(2, out.as_ptr().cast(), k);
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

pub fn install_crash_handler() {
    unsafe {
        let size = 1 << 16;
        let st = libc::stack_t {
            ss_sp: libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0),
            ss_flags: 0,
            ss_size: size,
        };
        libc::sigaltstack(&st, std::ptr::null_mut());
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// What became of `f` in a child process of its own (so that it may die or never return).
#[derive(Debug, PartialEq)]
pub enum Fate {
    Ok,
    Failed(i32),
    Killed(i32),
    TimedOut,
}

pub fn in_child(cpu_seconds: u32, f: impl FnOnce() -> i32) -> Fate {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "ENGINE: fork");
        if pid == 0 {
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGALRM] {
                libc::signal(s, libc::SIG_DFL);
            }
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            let lim = libc::itimerval {
                it_interval: std::mem::zeroed(),
                it_value: libc::timeval { tv_sec: i64::from(cpu_seconds), tv_usec: 0 },
            };
            libc::signal(libc::SIGVTALRM, libc::SIG_DFL);
            libc::setitimer(libc::ITIMER_VIRTUAL, &lim, std::ptr::null_mut());
            let rc = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(101);
            libc::_exit(rc);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGVTALRM => Fate::TimedOut,
                s => Fate::Killed(s),
            }
        } else if libc::WEXITSTATUS(st) == 0 {
            Fate::Ok
        } else {
            Fate::Failed(libc::WEXITSTATUS(st))
        }
    }
}
