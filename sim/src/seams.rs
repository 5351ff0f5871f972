//! The seams: everything outside gpf that can differ between two executions on the same input.
//!
//! * OS entropy (`getrandom`, `syscall(SYS_getrandom)`): interposed symbols.  It feeds
//!   `rand::thread_rng` (insertion order of the tetrahedralisation), std's `RandomState`
//!   (iteration order of std maps and sets) and ahash's process-wide keys (iteration order of
//!   hashbrown maps).  Faults: short reads, EINTR, degenerate bytes.
//! * The process-global allocator: counts every allocation (the simulated clock), fills fresh
//!   memory with garbage, poisons freed memory, moves every reallocation, fails the k-th request.
//! * The caller-supplied allocator argument (`SimArena`): the same, plus block reuse policy and
//!   bounds bands.
//! * Caller threads: `sched.rs` decides who runs at every intercepted point.
use crate::rng::splitmix;
use std::alloc::{AllocError, Allocator, GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::ptr::NonNull;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

#[derive(Clone, Debug, Default)]
pub struct SimCfg {
    /// seed of the entropy stream this (simulated) thread sees
    pub entropy: u64,
    /// 0 = full reads; 1 = short reads; 2 = EINTR now and then; 3 = both; 4 = all-zero bytes; 5 = all-ones
    pub entropy_mode: u8,
    /// fresh memory is filled with bytes derived from this (0 = leave as is)
    pub dirty: u64,
    /// freed memory is overwritten
    pub poison: bool,
    /// every reallocation moves the block
    pub move_realloc: bool,
    /// the allocation with this ordinal (1-based) fails; 0 = none
    pub fail_at: u64,
    /// fail only requests of at least this many bytes count towards fail_at
    pub fail_min: usize,
    /// more allocations than this end the run (bounded-progress check); 0 = unlimited
    pub budget: u64,
    /// yield to the thread scheduler at every allocation
    pub yields: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Telemetry {
    pub allocs: u64,
    pub bytes: u64,
    pub entropy_calls: u64,
    pub entropy_faults: u64,
    pub failed: u64,
    pub budget_hit: bool,
    pub moved: u64,
    pub dirtied: u64,
    /// more than a fifth, a half of the step budget used
    pub near: [bool; 2],
}

pub struct Ctx {
    cfg: SimCfg,
    tel: Telemetry,
    entropy: u64,
    eligible: u64,
}

#[thread_local]
static CTX: Cell<*mut Ctx> = Cell::new(std::ptr::null_mut());
#[thread_local]
static SUSPEND: Cell<u32> = Cell::new(0);

static BOOT: AtomicU64 = AtomicU64::new(0x1234_5678);
pub static BOOT_CALLS: AtomicU64 = AtomicU64::new(0);
static HOOKED: AtomicBool = AtomicBool::new(false);

#[inline]
fn ctx() -> Option<&'static mut Ctx> {
    let p = CTX.get();
    if p.is_null() || SUSPEND.get() > 0 {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

/// is the code under test running on this thread?
pub fn active() -> bool {
    ctx().is_some()
}

/// Harness code running on a simulated thread (oracles, bookkeeping) is not part of the simulation.
pub fn suspended<R>(f: impl FnOnce() -> R) -> R {
    struct G(u64);
    impl Drop for G {
        fn drop(&mut self) {
            SUSPEND.set(SUSPEND.get() - 1);
            simhook::resume(self.0);
        }
    }
    let g = G(simhook::pause());
    SUSPEND.set(SUSPEND.get() + 1);
    let _g = g;
    f()
}

// ---------------------------------------------------------------- entropy

unsafe fn fill_entropy(buf: *mut u8, len: usize) -> isize {
    if len == 0 {
        return 0;
    }
    if let Some(c) = ctx() {
        c.tel.entropy_calls += 1;
        let mode = c.cfg.entropy_mode;
        let mut n = len;
        if mode == 2 || mode == 3 {
            if splitmix(&mut c.entropy) % 3 == 0 {
                c.tel.entropy_faults += 1;
                *__errno_location() = 4; // EINTR
                return -1;
            }
        }
        if (mode == 1 || mode == 3) && len > 1 {
            n = 1 + (splitmix(&mut c.entropy) as usize % len);
            if n < len {
                c.tel.entropy_faults += 1;
            }
        }
        let mut i = 0;
        while i < n {
            let mut w = splitmix(&mut c.entropy);
            if mode == 4 {
                w = 0;
                c.tel.entropy_faults += 1;
            }
            if mode == 5 {
                w = !0;
                c.tel.entropy_faults += 1;
            }
            let mut k = 0;
            while k < 8 && i < n {
                *buf.add(i) = w as u8;
                w >>= 8;
                i += 1;
                k += 1;
            }
        }
        n as isize
    } else {
        BOOT_CALLS.fetch_add(1, Ordering::Relaxed);
        let mut i = 0;
        while i < len {
            let mut s = BOOT.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
            let w = splitmix(&mut s);
            let mut k = 0;
            while k < 8 && i < len {
                *buf.add(i) = (w >> (8 * k)) as u8;
                i += 1;
                k += 1;
            }
        }
        len as isize
    }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill_entropy(buf, len)
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut i = 0;
    while i < len {
        let r = fill_entropy(buf.add(i), len - i);
        if r > 0 {
            i += r as usize;
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 {
        return fill_entropy(a as *mut u8, b as usize) as i64;
    }
    // A simulated caller thread about to block in the kernel (futex wait on a lock some parked
    // thread holds): blocking is a scheduling point, and the wait returns as a spurious wake-up.
    if n == 202 && (b & 0x7f == 0 || b & 0x7f == 9) && SUSPEND.get() == 0 && crate::sched::blocked_point() {
        return 0;
    }
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

/// Fix what is process-wide (ahash's keys) before anything in gpf runs.
pub fn boot(key: u64) {
    BOOT.store(crate::rng::mix(key, 0xb007), Ordering::SeqCst);
    use std::hash::{BuildHasher, Hasher};
    let h = std::hash::BuildHasherDefault::<ahash::AHasher>::default().build_hasher().finish();
    std::hint::black_box(h);
    if !HOOKED.swap(true, Ordering::SeqCst) {
        std::alloc::set_alloc_error_hook(|l| panic!("SIM-OOM {}", l.size()));
        std::panic::set_hook(Box::new(|info| {
            suspended(|| {
                let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".into()
                };
                let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                if std::env::var_os("SIM_BT").is_some() {
                    eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
                }
                LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} @ {loc}")));
            })
        }));
    }
}

/// A value that shows which hash keys this process got (evidence: distinct hash orders).
pub fn hash_probe() -> u64 {
    use std::hash::{BuildHasher, Hasher};
    let mut h = std::hash::BuildHasherDefault::<ahash::AHasher>::default().build_hasher();
    h.write_u64(42);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

// ---------------------------------------------------------------- global allocator

pub struct SimGlobal;

#[inline]
unsafe fn fill(p: *mut u8, n: usize, seed: u64) {
    let mut s = seed ^ (n as u64);
    let w = splitmix(&mut s).to_le_bytes();
    for i in 0..n {
        *p.add(i) = w[i & 7];
    }
}

enum Gate {
    Ok,
    Fail,
}

#[inline]
fn gate(size: usize) -> Gate {
    if let Some(c) = ctx() {
        if std::thread::panicking() {
            return Gate::Ok; // the message of a panic under way
        }
        c.tel.allocs += 1;
        c.tel.bytes += size as u64;
        if size >= c.cfg.fail_min {
            c.eligible += 1;
            if c.cfg.fail_at != 0 && c.eligible == c.cfg.fail_at {
                c.tel.failed += 1;
                return Gate::Fail;
            }
        }
        if c.cfg.budget != 0 && c.tel.allocs > c.cfg.budget && !c.tel.budget_hit {
            c.tel.budget_hit = true;
            return Gate::Fail;
        }
        if c.cfg.yields {
            crate::sched::yield_point();
        }
    }
    Gate::Ok
}

unsafe impl GlobalAlloc for SimGlobal {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Gate::Fail = gate(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if let Some(c) = ctx() {
            if c.cfg.dirty != 0 && !p.is_null() {
                fill(p, l.size().min(1 << 16), c.cfg.dirty);
                c.tel.dirtied += 1;
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if let Gate::Fail = gate(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(c) = ctx() {
            if c.cfg.poison {
                fill(p, l.size().min(1 << 16), c.cfg.dirty ^ 0xdead);
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if let Gate::Fail = gate(n) {
            return std::ptr::null_mut();
        }
        if let Some(c) = ctx() {
            if c.cfg.move_realloc {
                c.tel.moved += 1;
                let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if q.is_null() {
                    return q;
                }
                if c.cfg.dirty != 0 && n > l.size() {
                    fill(q.add(l.size()), (n - l.size()).min(1 << 16), c.cfg.dirty);
                }
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                if c.cfg.poison {
                    fill(p, l.size().min(1 << 16), c.cfg.dirty ^ 0xdead);
                }
                System.dealloc(p, l);
                return q;
            }
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- running code under the seams

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    /// the injected allocation failure was reported as a panic
    Oom,
    /// the step budget ran out
    Budget,
    Panic(String),
}

#[thread_local]
static INLINE: Cell<bool> = Cell::new(false);
#[thread_local]
static CUT: Cell<u64> = Cell::new(0);
/// simulated callers started from this thread run on it, one after the other
pub fn set_inline(on: bool) {
    INLINE.set(on);
}
/// the next simulated caller started from this thread has its allocation number `k` fail
pub fn cut_next(k: u64) {
    CUT.set(k);
}

/// Run `f` as one simulated caller: a fresh thread (so every thread-local generator and hasher key
/// is derived from this run's entropy) with the seams active.
pub fn simulate<T: Send, F: FnOnce() -> T + Send>(cfg: &SimCfg, f: F) -> (Result<T, Fail>, Telemetry) {
    let mut cfg = cfg.clone();
    let cut = CUT.replace(0);
    if cut != 0 {
        cfg.fail_at = cut;
    }
    if INLINE.get() {
        return under(&cfg, f);
    }
    let slot = crate::sched::slot();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            // what an ordinary thread gets: unbounded recursion shows
            .stack_size(2 << 20)
            .spawn_scoped(s, move || crate::sched::with_slot(slot, || under(&cfg, f)))
            .unwrap()
            .join()
            .unwrap_or_else(|_| (Err(Fail::Panic("escaped".into())), Telemetry::default()))
    })
}

/// Run `f` on this thread with the seams active.
pub fn under<T, F: FnOnce() -> T>(cfg: &SimCfg, f: F) -> (Result<T, Fail>, Telemetry) {
    let mut cfg = cfg.clone();
    cfg.yields |= crate::sched::slot().is_some();
    let entropy = crate::rng::mix(cfg.entropy, 0xe27);
    let mut c = Ctx { cfg, tel: Telemetry::default(), entropy, eligible: 0 };
    let prev = CTX.replace(&mut c as *mut Ctx);
    let r = crate::sched::with_points(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    CTX.set(prev);
    let mut tel = c.tel.clone();
    tel.near = [5, 2].map(|k| c.cfg.budget != 0 && tel.allocs > c.cfg.budget / k);
    let r = match r {
        Ok(v) => Ok(v),
        Err(e) => {
            drop(e);
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if tel.budget_hit {
                Err(Fail::Budget)
            } else if tel.failed > 0 && (m.starts_with("SIM-OOM") || m.starts_with("out of memory")) {
                Err(Fail::Oom)
            } else {
                Err(Fail::Panic(m))
            }
        }
    };
    (r, tel)
}

/// catch a panic on this thread without activating any seam
pub fn caught<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

// ---------------------------------------------------------------- caller-supplied allocator

#[derive(Clone, Debug, Default)]
pub struct ArenaCfg {
    pub dirty: u64,
    /// 0 = free to system at once; 1 = never reuse; 2 = reuse the most recently freed block of the
    /// same layout first (most aliasing)
    pub reuse: u8,
    pub move_grow: bool,
    pub poison: bool,
    pub fail_at: u64,
}

#[derive(Default, Clone, Debug)]
pub struct ArenaTel {
    pub allocs: u64,
    pub frees: u64,
    pub grows: u64,
    pub live: i64,
    pub failed: u64,
    pub corrupt: Option<String>,
}

const BAND: usize = 32;

struct ArenaState {
    cfg: ArenaCfg,
    tel: ArenaTel,
    count: u64,
    free: BTreeMap<(usize, usize), Vec<usize>>,
    all: BTreeMap<usize, (Layout, usize, bool)>, // user ptr -> (full layout, user size, live)
}

/// An allocator a caller might legally pass: hands out dirty memory, poisons what is freed, moves
/// on growth, checks bands around each block, and can fail one request.
pub struct SimArena(UnsafeCell<ArenaState>);

impl SimArena {
    pub fn new(cfg: ArenaCfg) -> Self {
        SimArena(UnsafeCell::new(ArenaState {
            cfg,
            tel: ArenaTel::default(),
            count: 0,
            free: BTreeMap::new(),
            all: BTreeMap::new(),
        }))
    }
    #[allow(clippy::mut_from_ref)]
    fn st(&self) -> &mut ArenaState {
        unsafe { &mut *self.0.get() }
    }
    pub fn tel(&self) -> ArenaTel {
        let st = self.st();
        suspended(|| {
            let mut t = st.tel.clone();
            for (&p, &(_, n, _)) in &st.all {
                if unsafe { !bands_ok(p as *mut u8, n) } && t.corrupt.is_none() {
                    t.corrupt = Some(format!("band around a {n}-byte block overwritten"));
                }
            }
            t
        })
    }
    pub fn set_fail_at(&self, k: u64) {
        let st = self.st();
        st.cfg.fail_at = if k == 0 { 0 } else { st.count + k };
    }
}

unsafe fn bands_ok(p: *mut u8, n: usize) -> bool {
    let (h, t) = (p.sub(BAND), p.add(n));
    (0..BAND).all(|i| *h.add(i) == 0xB5 && *t.add(i) == 0x5B)
}

impl Drop for SimArena {
    fn drop(&mut self) {
        let st = self.st();
        suspended(|| {
            for (&p, &(l, _, _)) in &st.all {
                unsafe { System.dealloc((p as *mut u8).sub(base_off(l.align())), l) };
            }
            st.all.clear();
            st.free.clear();
        })
    }
}

fn base_off(align: usize) -> usize {
    BAND.max(align)
}

unsafe impl Allocator for SimArena {
    fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> {
        if l.size() == 0 {
            return Ok(NonNull::slice_from_raw_parts(NonNull::new(l.align() as *mut u8).unwrap(), 0));
        }
        if let Some(c) = ctx() {
            // the simulated clock counts these too
            c.tel.allocs += 1;
            if c.cfg.budget != 0 && c.tel.allocs > c.cfg.budget && !c.tel.budget_hit {
                c.tel.budget_hit = true;
                return Err(AllocError);
            }
            if c.cfg.yields && !std::thread::panicking() {
                crate::sched::yield_point();
            }
        }
        let st = self.st();
        suspended(|| unsafe {
            st.count += 1;
            st.tel.allocs += 1;
            if st.cfg.fail_at != 0 && st.count == st.cfg.fail_at {
                st.tel.failed += 1;
                if let Some(c) = { CTX.get().as_mut() } {
                    c.tel.failed += 1;
                }
                return Err(AllocError);
            }
            st.tel.live += 1;
            let key = (l.size(), l.align());
            if st.cfg.reuse == 2 {
                if let Some(p) = st.free.get_mut(&key).and_then(|v| v.pop()) {
                    st.all.get_mut(&p).unwrap().2 = true;
                    if st.cfg.dirty != 0 {
                        fill(p as *mut u8, l.size(), st.cfg.dirty ^ st.count);
                    }
                    return Ok(NonNull::slice_from_raw_parts(NonNull::new_unchecked(p as *mut u8), l.size()));
                }
            }
            let off = base_off(l.align());
            let full = Layout::from_size_align_unchecked(off + l.size() + BAND, l.align());
            let b = System.alloc(full);
            if b.is_null() {
                return Err(AllocError);
            }
            let p = b.add(off);
            for i in 0..BAND {
                *p.sub(BAND).add(i) = 0xB5;
                *p.add(l.size() + i) = 0x5B;
            }
            if st.cfg.dirty != 0 {
                fill(p, l.size(), st.cfg.dirty ^ st.count);
            }
            st.all.insert(p as usize, (full, l.size(), true));
            Ok(NonNull::slice_from_raw_parts(NonNull::new_unchecked(p), l.size()))
        })
    }
    unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) {
        if l.size() == 0 {
            return;
        }
        let st = self.st();
        suspended(|| {
            let a = p.as_ptr() as usize;
            st.tel.frees += 1;
            st.tel.live -= 1;
            match st.all.get_mut(&a) {
                Some(e) if e.2 && e.1 == l.size() => {
                    e.2 = false;
                    if !bands_ok(p.as_ptr(), l.size()) {
                        st.tel.corrupt.get_or_insert(format!("band around a {}-byte block overwritten", l.size()));
                    }
                    if st.cfg.poison {
                        fill(p.as_ptr(), l.size(), st.cfg.dirty ^ 0xdead_beef);
                    }
                    if st.cfg.reuse == 0 {
                        let (full, _, _) = st.all.remove(&a).unwrap();
                        System.dealloc(p.as_ptr().sub(base_off(l.align())), full);
                    } else if st.cfg.reuse == 2 {
                        st.free.entry((l.size(), l.align())).or_default().push(a);
                    }
                }
                _ => {
                    st.tel.corrupt.get_or_insert("free of an unknown, dead or differently sized block".into());
                }
            }
        })
    }
    unsafe fn grow(&self, p: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
        // always moves, unless told otherwise there is nothing to gain from in-place growth here
        self.st().tel.grows += 1;
        let q = self.allocate(new)?;
        std::ptr::copy_nonoverlapping(p.as_ptr(), q.as_ptr() as *mut u8, old.size());
        self.deallocate(p, old);
        Ok(q)
    }
}
