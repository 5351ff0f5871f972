//! Deterministic scheduling of real caller threads: every thread but one is parked; at each
//! intercepted point (an allocation, or an explicit call) the running thread asks the seeded
//! scheduler who runs next.
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

pub struct Inner {
    rng: Rng,
    /// remaining allocations until the next preemption
    quantum: u64,
    max_quantum: u64,
    runnable: Vec<bool>,
    current: usize,
    pub switches: u64,
    pub points: u64,
    blocks: u64,
    /// hash of the realised schedule
    pub trace: u64,
    /// at most this many preemptions; afterwards run to completion
    max_switches: u64,
    /// mean number of control-flow edges (and memory accesses) between preemptions inside straight
    /// code; 0 = none. Needs the instrumented build.
    stride: u64,
    pub inside: u64,
}

pub struct Sched {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
}

#[thread_local]
static ME: Cell<(usize, *const Sched)> = Cell::new((0, std::ptr::null()));

/// the slot of the scheduler this thread runs for
#[derive(Clone, Copy)]
pub struct Slot(usize, *const Sched);
unsafe impl Send for Slot {}
pub fn slot() -> Option<Slot> {
    let (id, s) = ME.get();
    (!s.is_null()).then_some(Slot(id, s))
}
/// a helper thread runs `f` in the place of the one that waits for it
pub fn with_slot<T>(s: Option<Slot>, f: impl FnOnce() -> T) -> T {
    if let Some(Slot(id, s)) = s {
        ME.set((id, s));
    }
    let r = f();
    ME.set((0, std::ptr::null()));
    r
}

/// Run code under test with scheduling points inside it.
pub fn with_points<T>(f: impl FnOnce() -> T) -> T {
    let (_, s) = ME.get();
    if s.is_null() {
        return f();
    }
    simhook::arm(unsafe { &*s }.next_inside(), inside);
    let r = f();
    simhook::disarm();
    r
}

/// Called by the instrumentation in the middle of code.
fn inside() -> u64 {
    let (id, s) = ME.get();
    if s.is_null() {
        return 0;
    }
    let s = unsafe { &*s };
    if !crate::seams::active() {
        return s.next_inside();
    }
    crate::seams::suspended(|| s.step_inside(id));
    s.next_inside()
}

pub fn yield_point() {
    let (id, s) = ME.get();
    if s.is_null() {
        return;
    }
    let s = unsafe { &*s };
    crate::seams::suspended(|| s.step(id));
}

/// The running thread would block: somebody else must run. False when not simulated.
pub fn blocked_point() -> bool {
    let (id, s) = ME.get();
    if s.is_null() {
        return false;
    }
    let s = unsafe { &*s };
    crate::seams::suspended(|| s.blocked(id))
}

impl Sched {
    fn blocked(&self, id: usize) -> bool {
        let mut g = self.m.lock().unwrap();
        g.blocks += 1;
        if g.blocks > 1_000_000 {
            return false; // a real deadlock: block for real, the watchdog reports it
        }
        let c: Vec<usize> = (0..g.runnable.len()).filter(|&i| g.runnable[i] && i != id).collect();
        if c.is_empty() {
            return true;
        }
        let i = g.rng.us(c.len());
        let q = g.max_quantum;
        g.quantum = 1 + g.rng.below(q);
        g.trace = (g.trace ^ (c[i] as u64 + 1)).wrapping_mul(0x100_0000_01b3);
        g.switches += 1;
        g.current = c[i];
        self.cv[c[i]].notify_one();
        while g.current != id {
            g = self.cv[id].wait(g).unwrap();
        }
        true
    }
    /// points until the next preemption inside code
    fn next_inside(&self) -> u64 {
        let mut g = self.m.lock().unwrap();
        if g.stride == 0 || g.inside >= g.max_switches {
            return 0;
        }
        let k = 2 * g.stride;
        1 + g.rng.below(k)
    }
    fn step_inside(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        g.points += 1;
        let p = g.points;
        let c: Vec<usize> = (0..g.runnable.len()).filter(|&i| g.runnable[i] && i != id).collect();
        if c.is_empty() {
            return;
        }
        let n = c[g.rng.us(c.len())];
        g.trace = (g.trace ^ (n as u64 + 1) ^ (p << 8)).wrapping_mul(0x100_0000_01b3);
        g.inside += 1;
        g.current = n;
        self.cv[n].notify_one();
        while g.current != id {
            g = self.cv[id].wait(g).unwrap();
        }
    }
    pub fn new(n: usize, seed: u64, max_quantum: u64, max_switches: u64, stride: u64) -> Arc<Sched> {
        let mut rng = Rng::new(seed);
        let first = rng.us(n);
        let q = 1 + rng.below(max_quantum);
        Arc::new(Sched {
            m: Mutex::new(Inner {
                rng,
                quantum: q,
                max_quantum,
                runnable: vec![true; n],
                current: first,
                switches: 0,
                points: 0,
                blocks: 0,
                trace: 0xcbf2_9ce4_8422_2325,
                max_switches,
                stride,
                inside: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        })
    }
    fn pick(g: &mut Inner) -> Option<usize> {
        let c: Vec<usize> = (0..g.runnable.len()).filter(|&i| g.runnable[i]).collect();
        if c.is_empty() {
            return None;
        }
        let i = g.rng.us(c.len());
        g.quantum = if g.switches >= g.max_switches { u64::MAX } else { 1 + g.rng.below(g.max_quantum) };
        Some(c[i])
    }
    fn step(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        g.points += 1;
        g.quantum -= 1;
        if g.quantum > 0 {
            return;
        }
        let p = g.points;
        if let Some(n) = Self::pick(&mut g) {
            g.trace = (g.trace ^ (n as u64 + 1) ^ (p << 8)).wrapping_mul(0x100_0000_01b3);
            if n != id {
                g.switches += 1;
                g.current = n;
                self.cv[n].notify_one();
                while g.current != id {
                    g = self.cv[id].wait(g).unwrap();
                }
            }
        }
    }
    /// Body of simulated thread `id`: waits to be scheduled, runs, hands over.
    pub fn run<T>(self: &Arc<Self>, id: usize, f: impl FnOnce() -> T) -> T {
        {
            let mut g = self.m.lock().unwrap();
            while g.current != id {
                g = self.cv[id].wait(g).unwrap();
            }
        }
        ME.set((id, Arc::as_ptr(self)));
        let r = f();
        ME.set((0, std::ptr::null()));
        let mut g = self.m.lock().unwrap();
        g.runnable[id] = false;
        if let Some(n) = Self::pick(&mut g) {
            let p = g.points;
            g.trace = (g.trace ^ (n as u64 + 1) ^ (p << 8)).wrapping_mul(0x100_0000_01b3);
            g.current = n;
            self.cv[n].notify_one();
        }
        r
    }
    /// switches at allocations and waits, switches inside code, scheduling points, trace
    pub fn stats(&self) -> (u64, u64, u64, u64) {
        let g = self.m.lock().unwrap();
        (g.switches, g.inside, g.points, g.trace)
    }
}
