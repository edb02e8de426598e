//! Deterministic simulation runtime: every simulated thread is a coroutine on one OS thread, and
//! every switch between them is decided at a `point()` by one seeded scheduler (or by a recorded
//! schedule).  Nothing here reads a clock, an address or any other ambient state.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr::null_mut;

// ---------------------------------------------------------------------------------------------
// Random numbers
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9e37_79b9_7f4a_7c15))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    #[inline]
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    /// Uniform in `0..n` (`n > 0`).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    #[inline]
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut x = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < u64::from(*w) {
                return i;
            }
            x -= u64::from(*w);
        }
        ws.len() - 1
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------------------------------------
// Sites
// ---------------------------------------------------------------------------------------------

macro_rules! sites {
    ($($name:ident),* $(,)?) => {
        #[allow(non_upper_case_globals)]
        pub mod site {
            sites!(@c 0u8; $($name,)*);
        }
        pub const SITE_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
    (@c $n:expr; $h:ident, $($t:ident,)*) => {
        pub const $h: u8 = $n;
        sites!(@c $n + 1; $($t,)*);
    };
    (@c $n:expr;) => {};
}

sites!(
    OpBegin, OpEnd, PtrNew, PtrClone, PtrDrop, PtrFree, PtrUnique, PtrDeref, PtrTryUnwrap,
    PtrGetMut, PtrCount, PtrMakeMut, PtrPublish, ElClone, ElDrop, ElEq, ElOrd, ElHash, ElFmt,
    ElSer, ElDe, IterNext, Sink, Source, Join, Steal, Closure, BuildHasher, Hold, DePanic, Arg,
);
pub const NSITES: usize = 32;

// ---------------------------------------------------------------------------------------------
// Configuration and results
// ---------------------------------------------------------------------------------------------

/// `(from task, step of that task, to task)`.
pub type Switch = (u32, u64, u32);

#[derive(Clone, Debug)]
pub enum Sched {
    /// Draw a policy and every decision from this seed.
    Seeded(u64),
    /// Exactly these switches; otherwise the current task continues.
    Replay(Vec<Switch>),
}

#[derive(Clone, Debug)]
pub struct RtConfig {
    pub sched: Sched,
    pub stack_size: usize,
    /// A violation is reported when a task uses more stack than this.
    pub stack_limit: usize,
    /// A violation is reported when this many steps go by without any operation beginning or ending.
    pub max_steps: u64,
    pub max_alloc: usize,
    /// Multiplier (in 1/1024) on preemption probability; for long runs.
    pub preempt_scale: u64,
}

impl Default for RtConfig {
    fn default() -> RtConfig {
        RtConfig {
            sched: Sched::Seeded(0),
            stack_size: 512 << 10,
            stack_limit: 400 << 10,
            max_steps: 20_000_000,
            max_alloc: 64 << 20,
            preempt_scale: 1024,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    /// What the task was doing (see `label`).
    pub label: u64,
    pub task: u32,
}

#[derive(Clone, Debug)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub forced: u64,
    pub tasks: u64,
    pub stalls: u64,
    pub site: [u64; NSITES],
    pub preempt: [u64; NSITES],
    pub fired: [u64; NSITES],
    pub max_stack: u64,
}

impl Default for Stats {
    fn default() -> Stats {
        Stats {
            steps: 0,
            switches: 0,
            forced: 0,
            tasks: 0,
            stalls: 0,
            site: [0; NSITES],
            preempt: [0; NSITES],
            fired: [0; NSITES],
            max_stack: 0,
        }
    }
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.steps += o.steps;
        self.switches += o.switches;
        self.forced += o.forced;
        self.tasks += o.tasks;
        self.stalls += o.stalls;
        for i in 0..NSITES {
            self.site[i] += o.site[i];
            self.preempt[i] += o.preempt[i];
            self.fired[i] += o.fired[i];
        }
        self.max_stack = self.max_stack.max(o.max_stack);
    }
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub switches: Vec<Switch>,
    pub stats: Stats,
    /// Hash of the complete event log: every `(task, site)` step and every `note()`.
    pub log_hash: u64,
    /// Hash of the schedule only: every switch and where it happened.
    pub sched_hash: u64,
}

// ---------------------------------------------------------------------------------------------
// Runtime
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq)]
enum State {
    Runnable,
    Waiting(u32),
    Done,
}

#[derive(Clone, Copy, Default)]
struct Armed {
    mask: u32,
    nth: u32,
    fired: bool,
}

/// Per-task counters, read by the oracles about work and allocation.
#[derive(Clone, Copy, Default, Debug)]
pub struct Counters {
    pub steps: u64,
    pub bytes: u64,
    pub allocs: u64,
    pub max_alloc: u64,
    pub freed: u64,
    pub freed_nodes: u64,
    pub site: [u32; NSITES],
}

struct Task {
    body: Option<Box<dyn FnOnce()>>,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    state: State,
    base: usize,
    depth_hw: usize,
    c: Counters,
    armed: Armed,
    quiet: u32,
    track: bool,
    stalled_until: u64,
    stall_at: u64,
    prio: u64,
    replay: Vec<(u64, u32)>,
    cursor: usize,
    label: u64,
}

struct Rt {
    tasks: Vec<Task>,
    live: Vec<usize>,
    cur: usize,
    next: usize,
    cfg: RtConfig,
    rng: Rng,
    replaying: bool,
    thr: [u64; NSITES],
    pct: Vec<u64>,
    use_pct: bool,
    nrun: usize,
    aborting: bool,
    violation: Option<Violation>,
    switches: Vec<Switch>,
    replay: Vec<Switch>,
    stats: Stats,
    log_hash: u64,
    progress_at: u64,
    sched_hash: u64,
    stall_budget: u32,
    trace: Option<Vec<(u32, u8)>>,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(null_mut()) };
}

struct StackPool(Vec<(usize, DefaultStack)>);
thread_local! {
    static POOL: std::cell::RefCell<StackPool> = const { std::cell::RefCell::new(StackPool(Vec::new())) };
}

fn take_stack(size: usize) -> DefaultStack {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(i) = p.0.iter().position(|(s, _)| *s == size) {
            p.0.swap_remove(i).1
        } else {
            DefaultStack::new(size).expect("simrt: cannot allocate a coroutine stack")
        }
    })
}

fn give_stack(size: usize, s: DefaultStack) {
    POOL.with(|p| p.borrow_mut().0.push((size, s)));
}

#[inline(always)]
fn rt() -> *mut Rt {
    RT.with(|r| r.get())
}

#[inline]
pub fn active() -> bool {
    !rt().is_null()
}

#[inline(never)]
fn sp() -> usize {
    let x = 0u8;
    std::hint::black_box(&x as *const u8 as usize)
}

impl Rt {
    fn eligible(&self, i: usize) -> bool {
        self.tasks[i].state == State::Runnable && self.tasks[i].stalled_until <= self.stats.steps
    }

    /// Another task to run instead of the current one, by the seeded policy.
    fn pick_other(&mut self, forced: bool) -> Option<usize> {
        let mut cands: [usize; 64] = [0; 64];
        let mut k = 0;
        for j in 0..self.live.len() {
            let i = self.live[j];
            if (i != self.cur || forced) && self.eligible(i) && k < 64 {
                cands[k] = i;
                k += 1;
            }
        }
        if k == 0 && forced {
            // Everybody runnable is stalled: the stall ends.
            for j in 0..self.live.len() {
                let i = self.live[j];
                if self.tasks[i].state == State::Runnable && k < 64 {
                    self.tasks[i].stalled_until = 0;
                    cands[k] = i;
                    k += 1;
                }
            }
        }
        if k == 0 {
            return None;
        }
        if self.use_pct {
            let mut best = cands[0];
            for c in &cands[1..k] {
                if self.tasks[*c].prio > self.tasks[best].prio {
                    best = *c;
                }
            }
            return Some(best);
        }
        Some(cands[self.rng.below(k as u64) as usize])
    }

    fn record(&mut self, from: usize, to: usize, site: u8) {
        let st = self.tasks[from].c.steps;
        untracked(|| self.switches.push((from as u32, st, to as u32)));
        self.sched_hash = mix(self.sched_hash ^ ((from as u64) << 40 | (to as u64) << 20 | u64::from(site)))
            .wrapping_add(st);
    }

    /// The replayed switch of the current task at its current step, if there is one.
    fn replay_at_cursor(&mut self) -> Option<usize> {
        let t = &mut self.tasks[self.cur];
        let s = t.c.steps;
        while t.cursor < t.replay.len() && t.replay[t.cursor].0 < s {
            t.cursor += 1;
        }
        if t.cursor < t.replay.len() && t.replay[t.cursor].0 == s {
            let to = t.replay[t.cursor].1 as usize;
            t.cursor += 1;
            return Some(to);
        }
        None
    }

    fn forced_next(&mut self) -> Option<usize> {
        self.tasks[self.cur].c.steps += 1;
        self.stats.forced += 1;
        let to = if self.replaying {
            match self.replay_at_cursor() {
                Some(t) if t < self.tasks.len() && self.tasks[t].state == State::Runnable => Some(t),
                _ => self.live.iter().copied().find(|i| self.tasks[*i].state == State::Runnable),
            }
        } else {
            self.pick_other(true)
        };
        if let Some(t) = to {
            self.record(self.cur, t, 63);
        }
        to
    }
}

fn init_task(r: &mut Rt) -> Task {
    let id = r.tasks.len() as u32;
    let mut replay: Vec<(u64, u32)> =
        r.replay.iter().filter(|s| s.0 == id).map(|s| (s.1, s.2)).collect();
    replay.sort_unstable();
    let prio = if r.replaying { 0 } else { r.rng.u64() | (1 << 63) };
    let stall_at = if !r.replaying && r.stall_budget > 0 && id > 0 && r.rng.chance(1, 2) {
        r.stall_budget -= 1;
        // Log-uniform: stalls early in an operation and deep inside a long one.
        let e = r.rng.below(12);
        r.rng.range(1 << e, 2 << e)
    } else {
        u64::MAX
    };
    Task {
        body: None,
        co: None,
        yielder: std::ptr::null(),
        state: State::Runnable,
        base: 0,
        depth_hw: 0,
        c: Counters::default(),
        armed: Armed::default(),
        quiet: 0,
        track: true,
        stalled_until: 0,
        stall_at,
        prio,
        replay,
        cursor: 0,
        label: 0,
    }
}

/// Starts a simulated thread.  The closure must outlive the run: callers that borrow must `join`
/// the task before their borrows end (as `rayon_core::join` does).
///
/// # Safety
/// See above: everything captured by `f` has to stay valid until the task is done.
pub unsafe fn spawn_unchecked<'a>(f: Box<dyn FnOnce() + 'a>) -> u32 {
    untracked(|| unsafe { spawn_inner(f) })
}

unsafe fn spawn_inner<'a>(f: Box<dyn FnOnce() + 'a>) -> u32 {
    let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
    let r = rt();
    assert!(!r.is_null(), "simrt: spawn outside of a run");
    let r = unsafe { &mut *r };
    let id = r.tasks.len();
    let mut t = init_task(r);
    let stack = take_stack(r.cfg.stack_size);
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        {
            let r = unsafe { &mut *rt() };
            r.tasks[id].yielder = y as *const _;
            r.tasks[id].base = sp();
        }
        let f = unsafe { (&mut (*rt()).tasks)[id].body.take() };
        let Some(f) = f else { return };
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            violate("harness:task-panic", &format!("uncaught panic in task {id}: {}", panic_text(&*e)));
        }
    });
    t.body = Some(f);
    t.co = Some(co);
    r.tasks.push(t);
    r.live.push(id);
    r.nrun += 1;
    r.stats.tasks += 1;
    id as u32
}

pub fn spawn(f: impl FnOnce() + 'static) -> u32 {
    unsafe { spawn_unchecked(Box::new(f)) }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string payload>".to_string()
    }
}

fn suspend_current() {
    let r = rt();
    unsafe {
        let y = (&(*r).tasks)[(*r).cur].yielder;
        (*y).suspend(());
    }
}

/// Withdraws a task that has not started; says whether it had not.
pub fn cancel(id: u32) -> bool {
    let r = unsafe { &mut *rt() };
    let i = id as usize;
    if r.tasks[i].state == State::Done || !r.tasks[i].yielder.is_null() {
        return false;
    }
    drop(r.tasks[i].body.take());
    let mut co = r.tasks[i].co.take().unwrap();
    unsafe { co.force_reset() };
    give_stack(r.cfg.stack_size, co.into_stack());
    r.tasks[i].state = State::Done;
    r.live.retain(|x| *x != i);
    r.nrun -= 1;
    true
}

/// Blocks the current task until `id` is done.
pub fn join(id: u32) {
    let r = unsafe { &mut *rt() };
    if r.tasks[id as usize].state == State::Done {
        return;
    }
    let cur = r.cur;
    r.tasks[cur].state = State::Waiting(id);
    r.nrun -= 1;
    match r.forced_next() {
        Some(n) => r.next = n,
        None => violate("deadlock", "no task can run"),
    }
    suspend_current();
}

pub fn is_done(id: u32) -> bool {
    let r = unsafe { &*rt() };
    r.tasks[id as usize].state == State::Done
}

pub fn current() -> u32 {
    let r = rt();
    if r.is_null() {
        return 0;
    }
    unsafe { (*r).cur as u32 }
}

/// A scheduling point: the only place where control moves from one simulated thread to another.
#[inline]
pub fn point(s: u8) {
    let r = rt();
    if r.is_null() {
        return;
    }
    let r = unsafe { &mut *r };
    if r.aborting {
        return;
    }
    point_slow(r, s);
}

fn point_slow(r: &mut Rt, s: u8) {
    let here = sp();
    let cur = r.cur;
    {
        let t = &mut r.tasks[cur];
        if t.quiet > 0 {
            return;
        }
        t.c.steps += 1;
        t.c.site[s as usize] += 1;
        let depth = t.base.wrapping_sub(here);
        if depth > t.depth_hw && depth < (1 << 40) {
            t.depth_hw = depth;
        }
    }
    r.stats.steps += 1;
    r.stats.site[s as usize] += 1;
    r.log_hash = (r.log_hash ^ ((cur as u64) << 8 | u64::from(s))).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
    if let Some(t) = &mut r.trace {
        untracked(|| t.push((cur as u32, s)));
    }
    if r.tasks[cur].depth_hw > r.cfg.stack_limit {
        let d = r.tasks[cur].depth_hw;
        violate("stack-growth", &format!("task {cur} used {d} bytes of stack at {}", SITE_NAMES[s as usize]));
    }
    if s == site::OpBegin || s == site::OpEnd {
        r.progress_at = r.stats.steps;
    }
    if r.stats.steps - r.progress_at > r.cfg.max_steps {
        violate("no-progress", &format!("no operation began or ended for {} steps", r.cfg.max_steps));
    }
    if r.nrun < 2 {
        return;
    }
    if std::thread::panicking() {
        return;
    }
    let to = if r.replaying {
        match r.replay_at_cursor() {
            Some(t) if t < r.tasks.len() && t != cur && r.tasks[t].state == State::Runnable => Some(t),
            _ => None,
        }
    } else {
        let stall = r.tasks[cur].c.steps >= r.tasks[cur].stall_at;
        if stall {
            r.tasks[cur].stall_at = u64::MAX;
            let until = if r.rng.chance(1, 2) { u64::MAX } else { r.stats.steps + r.rng.range(10, 2000) };
            r.tasks[cur].stalled_until = until;
            r.stats.stalls += 1;
            r.pick_other(true).filter(|t| *t != cur)
        } else if r.use_pct {
            if r.pct.last().is_some_and(|x| *x <= r.stats.steps) {
                r.pct.pop();
                r.tasks[cur].prio = r.pct.len() as u64;
                r.pick_other(false).filter(|t| r.tasks[*t].prio > r.tasks[cur].prio)
            } else {
                None
            }
        } else {
            let thr = r.thr[s as usize];
            if thr > 0 && (r.rng.u64() >> 32) < thr {
                r.pick_other(false)
            } else {
                None
            }
        }
    };
    if let Some(to) = to {
        r.record(cur, to, s);
        r.stats.switches += 1;
        r.stats.preempt[s as usize] += 1;
        r.next = to;
        suspend_current();
    }
}

/// Adds data (never addresses) to the event log.
#[inline]
pub fn note(x: u64) {
    let r = rt();
    if !r.is_null() {
        let r = unsafe { &mut *r };
        r.log_hash = mix(r.log_hash.wrapping_add(x));
    }
}

/// Says what the current task is doing; reported with a violation.
pub fn label(x: u64) {
    let r = rt();
    if !r.is_null() {
        let r = unsafe { &mut *r };
        let c = r.cur;
        r.tasks[c].label = x;
    }
}

/// Records a violation and stops the run; never returns.
pub fn violate(class: &str, msg: &str) -> ! {
    let r = rt();
    if r.is_null() {
        eprintln!("simrt: violation outside of a run: {class}: {msg}");
        std::process::abort();
    }
    TRACK.with(|t| t.set(false));
    {
        let r = unsafe { &mut *r };
        if !r.aborting {
            r.aborting = true;
            let label = r.tasks.get(r.cur).map_or(0, |t| t.label);
            r.violation = Some(Violation { class: class.to_string(), msg: msg.to_string(), label, task: r.cur as u32 });
        }
    }
    loop {
        suspend_current();
    }
}

/// Runs `f` without counting steps and without switching (harness bookkeeping).
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let r = rt();
    if r.is_null() {
        return f();
    }
    struct G(*mut Rt, usize);
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { (&mut (*self.0).tasks)[self.1].quiet -= 1 };
        }
    }
    let cur = unsafe { (*r).cur };
    unsafe { (&mut (*r).tasks)[cur].quiet += 1 };
    let _g = G(r, cur);
    untracked(f)
}

// --- faults ---------------------------------------------------------------------------------

/// Arms one fault for the current task: the `nth` (from 0) event at any site of `mask` fails.
pub fn arm(mask: u32, nth: u32) {
    let r = unsafe { &mut *rt() };
    let c = r.cur;
    r.tasks[c].armed = Armed { mask, nth, fired: false };
}

/// Disarms; says whether the fault fired.
pub fn disarm() -> bool {
    let r = unsafe { &mut *rt() };
    let c = r.cur;
    let f = r.tasks[c].armed.fired;
    r.tasks[c].armed = Armed::default();
    f
}

pub fn fired() -> bool {
    let r = rt();
    if r.is_null() {
        return false;
    }
    let r = unsafe { &*r };
    r.tasks[r.cur].armed.fired
}

/// Whether the armed fault fires at this event.
#[inline]
pub fn fault(s: u8) -> bool {
    let r = rt();
    if r.is_null() {
        return false;
    }
    let r = unsafe { &mut *r };
    let c = r.cur;
    let t = &mut r.tasks[c];
    if t.armed.mask & (1 << s) == 0 || t.armed.fired || t.quiet > 0 || r.aborting {
        return false;
    }
    if std::thread::panicking() {
        return false;
    }
    if t.armed.nth > 0 {
        t.armed.nth -= 1;
        return false;
    }
    t.armed.fired = true;
    r.stats.fired[s as usize] += 1;
    true
}

/// Counts a fault that was decided elsewhere.
pub fn note_fired(s: u8) {
    let r = rt();
    if !r.is_null() {
        unsafe { (&mut (*r).stats).fired[s as usize] += 1 };
    }
}

/// Payload of every injected panic.
#[derive(Debug)]
pub struct Injected(pub u8);

#[inline]
pub fn point_fault(s: u8) {
    point(s);
    if fault(s) {
        std::panic::panic_any(Injected(s));
    }
}

/// Hands the armed fault of the current task to another task (for work done on its behalf).
pub fn give_fault(to: u32) {
    let r = unsafe { &mut *rt() };
    let a = r.tasks[r.cur].armed;
    r.tasks[to as usize].armed = a;
}

// --- counters -------------------------------------------------------------------------------

pub fn counters() -> Counters {
    let r = unsafe { &*rt() };
    let a = ACC.with(|a| a.get());
    Counters { bytes: a.bytes, allocs: a.allocs, max_alloc: a.max, freed: a.freed, freed_nodes: a.nodes, ..r.tasks[r.cur].c }
}

/// Forgets the largest allocation seen so far by this task.
pub fn reset_max_alloc() {
    ACC.with(|a| a.set(Acc { max: 0, ..a.get() }));
}

pub fn steps() -> u64 {
    let r = rt();
    if r.is_null() {
        return 0;
    }
    unsafe { (*r).stats.steps }
}

pub fn task_depth(reset: bool) -> usize {
    let r = unsafe { &mut *rt() };
    let c = r.cur;
    let d = r.tasks[c].depth_hw;
    if reset {
        r.tasks[c].depth_hw = 0;
    }
    d
}

pub fn depth_now() -> usize {
    let r = unsafe { &*rt() };
    r.tasks[r.cur].base.wrapping_sub(sp())
}

pub fn set_stack_limit(n: usize) {
    let r = unsafe { &mut *rt() };
    r.cfg.stack_limit = n;
}

// Allocation accounting lives outside of the runtime's state, because the allocator may be entered
// while that state is borrowed.
#[derive(Clone, Copy)]
struct Acc {
    bytes: u64,
    allocs: u64,
    max: u64,
    freed: u64,
    nodes: u64,
}
thread_local! {
    static ACC: Cell<Acc> = const { Cell::new(Acc { bytes: 0, allocs: 0, max: 0, freed: 0, nodes: 0 }) };
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static MAX_ALLOC: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Called by the global allocator of the harness.
#[inline]
pub fn on_alloc(size: usize) {
    if !TRACK.try_with(|t| t.get()).unwrap_or(false) {
        return;
    }
    ACC.with(|a| {
        let mut x = a.get();
        x.bytes += size as u64;
        x.allocs += 1;
        x.max = x.max.max(size as u64);
        a.set(x);
    });
    if size > MAX_ALLOC.with(|m| m.get()) {
        violate("huge-allocation", &format!("a single request for {size} bytes"));
    }
}

/// Called by the global allocator of the harness.
#[inline]
pub fn on_free(size: usize) {
    if !TRACK.try_with(|t| t.get()).unwrap_or(false) {
        return;
    }
    ACC.with(|a| {
        let mut x = a.get();
        x.freed += size as u64;
        a.set(x);
    });
}

/// A node of `size` bytes was given up.
#[inline]
pub fn on_node_free(size: usize) {
    ACC.with(|a| {
        let mut x = a.get();
        x.freed += size as u64;
        x.nodes += 1;
        a.set(x);
    });
}

/// Runs `f` without counting its allocations (harness bookkeeping).
#[inline]
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            TRACK.with(|t| t.set(self.0));
        }
    }
    let _g = G(TRACK.with(|t| t.replace(false)));
    f()
}

// --- running --------------------------------------------------------------------------------

fn setup_policy(r: &mut Rt) {
    let scale = r.cfg.preempt_scale;
    let one: u64 = 1 << 32;
    let rng = &mut r.rng;
    match rng.below(10) {
        // Serial: tasks run to completion, in random order.
        0 => {}
        // PCT: random priorities, few change points.
        1 | 2 => {
            r.use_pct = true;
            let d = rng.range(1, 6);
            let span_bits = rng.range(6, 14);
            let mut v: Vec<u64> = (0..d).map(|_| rng.below(1 << span_bits)).collect();
            v.sort_unstable_by(|a, b| b.cmp(a));
            r.pct = v;
        }
        k => {
            let base = [3, 10, 30, 100, 400, 2000, 10_000][rng.below(7) as usize];
            let boost = k >= 5;
            for s in 0..NSITES {
                let mut den: u64 = base;
                if boost {
                    match rng.below(4) {
                        0 => den = 3,
                        1 => den = den.saturating_mul(50),
                        _ => {}
                    }
                }
                // Plain reads of a node are very frequent and rarely interesting.
                if s == site::PtrDeref as usize {
                    den = den.saturating_mul(8);
                }
                r.thr[s] = one / den * scale / 1024;
            }
        }
    }
    r.stall_budget = if rng.chance(1, 4) { rng.range(1, 3) as u32 } else { 0 };
}

/// Executes one simulation.  `main` becomes task 0.
pub fn run(cfg: RtConfig, main: impl FnOnce() + 'static) -> RunResult {
    run_traced(cfg, main, false).0
}

pub fn run_traced(
    cfg: RtConfig,
    main: impl FnOnce() + 'static,
    trace: bool,
) -> (RunResult, Vec<(u32, u8)>) {
    assert!(rt().is_null(), "simrt: nested run");
    let (seed, replaying, replay) = match &cfg.sched {
        Sched::Seeded(s) => (*s, false, Vec::new()),
        Sched::Replay(v) => (0, true, v.clone()),
    };
    let stack_size = cfg.stack_size;
    let mut r = Box::new(Rt {
        tasks: Vec::with_capacity(64),
        live: Vec::new(),
        cur: 0,
        next: 0,
        cfg,
        rng: Rng::new(seed),
        replaying,
        thr: [0; NSITES],
        pct: Vec::new(),
        use_pct: false,
        nrun: 0,
        aborting: false,
        violation: None,
        switches: Vec::new(),
        replay,
        stats: Stats::default(),
        log_hash: 0,
        progress_at: 0,
        sched_hash: 0,
        stall_budget: 0,
        trace: if trace { Some(Vec::new()) } else { None },
    });
    if !replaying {
        setup_policy(&mut r);
    }
    let p: *mut Rt = &mut *r;
    RT.with(|c| c.set(p));
    MAX_ALLOC.with(|m| m.set(unsafe { (*p).cfg.max_alloc }));
    spawn(main);
    unsafe {
        (*p).cur = 0;
        loop {
            let cur = (*p).cur;
            let mut co = (&mut (*p).tasks)[cur].co.take().expect("simrt: resuming a finished task");
            {
                let c = &(&(*p).tasks)[cur].c;
                ACC.with(|a| a.set(Acc { bytes: c.bytes, allocs: c.allocs, max: c.max_alloc, freed: c.freed, nodes: c.freed_nodes }));
                let track = (&(*p).tasks)[cur].track;
                TRACK.with(|t| t.set(track));
            }
            let res = co.resume(());
            {
                let track = TRACK.with(|t| t.replace(false));
                (&mut (*p).tasks)[cur].track = track;
                let a = ACC.with(|a| a.get());
                let c = &mut (&mut (*p).tasks)[cur].c;
                c.bytes = a.bytes;
                c.allocs = a.allocs;
                c.max_alloc = a.max;
                c.freed = a.freed;
                c.freed_nodes = a.nodes;
            }
            (&mut (*p).tasks)[cur].co = Some(co);
            if (*p).aborting {
                break;
            }
            match res {
                CoroutineResult::Yield(()) => (*p).cur = (*p).next,
                CoroutineResult::Return(()) => {
                    let rr = &mut *p;
                    let co = rr.tasks[cur].co.take().unwrap();
                    give_stack(stack_size, co.into_stack());
                    rr.tasks[cur].state = State::Done;
                    rr.live.retain(|x| *x != cur);
                    rr.nrun -= 1;
                    for j in 0..rr.live.len() {
                        let i = rr.live[j];
                        if rr.tasks[i].state == State::Waiting(cur as u32) {
                            rr.tasks[i].state = State::Runnable;
                            rr.nrun += 1;
                        }
                    }
                    if rr.live.is_empty() {
                        break;
                    }
                    match rr.forced_next() {
                        Some(n) => rr.cur = n,
                        None => {
                            rr.violation = Some(Violation {
                                class: "deadlock".into(),
                                msg: "no task can run".into(),
                                label: 0,
                                task: 0,
                            });
                            rr.aborting = true;
                            break;
                        }
                    }
                }
            }
        }
    }
    RT.with(|c| c.set(null_mut()));
    // Tasks abandoned in the middle (after a violation) are never unwound.
    for t in &mut r.tasks {
        if let Some(mut co) = t.co.take() {
            unsafe { co.force_reset() };
            give_stack(stack_size, co.into_stack());
        }
        r.stats.max_stack = r.stats.max_stack.max(t.depth_hw as u64);
    }
    let res = RunResult {
        violation: r.violation.take(),
        switches: std::mem::take(&mut r.switches),
        stats: r.stats.clone(),
        log_hash: r.log_hash,
        sched_hash: r.sched_hash,
    };
    let tr = r.trace.take().unwrap_or_default();
    if res.violation.is_some() {
        // Abandoned stacks may still be referenced by leaked values.
        std::mem::forget(r);
    }
    (res, tr)
}
