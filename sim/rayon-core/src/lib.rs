//! Simulated stand-in for `rayon-core`: the real `rayon` crate runs on top of it, and its `join`
//! asks the simulator's scheduler - and nothing else - which half is stolen, when, and by whom.
//!
//! The second half of every join is offered to a thief, a simulated thread of its own.  If the
//! scheduler lets the thief start before the owner has finished the first half, the half counts as
//! stolen; otherwise the owner takes it back and runs it itself.  As in rayon, a panic in either
//! half is reported only after both are over.

use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    static WORKERS: Cell<usize> = const { Cell::new(4) };
    static THIEVES: Cell<usize> = const { Cell::new(0) };
    static JOINS: Cell<u64> = const { Cell::new(0) };
    static STOLEN: Cell<u64> = const { Cell::new(0) };
}

pub mod sim {
    use super::*;
    pub fn reset(workers: usize) {
        WORKERS.with(|w| w.set(workers.max(1)));
        THIEVES.with(|w| w.set(0));
        JOINS.with(|w| w.set(0));
        STOLEN.with(|w| w.set(0));
    }
    /// `(joins, stolen halves)` since `reset`.
    pub fn counts() -> (u64, u64) {
        (JOINS.with(|w| w.get()), STOLEN.with(|w| w.get()))
    }
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}

impl FnContext {
    fn new(migrated: bool) -> FnContext {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(move |_| oper_a(), move |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !simrt::active() {
        let a = oper_a(FnContext::new(false));
        return (a, oper_b(FnContext::new(false)));
    }
    JOINS.with(|w| w.set(w.get() + 1));
    let job: Cell<Option<B>> = Cell::new(Some(oper_b));
    let result: Cell<Option<std::thread::Result<RB>>> = Cell::new(None);
    let limit = WORKERS.with(|w| w.get());
    let thief = {
        let job = &job;
        let result = &result;
        let body: Box<dyn FnOnce() + '_> = Box::new(move || {
            if THIEVES.with(|t| t.get()) + 1 >= limit {
                return;
            }
            if let Some(b) = job.take() {
                THIEVES.with(|t| t.set(t.get() + 1));
                STOLEN.with(|w| w.set(w.get() + 1));
                simrt::point(simrt::site::Steal);
                result.set(Some(catch_unwind(AssertUnwindSafe(|| b(FnContext::new(true))))));
                THIEVES.with(|t| t.set(t.get() - 1));
            }
        });
        // SAFETY: `job` and `result` outlive the thief: it is cancelled or joined below, on every path.
        unsafe { simrt::spawn_unchecked(body) }
    };
    simrt::point(simrt::site::Join);
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(false))));
    simrt::point(simrt::site::Join);
    let rb = match job.take() {
        Some(b) => {
            if !simrt::cancel(thief) {
                simrt::join(thief);
            }
            catch_unwind(AssertUnwindSafe(|| b(FnContext::new(false))))
        }
        None => {
            simrt::join(thief);
            result.take().expect("the thief has finished")
        }
    };
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

pub fn current_num_threads() -> usize {
    WORKERS.with(|w| w.get())
}
pub fn current_thread_index() -> Option<usize> {
    Some(simrt::current() as usize % current_num_threads())
}
pub fn max_num_threads() -> usize {
    65535
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    simrt::point(simrt::site::Join);
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}

// The rest of the interface exists so that `rayon` can re-export it; nothing in scope calls it.
pub struct ThreadBuilder(());
pub struct ThreadPool(());
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
#[derive(Default)]
pub struct ThreadPoolBuilder(());
pub struct BroadcastContext<'s>(PhantomData<&'s ()>);

/// Scoped tasks run at once, on the spawning simulated thread (a legal, if dull, schedule; the code
/// under test does not use scopes).
pub struct Scope<'s>(PhantomData<Cell<&'s ()>>);
pub type ScopeFifo<'s> = Scope<'s>;

impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        f(self)
    }
    pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        f(self)
    }
}
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn in_place_scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    f(&Scope(PhantomData))
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn broadcast() {
    unimplemented!("not simulated")
}
pub fn spawn_broadcast() {
    unimplemented!("not simulated")
}
