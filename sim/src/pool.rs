//! The simulated system: several threads working on a pool of versions that share structure, one
//! operation at a time each, with every callback, pointer operation, sink and source under control.

use crate::bounds;
use crate::ds::*;
use crate::elem::{self, E};
use crate::ser::*;
use simrt::{point, quietly, site, violate, Injected, Rng};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// --- what a run consists of -------------------------------------------------------------------

pub const F_CONTENT: u32 = 1;
pub const F_SNAP: u32 = 2;
pub const F_ATOMIC: u32 = 4;
pub const F_CONSERVE: u32 = 8;
pub const F_STEPS: u32 = 16;
pub const F_ALLOC: u32 = 32;
pub const F_ITER: u32 = 64;
pub const F_REL: u32 = 128;
pub const F_SER: u32 = 256;
pub const F_DE: u32 = 512;
pub const F_BULK: u32 = 1024;
pub const F_PAR: u32 = 2048;
/// Report panics that nothing injected.
pub const F_PANIC: u32 = 4096;
pub const F_BIG: u32 = 8192;
/// Literals.
pub const F_LIT: u32 = 16384;
/// Memory held follows the content.
pub const F_HOLD: u32 = 32768;

macro_rules! ops {
    ($($n:ident = $v:expr, $s:expr;)*) => {
        $(pub const $n: u8 = $v;)*
        pub const OP_NAMES: &[&str] = &[$($s),*];
    };
}
ops! {
    FILL = 0, "fill";
    DERIVE = 1, "derive";
    MUTC = 2, "mutate-clone";
    MUTO = 3, "mutate-own";
    QUERY = 4, "query";
    OBS = 5, "observe";
    ITER = 6, "iterate";
    REL = 7, "relate";
    DROP = 8, "drop";
    CLONE = 9, "clone";
    BURST = 10, "burst";
    COLLECT = 11, "collect";
    EXTEND = 12, "extend";
    SER = 13, "serialize";
    SHOW = 14, "print";
    DE = 15, "deserialize";
    HOLD = 16, "hold";
    ALT = 17, "relate-alternative";
    PAR = 18, "parallel-iterate";
    RANGE = 19, "range";
    BOUNDARY = 20, "hash-boundary";
    CTOR = 21, "construct";
    LIT = 22, "literal";
    PART = 23, "partially-ordered";
    CHURN = 24, "churn";
    TYPES = 25, "other-types";
}
pub const NOPS: usize = 26;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub phase: u8,
    pub task: u8,
    pub kind: u8,
    pub s: u8,
    pub d: u8,
    pub code: u8,
    pub a: u32,
    pub b: u32,
    pub mask: u32,
    pub nth: u32,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub conf: Conf,
    pub flags: u32,
    pub slots: u8,
    pub dom: u32,
    pub ops: Vec<Op>,
    pub env_seed: u64,
    pub stack_size: usize,
    pub stack_limit: usize,
    pub max_alloc: usize,
    pub preempt_scale: u64,
    pub workers: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Cov {
    pub ops: [u64; NOPS],
    pub injected: [u64; NOPS],
    pub overlapped: u64,
    pub checks: u64,
    pub probes: BTreeMap<&'static str, u64>,
    pub ratio: BTreeMap<String, (u64, u64)>,
}
impl Cov {
    pub fn add(&mut self, o: &Cov) {
        for i in 0..NOPS {
            self.ops[i] += o.ops[i];
            self.injected[i] += o.injected[i];
        }
        self.overlapped += o.overlapped;
        self.checks += o.checks;
        for (k, v) in &o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.ratio {
            let e = self.ratio.entry(k.clone()).or_insert(*v);
            if v.0 * e.1 > e.0 * v.1 {
                *e = *v;
            }
        }
    }
}

// --- the pool ---------------------------------------------------------------------------------

pub struct Ver {
    pub c: Box<dyn Coll>,
    pub m: M,
    /// Branching/hashing configuration it was made with, when known.
    pub conf: Conf,
    seed: u64,
    obs: Option<Obs>,
    /// Shares structure with something else (or did once).
    shared: Cell<bool>,
    /// In-place history only; never cloned.
    id: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Obs {
    raw: Vec<(u32, u32)>,
    facts: Vec<(u8, u32, Val)>,
}

pub struct World {
    pub spec: Spec,
    pub mk: Box<dyn Maker>,
    slots: RefCell<Vec<Option<Rc<Ver>>>>,
    pub cov: RefCell<Cov>,
    inflight: Cell<u32>,
    next_id: Cell<u32>,
}

pub enum Out<X> {
    Ok(X),
    Injected(u8),
    Panic(String),
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Delta {
    pub steps: u64,
    pub nodes: u64,
    pub el_clones: u64,
    pub bytes: u64,
    pub allocs: u64,
    pub freed: u64,
    pub freed_nodes: u64,
    pub fired: bool,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs one operation of the code under test: arms its fault, measures it, catches what it throws.
pub fn g<X>(mask: u32, nth: u32, f: impl FnOnce() -> X) -> (Out<X>, Delta) {
    point(site::OpBegin);
    if mask != 0 {
        simrt::arm(mask, nth);
    }
    let b = simrt::counters();
    let r = catch_unwind(AssertUnwindSafe(f));
    let a = simrt::counters();
    let fired = if mask != 0 { simrt::disarm() } else { false };
    let d = Delta {
        steps: a.steps - b.steps,
        nodes: u64::from(a.site[site::PtrNew as usize] - b.site[site::PtrNew as usize]),
        el_clones: u64::from(a.site[site::ElClone as usize] - b.site[site::ElClone as usize]),
        bytes: a.bytes - b.bytes,
        allocs: a.allocs - b.allocs,
        freed: a.freed - b.freed,
        freed_nodes: a.freed_nodes - b.freed_nodes,
        fired,
    };
    point(site::OpEnd);
    let o = match r {
        Ok(x) => Out::Ok(x),
        Err(e) => match e.downcast_ref::<Injected>() {
            Some(i) => Out::Injected(i.0),
            None => {
                let loc = LAST_PANIC.with(|p| p.borrow().clone());
                Out::Panic(format!("{} ({loc})", simrt::panic_text(&*e)))
            }
        },
    };
    (o, d)
}

impl World {
    fn conf(&self) -> &Conf {
        &self.spec.conf
    }
    fn fam(&self) -> Fam {
        self.spec.conf.fam
    }
    pub fn has(&self, f: u32) -> bool {
        self.spec.flags & f != 0
    }
    pub fn probe(&self, k: &'static str) {
        simrt::untracked(|| *self.cov.borrow_mut().probes.entry(k).or_insert(0) += 1);
    }
    pub fn check_done(&self) {
        self.cov.borrow_mut().checks += 1;
    }
    pub fn ratio(&self, what: &str, actual: u64, bound: u64) {
        simrt::untracked(|| {
            let mut c = self.cov.borrow_mut();
            let e = c.ratio.entry(what.to_string()).or_insert((actual, bound.max(1)));
            if actual * e.1 > e.0 * bound {
                *e = (actual, bound.max(1));
            }
        });
    }
    fn slot(&self, i: u8) -> usize {
        i as usize % self.spec.slots as usize
    }
    fn fresh_id(&self) -> u32 {
        self.next_id.set(self.next_id.get() + 1);
        self.next_id.get()
    }

    /// The version in a slot; an empty collection is created where there is none.
    fn get(&self, i: u8) -> Rc<Ver> {
        let k = self.slot(i);
        if let Some(v) = &self.slots.borrow()[k] {
            return v.clone();
        }
        let c = self.mk.fresh(self.conf());
        let v = simrt::untracked(|| Rc::new(self.ver(c, Vec::new(), *self.conf(), false)));
        // Another task may have been quicker.
        let old = self.slots.borrow_mut()[k].replace(v.clone());
        self.release(old, 0, 0);
        v
    }

    fn ver(&self, c: Box<dyn Coll>, m: M, conf: Conf, shared: bool) -> Ver {
        let id = self.fresh_id();
        let seed = simrt::mix(self.spec.env_seed ^ (u64::from(id) << 20));
        let obs = if self.has(F_SNAP) { Some(self.observe(&*c, &m, seed)) } else { None };
        Ver { c, m, conf, seed, obs, shared: Cell::new(shared), id }
    }

    fn put(&self, i: u8, v: Ver) {
        let k = self.slot(i);
        let old = simrt::untracked(|| self.slots.borrow_mut()[k].replace(Rc::new(v)));
        self.release(old, 0, 0);
    }

    /// Releases a handle on whichever simulated thread this is.
    fn release(&self, v: Option<Rc<Ver>>, mask: u32, nth: u32) {
        let Some(v) = v else { return };
        let v = match Rc::try_unwrap(v) {
            Ok(v) => v,
            Err(v) => {
                drop(v);
                return;
            }
        };
        let n = v.m.len();
        let Ver { c, m, conf, obs, .. } = v;
        let kind = c.kind();
        let (o, d) = g(mask, nth, move || drop(c));
        self.held(&conf, kind, &m, &d);
        drop((m, obs));
        if self.has(F_STEPS) && !d.fired {
            self.bound_check("release", d.steps, bounds::release(self.conf(), n), n);
        }
        self.unexpected(&o, "release of a handle");
    }

    /// What the release of a version gives back is what it alone was holding.
    fn held(&self, conf: &Conf, kind: Kind, m: &M, d: &Delta) {
        if !self.has(F_HOLD) {
            return;
        }
        let (nodes, bytes) = bounds::hold(conf, m);
        let f = self.fam();
        let hostile = f.hash() && !conf.rnd && conf.hmode > 1;
        let tag = |x: &str| format!("{x} {f:?}{}", if hostile { " (colliding)" } else { "" });
        self.check_done();
        if kind == Kind::Sim {
            self.ratio(&tag("nodes held"), d.freed_nodes, nodes);
            if d.freed_nodes > nodes {
                violate("memory-held", &format!("{f:?} with {} elements held {} nodes, more than {nodes}", m.len(), d.freed_nodes));
            }
        }
        if conf.bits <= 6 {
            self.ratio(&tag("bytes held"), d.freed, bytes);
            if d.freed > bytes {
                violate("memory-held", &format!("{f:?} with {} elements held {} bytes, more than {bytes}", m.len(), d.freed));
            }
        }
    }

    fn unexpected<X>(&self, o: &Out<X>, what: &str) {
        if let Out::Panic(t) = o {
            if self.has(F_PANIC) {
                violate("unexpected-panic", &format!("{what}: {t}"));
            }
        }
    }

    fn bound_check(&self, what: &str, actual: u64, bound: u64, n: usize) {
        let c = self.conf();
        let hostile = c.fam.hash() && !c.rnd && c.hmode > 1;
        self.ratio(&format!("{:?}{} {what}", self.fam(), if hostile { " (colliding)" } else { "" }), actual, bound);
        self.check_done();
        if actual > bound {
            violate(
                "too-many-steps",
                &format!("{:?}.{what} with {n} elements took {actual} steps, more than {bound}", self.fam()),
            );
        }
    }

    // --- reading ------------------------------------------------------------------------------

    /// Content through iteration, in iteration order.
    fn raw(&self, c: &dyn Coll) -> Vec<(u32, u32)> {
        let mut v = Vec::new();
        let mut it = c.iter(IT_ENTRIES);
        while let Some(x) = it.next() {
            v.push(x.ab());
            if v.len() > 4_000_000 {
                violate("endless-iteration", "an iterator does not end");
            }
        }
        v
    }
    fn norm(&self, mut v: Vec<(u32, u32)>) -> M {
        if self.fam().hash() {
            v.sort_unstable();
        }
        v
    }

    fn plan(&self, m: &M, seed: u64, n: usize) -> Vec<(u8, u32)> {
        let f = self.fam();
        let mut r = Rng::new(seed);
        let mut v = vec![(Q_LEN, 0), (Q_EMPTY, 0)];
        if supports(f, Q_FIRST) {
            v.push((Q_FIRST, 0));
        }
        if supports(f, Q_LAST) {
            v.push((Q_LAST, 0));
        }
        if !supports(f, Q_GET) {
            return v;
        }
        let full = r.chance(1, 12) && m.len() <= 128;
        let k = if full { m.len() + 4 } else { n };
        for i in 0..k {
            let q = loop {
                let q = r.range(u64::from(Q_GET), u64::from(Q_INDEX)) as u8;
                if supports(f, q) {
                    break q;
                }
            };
            let a = if f == Fam::Vector {
                if full { i as u32 } else { r.below(m.len() as u64 + 2) as u32 }
            } else if full && i < m.len() {
                m[i].0
            } else if !m.is_empty() && r.chance(2, 3) {
                m[r.below(m.len() as u64) as usize].0
            } else {
                r.below(u64::from(self.spec.dom)) as u32
            };
            v.push((q, a));
        }
        v
    }

    fn ask(&self, c: &dyn Coll, q: u8, a: u32) -> Val {
        if q != Q_INDEX {
            return c.query(q, a);
        }
        match catch_unwind(AssertUnwindSafe(|| c.query(q, a))) {
            Ok(v) => v,
            Err(e) if e.downcast_ref::<Injected>().is_some() => std::panic::resume_unwind(e),
            Err(_) => Val::Panic,
        }
    }

    fn observe(&self, c: &dyn Coll, m: &M, seed: u64) -> Obs {
        let plan = self.plan(m, seed, 4);
        let mut facts = Vec::with_capacity(plan.len());
        for (q, a) in plan {
            facts.push((q, a, self.ask(c, q, a)));
        }
        Obs { raw: self.raw(c), facts }
    }

    /// Compares a collection with a model through several read paths.
    fn agree(&self, c: &dyn Coll, m: &M, seed: u64) -> Result<(), String> {
        let f = self.fam();
        let mut r = Rng::new(seed ^ 77);
        let mut raw = Vec::new();
        let back = f.double_ended() && r.chance(1, 4);
        let which = if r.chance(1, 4) { IT_INTO } else { IT_ENTRIES };
        {
            let mut it = c.iter(which);
            loop {
                let x = if back { it.next_back().unwrap() } else { it.next() };
                let Some(x) = x else { break };
                raw.push(x.ab());
                if raw.len() > m.len() + 8 {
                    break;
                }
            }
        }
        if back {
            raw.reverse();
        }
        let got = self.norm(raw);
        if got != *m {
            return Err(format!("iteration gives {}, expected {}", show(&got), show(m)));
        }
        for (q, a) in self.plan(m, seed, 4) {
            let v = self.ask(c, q, a);
            let e = model_query(f, m, q, a);
            if v != e {
                return Err(format!("{}({a}) gives {v:?}, expected {e:?}; content {}", QUERY_NAMES[q as usize], show(m)));
            }
        }
        self.check_done();
        Ok(())
    }

    /// Decides what the content of a new version is: with the content oracle on, it has to be `m`;
    /// otherwise what it reports is taken as it is.
    fn settle(&self, c: &dyn Coll, m: M, seed: u64, what: &dyn Fn() -> String) -> M {
        if m.len() > 1500 && !self.has(F_BIG) && seed % 4 != 0 {
            return m;
        }
        if self.has(F_CONTENT) {
            let r = catch_unwind(AssertUnwindSafe(|| self.agree(c, &m, seed)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => violate("wrong-content", &format!("after {}: {e}", what())),
                Err(e) => violate("unexpected-panic", &format!("reading after {}: {}", what(), simrt::panic_text(&*e))),
            }
            return m;
        }
        let got = match catch_unwind(AssertUnwindSafe(|| self.raw(c))) {
            Ok(x) => self.norm(x),
            Err(_) => return m,
        };
        if !self.fam().seq() && got.windows(2).any(|w| w[0].0 >= w[1].0) {
            return m;
        }
        got
    }

    fn check_snapshot(&self, v: &Ver, when: &str) {
        let Some(o) = &v.obs else { return };
        let now = match catch_unwind(AssertUnwindSafe(|| self.observe(&*v.c, &v.m, v.seed))) {
            Ok(n) => n,
            Err(e) => violate(
                "version-broken",
                &format!("reading version {} {when} panicked: {}", v.id, simrt::panic_text(&*e)),
            ),
        };
        self.check_done();
        if now != *o {
            let d = if now.raw != o.raw {
                format!("iteration was {}, is {}", show(&o.raw), show(&now.raw))
            } else {
                let i = (0..o.facts.len()).find(|i| o.facts[*i] != now.facts[*i]).unwrap_or(0);
                let (q, a, x) = o.facts[i];
                format!("{}({a}) was {x:?}, is {:?}", QUERY_NAMES[q as usize], now.facts[i].2)
            };
            violate("version-changed", &format!("version {} ({when}): {d}", v.id));
        }
    }

    // --- operations ---------------------------------------------------------------------------

    fn desc(&self, m: &M, mu: &Mu, how: &str) -> String {
        format!("{how} {}({}, {}) on {:?} {}", mu_name(self.fam(), mu.code), mu.a, mu.b, self.fam(), show(m))
    }

    fn mu_of(&self, op: &Op, m: &M) -> Mu {
        let f = self.fam();
        let mut mu = Mu { code: op.code % n_mu(f), a: op.a, b: op.b };
        self.aim(&mut mu, m);
        mu
    }
    /// Brings the raw arguments of a modification into the interesting range.
    fn aim(&self, mu: &mut Mu, m: &M) {
        let f = self.fam();
        if f == Fam::Vector && mu.code >= 2 {
            mu.a %= m.len() as u32 + 1 + u32::from(mu.b % 7 == 0);
        } else if !f.seq() {
            // Hit an existing key about half of the time.
            if mu.a & 1 == 0 || m.is_empty() {
                mu.a = (mu.a >> 1) % self.spec.dom;
            } else {
                mu.a = m[(mu.a >> 1) as usize % m.len()].0;
            }
        }
    }

    fn derive(&self, op: &Op) {
        let src = self.get(op.s);
        let mut mu = self.mu_of(op, &src.m);
        if !can_derive(self.fam(), mu.code) {
            mu.code = 0;
            self.aim(&mut mu, &src.m);
        }
        let was_shared = src.shared.replace(true);
        let _ = was_shared;
        let (o, d) = g(op.mask, op.nth, || src.c.derive(&mu));
        self.unexpected(&o, &self.desc_lazy(&src.m, &mu, "derive"));
        self.alloc_check(&src, &mu, &d, false, &o);
        match o {
            Out::Ok(r) => {
                let mut m2 = src.m.clone();
                let ret = model_apply(self.fam(), &mut m2, &mu);
                let must_fail = self.fam().seq() && ret == Ret::Bool(false);
                if self.has(F_CONTENT) && r.is_none() != must_fail {
                    violate("wrong-result", &format!("{}: reported {}", self.desc(&src.m, &mu, "derive"), if r.is_none() { "failure" } else { "success" }));
                }
                if self.has(F_STEPS) && !d.fired {
                    let b = bounds::steps(&src.conf, &src.m, &mu);
                    self.bound_check(&format!("{} (derive)", mu_name(self.fam(), mu.code)), d.steps, b, src.m.len());
                }
                if let Some(c) = r {
                    if self.has(F_ALLOC) && ret == Ret::Bool(false) && !self.fam().seq() {
                        self.probe("remove-absent");
                        if c.ptr_eq(&*src.c) != Some(true) || src.c.ptr_eq(&*c) != Some(true) {
                            violate("not-shared", &format!("{}: the result is not the same in memory", self.desc(&src.m, &mu, "derive")));
                        }
                    }
                    let m2 = self.settle(&*c, m2, u64::from(op.b) ^ 1, &|| self.desc(&src.m, &mu, "derive"));
                    let v = simrt::untracked(|| ()) ;
                    let _ = v;
                    let v = self.ver(c, m2, src.conf, true);
                    self.put(op.d, v);
                }
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[DERIVE as usize] += 1;
                self.check_snapshot(&src, "after a failed derive");
            }
            Out::Panic(_) => {}
        }
        self.check_snapshot(&src, "after a derive from it");
        self.release(Some(src), 0, 0);
    }

    fn desc_lazy(&self, m: &M, mu: &Mu, how: &str) -> String {
        if m.len() > 64 {
            format!("{how} {}({}, {}) on {:?} with {} elements", mu_name(self.fam(), mu.code), mu.a, mu.b, self.fam(), m.len())
        } else {
            self.desc(m, mu, how)
        }
    }

    fn alloc_check<X>(&self, src: &Ver, mu: &Mu, d: &Delta, in_place: bool, o: &Out<X>) {
        if !self.has(F_ALLOC) || !matches!(o, Out::Ok(_)) {
            return;
        }
        let f = self.fam();
        let what = || self.desc_lazy(&src.m, mu, if in_place { "in-place" } else { "derive" });
        let get_mut = (f == Fam::Vector && mu.code >= 3) || (f.map() && mu.code == 2);
        let allowed = if !get_mut {
            0
        } else if !src.shared.get() {
            0
        } else if f.map() {
            2
        } else {
            1
        };
        self.check_done();
        if d.el_clones > allowed {
            violate("element-copied", &format!("{}: {} element copies, at most {allowed} allowed", what(), d.el_clones));
        }
        if src.c.kind() == Kind::Sim {
            let b = bounds::nodes(&src.conf, &src.m, mu);
            let hostile = f.hash() && !src.conf.rnd && src.conf.hmode > 1;
            self.ratio(&format!("nodes {:?}{} {}{}", f, if hostile { " (colliding)" } else { "" }, mu_name(f, mu.code), if in_place && !src.shared.get() { " own" } else { "" }), d.nodes, b);
            if d.nodes > b {
                violate("too-many-allocations", &format!("{}: {} node allocations, more than {b}", what(), d.nodes));
            }
        }
    }

    /// The contents of a slot for exclusive use, cloning it where it is in use elsewhere.
    fn take(&self, s: u8, own: bool) -> Ver {
        let k = self.slot(s);
        if own {
            let v = self.slots.borrow_mut()[k].take();
            if let Some(v) = v {
                match Rc::try_unwrap(v) {
                    Ok(v) => return v,
                    Err(v) => {
                        // Being read by another thread: put it back and work on a clone.
                        let mut sl = self.slots.borrow_mut();
                        if sl[k].is_none() {
                            sl[k] = Some(v);
                        } else {
                            drop(sl);
                            self.release(Some(v), 0, 0);
                        }
                    }
                }
            } else {
                let c = self.mk.fresh(self.conf());
                return Ver { c, m: Vec::new(), conf: *self.conf(), seed: 0, obs: None, shared: Cell::new(false), id: 0 };
            }
        }
        let src = self.get(s);
        src.shared.set(true);
        let (o, _) = g(0, 0, || src.c.dup());
        self.unexpected(&o, "clone");
        let c = match o {
            Out::Ok(c) => c,
            _ => self.mk.fresh(self.conf()),
        };
        let v = Ver { c, m: src.m.clone(), conf: src.conf, seed: 0, obs: None, shared: Cell::new(true), id: 0 };
        self.release(Some(src), 0, 0);
        v
    }

    fn mutate(&self, op: &Op, own: bool) {
        let mut v = self.take(op.s, own);
        let mu = self.mu_of(op, &v.m);
        let mut m2 = v.m.clone();
        let ret = model_apply(self.fam(), &mut m2, &mu);
        let f = self.fam();
        let (o, d) = g(op.mask, op.nth, || v.c.apply(&mu));
        self.alloc_check(&v, &mu, &d, true, &o);
        let dst = if own { op.s } else { op.d };
        match o {
            Out::Ok(r) => {
                if self.has(F_CONTENT) && r != ret {
                    violate("wrong-result", &format!("{}: returned {r:?}, expected {ret:?}", self.desc(&v.m, &mu, "in-place")));
                }
                if self.has(F_STEPS) && !d.fired {
                    let b = bounds::steps(&v.conf, &v.m, &mu);
                    self.bound_check(&format!("{} (in place)", mu_name(f, mu.code)), d.steps, b, v.m.len());
                }
                let before = std::mem::take(&mut v.m);
                let m = self.settle(&*v.c, m2, u64::from(op.b) ^ 2, &|| self.desc(&before, &mu, "in-place"));
                let sh = v.shared.get();
                let nv = self.ver(v.c, m, v.conf, sh);
                self.put(dst, nv);
            }
            Out::Injected(s) => {
                self.cov.borrow_mut().injected[MUTO as usize] += 1;
                self.after_failed_in_place(v, m2, &mu, s, dst);
            }
            Out::Panic(t) => {
                if ret == Ret::Panic {
                    // Documented: nothing may have changed.
                    let before = v.m.clone();
                    let m = self.settle(&*v.c, v.m, u64::from(op.b) ^ 3, &|| self.desc(&before, &mu, "in-place (out of range)"));
                    let sh = v.shared.get();
                    let nv = self.ver(v.c, m, v.conf, sh);
                    self.put(dst, nv);
                } else {
                    self.unexpected::<()>(&Out::Panic(t), &self.desc_lazy(&v.m, &mu, "in-place"));
                    self.discard(v);
                }
            }
        }
    }

    fn discard(&self, v: Ver) {
        let (o, _) = g(0, 0, move || drop(v));
        self.unexpected(&o, "release after a failed operation");
    }

    /// An in-place operation was cut short: its collection holds the old or the new content.
    fn after_failed_in_place(&self, v: Ver, new: M, mu: &Mu, s: u8, dst: u8) {
        let user = matches!(s, site::ElHash | site::ElEq | site::ElOrd | site::ElClone | site::BuildHasher);
        if !user {
            // A failed allocation or destructor: only releasing the collection is known to work.
            return self.discard(v);
        }
        let got = match catch_unwind(AssertUnwindSafe(|| self.norm(self.raw(&*v.c)))) {
            Ok(x) => Some(x),
            Err(e) => {
                if self.has(F_ATOMIC) && user {
                    violate("broken-after-panic", &format!("{} cut short at {}: reading panicked: {}", self.desc(&v.m, mu, "in-place"), simrt::SITE_NAMES[s as usize], simrt::panic_text(&*e)));
                }
                None
            }
        };
        let m = match &got {
            Some(x) if *x == v.m => Some(v.m.clone()),
            Some(x) if *x == new => Some(new.clone()),
            _ => None,
        };
        match m {
            Some(m) => {
                if self.has(F_ATOMIC) && user {
                    self.probe("in-place operation cut short");
                    let r = catch_unwind(AssertUnwindSafe(|| self.agree(&*v.c, &m, 12)));
                    let e = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(e)) => Some(e),
                        Err(e) => Some(simrt::panic_text(&*e)),
                    };
                    if let Some(e) = e {
                        violate("inconsistent-after-panic", &format!("{} cut short at {}: {e}", self.desc(&v.m, mu, "in-place"), simrt::SITE_NAMES[s as usize]));
                    }
                }
                let nv = self.ver(v.c, m, v.conf, true);
                self.put(dst, nv);
            }
            None => {
                if self.has(F_ATOMIC) && user {
                    violate(
                        "torn-update",
                        &format!(
                            "{} cut short at {}: content is now {}",
                            self.desc(&v.m, mu, "in-place"),
                            simrt::SITE_NAMES[s as usize],
                            got.as_ref().map_or("?".to_string(), |x| show(x))
                        ),
                    );
                }
                self.discard(v);
            }
        }
    }

    fn query(&self, op: &Op) {
        let v = self.get(op.s);
        let f = self.fam();
        let mut q = op.code % NQ;
        while !supports(f, q) {
            q = (q + 1) % NQ;
        }
        let mut mu = Mu { code: 2, a: op.a, b: op.b };
        self.aim(&mut mu, &v.m);
        let a = mu.a;
        let (o, d) = g(op.mask, op.nth, || v.c.query(q, a));
        let e = model_query(f, &v.m, q, a);
        match o {
            Out::Ok(x) => {
                if self.has(F_CONTENT) && x != e {
                    violate("wrong-answer", &format!("{:?}.{}({a}) gives {x:?}, expected {e:?}; content {}", f, QUERY_NAMES[q as usize], show(&v.m)));
                }
                if self.has(F_STEPS) {
                    self.bound_check(QUERY_NAMES[q as usize], d.steps, bounds::query(&v.conf, &v.m, q, a), v.m.len());
                }
                if self.has(F_ALLOC) && (d.el_clones > 0 || d.nodes > 0) {
                    violate("element-copied", &format!("{:?}.{}({a}) copied or allocated", f, QUERY_NAMES[q as usize]));
                }
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[QUERY as usize] += 1;
                self.check_snapshot(&v, "after a failed read");
            }
            Out::Panic(t) => {
                if e != Val::Panic {
                    self.unexpected::<()>(&Out::Panic(t), QUERY_NAMES[q as usize]);
                }
            }
        }
        self.release(Some(v), 0, 0);
    }

    fn obs(&self, op: &Op) {
        let v = self.get(op.s);
        if self.has(F_SNAP) {
            self.check_snapshot(&v, "re-read");
        } else if self.has(F_CONTENT) {
            self.settle(&*v.c, v.m.clone(), u64::from(op.b), &|| "re-reading a version".into());
        }
        self.release(Some(v), 0, 0);
    }

    fn hold(&self, op: &Op) {
        let v = self.get(op.s);
        let a = match (self.fam().seq(), v.m.is_empty()) {
            (false, false) => v.m[op.a as usize % v.m.len()].0,
            _ => op.a,
        };
        let k = op.b % 40;
        let (o, _) = g(0, 0, || {
            v.c.with_ref(a, &mut |e| {
                let x = e.v();
                for _ in 0..k {
                    point(site::Hold);
                }
                if e.v() != x {
                    violate("version-changed", &format!("an element read through a held reference changed from {x} to {}", e.v()));
                }
            })
        });
        self.unexpected(&o, "holding a reference");
        self.release(Some(v), 0, 0);
    }

    fn iterate(&self, op: &Op, range: bool) {
        let v = self.get(op.s);
        let f = self.fam();
        let mut r = Rng::new(u64::from(op.b) | u64::from(op.a) << 32);
        let mut rb = (Bound::Unbounded, Bound::Unbounded);
        if range && f.rb() {
            let one = |r: &mut Rng| -> Bound<u32> {
                let k = if !v.m.is_empty() && r.chance(1, 2) {
                    v.m[r.below(v.m.len() as u64) as usize].0
                } else {
                    r.below(u64::from(self.spec.dom) + 1) as u32
                };
                match r.below(5) {
                    0 => Bound::Unbounded,
                    1 | 2 => Bound::Included(k),
                    _ => Bound::Excluded(k),
                }
            };
            rb = (one(&mut r), one(&mut r));
            // Mostly the right way around.
            if let (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) = rb {
                if x > y && r.chance(7, 8) {
                    rb = (rb.1, rb.0);
                }
            }
        } else if range {
            self.release(Some(v), 0, 0);
            return;
        }
        let which = match op.code % 6 {
            1 if f.map() => IT_KEYS,
            2 if f.map() => IT_VALUES,
            3 => IT_INTO,
            _ => IT_ENTRIES,
        };
        let expect_panic = range
            && match rb {
                (Bound::Excluded(x), Bound::Excluded(y)) => x >= y,
                (Bound::Included(x) | Bound::Excluded(x), Bound::Included(y) | Bound::Excluded(y)) => x > y,
                _ => false,
            };
        let strict = self.has(F_ITER) || self.has(F_CONTENT);
        let part = Cell::new((0, 0));
        let (o, d) = g(op.mask, op.nth, || {
            let order: Vec<(u32, u32)> = if range {
                let inside = |k: u32| {
                    (match rb.0 {
                        Bound::Unbounded => true,
                        Bound::Included(x) => k >= x,
                        Bound::Excluded(x) => k > x,
                    }) && (match rb.1 {
                        Bound::Unbounded => true,
                        Bound::Included(x) => k <= x,
                        Bound::Excluded(x) => k < x,
                    })
                };
                v.m.iter().copied().filter(|e| inside(e.0)).collect()
            } else if f.hash() {
                let raw = self.raw(&*v.c);
                if strict {
                    let got = self.norm(raw.clone());
                    if got != v.m {
                        violate("wrong-iteration", &format!("{f:?}: iteration gives {}, expected (in some order) {}", show(&got), show(&v.m)));
                    }
                }
                raw
            } else {
                v.m.clone()
            };
            let order: Vec<(u32, u32)> = order
                .into_iter()
                .map(|(k, x)| match which {
                    IT_KEYS if !range => (k, 0),
                    IT_VALUES if !range => (0, x),
                    _ => (k, x),
                })
                .collect();
            let before = simrt::counters().steps;
            let it = if range { v.c.range(rb.0, rb.1) } else { Some(v.c.iter(which)) };
            let Some(it) = it else { return };
            let k = self.drive(it, &order, &mut r, strict, range);
            part.set((simrt::counters().steps - before, k));
        });
        if self.has(F_STEPS) && matches!(o, Out::Ok(())) {
            // What was not visited costs nothing.
            let (steps, k) = part.get();
            let what = if range { "visit in range" } else { "visit" };
            self.bound_check(what, steps, bounds::visit(&v.conf, v.m.len(), k), v.m.len());
            self.bound_check("iterate", d.steps, bounds::iterate(&v.conf, &v.m), v.m.len());
        }
        if self.has(F_ALLOC) && matches!(o, Out::Ok(())) && (d.el_clones > 0 || d.nodes > 0) {
            violate("element-copied", &format!("iterating {f:?} copied {} elements, allocated {} nodes", d.el_clones, d.nodes));
        }
        match o {
            Out::Ok(()) => {
                if expect_panic && strict {
                    // Documented by the ordinary tests: an inverted range is refused.
                    violate("wrong-range", &format!("{f:?}: inverted range {rb:?} accepted"));
                }
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[ITER as usize] += 1;
                self.check_snapshot(&v, "after a failed iteration");
            }
            Out::Panic(t) => {
                if !expect_panic {
                    self.unexpected::<()>(&Out::Panic(t), "iterating");
                }
            }
        }
        self.release(Some(v), 0, 0);
    }

    /// Drives one iterator by a random script and compares every answer.
    fn drive(&self, mut it: Box<dyn It + '_>, order: &[(u32, u32)], r: &mut Rng, strict: bool, range: bool) -> usize {
        let f = self.fam();
        let (mut lo, mut hi) = (0usize, order.len());
        let double = it.double();
        let bad = |what: &str, got: String, lo: usize, hi: usize| -> ! {
            violate(
                "wrong-iteration",
                &format!("{f:?}{}: {what} gives {got} at position {lo}..{hi} of {}", if range { " range" } else { "" }, show(order)),
            )
        };
        let back_bias = r.below(4);
        let abandon = r.chance(1, 6);
        let budget = if abandon { r.below(order.len() as u64 + 2) as usize } else { usize::MAX };
        let lengths = r.chance(2, 3);
        let hold = r.chance(1, 3);
        let terminal = r.below(8);
        let stop_for_terminal = r.below(order.len() as u64 + 2) as usize;
        let mut steps = 0;
        loop {
            if steps >= budget {
                self.probe("iterator abandoned");
                return order.len() - (hi - lo);
            }
            if terminal < 4 && steps >= stop_for_terminal {
                break;
            }
            steps += 1;
            point(site::IterNext);
            if hold && r.chance(1, 4) {
                for _ in 0..r.below(6) {
                    point(site::Hold);
                }
            }
            if lengths && strict {
                let n = hi - lo;
                let (a, b) = it.size_hint();
                if range {
                    if a > n || b.is_some_and(|b| b < n) {
                        bad("size_hint", format!("({a}, {b:?})"), lo, hi);
                    }
                } else {
                    if (a, b) != (n, Some(n)) {
                        bad("size_hint", format!("({a}, {b:?})"), lo, hi);
                    }
                    if it.len().is_some_and(|l| l != n) {
                        bad("len", format!("{:?}", it.len()), lo, hi);
                    }
                }
            }
            let use_back = double && r.below(4) < back_bias;
            let skip = r.chance(1, 12);
            if use_back {
                let k = if skip { r.below(3) as usize } else { 0 };
                let x = if skip { it.nth_back(k).unwrap() } else { it.next_back().unwrap() };
                let e = if lo + k < hi { Some(order[hi - 1 - k]) } else { None };
                hi = hi.saturating_sub(k + 1).max(lo);
                if strict && x.map(|x| x.ab()) != e {
                    bad(if skip { "nth_back" } else { "next_back" }, format!("{:?}, expected {e:?},", x.map(|x| x.ab())), lo, hi);
                }
                if e.is_none() {
                    break;
                }
            } else {
                let k = if skip { r.below(3) as usize } else { 0 };
                let x = if skip { it.nth(k) } else { it.next() };
                let e = if lo + k < hi { Some(order[lo + k]) } else { None };
                lo = (lo + k + 1).min(hi);
                if strict && x.map(|x| x.ab()) != e {
                    bad(if skip { "nth" } else { "next" }, format!("{:?}, expected {e:?},", x.map(|x| x.ab())), lo, hi);
                }
                if e.is_none() {
                    break;
                }
            }
        }
        let rest: Vec<(u32, u32)> = order[lo..hi].to_vec();
        if !strict {
            return order.len() - (hi - lo);
        }
        self.check_done();
        match terminal {
            0 => {
                let n = it.count();
                if n != rest.len() {
                    bad("count", n.to_string(), lo, hi);
                }
            }
            1 => {
                let x = it.last().map(|x| x.ab());
                if x != rest.last().copied() {
                    bad("last", format!("{x:?}"), lo, hi);
                }
            }
            2 => {
                let x: Vec<_> = it.fold().iter().map(|x| x.ab()).collect();
                if x != rest {
                    bad("fold", show(&x), lo, hi);
                }
            }
            3 => {
                if let Some(x) = it.rfold() {
                    let mut x: Vec<_> = x.iter().map(|x| x.ab()).collect();
                    x.reverse();
                    if x != rest {
                        bad("rfold", show(&x), lo, hi);
                    }
                }
            }
            _ => {
                if lo < hi {
                    // The script ended on an overshooting skip: nothing is left on this side only.
                    return order.len();
                }
                for _ in 0..3 {
                    point(site::IterNext);
                    if let Some(x) = it.next() {
                        bad("next after the end", format!("{:?}", x.ab()), lo, hi);
                    }
                    if double {
                        if let Some(Some(x)) = it.next_back() {
                            bad("next_back after the end", format!("{:?}", x.ab()), lo, hi);
                        }
                    }
                    if !range && it.len().is_some_and(|l| l != 0) {
                        bad("len after the end", format!("{:?}", it.len()), lo, hi);
                    }
                }
                self.probe("iterator exhausted");
            }
        }
        order.len()
    }

    fn relate(&self, op: &Op) {
        let x = self.get(op.s);
        let y = self.get(op.d);
        self.relate_pair(op, &*x.c, &x.m, &*y.c, &y.m);
        self.check_snapshot(&x, "after comparing it");
        self.release(Some(x), 0, 0);
        self.release(Some(y), 0, 0);
    }

    fn relate_pair(&self, op: &Op, x: &dyn Coll, xm: &M, y: &dyn Coll, ym: &M) {
        let f = self.fam();
        let strict = self.has(F_REL) || self.has(F_CONTENT);
        if op.code % (NR + 2) >= NR {
            let (o, d) = g(op.mask, op.nth, || {
                let mut h1 = elem::FeedHasher::default();
                let mut h2 = elem::FeedHasher::default();
                let ok = x.feed(&mut h1);
                y.feed(&mut h2);
                (ok, h1.0, h2.0)
            });
            self.unexpected(&o, "hashing");
            if let Out::Ok((true, a, b)) = &o {
                self.check_done();
                if strict && xm == ym && a != b {
                    violate("hash-differs", &format!("{f:?}: equal contents {} hash differently", show(xm)));
                }
                if self.has(F_REL) && xm != ym && a == b {
                    violate("hash-ignores-content", &format!("{f:?}: {} and {} feed the hasher the same", show(xm), show(ym)));
                }
                if strict && self.has(F_REL) {
                    let (o, _) = g(0, 0, || {
                        let mut h = elem::FeedHasher::default();
                        x.feed(&mut h);
                        h.0
                    });
                    if let Out::Ok(c) = o {
                        if c != *a {
                            violate("hash-differs", &format!("{f:?}: hashing twice differs"));
                        }
                    }
                }
                if self.has(F_ALLOC) && (d.el_clones > 0 || d.nodes > 0) {
                    violate("element-copied", "hashing copied or allocated");
                }
                if self.has(F_STEPS) {
                    self.bound_check("hash", d.steps, bounds::iterate(self.conf(), xm) + bounds::iterate(self.conf(), ym), xm.len() + ym.len());
                }
            }
            return;
        }
        let mut rc = op.code % (NR + 2);
        if f.hash() && (R_PCMP..=R_CMP).contains(&rc) || rc >= R_LT && f.hash() {
            rc = if f.set() { R_SUBSET + op.code % 3 } else { rc % 2 };
        }
        if !f.set() && (R_SUBSET..=R_DISJOINT).contains(&rc) {
            rc %= 2;
        }
        let (o, d) = g(op.mask, op.nth, || x.relate(y, rc));
        match o {
            Out::Ok(got) => {
                if got == Rel::NA {
                    return;
                }
                let e = model_relate(f, xm, ym, rc);
                self.check_done();
                if strict && got != e {
                    violate(
                        "wrong-relation",
                        &format!("{f:?} ({:?}/{:?}): {} of {} and {} gives {got:?}, expected {e:?}", x.kind(), y.kind(), REL_NAMES[rc as usize], show(xm), show(ym)),
                    );
                }
                if self.has(F_ALLOC) && (d.el_clones > 0 || d.nodes > 0) {
                    violate("element-copied", &format!("{f:?}: {} copied or allocated", REL_NAMES[rc as usize]));
                }
                if self.has(F_STEPS) {
                    let b = bounds::relate(self.conf(), xm, ym);
                    self.bound_check(REL_NAMES[rc as usize], d.steps, b, xm.len() + ym.len());
                }
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[REL as usize] += 1;
            }
            Out::Panic(t) => self.unexpected::<()>(&Out::Panic(t), REL_NAMES[rc as usize]),
        }
    }

    /// A configuration that must not make a difference.
    fn alt_conf(&self, r: &mut Rng, base: &Conf) -> Conf {
        let mut c = *base;
        c.kind = *r.pick(&KINDS);
        c.bits = if r.chance(1, 3) { 0 } else { r.range(1, 6) as u8 };
        c.degree = *r.pick(&[0u8, 2, 4, 8, 16, 32, 64]);
        if r.chance(1, 2) {
            c.hseed = r.u64();
        }
        if r.chance(1, 2) {
            c.hmode = r.below(u64::from(elem::HASH_MODES)) as u8;
        }
        // Many elements that collide take quadratically long.
        if self.spec.ops.iter().any(|o| matches!(o.kind, FILL | COLLECT | EXTEND) && o.a > 2000) {
            c.hmode = 0;
        }
        c
    }

    /// The same content by some other way.
    fn rebuild(&self, conf: &Conf, m: &M, r: &mut Rng) -> Box<dyn Coll> {
        let f = self.fam();
        let mk = maker(conf);
        let way = r.below(4);
        let mut items = m.clone();
        if way == 0 {
            let mut h = SimIter::new(items, r.below(9) as u8, None);
            return mk.collect(&mut h);
        }
        let mut c = mk.fresh(conf);
        if !f.seq() {
            // Any order, with detours.
            for i in (1..items.len()).rev() {
                items.swap(i, r.below(i as u64 + 1) as usize);
            }
            for (k, v) in &items {
                if r.chance(1, 3) {
                    let x = r.below(u64::from(self.spec.dom) * 2) as u32;
                    if model_lookup(m, x).is_none() {
                        c.apply(&Mu { code: 0, a: x, b: 1 });
                        if r.chance(1, 2) {
                            c.apply(&Mu { code: 0, a: *k, b: *v });
                        }
                        c.apply(&Mu { code: 1, a: x, b: 0 });
                    }
                }
                if r.chance(1, 4) {
                    c.apply(&Mu { code: 0, a: *k, b: v.wrapping_add(1) });
                }
                c.apply(&Mu { code: 0, a: *k, b: *v });
            }
            return c;
        }
        match f {
            Fam::List | Fam::Stack => {
                if f == Fam::List && r.chance(1, 3) {
                    for (v, _) in &items {
                        c.apply(&Mu { code: 0, a: *v, b: 0 });
                    }
                    c.apply(&Mu { code: 2, a: 0, b: 0 });
                    return c;
                }
                for (v, _) in items.iter().rev() {
                    if r.chance(1, 4) {
                        c.apply(&Mu { code: 0, a: 9, b: 0 });
                        c.apply(&Mu { code: 1, a: 0, b: 0 });
                    }
                    c.apply(&Mu { code: 0, a: *v, b: 0 });
                }
            }
            Fam::Queue => {
                let lead = r.below(4);
                for _ in 0..lead {
                    c.apply(&Mu { code: 0, a: 7, b: 0 });
                }
                let cut = r.below(items.len() as u64 + 1) as usize;
                for (i, (v, _)) in items.iter().enumerate() {
                    if i == cut {
                        for _ in 0..lead {
                            c.apply(&Mu { code: 1, a: 0, b: 0 });
                        }
                    }
                    c.apply(&Mu { code: 0, a: *v, b: 0 });
                }
                if cut >= items.len() {
                    for _ in 0..lead {
                        c.apply(&Mu { code: 1, a: 0, b: 0 });
                    }
                }
            }
            _ => {
                for (v, _) in &items {
                    if r.chance(1, 4) {
                        c.apply(&Mu { code: 0, a: 5, b: 0 });
                        c.apply(&Mu { code: 0, a: 6, b: 0 });
                        c.apply(&Mu { code: 1, a: 0, b: 0 });
                        c.apply(&Mu { code: 1, a: 0, b: 0 });
                    }
                    c.apply(&Mu { code: 0, a: *v, b: 0 });
                }
            }
        }
        c
    }

    /// A set that lies in some particular way relative to another.
    fn overlapping(&self, m: &M, r: &mut Rng) -> M {
        let n = m.len();
        let i = r.below(n as u64 + 1) as usize;
        let (first, last) = (m.first().map_or(0, |e| e.0), m.last().map_or(0, |e| e.0));
        let mut keys: Vec<u32> = m.iter().map(|e| e.0).collect();
        match r.below(9) {
            // From some element on, or up to some element, and beyond.
            0 => {
                keys.drain(..i);
                keys.extend((0..r.below(20) as u32).map(|k| last.wrapping_add(1 + 2 * k)));
            }
            1 => {
                keys.truncate(i);
                keys.extend((0..r.below(20) as u32).map(|k| first.wrapping_sub(1 + 2 * k)));
            }
            // Touching at one end, or just not.
            2 => {
                let at = last.wrapping_add(r.below(2) as u32);
                keys = (0..1 + r.below(20) as u32).map(|k| at.wrapping_add(k)).collect();
            }
            3 => {
                let at = first.wrapping_sub(r.below(2) as u32);
                keys = (0..1 + r.below(20) as u32).map(|k| at.wrapping_sub(k)).collect();
            }
            // The gaps, with perhaps one element.
            4 => {
                let some = keys.get(i).copied();
                keys = keys.iter().map(|k| k.wrapping_add(1)).filter(|k| model_lookup(m, *k).is_none()).collect();
                if r.chance(1, 2) {
                    keys.extend(some);
                }
            }
            // Part of it, with perhaps one other element.
            5 | 6 => {
                let keep = 1 + r.below(8);
                keys.retain(|_| r.below(8) < keep);
                if r.chance(1, 2) {
                    keys.push(r.u32() >> 1);
                }
            }
            7 => keys = keys.get(i).copied().into_iter().collect(),
            _ => keys.clear(),
        }
        keys.sort_unstable();
        keys.dedup();
        keys.into_iter().map(|k| (k, 0)).collect()
    }

    fn alt(&self, op: &Op) {
        let x = self.get(op.s);
        let mut r = Rng::new(u64::from(op.a) | u64::from(op.b) << 32);
        let mut conf = self.alt_conf(&mut r, &x.conf);
        let mut m = x.m.clone();
        // Mostly the same content; sometimes off by a little; sets also overlapping in particular ways.
        if self.fam().set() && r.chance(1, 2) {
            m = self.overlapping(&m, &mut r);
            if r.chance(2, 3) {
                conf.kind = x.conf.kind;
            }
        } else if r.chance(1, 3) {
            let n = m.len();
            let i = r.below(n as u64 + 1) as usize;
            match r.below(5) {
                0 if n > 0 => {
                    m.remove(i % n);
                }
                1 if n > 0 && self.fam().seq() => m[i % n].0 = m[i % n].0.wrapping_add(1),
                1 if n > 0 && self.fam().map() => m[i % n].1 ^= 1,
                2 if n > 1 && self.fam().seq() => m.swap(0, n - 1),
                3 if n > 0 && !self.fam().seq() => {
                    let (_, v) = m.remove(i % n);
                    let k = r.below(u64::from(self.spec.dom)) as u32;
                    model_apply(self.fam(), &mut m, &Mu { code: 0, a: k, b: v });
                }
                _ => {
                    let k = r.below(u64::from(self.spec.dom)) as u32;
                    model_apply(self.fam(), &mut m, &Mu { code: 0, a: k, b: k });
                }
            }
        }
        let (o, _) = g(0, 0, || self.rebuild(&conf, &m, &mut r));
        self.unexpected(&o, "building a collection");
        let Out::Ok(y) = o else {
            self.release(Some(x), 0, 0);
            return;
        };
        let m = self.settle(&*y, m, u64::from(op.b) ^ 9, &|| "building the same content another way".into());
        let mut codes = vec![op.code % (NR + 2), R_EQ, R_PCMP, NR];
        if self.fam().set() {
            codes.extend([R_SUBSET, R_SUPERSET, R_DISJOINT]);
        }
        for (i, c) in codes.iter().enumerate() {
            let mut o = *op;
            o.code = *c;
            if i > 0 {
                o.mask = 0;
            }
            if i % 2 == 0 {
                self.relate_pair(&o, &*x.c, &x.m, &*y, &m);
            } else {
                self.relate_pair(&o, &*y, &m, &*x.c, &x.m);
            }
        }
        let (o, _) = g(0, 0, move || drop(y));
        self.unexpected(&o, "release");
        self.release(Some(x), 0, 0);
    }

    /// Feeding two collections one after the other tells where the first ends.
    fn boundary(&self, op: &Op) {
        let f = self.fam();
        if f.hash() {
            return;
        }
        let mut r = Rng::new(u64::from(op.a) | u64::from(op.b) << 32);
        let n = r.range(1, 6) as usize;
        let mut all: M = (0..n).map(|_| (r.u32() | 0x0101_0101, if f.map() { r.u32() | 0x0101_0101 } else { 0 })).collect();
        if !f.seq() {
            all.sort_unstable();
            all.dedup_by_key(|e| e.0);
        }
        let n = all.len() as u64;
        let i = r.below(n + 1) as usize;
        let j = r.below(n + 1) as usize;
        let conf = self.alt_conf(&mut r, self.conf());
        let (o, _) = g(0, 0, || {
            let mut feed = |k: usize| {
                let a = self.rebuild(&conf, &all[..k].to_vec(), &mut r);
                let b = self.rebuild(&conf, &all[k..].to_vec(), &mut r);
                let mut h = elem::FeedHasher::default();
                a.feed(&mut h);
                b.feed(&mut h);
                h.0
            };
            (feed(i), feed(j))
        });
        self.unexpected(&o, "hashing");
        if let Out::Ok((a, b)) = o {
            self.check_done();
            if (i == j) != (a == b) {
                violate("hash-boundary", &format!("{f:?}: {} split at {i} and at {j} feeds the hasher {}", show(&all), if a == b { "the same" } else { "differently" }));
            }
        }
    }

    fn clone_op(&self, op: &Op) {
        let v = self.get(op.s);
        v.shared.set(true);
        if self.has(F_ALLOC) {
            let (o, _) = g(0, 0, || v.c.clone_cost());
            self.unexpected(&o, "clone");
            if let Out::Ok(c) = o {
                self.check_done();
                if c.nodes > 0 || c.allocs > 0 || c.el_clones > 0 {
                    violate("clone-allocates", &format!("{:?}: cloning made {} allocations, {} nodes, {} element copies", self.fam(), c.allocs, c.nodes, c.el_clones));
                }
                if c.ptr_eq == Some(false) {
                    violate("not-shared", &format!("{:?}: a fresh clone is not the same in memory", self.fam()));
                }
            }
        }
        let (o, d) = g(op.mask, op.nth, || v.c.dup());
        self.unexpected(&o, "clone");
        if self.has(F_STEPS) && matches!(o, Out::Ok(_)) {
            self.bound_check("clone", d.steps, bounds::CLONE, v.m.len());
        }
        match o {
            Out::Ok(c) => {
                let m = self.settle(&*c, v.m.clone(), u64::from(op.b), &|| "cloning".into());
                let nv = self.ver(c, m, v.conf, true);
                self.put(op.d, nv);
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[CLONE as usize] += 1;
                self.check_snapshot(&v, "after a failed clone");
            }
            Out::Panic(_) => {}
        }
        self.release(Some(v), 0, 0);
    }

    fn drop_op(&self, op: &Op) {
        let k = self.slot(op.s);
        let v = self.slots.borrow_mut()[k].take();
        self.release(v, op.mask, op.nth);
    }

    /// A sequence of in-place operations; checked one by one, and for amortized cost as a whole.
    fn burst(&self, op: &Op) {
        let mut v = self.take(op.s, op.code & 1 == 0);
        let f = self.fam();
        let mut r = Rng::new(u64::from(op.b) ^ 0xb0b5);
        let n = 1 + op.a as usize % 60;
        let n0 = v.m.len();
        let removal = r.below(8) as u32;
        let mut total = Delta::default();
        let old_m = v.m.clone();
        for _ in 0..n {
            let code = if r.below(8) < u64::from(removal) { 1 } else { r.below(u64::from(n_mu(f))) as u8 };
            let mut mu = Mu { code, a: r.u32() >> 1, b: r.u32() >> 16 };
            if f.seq() && mu.code == 0 {
                mu.a %= self.spec.dom;
            }
            if (f == Fam::List && code == 2) && r.chance(3, 4) {
                mu.code = 0;
            }
            self.aim(&mut mu, &v.m);
            let expect = model_apply(f, &mut v.m, &mu);
            let (o, d) = g(op.mask, op.nth, || v.c.apply(&mu));
            total.steps += d.steps;
            total.nodes += d.nodes;
            match o {
                Out::Ok(x) => {
                    if self.has(F_CONTENT) && x != expect {
                        violate("wrong-result", &format!("{}: returned {x:?}, expected {expect:?} (content is after it)", self.desc(&v.m, &mu, "in-place")));
                    }
                }
                Out::Panic(_) if expect == Ret::Panic => {}
                Out::Panic(t) => {
                    self.unexpected::<()>(&Out::Panic(t), &self.desc_lazy(&v.m, &mu, "in-place"));
                    self.discard(v);
                    return;
                }
                Out::Injected(_) => {
                    self.discard(v);
                    return;
                }
            }
        }
        if self.has(F_STEPS) && f != Fam::List {
            self.bound_check("burst", total.steps, bounds::burst(&v.conf, n0, n), n0);
        }
        if self.has(F_ALLOC) && f == Fam::Queue && v.c.kind() == Kind::Sim {
            let b = (2 * n + n0 + 4) as u64 * 2;
            if total.nodes > b {
                violate("too-many-allocations", &format!("{n} queue operations on {n0} elements made {} node allocations, more than {b}", total.nodes));
            }
        }
        let m = std::mem::take(&mut v.m);
        let m = self.settle(&*v.c, m, u64::from(op.b), &|| format!("{n} in-place operations on {}", show(&old_m)));
        let sh = v.shared.get();
        let nv = self.ver(v.c, m, v.conf, sh);
        self.put(op.d, nv);
    }

    /// Grows and shrinks a collection again and again; what is left must not show in what it holds.
    fn churn(&self, op: &Op) {
        let mut v = self.take(op.s, op.code & 1 == 0);
        let f = self.fam();
        let mut r = Rng::new(u64::from(op.b) ^ 0xc4);
        let rounds = if v.m.len() > 20_000 { 1 } else { 1 + r.below(3) };
        // Deriving one by one copies whole wide nodes.
        let wide = f == Fam::Vector && v.conf.bits > 6 && v.m.len() > 2000;
        let derive = op.code & 6 == 0 && !wide;
        for _ in 0..rounds {
            let peak = v.m.len() + 1 + r.below(u64::from(op.a.max(1))) as usize;
            let low = match r.below(6) {
                0 | 1 => 0,
                2 => 1,
                3 => 2,
                4 => r.below(12) as usize,
                _ => r.below(peak as u64) as usize,
            };
            let fresh = r.u32() >> 4;
            let style = r.below(4);
            for i in 0..2 * peak {
                let grow = i < peak && v.m.len() < peak;
                if !grow && v.m.len() <= low {
                    break;
                }
                let mu = if grow {
                    let a = if f.seq() { r.u32() % self.spec.dom } else { fresh.wrapping_add(r.below(4 * peak as u64) as u32) >> (style & 1) };
                    Mu { code: 0, a, b: r.u32() >> 16 }
                } else if f.seq() {
                    Mu { code: 1, a: 0, b: 0 }
                } else {
                    let k = match style {
                        0 => 0,
                        1 => v.m.len() - 1,
                        _ => r.below(v.m.len() as u64) as usize,
                    };
                    Mu { code: 1, a: v.m[k].0, b: 0 }
                };
                let expect = model_apply(f, &mut v.m, &mu);
                let (o, _) = if derive && r.chance(1, 3) {
                    let (o, d) = g(0, 0, || v.c.derive(&mu));
                    match o {
                        Out::Ok(Some(c)) => {
                            let old = std::mem::replace(&mut v.c, c);
                            let (o, _) = g(0, 0, move || drop(old));
                            self.unexpected(&o, "release");
                            (Out::Ok(expect.clone()), d)
                        }
                        Out::Ok(None) => (Out::Ok(Ret::Bool(false)), d),
                        Out::Injected(s) => (Out::Injected(s), d),
                        Out::Panic(t) => (Out::Panic(t), d),
                    }
                } else {
                    g(0, 0, || v.c.apply(&mu))
                };
                match o {
                    Out::Ok(x) if x == expect => {}
                    Out::Ok(x) => {
                        if self.has(F_CONTENT) {
                            violate("wrong-result", &format!("{}: returned {x:?}, expected {expect:?} (content is after it)", self.desc(&v.m, &mu, "churning")));
                        }
                    }
                    o => {
                        self.unexpected(&o, &self.desc_lazy(&v.m, &mu, "churning"));
                        self.discard(v);
                        return;
                    }
                }
            }
        }
        let m = std::mem::take(&mut v.m);
        let m = self.settle(&*v.c, m, u64::from(op.b), &|| "churning".into());
        let sh = v.shared.get();
        let nv = self.ver(v.c, m, v.conf, sh);
        self.put(op.d, nv);
    }

    fn items(&self, r: &mut Rng, n: usize) -> Vec<(u32, u32)> {
        let f = self.fam();
        let style = r.below(4);
        let dom = u64::from(self.spec.dom).max(n as u64 * u64::from(n > 200));
        (0..n)
            .map(|i| {
                let k = match style {
                    0 => i as u32,
                    1 => (n - i) as u32,
                    _ => r.below(dom) as u32,
                };
                (k, if f.map() { r.u32() >> 20 } else { 0 })
            })
            .collect()
    }

    fn model_of(&self, items: &[(u32, u32)]) -> M {
        if self.fam().seq() {
            return items.to_vec();
        }
        let mut m: BTreeMap<u32, u32> = BTreeMap::new();
        for (k, v) in items {
            m.insert(*k, *v);
        }
        m.into_iter().collect()
    }

    fn fill(&self, op: &Op) {
        let mut r = Rng::new(u64::from(op.b) ^ 0xf111);
        let f = self.fam();
        let n = op.a as usize;
        let items = self.items(&mut r, n);
        let conf = *self.conf();
        let mut shared = false;
        let mut used = conf;
        let (o, _) = g(0, 0, || match op.code % 4 {
            0 => {
                used.bits = 0;
                used.degree = 0;
                let mut it = SimIter::new(items.clone(), 0, None);
                (self.mk.collect(&mut it), self.model_of(&items))
            }
            1 | 3 => {
                let mut c = self.mk.fresh(&conf);
                for (k, v) in &items {
                    if !f.seq() && r.chance(1, 16) {
                        let x = r.below(u64::from(self.spec.dom)) as u32 | 0x4000_0000;
                        c.apply(&Mu { code: 0, a: x, b: 3 });
                        c.apply(&Mu { code: 1, a: x, b: 0 });
                    }
                    c.apply(&Mu { code: 0, a: *k, b: *v });
                }
                (c, self.seq_model(&items))
            }
            _ => {
                shared = true;
                let mut c = self.mk.fresh(&conf);
                for (k, v) in &items {
                    c = c.derive(&Mu { code: 0, a: *k, b: *v }).expect("insertion succeeds");
                }
                (c, self.seq_model(&items))
            }
        });
        self.unexpected(&o, "building a collection");
        if let Out::Ok((c, m)) = o {
            // Bulk-built hash collections have a default hasher, which the oracle does not know.
            if f.hash() && op.code % 4 == 0 {
                used.hmode = 255;
            }
            let m = self.settle(&*c, m, u64::from(op.b) & !3, &|| format!("building (way {}) from {}", op.code % 4, show(&items)));
            let nv = self.ver(c, m, used, shared);
            self.put(op.d, nv);
        }
    }
    /// What adding one by one with operation 0 gives.
    fn seq_model(&self, items: &[(u32, u32)]) -> M {
        let mut m = self.model_of(items);
        if matches!(self.fam(), Fam::List | Fam::Stack) {
            m.reverse();
        }
        if self.fam().seq() {
            for e in &mut m {
                e.1 = 0;
            }
        }
        m
    }

    fn bulk(&self, op: &Op, extend: bool) {
        let f = self.fam();
        let mut r = Rng::new(u64::from(op.b) ^ 0xb111);
        let n = op.a as usize;
        let items = self.items(&mut r, n);
        let none_at = if r.chance(1, 4) { Some(r.below(n as u64 + 1) as usize) } else { None };
        let hint = op.code % 9;
        let taken: Vec<(u32, u32)> = items[..none_at.unwrap_or(n).min(n)].to_vec();
        let mut it = SimIter::new(items, hint, none_at);
        let strict = self.has(F_BULK) || self.has(F_CONTENT);
        if extend && f == Fam::Vector {
            let mut v = self.take(op.s, op.b & 1 == 0);
            let before = v.m.clone();
            let (o, d) = g(op.mask, op.nth, || v.c.extend(&mut it));
            match o {
                Out::Ok(_) => {
                    let mut m = before.clone();
                    m.extend(taken.iter().map(|x| (x.0, 0)));
                    self.bulk_checks(&it, &d, before.len(), taken.len(), strict);
                    let m = if strict { self.settle_strict(&*v.c, m, &format!("extending {} by {}", show(&before), show(&taken))) } else { self.settle(&*v.c, m, 1, &|| "extend".into()) };
                    let sh = v.shared.get();
                    let nv = self.ver(v.c, m, v.conf, sh);
                    self.put(op.s, nv);
                }
                Out::Injected(s) => {
                    self.cov.borrow_mut().injected[EXTEND as usize] += 1;
                                        if s == site::IterNext && (self.has(F_ATOMIC) || strict) {
                        let got = match catch_unwind(AssertUnwindSafe(|| self.raw(&*v.c))) {
                            Ok(x) => x,
                            Err(_) => violate("broken-after-panic", "reading a vector after its extension was cut short panicked"),
                        };
                        let mut m = before.clone();
                        m.extend(taken[..it.yielded.min(taken.len())].iter().map(|x| (x.0, 0)));
                        self.probe("extension cut short");
                        // Any element boundary will do.
                        m.truncate(got.len().max(before.len()));
                        if got != m {
                            violate("torn-update", &format!("extending {} cut short after {} elements: content is {}", show(&before), it.yielded, show(&got)));
                        }
                        let m = self.settle(&*v.c, m, 2, &|| "an extension cut short".into());
                        let nv = self.ver(v.c, m, v.conf, true);
                        self.put(op.s, nv);
                    } else {
                        self.discard(v);
                    }
                }
                Out::Panic(t) => {
                    if strict {
                        violate("unexpected-panic", &format!("extending by an iterator of {n} elements announcing {:?}: {t}", it.announced()));
                    }
                    self.discard(v);
                }
            }
            return;
        }
        let (o, d) = g(op.mask, op.nth, || self.mk.collect(&mut it));
        match o {
            Out::Ok(c) => {
                self.bulk_checks(&it, &d, 0, taken.len(), strict);
                let m = self.model_of(&taken);
                let m = if strict { self.settle_strict(&*c, m, &format!("collecting {}", show(&taken))) } else { self.settle(&*c, m, 1, &|| "collect".into()) };
                let mut conf = *self.conf();
                conf.bits = 0;
                conf.degree = 0;
                conf.hmode = 255;
                let nv = self.ver(c, m, conf, false);
                self.put(op.d, nv);
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[COLLECT as usize] += 1;
            }
            Out::Panic(t) => {
                if strict || self.has(F_PANIC) {
                    violate("unexpected-panic", &format!("collecting {:?} from an iterator of {n} elements announcing {:?}: {t}", f, it.announced()));
                }
            }
        }
    }

    fn settle_strict(&self, c: &dyn Coll, m: M, what: &str) -> M {
        match catch_unwind(AssertUnwindSafe(|| self.agree(c, &m, 5))) {
            Ok(Ok(())) => m,
            Ok(Err(e)) => violate("wrong-content", &format!("{what}: {e}")),
            Err(e) => violate("unexpected-panic", &format!("reading after {what}: {}", simrt::panic_text(&*e))),
        }
    }

    fn bulk_checks(&self, it: &SimIter, d: &Delta, before: usize, taken: usize, strict: bool) {
        if !strict {
            return;
        }
        self.check_done();
        if it.yielded != taken {
            violate("wrong-consumption", &format!("{} of {taken} elements were taken from the iterator", it.yielded));
        }
        let n = taken as u64;
        // A bucket of colliding entries may be rebuilt for every one of them.
        let quadratic = if self.fam().hash() { 64 * n * n } else { 0 };
        // The nodes along the path to the end are copied once if they are shared, however wide.
        let bound = (1 << 20) + 4096 * n + 256 * before as u64 + quadratic;
        if self.has(F_ALLOC) && d.el_clones > 0 {
            violate("element-copied", "bulk building copied elements");
        }
        if !self.has(F_BULK) {
            return;
        }
        self.ratio(if self.fam().hash() { "bytes allocated by bulk building (hash)" } else { "bytes allocated by bulk building" }, d.bytes, bound);
        if d.bytes > bound {
            violate("huge-allocation", &format!("{} bytes allocated for {taken} elements (announced {:?})", d.bytes, it.announced()));
        }
        if self.has(F_ALLOC) && d.el_clones > 0 {
            violate("element-copied", "bulk building copied elements");
        }
    }

    /// A configuration the constructor accepts has to work.
    fn construct(&self, op: &Op) {
        let f = self.fam();
        let mut r = Rng::new(u64::from(op.b) ^ 0xc7);
        let mut conf = *self.conf();
        match f {
            Fam::Vector => conf.bits = (op.a % 255) as u8 + 1,
            Fam::HMap | Fam::HSet => conf.degree = if op.a & 1 == 0 { 1 << (op.a >> 1 & 7) } else { (op.a >> 1) as u8 | 1 },
            _ => {}
        }
        // By its documented constructors where the pointer kind and the hasher are the usual ones.
        let usual = conf.kind != Kind::Sim && (conf.rnd || !f.hash()) && op.code & 1 == 0;
        let (o, _) = g(0, 0, || {
            if usual {
                crate::lits::construct(f, conf.kind == Kind::Arc, op.code >> 1, conf.degree).0
            } else {
                self.mk.fresh(&conf)
            }
        });
        if usual {
            self.probe("documented constructor");
        }
        let mut c = match o {
            Out::Ok(c) => c,
            Out::Panic(t) if !matches!(f, Fam::Vector | Fam::HMap | Fam::HSet) => {
                violate("unexpected-panic", &format!("constructing an empty {f:?}: {t}"))
            }
            _ => {
                self.probe("configuration refused");
                return;
            }
        };
        self.probe("configuration accepted");
        let mut m = Vec::new();
        for _ in 0..24 {
            let code = if r.chance(2, 3) { 0 } else { r.below(u64::from(n_mu(f))) as u8 };
            let mut mu = Mu { code, a: r.u32() >> 1, b: r.u32() >> 16 };
            self.aim(&mut mu, &m);
            let e = model_apply(f, &mut m, &mu);
            let (o, _) = g(0, 0, || c.apply(&mu));
            match o {
                Out::Ok(x) if x == e => {}
                Out::Panic(_) if e == Ret::Panic => {}
                Out::Ok(x) => violate("wrong-result", &format!("{:?} with bits {} / degree {}: {} gives {x:?}, expected {e:?}", f, conf.bits, conf.degree, mu_name(f, code))),
                Out::Panic(t) => violate("unexpected-panic", &format!("{:?} with bits {} / degree {}: {}: {t}", f, conf.bits, conf.degree, mu_name(f, code))),
                Out::Injected(_) => {}
            }
        }
        self.settle_strict(&*c, m, &format!("{:?} with bits {} / degree {}", f, conf.bits, conf.degree));
        let (o, _) = g(0, 0, move || drop(c));
        self.unexpected(&o, "release");
    }

    /// A literal: every argument evaluated once, and the collection the builder calls make.
    fn literal(&self, op: &Op) {
        let f = self.fam();
        let conf = *self.conf();
        let sync = conf.kind == Kind::Arc;
        let n = match (f.map(), op.a as usize % 10) {
            (true, k) => [0, 1, 2, 3, 4, 5, 2, 4, 9, 35][k],
            (false, k) => [0, 1, 2, 3, 4, 5, 6, 9, 17, 40][k],
        };
        let args = if f.map() { 2 * n } else { n };
        let mut r = Rng::new(u64::from(op.b) ^ 0x117);
        // Few values, so that keys repeat.
        let wide = r.chance(1, 3);
        let few = 1 + r.below(if wide { 60 } else { 8 });
        let vals: Vec<u32> = (0..args).map(|_| r.below(few) as u32).collect();
        let seen: RefCell<Vec<usize>> = RefCell::new(simrt::untracked(|| Vec::with_capacity(64)));
        let mut el = |i: usize| {
            seen.borrow_mut().push(i);
            simrt::point_fault(site::Arg);
            E::new(vals[i])
        };
        let (o, d) = g(op.mask, op.nth, || crate::lits::literal(f, sync, n, &mut el));
        self.check_done();
        let seen = seen.into_inner();
        let text = || format!("{f:?} literal{} of {:?}", if sync { " (sync)" } else { "" }, vals);
        let mut once = seen.clone();
        once.sort_unstable();
        if self.has(F_LIT) && (once.windows(2).any(|w| w[0] == w[1]) || !d.fired && once.len() != args) {
            violate("wrong-evaluation", &format!("{}: arguments evaluated: {seen:?}", text()));
        }
        match o {
            Out::Ok(Some(c)) => {
                if d.fired && self.has(F_LIT) {
                    violate("failure-swallowed", &format!("{}: an argument panicked, the literal did not", text()));
                }
                let mut m = Vec::new();
                let mut b = self.mk.fresh(&conf);
                let order: Vec<usize> = if f == Fam::List { (0..n).rev().collect() } else { (0..n).collect() };
                for i in order {
                    let mu = if f.map() { Mu { code: 0, a: vals[2 * i], b: vals[2 * i + 1] } } else { Mu { code: 0, a: vals[i], b: 0 } };
                    model_apply(f, &mut m, &mu);
                    b.apply(&mu);
                }
                if self.has(F_LIT) {
                    let same = quietly(|| c.relate(&*b, R_EQ));
                    if same != Rel::B(true) {
                        violate("wrong-content", &format!("{}: not equal to what the builder calls make", text()));
                    }
                }
                let (o, _) = g(0, 0, move || drop(b));
                self.unexpected(&o, "release");
                let m = self.settle_strict(&*c, m, &text());
                let mut conf = conf;
                conf.bits = 0;
                conf.degree = 0;
                let nv = self.ver(c, m, conf, false);
                self.put(op.d, nv);
            }
            Out::Ok(None) => {}
            Out::Injected(_) => self.cov.borrow_mut().injected[LIT as usize] += 1,
            Out::Panic(t) => {
                if self.has(F_PANIC) {
                    violate("unexpected-panic", &format!("{}: {t}", text()));
                }
            }
        }
    }

    // --- writing out and reading back ---------------------------------------------------------

    fn json_of(&self, raw: &[(u32, u32)]) -> String {
        let f = self.fam();
        let body: Vec<String> =
            raw.iter().map(|(k, v)| if f.map() { format!("\"{k}\":{v}") } else { k.to_string() }).collect();
        if f.map() {
            format!("{{{}}}", body.join(","))
        } else {
            format!("[{}]", body.join(","))
        }
    }
    fn text_of(&self, raw: &[(u32, u32)]) -> String {
        let f = self.fam();
        let body: Vec<String> =
            raw.iter().map(|(k, v)| if f.map() { format!("{k}: {v}") } else { k.to_string() }).collect();
        let b = body.join(", ");
        match f {
            Fam::List | Fam::Vector => format!("[{b}]"),
            Fam::Stack => format!("Stack({b})"),
            Fam::Queue => format!("Queue({b})"),
            _ => format!("{{{b}}}"),
        }
    }

    fn serialize(&self, op: &Op) {
        let v = self.get(op.s);
        let f = self.fam();
        let strict = self.has(F_SER);
        let raw = match catch_unwind(AssertUnwindSafe(|| self.raw(&*v.c))) {
            Ok(r) => r,
            Err(_) => return self.release(Some(v), 0, 0),
        };
        let mut r = Rng::new(u64::from(op.b));
        if op.code & 1 == 0 {
            let text = self.json_of(&raw);
            let cap = if op.code & 2 == 0 { usize::MAX } else { r.below(text.len() as u64 + 2) as usize };
            let mut w = SimWrite::new(r.u64(), cap);
            let (o, d) = g(op.mask, op.nth, || v.c.ser_json(&mut w).map_err(|e| e.to_string()));
            self.cov_io(&w);
            match o {
                Out::Ok(res) if strict => {
                    self.check_done();
                    let must_fail = w.failed || d.fired;
                    match &res {
                        Ok(()) if must_fail => violate("failure-swallowed", &format!("{f:?}: serializing {} succeeded although the sink failed", show(&raw))),
                        Err(e) if !must_fail => violate("wrong-output", &format!("{f:?}: serializing {} failed: {e}", show(&raw))),
                        _ => {}
                    }
                    if w.after_failure > 0 {
                        violate("write-after-failure", &format!("{f:?}: {} writes after the sink failed", w.after_failure));
                    }
                    let got = String::from_utf8_lossy(&w.out).into_owned();
                    if res.is_ok() && got != text || !text.starts_with(&got) {
                        violate("wrong-output", &format!("{f:?}: wrote {got}, expected {text}"));
                    }
                    if res.is_err() {
                        self.probe("serialization failed");
                    } else {
                        let mut rd = SimRead::new(&w.out, r.u64(), None);
                        let (o, _) = g(0, 0, || self.mk.de_json(&mut rd).map_err(|e| e.to_string()));
                        self.read_back(o, &v);
                    }
                }
                Out::Panic(t) => self.unexpected::<()>(&Out::Panic(t), "serializing"),
                Out::Injected(_) => self.cov.borrow_mut().injected[SER as usize] += 1,
                _ => {}
            }
        } else {
            let mut t = Tok { compact: op.b & 4 == 0, ..Tok::default() };
            let (o, d) = g(op.mask, op.nth, || v.c.ser_tok(&mut t));
            let mut e = vec![if f.map() { T::Map(Some(raw.len())) } else { T::Seq(Some(raw.len())) }];
            for (k, x) in &raw {
                e.push(T::U(*k));
                if f.map() {
                    e.push(T::U(*x));
                }
            }
            e.push(T::End);
            match o {
                Out::Ok(res) if strict => {
                    self.check_done();
                    match &res {
                        Ok(()) if d.fired => violate("failure-swallowed", &format!("{f:?}: serializing {} succeeded although the sink failed", show(&raw))),
                        Err(e) if !d.fired => violate("wrong-output", &format!("{f:?}: serializing {} failed: {e}", show(&raw))),
                        Err(e) if e.0 != elem::INJECTED => violate("failure-swallowed", &format!("{f:?}: the sink's failure was replaced by {e}")),
                        _ => {}
                    }
                    if t.after_failure > 0 {
                        violate("write-after-failure", &format!("{f:?}: {} tokens after the sink failed", t.after_failure));
                    }
                    if res.is_ok() && t.out != e || !e.starts_with(&t.out) {
                        violate("wrong-output", &format!("{f:?}: tokens {:?}, expected {:?}", t.out, e));
                    }
                    if res.is_ok() {
                        let items = t.out.iter().filter_map(|x| if let T::U(v) = x { Some(Cellv::U(*v)) } else { None }).collect();
                        let s = Src { shape: if f.map() { Shape::Map } else { Shape::Seq }, items, hint: Some(raw.len()), err_at: None, panic_at: None, compact: t.compact };
                        let (o, _) = g(0, 0, || self.mk.de_src(s).map_err(|e| e.to_string()));
                        self.read_back(o, &v);
                    } else {
                        self.probe("serialization failed");
                    }
                }
                Out::Panic(t) => self.unexpected::<()>(&Out::Panic(t), "serializing"),
                Out::Injected(_) => self.cov.borrow_mut().injected[SER as usize] += 1,
                _ => {}
            }
        }
        if strict {
            let now = self.raw(&*v.c);
            if now != raw {
                violate("version-changed", &format!("{f:?}: serializing changed {} to {}", show(&raw), show(&now)));
            }
        }
        self.check_snapshot(&v, "after writing it out");
        self.release(Some(v), 0, 0);
    }

    fn cov_io(&self, w: &SimWrite) {
        simrt::untracked(|| {
            let mut c = self.cov.borrow_mut();
            *c.probes.entry("short writes").or_insert(0) += u64::from(w.shorts);
            *c.probes.entry("interrupted writes").or_insert(0) += u64::from(w.eintrs);
            *c.probes.entry("full disks").or_insert(0) += u64::from(w.failed);
        });
    }

    fn read_back(&self, o: Out<Result<Box<dyn Coll>, String>>, v: &Ver) {
        let f = self.fam();
        match o {
            Out::Ok(Ok(c)) => {
                let got = self.norm(self.raw(&*c));
                let same = catch_unwind(AssertUnwindSafe(|| c.relate(&*v.c, R_EQ))).unwrap_or(Rel::NA);
                if got != v.m || same == Rel::B(false) {
                    violate("round-trip", &format!("{f:?}: {} reads back as {}", show(&v.m), show(&got)));
                }
                self.probe("round trips");
                let (o, _) = g(0, 0, move || drop(c));
                self.unexpected(&o, "release");
            }
            Out::Ok(Err(e)) => violate("round-trip", &format!("{f:?}: {} does not read back: {e}", show(&v.m))),
            Out::Panic(t) => violate("round-trip", &format!("{f:?}: reading back {} panicked: {t}", show(&v.m))),
            Out::Injected(_) => {}
        }
    }

    fn print(&self, op: &Op) {
        let v = self.get(op.s);
        let f = self.fam();
        let strict = self.has(F_SER);
        let raw = match catch_unwind(AssertUnwindSafe(|| self.raw(&*v.c))) {
            Ok(r) => r,
            Err(_) => return self.release(Some(v), 0, 0),
        };
        let debug = op.code & 1 == 1;
        let mut r = Rng::new(u64::from(op.b));
        let text = if debug {
            let mut s = SimFmt { out: String::new(), cap: usize::MAX, failed: false, after_failure: 0 };
            let (o, _) = g(0, 0, || v.c.show(&mut s, true));
            self.unexpected(&o, "printing");
            s.out
        } else {
            self.text_of(&raw)
        };
        let cap = if op.code & 2 == 0 { usize::MAX } else { r.below(text.len() as u64 + 2) as usize };
        let mut s = SimFmt { out: String::new(), cap, failed: false, after_failure: 0 };
        let (o, _) = g(op.mask, op.nth, || v.c.show(&mut s, debug));
        match o {
            Out::Ok(res) if strict => {
                self.check_done();
                if res.is_ok() && s.failed {
                    violate("failure-swallowed", &format!("{f:?}: printing {} succeeded although the sink failed", show(&raw)));
                }
                if res.is_err() && !s.failed {
                    violate("wrong-output", &format!("{f:?}: printing {} failed", show(&raw)));
                }
                if s.after_failure > 0 {
                    violate("write-after-failure", &format!("{f:?}: {} writes after the sink failed", s.after_failure));
                }
                if res.is_ok() && s.out != text || !text.starts_with(&s.out) {
                    violate("wrong-output", &format!("{f:?}: printed {}, expected {text}", s.out));
                }
                if s.failed {
                    self.probe("printing failed");
                }
            }
            Out::Panic(t) => self.unexpected::<()>(&Out::Panic(t), "printing"),
            Out::Injected(_) => self.cov.borrow_mut().injected[SHOW as usize] += 1,
            _ => {}
        }
        self.check_snapshot(&v, "after printing it");
        self.release(Some(v), 0, 0);
    }

    fn deserialize(&self, op: &Op) {
        let f = self.fam();
        let strict = self.has(F_DE) || self.has(F_CONTENT);
        let mut r = Rng::new(u64::from(op.b) ^ 0xde);
        let items = self.items(&mut r, op.a as usize);
        if op.code & 1 == 0 {
            let mut bytes = self.json_of(&items).into_bytes();
            let corrupt = r.below(10);
            let style = ["", " ", "\n"][r.below(3) as usize];
            if !style.is_empty() {
                bytes = String::from_utf8(bytes).unwrap().replace(',', &format!("{style},{style}")).into_bytes();
            }
            let n = bytes.len() as u64;
            match corrupt {
                0 => bytes.truncate(r.below(n + 1) as usize),
                1 => {
                    let i = r.below(n) as usize;
                    bytes[i] ^= 1 << r.below(8);
                }
                2 => {
                    let i = r.below(n + 1) as usize;
                    bytes.insert(i, *r.pick(b"0[]{},:\"- x\xff"));
                }
                3 => {
                    let i = r.below(n) as usize;
                    bytes.remove(i);
                }
                4 => {
                    let i = r.below(n) as usize;
                    let j = r.range(i as u64, n) as usize;
                    let part = bytes[i..j].to_vec();
                    let at = r.below(n) as usize;
                    bytes.splice(at..at, part);
                }
                5 => bytes = r.pick(&[&b"null"[..], b"", b"{}", b"[]", b"7", b"\"x\"", b"[[]]", b"{\"a\":1}", b"[1,2", b"[4294967296]", b"[-1]", b"[1.5]"]).to_vec(),
                _ => {}
            }
            let err_at = if r.chance(1, 8) { Some(r.below(n + 1) as usize) } else { None };
            let seed = r.u64();
            let reference: Result<Vec<(u32, u32)>, String> = quietly(|| {
                let rd = SimRead::new(&bytes, seed, err_at);
                let mut d = serde_json::Deserializer::from_reader(rd);
                use serde::Deserialize;
                let x = if f.map() { PlainMap::deserialize(&mut d).map(|x| x.0) } else { Plain::deserialize(&mut d).map(|x| x.0) };
                x.and_then(|x| d.end().map(|()| x)).map_err(|e| e.to_string())
            });
            let mut rd = SimRead::new(&bytes, seed, err_at);
            let (o, d) = g(op.mask, op.nth, || self.mk.de_json(&mut rd).map_err(|e| e.to_string()));
            let what = || format!("{f:?} from {:?}", String::from_utf8_lossy(&bytes));
            self.decoded(op, o, d, reference, bytes.len(), strict, &what);
        } else {
            let mut cells: Vec<Cellv> = Vec::new();
            for (k, v) in &items {
                cells.push(Cellv::U(*k));
                if f.map() {
                    cells.push(Cellv::U(*v));
                }
            }
            let shape = match r.below(12) {
                0 => Shape::Scalar,
                1 => {
                    if f.map() {
                        Shape::Seq
                    } else {
                        Shape::Map
                    }
                }
                _ => {
                    if f.map() {
                        Shape::Map
                    } else {
                        Shape::Seq
                    }
                }
            };
            let n = cells.len() as u64;
            if r.chance(1, 6) && n > 0 {
                let i = r.below(n) as usize;
                cells[i] = Cellv::Bad;
            }
            if r.chance(1, 6) && n > 0 {
                cells.truncate(r.below(n) as usize);
            }
            let per = if f.map() { 2 } else { 1 };
            let hint = match r.below(8) {
                0 => None,
                1 => Some(0),
                2 => Some(usize::MAX),
                3 => Some(usize::MAX / 2),
                4 => Some(1 << 40),
                5 => Some(1_000_000),
                6 => Some(isize::MAX as usize / 8),
                _ => Some(cells.len() / per),
            };
            let err_at = if r.chance(1, 6) { Some(r.below(n + 1) as usize) } else { None };
            let panic_at = if r.chance(1, 8) { Some(r.below(n + 1) as usize) } else { None };
            let s = Src { shape, items: cells, hint, err_at, panic_at, compact: r.chance(1, 2) };
            let s2 = s.clone();
            let reference: Result<Vec<(u32, u32)>, String> = match quietly(|| {
                catch_unwind(AssertUnwindSafe(|| {
                    use serde::Deserialize;
                    (if f.map() { PlainMap::deserialize(s2).map(|x| x.0) } else { Plain::deserialize(s2).map(|x| x.0) })
                        .map_err(|e| e.to_string())
                }))
            }) {
                Ok(x) => x,
                Err(_) => Err("<panic>".into()),
            };
            let len = s.items.len();
            let s3 = s.clone();
            let (o, d) = g(op.mask, op.nth, || self.mk.de_src(s3).map_err(|e| e.to_string()));
            if hint.is_some_and(|h| h > 1000) {
                self.probe("lying announced length");
            }
            let what = || format!("{f:?} from {s:?}");
            self.decoded(op, o, d, reference, len * 8, strict, &what);
        }
    }

    fn decoded(
        &self,
        op: &Op,
        o: Out<Result<Box<dyn Coll>, String>>,
        d: Delta,
        reference: Result<Vec<(u32, u32)>, String>,
        data: usize,
        strict: bool,
        what: &dyn Fn() -> String,
    ) {
        self.check_done();
        if self.has(F_DE) {
            let b = (2 << 20) + 512 * data as u64;
            self.ratio("bytes allocated while decoding", d.bytes, b);
            if d.bytes > b {
                violate("huge-allocation", &format!("{}: {} bytes allocated for {data} bytes of input", what(), d.bytes));
            }
        }
        match o {
            Out::Ok(Ok(c)) => {
                match reference {
                    Ok(items) if !d.fired => {
                        let m = self.model_of(&items);
                        let m = if strict {
                            self.settle_strict(&*c, m, &format!("decoding {}", what()))
                        } else {
                            self.settle(&*c, m, 3, &|| "decoding".into())
                        };
                        self.probe("decoded");
                        let mut conf = *self.conf();
                        conf.bits = 0;
                        conf.degree = 0;
                        conf.hmode = 255;
                        let nv = self.ver(c, m, conf, false);
                        self.put(op.d, nv);
                    }
                    Ok(_) => {
                        if strict {
                            violate("failure-swallowed", &format!("{}: decoding succeeded although an element failed", what()));
                        }
                    }
                    Err(e) => {
                        if strict {
                            violate("accepted-invalid", &format!("{}: decoded although it is not valid ({e})", what()));
                        }
                    }
                };
            }
            Out::Ok(Err(e)) => {
                self.probe("decoding failed");
                if strict && !d.fired && reference.is_ok() {
                    violate("rejected-valid", &format!("{}: rejected ({e}) although it is valid", what()));
                }
            }
            Out::Injected(_) => {
                self.cov.borrow_mut().injected[DE as usize] += 1;
            }
            Out::Panic(t) => {
                if strict {
                    violate("unexpected-panic", &format!("{}: decoding panicked: {t}", what()));
                }
            }
        }
    }

    // --- running ------------------------------------------------------------------------------

    fn exec(&self, op: &Op) {
        self.cov.borrow_mut().ops[op.kind as usize] += 1;
        if self.inflight.get() > 0 {
            self.cov.borrow_mut().overlapped += 1;
        }
        self.inflight.set(self.inflight.get() + 1);
        simrt::note(u64::from(op.kind) << 8 | 1);
        simrt::label(1 + (u64::from(op.kind) << 8 | u64::from(op.code & 1) << 16));
        match op.kind {
            FILL => self.fill(op),
            DERIVE => self.derive(op),
            MUTC => self.mutate(op, false),
            MUTO => self.mutate(op, true),
            QUERY => self.query(op),
            OBS => self.obs(op),
            ITER => self.iterate(op, false),
            RANGE => self.iterate(op, true),
            REL => self.relate(op),
            DROP => self.drop_op(op),
            CLONE => self.clone_op(op),
            BURST => self.burst(op),
            COLLECT => self.bulk(op, false),
            EXTEND => self.bulk(op, true),
            SER => self.serialize(op),
            SHOW => self.print(op),
            DE => self.deserialize(op),
            HOLD => self.hold(op),
            ALT => self.alt(op),
            BOUNDARY => self.boundary(op),
            CTOR => self.construct(op),
            LIT => self.literal(op),
            CHURN => self.churn(op),
            TYPES => crate::types::exec(self, op, if self.has(F_BIG) { op.a as usize % 60_000 } else { 0 }),
            PART => {
                let v = self.get(op.s);
                crate::partial::exec(self, op, &v.m);
                self.release(Some(v), 0, 0);
            }
            #[cfg(feature = "std")]
            PAR => {
                let v = self.get(op.s);
                crate::par::exec(self, op, &v);
                self.release(Some(v), 0, 0);
            }
            _ => {}
        }
        self.inflight.set(self.inflight.get() - 1);
    }

    /// Nothing is in progress: exactly the elements of the versions that exist are alive.
    fn conserve(&self, when: &str) {
        self.check_done();
        quietly(|| {
            let mut seen: Vec<u32> = Vec::new();
            for v in self.slots.borrow().iter().flatten() {
                let mut it = v.c.iter(IT_ENTRIES);
                while let Some(x) = it.next() {
                    seen.push(x.ia);
                    if x.ib != 0 {
                        seen.push(x.ib);
                    }
                }
            }
            seen.sort_unstable();
            seen.dedup();
            let alive = elem::alive_set();
            if seen != alive {
                let extra: Vec<u32> = alive.iter().copied().filter(|x| seen.binary_search(x).is_err()).collect();
                violate(
                    "element-leaked",
                    &format!("{when}: {} elements are alive though no version contains them (first: instance {:?})", extra.len(), extra.first()),
                );
            }
        });
    }
}

pub fn show(m: &[(u32, u32)]) -> String {
    let mut s = String::from("[");
    for (i, (k, v)) in m.iter().enumerate() {
        if i == 24 {
            s += &format!(", ... {} in all", m.len());
            break;
        }
        if i > 0 {
            s += ", ";
        }
        if *v == 0 {
            s += &k.to_string();
        } else {
            s += &format!("{k}:{v}");
        }
    }
    s + "]"
}

/// Main task of a run.
pub fn main_task(spec: Spec, cov: Rc<RefCell<Cov>>) {
    let phases = spec.ops.iter().map(|o| o.phase).max().map_or(0, |p| p + 1);
    let tasks = spec.ops.iter().map(|o| o.task).max().map_or(0, |p| p + 1);
    let mk = maker(&spec.conf);
    #[cfg(feature = "std")]
    rayon_core::sim::reset(spec.workers);
    let n = spec.slots as usize;
    let w = Rc::new(World {
        mk,
        slots: RefCell::new((0..n).map(|_| None).collect()),
        cov: RefCell::new(Cov::default()),
        inflight: Cell::new(0),
        next_id: Cell::new(0),
        spec,
    });
    for p in 0..phases {
        let mut ids = Vec::new();
        for t in 0..tasks {
            let ops: Vec<Op> = w.spec.ops.iter().copied().filter(|o| o.phase == p && o.task == t).collect();
            if ops.is_empty() {
                continue;
            }
            let w = w.clone();
            ids.push(simrt::spawn(move || {
                for op in &ops {
                    w.exec(op);
                }
                drop(w);
            }));
        }
        for i in ids {
            simrt::join(i);
        }
        if w.has(F_CONSERVE) {
            w.conserve(&format!("after phase {p}"));
        }
        if w.has(F_SNAP) {
            let all: Vec<Rc<Ver>> = w.slots.borrow().iter().flatten().cloned().collect();
            for v in &all {
                w.check_snapshot(v, "at the end of a phase");
            }
        }
    }
    // Release everything, one handle at a time.
    simrt::label(0);
    let order: Vec<usize> = {
        let mut r = Rng::new(w.spec.env_seed ^ 99);
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
        v
    };
    for k in order {
        let v = w.slots.borrow_mut()[k].take();
        let had = v.is_some();
        w.release(v, 0, 0);
        if had && w.has(F_CONSERVE) {
            w.conserve("while releasing the last versions");
        }
    }
    if w.has(F_CONSERVE) {
        if elem::alive() != 0 {
            violate("element-leaked", &format!("{} elements are alive after every version was released", elem::alive()));
        }
        if crate::ptr::live_nodes() != 0 {
            violate("node-leaked", &format!("{} nodes are alive after every version was released", crate::ptr::live_nodes()));
        }
    }
    #[cfg(feature = "std")]
    let (joins, stolen) = rayon_core::sim::counts();
    #[cfg(not(feature = "std"))]
    let (joins, stolen) = (0, 0);
    if joins > 0 {
        let mut c = w.cov.borrow_mut();
        *c.probes.entry("joins").or_insert(0) += joins;
        *c.probes.entry("stolen halves").or_insert(0) += stolen;
    }
    cov.borrow_mut().add(&w.cov.borrow());
}

// --- iterators fed to bulk operations ----------------------------------------------------------

/// An iterator that announces what it likes, may resume after its end, and may panic.
pub struct SimIter {
    items: Vec<(u32, u32)>,
    i: usize,
    hint: u8,
    none_at: Option<usize>,
    ended: bool,
    pub yielded: usize,
}
impl SimIter {
    pub fn new(items: Vec<(u32, u32)>, hint: u8, none_at: Option<usize>) -> SimIter {
        SimIter { items, i: 0, hint, none_at, ended: false, yielded: 0 }
    }
    pub fn announced(&self) -> (usize, Option<usize>) {
        let n = self.items.len().saturating_sub(self.i);
        let n = match self.none_at {
            Some(k) if !self.ended => k.saturating_sub(self.i),
            _ => n,
        };
        match self.hint {
            0 | 1 => (n, Some(n)),
            2 => (0, None),
            3 => (0, Some(usize::MAX)),
            4 => (n, None),
            5 => (n / 2, Some(n + 1_000_000_000)),
            6 => (0, Some(isize::MAX as usize)),
            // Not honest.
            7 => (0, Some(0)),
            _ => (n + 3, Some(n + 3)),
        }
    }
}
impl Iterator for SimIter {
    type Item = (u32, u32);
    fn next(&mut self) -> Option<(u32, u32)> {
        simrt::point_fault(site::IterNext);
        if !self.ended && self.none_at == Some(self.i) {
            self.ended = true;
            return None;
        }
        let x = self.items.get(self.i).copied();
        if x.is_some() {
            self.i += 1;
            self.yielded += 1;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.announced()
    }
}
