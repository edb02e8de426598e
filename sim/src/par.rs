//! Parallel iteration: the real `rayon` adaptors over the real producer, with work stealing decided by
//! the simulator.

use crate::ds::*;
use crate::elem::{SimBuild, E};
use crate::pool::*;
use archery::ArcTK;
use rayon::prelude::*;
use rpds::HashTrieMap;
use simrt::{point, site, violate, Injected, Rng};
use std::cell::{Cell, RefCell};
use crate::elem::DefaultH;

/// All simulated workers live on one OS thread.
struct OneThread<T>(T);
unsafe impl<T> Sync for OneThread<T> {}
unsafe impl<T> Send for OneThread<T> {}
impl<T> OneThread<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

pub fn exec(w: &World, op: &Op, v: &Ver) {
    if let Some(m) = v.c.any().downcast_ref::<HashTrieMap<E, E, ArcTK, SimBuild>>() {
        go(w, op, v, m);
    } else if let Some(m) = v.c.any().downcast_ref::<HashTrieMap<E, E, ArcTK, DefaultH>>() {
        go(w, op, v, m);
    }
}

fn go<H>(w: &World, op: &Op, v: &Ver, map: &HashTrieMap<E, E, ArcTK, H>)
where
    H: std::hash::BuildHasher + Clone + Send + Sync,
{
    let mut r = Rng::new(u64::from(op.b) ^ 0x9a);
    let seen: OneThread<RefCell<Vec<(u32, u32)>>> = OneThread(RefCell::new(Vec::new()));
    let left: OneThread<Cell<u64>> = OneThread(Cell::new(if op.mask != 0 { u64::from(op.nth) } else { u64::MAX }));
    let panics: OneThread<Cell<u32>> = OneThread(Cell::new(0));
    let twice = op.a & 1 == 1;
    let visit = |k: &E, x: &E| -> (u32, u32) {
        point(site::Closure);
        let e = (k.v(), x.v());
        simrt::untracked(|| seen.get().borrow_mut().push(e));
        let n = left.get().get();
        if n == 0 && !std::thread::panicking() {
            left.get().set(if twice && panics.get().get() == 0 { 2 } else { u64::MAX });
            panics.get().set(panics.get().get() + 1);
            simrt::note_fired(site::Closure);
            std::panic::panic_any(Injected(site::Closure));
        }
        if n != u64::MAX {
            left.get().set(n.saturating_sub(1));
        }
        point(site::Closure);
        e
    };
    let target = if v.m.is_empty() || r.chance(1, 4) { r.below(u64::from(w.spec.dom)) as u32 } else { v.m[r.below(v.m.len() as u64) as usize].0 };
    let th = r.below(u64::from(w.spec.dom) + 1) as u32;
    let m = &v.m;
    let sorted = |mut x: Vec<(u32, u32)>| {
        x.sort_unstable();
        x
    };
    let bad = |what: &str, got: String, expected: String| -> ! {
        violate("wrong-parallel-iteration", &format!("{what} over {} gives {got}, expected {expected}", show(m)))
    };
    // `all`: whether the operation has to visit every entry.
    let code = op.code % 12;
    let all = !matches!(code, 3 | 4 | 5 | 6);
    let (o, _) = g(0, 0, || match code {
        0 => map.par_iter().for_each(|(k, x)| {
            visit(k, x);
        }),
        1 => {
            let got: Vec<(u32, u32)> = map.par_iter().map(|(k, x)| visit(k, x)).collect();
            let got = sorted(got);
            if got != *m {
                bad("map().collect()", show(&got), show(m));
            }
        }
        2 => {
            let n = map.par_iter().filter(|(k, x)| visit(k, x).0 < th).count();
            let e = m.iter().filter(|x| x.0 < th).count();
            if n != e {
                bad("filter().count()", n.to_string(), e.to_string());
            }
        }
        3 => {
            let got = map.par_iter().find_any(|(k, x)| visit(k, x).0 == target).map(|(k, x)| (k.v(), x.v()));
            let e = model_lookup(m, target);
            if got != e {
                bad("find_any()", format!("{got:?}"), format!("{e:?}"));
            }
        }
        4 => {
            let got = map.par_iter().any(|(k, x)| visit(k, x).0 >= th);
            let e = m.iter().any(|x| x.0 >= th);
            if got != e {
                bad("any()", got.to_string(), e.to_string());
            }
        }
        5 => {
            let got = map.par_iter().all(|(k, x)| visit(k, x).0 != target);
            let e = m.iter().all(|x| x.0 != target);
            if got != e {
                bad("all()", got.to_string(), e.to_string());
            }
        }
        6 => {
            let got: Result<(), u32> = map.par_iter().try_for_each(|(k, x)| {
                let e = visit(k, x);
                if e.0 >= th { Err(e.0) } else { Ok(()) }
            });
            let ok = match got {
                Ok(()) => m.iter().all(|x| x.0 < th),
                Err(k) => k >= th && model_lookup(m, k).is_some(),
            };
            if !ok {
                bad("try_for_each()", format!("{got:?}"), format!("a key of at least {th}, if there is one"));
            }
        }
        7 => {
            let got: u64 = map.par_iter().map(|(k, x)| u64::from(visit(k, x).1)).sum();
            let e: u64 = m.iter().map(|x| u64::from(x.1)).sum();
            if got != e {
                bad("sum()", got.to_string(), e.to_string());
            }
        }
        8 => {
            let got = map
                .par_iter()
                .fold(Vec::new, |mut a, (k, x)| {
                    a.push(visit(k, x));
                    a
                })
                .reduce(Vec::new, |mut a, b| {
                    point(site::Closure);
                    a.extend(b);
                    a
                });
            let got = sorted(got);
            if got != *m {
                bad("fold().reduce()", show(&got), show(m));
            }
        }
        9 => {
            let got = map.par_iter().map(|(k, x)| visit(k, x)).max();
            if got != m.last().copied() {
                bad("max()", format!("{got:?}"), format!("{:?}", m.last()));
            }
        }
        10 => {
            let (a, b): (Vec<(u32, u32)>, Vec<(u32, u32)>) =
                map.par_iter().map(|(k, x)| visit(k, x)).partition(|e| e.0 < th);
            let got = sorted(a.into_iter().chain(b).collect());
            if got != *m {
                bad("partition()", show(&got), show(m));
            }
        }
        _ => {
            // Nested: every entry starts another parallel pass.
            let inner = m.len() <= 24;
            map.par_iter().for_each(|(k, x)| {
                visit(k, x);
                if inner {
                    let n = map.par_iter().filter(|(k, _)| k.v() < th).count();
                    let e = m.iter().filter(|x| x.0 < th).count();
                    if n != e {
                        bad("nested count", n.to_string(), e.to_string());
                    }
                }
            });
        }
    });
    let got = sorted(seen.get().borrow().clone());
    if got.windows(2).any(|x| x[0] == x[1]) {
        violate("visited-twice", &format!("parallel operation {code} over {} visited {}", show(m), show(&got)));
    }
    if got.iter().any(|e| model_lookup(m, e.0) != Some(*e)) {
        violate("visited-foreign", &format!("parallel operation {code} over {} visited {}", show(m), show(&got)));
    }
    w.cov.borrow_mut().checks += 1;
    match o {
        Out::Ok(()) => {
            if panics.get().get() > 0 {
                violate("panic-swallowed", "a panicking closure did not make the parallel operation panic");
            }
            if all && got != *m {
                violate("not-visited", &format!("parallel operation {code} over {} visited {}", show(m), show(&got)));
            }
        }
        Out::Injected(_) => {
            w.cov.borrow_mut().injected[PAR as usize] += 1;
            w.probe("parallel panic");
        }
        Out::Panic(t) => violate("unexpected-panic", &format!("parallel operation {code}: {t}")),
    }
}
