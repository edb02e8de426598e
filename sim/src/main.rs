//! Driver: seeded search over simulated runs, minimisation, replay, evidence.
#![allow(dead_code)]

mod bounds;
mod drive;
mod ds;
mod elem;
mod gen;
mod lits;
#[cfg(feature = "std")]
mod par;
mod partial;
mod pool;
mod ptr;
mod replay;
mod ser;
mod types;

use std::alloc::{GlobalAlloc, Layout, System};

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        simrt::on_alloc(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        simrt::on_alloc(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        simrt::on_free(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        simrt::on_free(l.size());
        simrt::on_alloc(n);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if simrt::active() {
            let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            simrt::untracked(|| pool::LAST_PANIC.with(|p| *p.borrow_mut() = loc));
        } else {
            eprintln!("{i}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match a.as_slice() {
        ["check", prop, tier] => drive::check(prop, tier),
        ["worker", prop, vseed, start, stride, limit, secs, status, out] => drive::worker(
            prop,
            vseed.parse().unwrap(),
            start.parse().unwrap(),
            stride.parse().unwrap(),
            limit.parse().unwrap(),
            secs.parse().unwrap(),
            status,
            out,
        ),
        ["serve"] => replay::serve(),
        ["exec", file] => replay::exec(file),
        ["replay", file] => replay::replay(file),
        ["trace", file] => replay::trace(file),
        ["one", prop, vseed, i] => replay::one(prop, vseed.parse().unwrap(), i.parse().unwrap()),
        ["spec", prop, vseed, i] => {
            println!("{}", replay::spec_json(&gen::spec(prop, vseed.parse().unwrap(), i.parse().unwrap())));
            0
        }
        ["determinism", prop, vseed, n] => drive::determinism(prop, vseed.parse().unwrap(), n.parse().unwrap()),
        _ => {
            eprintln!("usage: rpds-sim check PROP quick|thorough | replay FILE | trace FILE | one PROP SEED I | spec PROP SEED I | determinism PROP SEED N");
            2
        }
    };
    std::process::exit(code);
}
