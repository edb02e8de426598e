//! What each run consists of, drawn from `(VERIF_SEED, property, run number)`.

use crate::ds::*;
use crate::elem::HASH_MODES;
use crate::pool::*;
use simrt::{mix, site, Rng};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C20", "C21", "C22",
];

pub const fn bit(s: u8) -> u32 {
    1 << s
}
/// Failures raised inside callbacks into user code and inside allocation.
const CALLBACKS: &[u32] = &[
    bit(site::PtrNew),
    bit(site::ElClone),
    bit(site::ElEq),
    bit(site::ElOrd),
    bit(site::ElHash),
    bit(site::BuildHasher),
    bit(site::ElClone) | bit(site::ElEq) | bit(site::ElOrd) | bit(site::ElHash) | bit(site::BuildHasher),
];

struct Prof {
    fams: &'static [Fam],
    flags: u32,
    w: [u32; NOPS],
}

fn weights(ws: &[(u8, u32)]) -> [u32; NOPS] {
    let mut w = [0; NOPS];
    for (k, x) in ws {
        w[*k as usize] = *x;
    }
    w
}

fn prof(prop: &str) -> Prof {
    use Fam::*;
    let content = &[
        (DERIVE, 10), (MUTC, 6), (MUTO, 10), (QUERY, 4), (OBS, 3), (ITER, 1), (RANGE, 1), (DROP, 3), (CLONE, 5),
        (BURST, 5), (EXTEND, 2), (COLLECT, 1), (REL, 1), (HOLD, 1), (TYPES, 1),
    ];
    match prop {
        "C01" => Prof {
            fams: &FAMS,
            flags: F_SNAP,
            w: weights(&[
                (DERIVE, 8), (MUTC, 6), (MUTO, 7), (OBS, 6), (ITER, 2), (RANGE, 1), (HOLD, 3), (DROP, 4), (CLONE, 5),
                (BURST, 3), (REL, 1), (SER, 1), (SHOW, 1), (EXTEND, 2), (QUERY, 2), (DE, 1), (COLLECT, 1),
            ]),
        },
        "C02" => Prof { fams: &[List, List, Stack], flags: F_CONTENT | F_PANIC, w: weights(content) },
        "C03" => Prof { fams: &[Queue], flags: F_CONTENT | F_PANIC, w: weights(content) },
        "C04" => Prof { fams: &[Vector], flags: F_CONTENT | F_PANIC, w: weights(content) },
        "C05" => Prof { fams: &[HMap, HMap, HSet], flags: F_CONTENT | F_PANIC, w: weights(content) },
        "C06" => Prof { fams: &[RMap, RMap, RSet], flags: F_CONTENT | F_PANIC, w: weights(content) },
        "C07" => Prof {
            fams: &FAMS,
            flags: F_CONTENT | F_ITER | F_PANIC,
            w: weights(&[
                (DERIVE, 4), (MUTC, 3), (MUTO, 4), (ITER, 16), (RANGE, 12), (HOLD, 1), (DROP, 3), (CLONE, 3), (BURST, 3), (TYPES, 1),
            ]),
        },
        "C08" => Prof {
            fams: &FAMS,
            flags: F_CONSERVE,
            w: weights(&[
                (DERIVE, 8), (MUTC, 5), (MUTO, 8), (ITER, 1), (RANGE, 1), (DROP, 7), (CLONE, 4), (BURST, 4), (EXTEND, 2),
                (COLLECT, 2), (REL, 1), (DE, 2), (SER, 1),
            ]),
        },
        "C09" => Prof {
            fams: &[List, Stack, Queue, List, Queue, List, Stack, Queue, List, Queue, List, Stack, HMap, HSet, Vector, RMap, RSet],
            flags: F_CONTENT | F_PANIC | F_BIG,
            w: weights(&[
                (DERIVE, 5), (MUTC, 3), (MUTO, 5), (DROP, 12), (CLONE, 8), (ITER, 2), (REL, 6), (QUERY, 1), (SER, 1), (SHOW, 1), (TYPES, 2),
            ]),
        },
        "C10" => Prof {
            fams: &FAMS,
            flags: F_SNAP | F_PANIC,
            w: weights(&[
                (DERIVE, 14), (QUERY, 5), (ITER, 2), (RANGE, 2), (CLONE, 4), (REL, 4), (SHOW, 1), (SER, 1), (MUTO, 4),
                (MUTC, 2), (DROP, 2), (OBS, 2), (BURST, 1), (COLLECT, 1),
            ]),
        },
        "C11" => Prof {
            fams: &[Vector, HMap, HSet, RMap, RSet, List, Queue, Stack, HMap, Vector, RMap],
            flags: F_ATOMIC | F_CONTENT | F_PANIC,
            w: weights(&[
                (MUTO, 14), (MUTC, 8), (EXTEND, 4), (DERIVE, 3), (CLONE, 3), (DROP, 2), (OBS, 2), (BURST, 2),
            ]),
        },
        "C12" => Prof {
            fams: &FAMS,
            flags: F_STEPS,
            w: weights(&[
                (DERIVE, 8), (MUTC, 5), (MUTO, 8), (QUERY, 6), (CLONE, 4), (DROP, 3), (BURST, 6), (ITER, 2), (RANGE, 2), (REL, 2),
            ]),
        },
        "C13" => Prof {
            fams: &FAMS,
            flags: F_SER | F_PANIC,
            w: weights(&[(SER, 14), (SHOW, 10), (DERIVE, 5), (MUTO, 5), (MUTC, 2), (CLONE, 2), (DROP, 2), (BURST, 3)]),
        },
        "C14" => Prof {
            fams: &FAMS,
            flags: F_DE | F_CONSERVE | F_PANIC,
            w: weights(&[(DE, 30), (DERIVE, 2), (MUTO, 2), (DROP, 3), (CLONE, 1)]),
        },
        "C15" => Prof {
            fams: &[HMap],
            flags: F_PAR | F_CONTENT | F_PANIC,
            w: weights(&[(PAR, 20), (DERIVE, 4), (MUTO, 4), (MUTC, 2), (CLONE, 2), (DROP, 2), (BURST, 2), (COLLECT, 1)]),
        },
        "C16" => Prof {
            fams: &FAMS,
            flags: F_REL | F_PANIC,
            w: weights(&[
                (REL, 10), (ALT, 16), (BOUNDARY, 4), (PART, 6), (DERIVE, 5), (MUTO, 5), (MUTC, 3), (CLONE, 4), (DROP, 2), (BURST, 3),
            ]),
        },
        "C17" => Prof {
            fams: &FAMS,
            flags: F_BULK | F_CONSERVE | F_PANIC,
            w: weights(&[(COLLECT, 16), (EXTEND, 10), (DERIVE, 3), (MUTO, 3), (CLONE, 3), (DROP, 3)]),
        },
        "C18" => Prof {
            fams: &FAMS,
            flags: F_ALLOC,
            w: weights(&[
                (DERIVE, 12), (MUTC, 5), (MUTO, 10), (QUERY, 4), (CLONE, 6), (DROP, 2), (BURST, 4), (ITER, 2), (REL, 2),
                (COLLECT, 1), (EXTEND, 1),
            ]),
        },
        "C20" => Prof {
            fams: &FAMS,
            flags: F_LIT | F_CONTENT | F_CONSERVE | F_PANIC,
            w: weights(&[(LIT, 20), (CTOR, 2), (DERIVE, 2), (MUTO, 3), (MUTC, 2), (ITER, 1), (QUERY, 1), (CLONE, 2), (DROP, 3)]),
        },
        "C22" => Prof {
            fams: &FAMS,
            flags: F_HOLD | F_CONTENT | F_PANIC,
            w: weights(&[
                (CHURN, 12), (DERIVE, 5), (MUTO, 5), (MUTC, 4), (CLONE, 4), (DROP, 4), (BURST, 5), (COLLECT, 2), (EXTEND, 1), (HOLD, 1),
                (ITER, 1), (DE, 0),
            ]),
        },
        _ => panic!("unknown property {prop}"),
    }
}

fn prop_no(prop: &str) -> u64 {
    PROPS.iter().position(|p| *p == prop).expect("unknown property") as u64
}

pub fn run_seed(prop: &str, vseed: u64, i: u64) -> u64 {
    mix(mix(vseed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (prop_no(prop) << 48)) ^ i)
}

/// Geometric-looking number: small mostly, sometimes large.
fn skewed(r: &mut Rng, bits: u64) -> u32 {
    let b = r.below(bits + 1);
    r.below(1 << b) as u32
}

fn size(r: &mut Rng, c: &Conf, prop: &str) -> u32 {
    let f = c.fam;
    // Around a power of two, large: deep trees of narrow nodes, wide trees of wide ones.
    let costly = f.hash() && !c.rnd && c.hmode > 0;
    if !costly && r.chance(1, if f == Fam::Vector { 120 } else { 400 }) {
        // What counts in 16 bits has come around.
        if r.chance(1, 24) && c.bits <= 6 {
            return r.range(66_000, 110_000) as u32;
        }
        let k = if r.chance(1, 4) { r.range(13, 16) } else { r.range(10, 12) };
        return ((1u32 << k) + r.below(6) as u32).saturating_sub(3);
    }
    if f == Fam::Vector && r.chance(2, 5) {
        // Around a change of depth.
        let b = if c.bits == 0 { 5 } else { u32::from(c.bits).min(16) };
        let mut full = 1u32 << b;
        let k = r.below(4);
        for _ in 0..k {
            if full << b <= if r.chance(1, 40) { 40_000 } else { 1300 } {
                full <<= b;
            }
        }
        if full <= 40_000 {
            return (full + r.below(5) as u32).saturating_sub(2);
        }
    }
    match r.below(100) {
        0..=17 => r.below(4) as u32,
        18..=66 => r.below(25) as u32,
        67..=91 => r.range(25, 100) as u32,
        92..=98 => r.range(100, 320) as u32,
        _ => {
            if f.hash() && !c.rnd && c.hmode > 1 {
                // Colliding entries: building and comparing is quadratic.
                r.range(300, 1000) as u32
            } else if prop == "C12" || prop == "C18" {
                r.range(300, 4000) as u32
            } else {
                r.range(300, 1500) as u32
            }
        }
    }
}

pub fn spec(prop: &str, vseed: u64, i: u64) -> Spec {
    let seed = run_seed(prop, vseed, i);
    let mut r = Rng::new(seed);
    if prop == "C09" {
        return deep(&mut r, seed, i);
    }
    if prop == "C21" {
        // The runs of all the others (from another seed), where they do not need the standard library.
        const OF: &[&str] = &[
            "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18",
            "C20", "C22", "C05", "C06", "C04",
        ];
        let n = OF.len() as u64;
        let mut s = spec(OF[(i % n) as usize], mix(vseed ^ 0x0057_d000), 2 * (i / n) + 1);
        if s.conf.kind == Kind::Arc && s.conf.fam.hash() && i % 3 == 0 {
            s.conf.rnd = true;
        }
        return s;
    }
    let p = prof(prop);
    let fam = *r.pick(p.fams);
    // Where the listed finding of C16 is looked for.
    let known = prop == "C16" && i % 400 == 0;
    let fam = if known { [Fam::HMap, Fam::RMap][(i / 400 % 2) as usize] } else { fam };
    let mut kind = match r.below(20) {
        0 | 1 => Kind::Arc,
        2 => Kind::Rc,
        _ => Kind::Sim,
    };
    if prop == "C15" {
        kind = Kind::Arc;
    }
    if prop == "C20" {
        kind = *r.pick(&[Kind::Arc, Kind::Arc, Kind::Rc]);
    }
    let rnd = prop == "C20" && fam.hash() || fam.hash() && r.chance(1, if prop == "C15" { 24 } else { 10 });
    let hmode = if r.chance(2, 5) { 0 } else { r.below(u64::from(HASH_MODES)) as u8 };
    let conf = Conf {
        fam,
        kind,
        rnd,
        hmode,
        hseed: r.u64(),
        degree: *r.pick(&[0u8, 2, 4, 8, 16, 32, 64, 2, 4, 8]),
        bits: match r.below(20) {
            0..=5 => 0,
            6..=17 => r.range(1, 4) as u8,
            18 => r.range(5, 9) as u8,
            _ => *r.pick(&[15u8, 20, 31, 32, 33, 62, 63]),
        },
    };
    let mut flags = p.flags;
    let faults = match prop {
        "C01" => {
            let f = r.chance(1, 2);
            if !f {
                flags |= F_PANIC;
            }
            if f { 20 } else { 0 }
        }
        "C08" => *r.pick(&[0, 10, 30, 60]),
        "C10" => 70,
        "C11" => *r.pick(&[40, 80]),
        "C13" => 30,
        "C14" => 25,
        "C15" => 40,
        "C17" => 25,
        "C20" => 40,
        _ => 0,
    };
    // How large, and how much work on it.
    let n = size(&mut r, &conf, prop);
    let dom = match r.below(4) {
        0 => r.range(2, 8) as u32,
        1 => r.range(8, 64) as u32,
        _ => (2 * n).max(4),
    };
    let slots = *r.pick(&[1u8, 2, 3, 4, 6]);
    let tasks = if kind == Kind::Rc { 1 } else { *r.pick(&[1u8, 2, 2, 3, 3, 4]) };
    let mut phases = r.range(1, 3) as u8;
    let mut per = r.range(1, 9);
    if n > 2000 {
        per = per.min(2);
        phases = 1;
    } else if n > 300 {
        per = per.min(4);
        phases = phases.min(2);
    }
    let mut ops = Vec::new();
    let fills = r.below(u64::from(slots) + 1).max(1);
    for k in 0..fills {
        ops.push(Op {
            phase: 0,
            task: 0,
            kind: FILL,
            s: 0,
            d: k as u8,
            code: r.below(4) as u8,
            a: if k == 0 { n } else { size(&mut r, &conf, prop).min(n.max(60)) },
            b: r.u32(),
            mask: 0,
            nth: 0,
        });
        let o = ops.last_mut().unwrap();
        if o.a > 2000 && conf.bits > 6 {
            // Deriving one by one copies whole wide nodes.
            o.a = o.a.min(if o.code == 2 { 3000 } else { 40_000 });
        }
    }
    // Some runs use few kinds of operation, many times.
    let mut w = p.w;
    if r.chance(1, 3) {
        for x in &mut w {
            if r.chance(1, 2) {
                *x = 0;
            }
        }
        for (k, x) in p.w.iter().enumerate() {
            if *x >= 8 {
                w[k] = w[k].max(*x / 2);
            }
        }
    }
    if fam != Fam::Vector {
        w[EXTEND as usize] = 0;
    }
    if !fam.rb() {
        w[RANGE as usize] = 0;
    }
    if matches!(prop, "C02" | "C03" | "C04" | "C05" | "C06") {
        w[CTOR as usize] = 1;
    }
    if (prop == "C05" || prop == "C06") && fam.set() {
        w[ALT as usize] = 3;
    }
    if w.iter().all(|x| *x == 0) {
        w = p.w;
    }
    let same_slot = r.chance(1, 3);
    for ph in 1..=phases {
        for t in 0..tasks {
            let k = if tasks == 1 { per * 2 } else { r.range(1, per) };
            for _ in 0..k {
                let kind = r.weighted(&w) as u8;
                let mut op = Op {
                    phase: ph,
                    task: t,
                    kind,
                    s: if same_slot && r.chance(3, 4) { 0 } else { r.below(u64::from(slots)) as u8 },
                    d: r.below(u64::from(slots)) as u8,
                    code: r.u32() as u8,
                    a: r.u32() >> 1,
                    b: r.u32(),
                    mask: 0,
                    nth: 0,
                };
                shape(&mut op, &mut r, &conf, prop, dom, n);
                if r.below(100) < faults {
                    inject(&mut op, &mut r, &conf, prop, n);
                }
                ops.push(op);
            }
        }
    }
    if known {
        let op = ops[0];
        ops.truncate(1);
        ops.push(Op { phase: 1, kind: PART, s: 0, code: 1, a: r.u32() >> 1, b: r.u32(), mask: 0, nth: 0, ..op });
    }
    let small = matches!(prop, "C14" | "C17");
    let prints = ops.iter().any(|o| o.kind == SHOW);
    Spec {
        conf,
        flags,
        slots,
        dom,
        ops,
        env_seed: r.u64(),
        stack_size: if prints { 4 << 20 } else { 512 << 10 },
        stack_limit: if prints { 4_000_000 } else { 400 << 10 },
        max_alloc: if small { 4 << 20 } else { 64 << 20 },
        preempt_scale: if n > 300 { 128 } else { 1024 },
        workers: r.range(1, 8) as usize,
    }
}

/// Brings the arguments of an operation into the range that suits it.
fn shape(op: &mut Op, r: &mut Rng, c: &Conf, prop: &str, dom: u32, n: u32) {
    let f = c.fam;
    match op.kind {
        DERIVE | MUTC | MUTO => {
            // Removal often enough to shrink, structure-changing operations mostly.
            op.code = match f {
                Fam::List => *r.pick(&[0u8, 0, 0, 1, 1, 2]),
                Fam::Stack | Fam::Queue => *r.pick(&[0u8, 1]),
                Fam::Vector => *r.pick(&[0u8, 0, 1, 1, 2, 2, 3, 3, 4]),
                Fam::HMap | Fam::RMap => *r.pick(&[0u8, 0, 1, 1, 1, 2]),
                _ => *r.pick(&[0u8, 1]),
            };
            if f.seq() && op.code == 0 && r.chance(2, 3) {
                op.a %= dom;
            }
        }
        COLLECT | EXTEND => {
            op.a = match r.below(10) {
                0 => 0,
                1..=7 => r.below(40) as u32,
                _ => r.below(u64::from(n) + 80) as u32,
            };
        }
        PART => op.code &= !1,
        CHURN => op.a = if r.chance(1, 30) { r.range(300, 1200) as u32 } else if r.chance(1, 4) { r.range(60, 300) as u32 } else { 1 + skewed(r, 6) },
        DE if r.chance(1, 80) && !(f.hash() && !c.rnd && c.hmode > 0) => {
            op.a = if r.chance(1, 40) { r.range(66_000, 70_000) } else { r.range(900, 9000) } as u32;
        }
        DE => op.a = if r.chance(1, 10) { r.below(200) as u32 } else { r.below(12) as u32 },
        // The derived output of long chains is a known finding (C09).
        SHOW if n > 200 && f != Fam::Vector => op.code &= !1,
        BURST => {
            op.a = skewed(r, 6);
            if prop == "C12" || prop == "C18" {
                op.a = op.a.max(10);
            }
        }
        _ => {}
    }
}

/// Arms a fault for an operation, where the property says what happens then.
fn inject(op: &mut Op, r: &mut Rng, c: &Conf, prop: &str, n: u32) {
    let f = c.fam;
    let user: &[u32] = match f {
        Fam::HMap | Fam::HSet => &[bit(site::ElHash), bit(site::ElEq), bit(site::ElClone), bit(site::BuildHasher)],
        Fam::RMap | Fam::RSet => &[bit(site::ElOrd), bit(site::ElOrd), bit(site::ElClone)],
        _ => &[bit(site::ElClone), bit(site::ElClone)],
    };
    let deep = u64::from(64 - u64::from(n + 2).leading_zeros()) + 2;
    let few = skewed(r, 3 + u64::from(deep > 6));
    let many = r.below(u64::from(n) + 3) as u32;
    let mutating = matches!(op.kind, DERIVE | MUTC | MUTO | BURST);
    match prop {
        "C01" | "C08" | "C14" | "C17" => {
            let all = prop == "C08";
            // After a failed allocation a collection changed in place is only known to be releasable.
            let alloc = op.kind == DERIVE || prop == "C01";
            op.mask = match op.kind {
                DERIVE | MUTC | MUTO | BURST => {
                    if all && r.chance(1, 3) {
                        bit(site::ElDrop)
                    } else if alloc && r.chance(1, 3) {
                        bit(site::PtrNew)
                    } else {
                        *r.pick(user)
                    }
                }
                DROP if prop == "C14" => 0,
                DROP => bit(site::ElDrop),
                QUERY | REL => *r.pick(&[bit(site::ElEq), bit(site::ElOrd), bit(site::ElHash)]),
                COLLECT | EXTEND => *r.pick(&[
                    bit(site::IterNext), bit(site::IterNext), bit(site::PtrNew), bit(site::ElHash), bit(site::ElOrd),
                    bit(site::ElEq), bit(site::ElDrop),
                ]),
                DE => *r.pick(&[
                    bit(site::ElDe), bit(site::DePanic), bit(site::PtrNew), bit(site::ElHash), bit(site::ElOrd), bit(site::ElDe),
                ]),
                SER => bit(site::ElSer) | bit(site::Sink),
                SHOW => bit(site::ElFmt),
                _ => 0,
            };
            op.nth = if matches!(op.kind, DROP | COLLECT | EXTEND | DE) && r.chance(2, 3) { many } else { few };
            if op.kind == BURST {
                op.mask &= bit(site::ElClone) | bit(site::ElOrd) | bit(site::ElHash) | bit(site::ElEq);
            }
        }
        "C10" => {
            op.mask = match op.kind {
                DERIVE | CLONE => *r.pick(CALLBACKS),
                QUERY => *r.pick(user) & !bit(site::ElClone) | bit(site::ElEq) | bit(site::ElOrd),
                ITER | RANGE => bit(site::ElOrd) | bit(site::IterNext),
                REL => *r.pick(&[bit(site::ElEq), bit(site::ElOrd), bit(site::ElHash)]),
                SHOW => bit(site::ElFmt),
                SER => bit(site::ElSer) | bit(site::Sink),
                COLLECT => bit(site::IterNext),
                _ => 0,
            };
            if mutating && op.mask != 0 && r.chance(1, 3) {
                op.mask = *r.pick(user);
            }
            if op.kind != DERIVE && mutating {
                op.mask = 0;
            }
            op.nth = if f == Fam::List && op.code == 2 || matches!(op.kind, REL | SHOW | SER | COLLECT) { many } else { few };
        }
        "C11" => {
            op.mask = match op.kind {
                MUTC | MUTO => *r.pick(user),
                EXTEND => bit(site::IterNext),
                _ => 0,
            };
            op.nth = if op.kind == EXTEND { r.below(u64::from(op.a) + 2) as u32 } else { few };
            if (f == Fam::List || f == Fam::Queue) && op.kind != EXTEND {
                op.nth = many;
            }
        }
        "C13" => {
            op.mask = match op.kind {
                SER => *r.pick(&[bit(site::ElSer), bit(site::Sink), bit(site::ElSer) | bit(site::Sink)]),
                _ => 0,
            };
            op.nth = many * if f.map() { 1 + r.below(2) as u32 } else { 1 };
        }
        "C20" => {
            if op.kind == LIT {
                let u = *r.pick(user);
                op.mask = *r.pick(&[bit(site::Arg), bit(site::Arg), bit(site::Arg), bit(site::ElDrop), u]);
                let far = r.chance(1, 5);
                op.nth = r.below(if far { 60 } else { 10 }) as u32;
            }
        }
        "C15" => {
            if op.kind == PAR {
                op.mask = bit(site::Closure);
                op.nth = many;
            }
        }
        _ => {}
    }
}

/// Long chains: whatever recurses per element runs out of (simulated) stack.
fn deep(r: &mut Rng, seed: u64, i: u64) -> Spec {
    let p = prof("C09");
    let fam = *r.pick(p.fams);
    let known = i % 400 == 0;
    let fam = if known { [Fam::List, Fam::Stack, Fam::Queue, Fam::HMap, Fam::HSet][(i / 400 % 5) as usize] } else { fam };
    let hash = fam.hash();
    let kind = match r.below(10) {
        0 => Kind::Arc,
        1 => Kind::Rc,
        _ => Kind::Sim,
    };
    let kind = if known { Kind::Sim } else { kind };
    let n = if hash { r.range(1700, 2600) as u32 } else { r.range(4000, 24_000) as u32 };
    let conf = Conf { fam, kind, rnd: false, hmode: 2, hseed: r.u64(), degree: *r.pick(&[0u8, 2, 8, 64]), bits: 0 };
    let slots = r.range(2, 4) as u8;
    let tasks = if kind == Kind::Rc { 1 } else { r.range(2, 4) as u8 };
    let mut ops = Vec::new();
    let zero = Op { phase: 0, task: 0, kind: FILL, s: 0, d: 0, code: 1, a: n, b: seed as u32, mask: 0, nth: 0 };
    if known {
        ops.push(zero);
        ops.push(Op { kind: SHOW, phase: 1, code: 1, ..zero });
    } else {
        let code = *r.pick(if hash { &[1u8, 3][..] } else { &[0u8, 1, 1, 2, 3][..] });
        let first = Op { code, b: r.u32(), ..zero };
        ops.push(first);
        for d in 1..slots {
            // The same once more, sharing nothing.
            if !hash && r.chance(1, 3) {
                ops.push(Op { phase: 1, d, ..first });
                continue;
            }
            ops.push(Op { phase: 1, kind: *r.pick(&[CLONE, DERIVE, CLONE]), s: 0, d, code: 0, a: r.u32() % 100, b: r.u32(), ..zero });
        }
        let phases = r.range(1, 2) as u8;
        for ph in 0..phases {
            for t in 0..tasks {
                for _ in 0..r.range(1, 3) {
                    let kind = r.weighted(&p.w) as u8;
                    let mut op = Op {
                        phase: 2 + ph,
                        task: t,
                        kind,
                        s: r.below(u64::from(slots)) as u8,
                        d: r.below(u64::from(slots)) as u8,
                        code: r.u32() as u8,
                        a: r.u32() >> 1,
                        b: r.u32(),
                        mask: 0,
                        nth: 0,
                    };
                    shape(&mut op, r, &conf, "C09", n, n);
                    match kind {
                        // The derived output format is a known finding.
                        SHOW => op.code &= !1,
                        DROP if r.chance(1, 4) => {
                            op.mask = bit(site::ElDrop);
                            op.nth = r.below(u64::from(n)) as u32;
                        }
                        _ => {}
                    }
                    ops.push(op);
                }
            }
        }
    }
    Spec {
        conf,
        flags: p.flags & !if r.chance(1, 2) { F_CONTENT } else { 0 },
        slots,
        dom: 2 * n,
        ops,
        env_seed: r.u64(),
        stack_size: 16 << 20,
        stack_limit: if hash { 160 << 10 } else { 192 << 10 },
        max_alloc: 64 << 20,
        preempt_scale: *r.pick(&[1u64, 4, 16, 64]),
        workers: 1,
    }
}
