//! How many own steps and node allocations an operation may take, from the documented complexity.
//! A step is one scheduling point: a pointer operation or a callback into an element.

use crate::ds::*;

pub const CLONE: u64 = 16;

fn lg(n: usize) -> u64 {
    u64::from(usize::BITS - (n + 1).leading_zeros())
}
fn vec_bits(c: &Conf) -> u64 {
    if c.bits == 0 { 5 } else { u64::from(c.bits) }
}
fn degree(c: &Conf) -> u64 {
    if c.degree == 0 { 64 } else { u64::from(c.degree) }
}
/// Levels of the tree holding `n` elements, and how wide its nodes are along one path in total.
fn shape(c: &Conf, n: usize) -> (u64, u64, u64) {
    match c.fam {
        Fam::Vector => {
            let b = vec_bits(c);
            let levels = 2 + lg(n) / b;
            (levels, levels * (1 << b).min(n as u64 + 2), 0)
        }
        Fam::RMap | Fam::RSet => {
            let h = 2 * lg(n) + 2;
            (h, h, 0)
        }
        Fam::HMap | Fam::HSet => {
            let d = degree(c);
            if !c.rnd && c.hmode > 1 {
                // Unknown or hostile hashing: linear in the worst case, and documented so.
                let levels = 64 / u64::from(d.trailing_zeros().max(1)) + 2;
                return (levels, levels * d.min(n as u64 + 2), n as u64 + 1);
            }
            let (mut levels, mut width, mut k) = (0, 0, n as f64);
            while k > 1e-4 {
                levels += 1;
                width += (d as f64).min(2.0 * k + 6.0) as u64;
                k /= d as f64;
            }
            (levels + 2, width + 8, 1)
        }
        _ => (1, 1, 0),
    }
}

/// One modification, deriving or in place, of a collection with content `m`.
pub fn steps(c: &Conf, m: &M, mu: &Mu) -> u64 {
    let n = m.len();
    match (c.fam, mu.code) {
        (Fam::List, 2) => 24 + 24 * n as u64,
        (Fam::Queue, 1) => 30 + 24 * n as u64,
        (Fam::List | Fam::Stack | Fam::Queue, _) => 28,
        (Fam::Vector, _) => {
            let (levels, width, _) = shape(c, n);
            40 + 14 * levels + 3 * width
        }
        (Fam::RMap | Fam::RSet, _) => {
            let (h, _, _) = shape(c, n);
            60 + 40 * h
        }
        (_, _) => {
            let (levels, width, bucket) = shape(c, n);
            60 + 16 * levels + 6 * width + 40 * bucket
        }
    }
}

/// Node allocations of one modification.
pub fn nodes(c: &Conf, m: &M, mu: &Mu) -> u64 {
    let n = m.len();
    let insert = mu.code == 0;
    match c.fam {
        Fam::List if mu.code == 2 => n as u64 + 4,
        Fam::List | Fam::Stack => 4,
        Fam::Queue => {
            if insert {
                4
            } else {
                n as u64 + 2
            }
        }
        Fam::Vector => {
            let (levels, _, _) = shape(c, n);
            4 + levels
        }
        Fam::RMap | Fam::RSet => {
            let (h, _, _) = shape(c, n);
            4 + 3 * h
        }
        Fam::HMap | Fam::HSet => {
            let (levels, _, bucket) = shape(c, n);
            4 + 2 * levels + 4 * if bucket > 1 { bucket } else { 0 }
        }
    }
}

pub fn query(c: &Conf, m: &M, q: u8, _a: u32) -> u64 {
    let n = m.len();
    let tree = !c.fam.seq() || c.fam == Fam::Vector;
    // The documentation speaks of the length, not of emptiness.
    if q < Q_EMPTY || q <= Q_LAST && !tree {
        return 8;
    }
    let (levels, _, bucket) = shape(c, n);
    16 + 6 * levels + 20 * bucket
}

pub fn iterate(c: &Conf, m: &M) -> u64 {
    let n = m.len() as u64 + 1;
    let (levels, _, _) = shape(c, m.len());
    match c.fam {
        Fam::RMap | Fam::RSet => 80 + n * 24 + levels * 16,
        Fam::HMap | Fam::HSet if c.hmode > 1 => 80 + n * (40 + 8 * levels),
        Fam::HMap | Fam::HSet => 80 + n * 48,
        _ => 80 + n * 24,
    }
}

/// Obtaining an iterator over `n` elements and visiting `k` of them.
pub fn visit(c: &Conf, n: usize, k: usize) -> u64 {
    let (levels, _, _) = shape(c, n);
    let k = k as u64 + 1;
    match c.fam {
        // The later half is turned around when it is reached.
        Fam::Queue => 80 + 24 * (n as u64 + 1) + 24 * k,
        Fam::HMap | Fam::HSet => 80 + 16 * levels + k * (40 + 8 * levels),
        _ => 80 + 16 * levels + 30 * k,
    }
}

pub fn relate(c: &Conf, x: &M, y: &M) -> u64 {
    let n = (x.len() + y.len() + 2) as u64;
    if c.fam.hash() {
        let mut c = *c;
        c.hmode = 255;
        return 80 + n * (60 + query(&c, if x.len() > y.len() { x } else { y }, Q_GET, 0));
    }
    if matches!(c.fam, Fam::RMap | Fam::RSet) {
        return 80 + n * (30 + 2 * lg(n as usize));
    }
    80 + 30 * n
}

pub fn release(c: &Conf, n: usize) -> u64 {
    let n = n as u64;
    match c.fam {
        // Hashes that agree in their first bits lie at the end of a long path each.
        Fam::HMap | Fam::HSet => 60 + n * (40 + 12 * (64 / u64::from(degree(c).trailing_zeros().max(1)) + 2)),
        _ => 60 + 40 * n,
    }
}

/// `n` in-place operations starting from `n0` elements.
pub fn burst(c: &Conf, n0: usize, n: usize) -> u64 {
    let m: M = vec![(0, 0); n0 + n];
    match c.fam {
        Fam::Queue => 60 + 24 * (n0 + 2 * n) as u64,
        Fam::Stack => 30 * n as u64,
        _ => {
            let per = (0..n_mu(c.fam)).map(|k| steps(c, &m, &Mu { code: k, a: 0, b: 0 })).max().unwrap_or(0);
            per * n as u64
        }
    }
}

/// Nodes and bytes a collection with content `m` may hold, whatever became of it before.
pub fn hold(c: &Conf, m: &M) -> (u64, u64) {
    let n = m.len() as u64;
    let fan = match c.fam {
        Fam::Vector => 1 << vec_bits(c).min(20),
        Fam::HMap | Fam::HSet => degree(c),
        _ => 0,
    };
    let colliding = matches!(c.fam, Fam::HMap | Fam::HSet) && !c.rnd && c.hmode > 1;
    // Nodes that only lead to others, half as many again as there should be.
    let inner = match c.fam {
        Fam::Vector => {
            let (mut inner, mut k) = (1, n);
            while k > 1 {
                k = k.div_ceil(fan);
                inner += k;
            }
            inner + inner / 2
        }
        Fam::HMap | Fam::HSet if !c.rnd && c.hmode != 255 && n <= 4000 => {
            let f = forks(c, m);
            2 + f + f / 2
        }
        Fam::HMap | Fam::HSet if colliding => {
            // Hashes that agree in their first bits lie at the end of a long path.
            (n + 1) * (64 / u64::from(degree(c).trailing_zeros().max(1)) + 2)
        }
        Fam::HMap | Fam::HSet => 40 + 3 * n,
        _ => 0,
    };
    // The same for those with an element; twice, to stay with integers.
    let per = match c.fam {
        Fam::HMap | Fam::HSet if colliding => 10,
        Fam::Vector => 3,
        _ => 6,
    };
    let nodes = 6 + per * n / 2 + inner;
    // Generous: what must not happen is that something outlives its use, not that nodes are small.
    (nodes, 512 + nodes * 96 + inner * (fan + 4).min(2 * n.max(64)) * 16)
}

/// Parts of the key space with two keys or more in them, when it is divided by successive digits of
/// the hash, from whichever end that gives more.
fn forks(c: &Conf, m: &M) -> u64 {
    let bits = u64::from(degree(c).trailing_zeros().max(1));
    let count = |h: &mut Vec<u64>, low: bool| {
        if low {
            for x in h.iter_mut() {
                *x = x.reverse_bits();
            }
        }
        h.sort_unstable();
        // Two neighbours that agree in `k` digits are together in `k + 1` parts; the first two of a part count it.
        let mut total = 0;
        let mut before = 0;
        for w in h.windows(2) {
            let agree = (u64::from((w[0] ^ w[1]).leading_zeros()) / bits + 1).min(64 / bits + 2);
            total += agree.saturating_sub(before);
            before = agree;
        }
        total
    };
    let mut h: Vec<u64> = m.iter().map(|e| crate::elem::hash_of(c.hmode, c.hseed, e.0)).collect();
    count(&mut h, false).max(count(&mut h, true))
}
