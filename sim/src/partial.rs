//! Elements that are only partially ordered (some are not even equal to themselves, as with floating
//! point numbers) and comparison between vectors of different element types.  The oracle is the
//! comparison of the standard library's collections of the same contents.

use crate::ds::*;
use crate::elem::{SimBuild, E};
use crate::pool::*;
use crate::ptr::SimK;
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use simrt::{point_fault, site, violate, Rng};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};

fn irregular(v: u32) -> bool {
    v & 7 == 0
}
fn p_cmp(a: u32, b: u32) -> Option<Ordering> {
    if irregular(a) || irregular(b) {
        None
    } else {
        Some((a >> 1).cmp(&(b >> 1)))
    }
}
/// Across types; not symmetric on purpose.
fn x_cmp(a: u32, b: u32) -> Option<Ordering> {
    if irregular(a) {
        None
    } else {
        Some(a.cmp(&(b & !2)))
    }
}

macro_rules! partial {
    ($w:ident, $u:ident, $in:ty, $v:expr, $pt:expr) => {
        pub struct $w($in);
        pub struct $u($in);
        impl PartialEq for $w {
            fn eq(&self, o: &$w) -> bool {
                $pt(site::ElEq);
                p_cmp($v(&self.0), $v(&o.0)) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd for $w {
            fn partial_cmp(&self, o: &$w) -> Option<Ordering> {
                $pt(site::ElOrd);
                p_cmp($v(&self.0), $v(&o.0))
            }
        }
        impl PartialEq<$u> for $w {
            fn eq(&self, o: &$u) -> bool {
                $pt(site::ElEq);
                x_cmp($v(&self.0), $v(&o.0)) == Some(Ordering::Equal)
            }
        }
        impl PartialOrd<$u> for $w {
            fn partial_cmp(&self, o: &$u) -> Option<Ordering> {
                $pt(site::ElOrd);
                x_cmp($v(&self.0), $v(&o.0))
            }
        }
    };
}
partial!(W, U, E, |e: &E| e.v(), point_fault);
partial!(PW, PU, u32, |v: &u32| *v, |_| ());

/// `(==, !=, partial_cmp, <, <=, >, >=)`
type Seven = (bool, bool, Option<Option<Ordering>>, [bool; 4]);

fn seven<X: PartialOrd<Y>, Y>(x: &X, y: &Y) -> Seven {
    (*x == *y, *x != *y, Some(x.partial_cmp(y)), [x < y, x <= y, x > y, x >= y])
}
fn two<X: PartialEq<Y>, Y>(x: &X, y: &Y) -> Seven {
    (*x == *y, *x != *y, None, [false; 4])
}

fn words(s: Seven) -> String {
    format!("== {}, != {}, partial_cmp {:?}, [<, <=, >, >=] {:?}", s.0, s.1, s.2.map_or("-".into(), |c| format!("{c:?}")), s.3)
}

fn list<P: SharedPointerKind>(m: &[u32], junk: usize) -> List<W, P> {
    let mut l = List::new_with_ptr_kind();
    for v in m.iter().rev() {
        l.push_front_mut(W(E::new(*v)));
        for j in 0..junk {
            l.push_front_mut(W(E::new(j as u32)));
        }
        for _ in 0..junk {
            l.drop_first_mut();
        }
    }
    l
}
fn stack<P: SharedPointerKind>(m: &[u32], junk: usize) -> Stack<W, P> {
    let mut s = Stack::new_with_ptr_kind();
    for v in m.iter().rev() {
        s.push_mut(W(E::new(*v)));
        for j in 0..junk {
            s = s.push(W(E::new(j as u32))).pop().unwrap();
        }
    }
    s
}
fn queue<P: SharedPointerKind>(m: &[u32], junk: usize) -> Queue<W, P> {
    let mut q = Queue::new_with_ptr_kind();
    for j in 0..junk {
        q.enqueue_mut(W(E::new(j as u32)));
    }
    let at = m.len() / (junk + 1);
    for (i, v) in m.iter().enumerate() {
        q.enqueue_mut(W(E::new(*v)));
        if i == at {
            for _ in 0..junk {
                q = q.dequeue().unwrap();
            }
        }
    }
    if m.is_empty() {
        for _ in 0..junk {
            q.dequeue_mut();
        }
    }
    q
}
fn vector<P: SharedPointerKind, X>(m: &[u32], junk: usize, bits: u8, mk: fn(u32) -> X) -> Vector<X, P> {
    let mut a = Vector::new_with_bits(bits);
    for v in m {
        a.push_back_mut(mk(*v));
    }
    for j in 0..junk * 20 {
        a.push_back_mut(mk(j as u32));
    }
    for _ in 0..junk * 20 {
        a.drop_last_mut();
    }
    a
}
fn rmap<P: SharedPointerKind>(m: &[(u32, u32)], junk: usize, r: &mut Rng) -> RedBlackTreeMap<E, W, P> {
    let mut t = RedBlackTreeMap::new_with_ptr_kind();
    for (k, v) in order(m, r) {
        t.insert_mut(E::new(k), W(E::new(v)));
        for j in 0..junk {
            t.insert_mut(E::new(JUNK + j as u32), W(E::new(1)));
        }
    }
    for j in 0..junk {
        t.remove_mut(&E::new(JUNK + j as u32));
    }
    t
}
fn hmap<P: SharedPointerKind>(m: &[(u32, u32)], junk: usize, degree: u8, h: SimBuild, r: &mut Rng) -> HashTrieMap<E, W, P, SimBuild> {
    let mut t = HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(h, degree);
    for (k, v) in order(m, r) {
        t.insert_mut(E::new(k), W(E::new(v)));
        for j in 0..junk {
            t.insert_mut(E::new(JUNK + j as u32), W(E::new(1)));
        }
    }
    for j in 0..junk {
        t.remove_mut(&E::new(JUNK + j as u32));
    }
    t
}
const JUNK: u32 = 1 << 30;

fn order(m: &[(u32, u32)], r: &mut Rng) -> Vec<(u32, u32)> {
    let mut m = m.to_vec();
    for i in (1..m.len()).rev() {
        m.swap(i, r.below(i as u64 + 1) as usize);
    }
    m
}

pub struct Both {
    pub got: Seven,
    pub want: Seven,
    pub what: &'static str,
}

/// Compares what is built from `a` under `P` with what is built from `b` under `Q`; `itself` compares
/// a collection with its own clone.
fn compare<P: SharedPointerKind, Q: SharedPointerKind>(
    f: Fam,
    a: &[(u32, u32)],
    b: &[(u32, u32)],
    itself: bool,
    r: &mut Rng,
) -> Both {
    let (j1, j2) = (r.below(4) as usize, r.below(4) as usize);
    let keys = |m: &[(u32, u32)]| m.iter().map(|e| e.0).collect::<Vec<u32>>();
    let (ka, kb) = (keys(a), keys(b));
    let pw = |m: &[u32]| m.iter().map(|v| PW(*v)).collect::<Vec<PW>>();
    macro_rules! pair {
        ($what:expr, $cmp:ident, $x:expr, $y:expr, $mx:expr, $my:expr) => {{
            let x = $x;
            let got = if itself { $cmp(&x, &x.clone()) } else { $cmp(&x, &$y) };
            let mx = $mx;
            let want = if itself { $cmp(&mx, &mx) } else { $cmp(&mx, &$my) };
            Both { got, want, what: $what }
        }};
    }
    match f {
        Fam::List => pair!("List", seven, list::<P>(&ka, j1), list::<Q>(&kb, j2), pw(&ka), pw(&kb)),
        Fam::Stack => pair!("Stack", seven, stack::<P>(&ka, j1), stack::<Q>(&kb, j2), pw(&ka), pw(&kb)),
        Fam::Queue => pair!("Queue", seven, queue::<P>(&ka, j1), queue::<Q>(&kb, j2), pw(&ka), pw(&kb)),
        Fam::Vector => {
            let (b1, b2) = (r.range(1, 6) as u8, r.range(1, 6) as u8);
            let mk = |v| W(E::new(v));
            if !itself && r.chance(1, 2) {
                let x = vector::<P, W>(&ka, j1, b1, mk);
                let y = vector::<Q, U>(&kb, j2, b2, |v| U(E::new(v)));
                let my: Vec<PU> = kb.iter().map(|v| PU(*v)).collect();
                let mx = pw(&ka);
                // `Vec` has no such ordering; slices of the common length decide.
                let order = mx
                    .iter()
                    .zip(&my)
                    .map(|(p, q)| p.partial_cmp(q))
                    .find(|c| *c != Some(Ordering::Equal))
                    .unwrap_or(Some(mx.len().cmp(&my.len())));
                let eq = mx == my;
                let is = |f: fn(Ordering) -> bool| order.is_some_and(f);
                let want = (eq, !eq, Some(order), [is(Ordering::is_lt), is(Ordering::is_le), is(Ordering::is_gt), is(Ordering::is_ge)]);
                return Both { got: seven(&x, &y), want, what: "Vector with elements of another type" };
            }
            pair!("Vector", seven, vector::<P, W>(&ka, j1, b1, mk), vector::<Q, W>(&kb, j2, b2, mk), pw(&ka), pw(&kb))
        }
        Fam::RMap => {
            let model = |m: &[(u32, u32)]| m.iter().map(|(k, v)| (*k, PW(*v))).collect::<BTreeMap<u32, PW>>();
            pair!("RedBlackTreeMap", seven, rmap::<P>(a, j1, r), rmap::<Q>(b, j2, r), model(a), model(b))
        }
        _ => {
            let model = |m: &[(u32, u32)]| m.iter().map(|(k, v)| (*k, PW(*v))).collect::<HashMap<u32, PW>>();
            let d = |r: &mut Rng| *r.pick(&[2u8, 4, 8, 16, 32, 64]);
            let (d1, d2) = (d(r), d(r));
            let h = |r: &mut Rng| SimBuild::new(r.below(u64::from(crate::elem::HASH_MODES)) as u8, r.u64());
            let (h1, h2) = (h(r), h(r));
            pair!("HashTrieMap", two, hmap::<P>(a, j1, d1, h1, r), hmap::<Q>(b, j2, d2, h2, r), model(a), model(b))
        }
    }
}

/// Compares two collections made from a common one, so that they share most of their structure.
/// The second has the content that is returned.
fn related<P: SharedPointerKind>(f: Fam, a: &[(u32, u32)], r: &mut Rng) -> (Both, Vec<(u32, u32)>) {
    let k = if a.is_empty() { 0 } else { r.below(a.len() as u64 + 1) as usize };
    let junk = r.below(4) as usize;
    let keys = |m: &[(u32, u32)]| m.iter().map(|e| e.0).collect::<Vec<u32>>();
    let pw = |m: &[(u32, u32)]| m.iter().map(|e| PW(e.0)).collect::<Vec<PW>>();
    let w = |v: &(u32, u32)| W(E::new(v.0));
    // Front additions: the tail is common.  Back additions: what comes first is.
    let front = matches!(f, Fam::List | Fam::Stack);
    let (common, own) = if front { (&a[k..], &a[..k]) } else { (&a[..k], &a[k..]) };
    let own = if r.chance(1, 2) { own.to_vec() } else { variant(own, true, r) };
    let b: Vec<(u32, u32)> = if front { [&own[..], common].concat() } else { [common, &own[..]].concat() };
    macro_rules! seq {
        ($what:expr, $c:expr, $put:ident) => {{
            let c = $c;
            let grow = |own: &[(u32, u32)]| {
                let mut x = c.clone();
                if front {
                    own.iter().rev().for_each(|v| x = x.$put(w(v)));
                } else {
                    own.iter().for_each(|v| x = x.$put(w(v)));
                }
                x
            };
            let x = grow(if front { &a[..k] } else { &a[k..] });
            let y = grow(&own);
            (Both { got: seven(&x, &y), want: seven(&pw(a), &pw(&b)), what: $what }, b.clone())
        }};
    }
    macro_rules! map {
        ($what:expr, $cmp:ident, $c:expr, $model:ty) => {{
            let c = $c;
            let mut y = c.clone();
            let mut b = a.to_vec();
            for _ in 0..r.range(1, 3) {
                if b.is_empty() {
                    break;
                }
                let i = r.below(b.len() as u64) as usize;
                match r.below(4) {
                    // The same again, but another instance.
                    0 | 1 => y = y.insert(E::new(b[i].0), W(E::new(b[i].1))),
                    2 => {
                        b[i].1 = r.u32() & 31;
                        y.insert_mut(E::new(b[i].0), W(E::new(b[i].1)));
                    }
                    _ => {
                        y = y.remove(&E::new(b[i].0));
                        if r.chance(1, 2) {
                            y.insert_mut(E::new(b[i].0), W(E::new(b[i].1)));
                        } else {
                            b.remove(i);
                        }
                    }
                }
            }
            if a.is_empty() {
                y = c.insert(E::new(1), W(E::new(1)));
                b.push((1, 1));
            }
            let model = |m: &[(u32, u32)]| m.iter().map(|(k, v)| (*k, PW(*v))).collect::<$model>();
            (Both { got: $cmp(&c, &y), want: $cmp(&model(a), &model(&b)), what: $what }, b)
        }};
    }
    match f {
        Fam::List => seq!("List", list::<P>(&keys(common), junk), push_front),
        Fam::Stack => seq!("Stack", stack::<P>(&keys(common), junk), push),
        Fam::Queue => seq!("Queue", queue::<P>(&keys(common), junk), enqueue),
        Fam::Vector => {
            let bits = r.range(1, 6) as u8;
            seq!("Vector", vector::<P, W>(&keys(common), junk, bits, |v| W(E::new(v))), push_back)
        }
        Fam::RMap => map!("RedBlackTreeMap", seven, rmap::<P>(a, junk, r), BTreeMap<u32, PW>),
        _ => {
            let h = SimBuild::new(r.below(u64::from(crate::elem::HASH_MODES)) as u8, r.u64());
            let d = *r.pick(&[2u8, 4, 8, 16, 32, 64]);
            map!("HashTrieMap", two, hmap::<P>(a, junk, d, h, r), HashMap<u32, PW>)
        }
    }
}

/// Contents related to `m`: the same, nearly the same, or cut off.
fn variant(m: &[(u32, u32)], seq: bool, r: &mut Rng) -> Vec<(u32, u32)> {
    let mut b = m.to_vec();
    let set = |e: &mut (u32, u32), f: &dyn Fn(u32) -> u32| if seq { e.0 = f(e.0) } else { e.1 = f(e.1) };
    match r.below(6) {
        0 => {}
        1 if !b.is_empty() => {
            let n = b.len() as u64;
            b.truncate(r.below(n) as usize);
        }
        2 => b.push((JUNK / 2, r.u32() & 31)),
        3 if !b.is_empty() => {
            // Equal, but not identical.
            for e in &mut b {
                set(e, &|v| v ^ 1);
            }
        }
        4 if !seq && !b.is_empty() => {
            // Another key, the same values.
            let n = b.len() as u64;
            b[r.below(n) as usize].0 = JUNK / 2;
        }
        _ if !b.is_empty() => {
            let n = b.len() as u64;
            let i = r.below(n) as usize;
            let v = r.u32() & 31;
            set(&mut b[i], &|_| v);
        }
        _ => {}
    }
    b
}

pub fn exec(w: &World, op: &Op, m: &[(u32, u32)]) {
    let mut r = Rng::new(u64::from(op.b) << 32 | u64::from(op.a) | 1 << 63);
    let f = match w.spec.conf.fam {
        Fam::HSet => Fam::HMap,
        Fam::RSet => Fam::RMap,
        f => f,
    };
    let seq = f.seq();
    // At most one irregular element in most cases, so that there is something to compare.
    let keep = r.below(4);
    let spared = if m.is_empty() { 0 } else { r.below(m.len() as u64) as usize };
    let mut a: Vec<(u32, u32)> = m.iter().take(200).copied().collect();
    for (i, e) in a.iter_mut().enumerate() {
        let x = if seq { &mut e.0 } else { &mut e.1 };
        *x &= 31;
        if keep == 0 || keep < 3 && i != spared {
            *x |= 2;
        }
    }
    if !seq {
        a.sort_unstable_by_key(|e| e.0);
        a.dedup_by_key(|e| e.0);
    }
    let mut b = variant(&a, seq, &mut r);
    // A map is compared with its own clone only where the listed finding is looked for, or where every
    // value equals itself.
    let reflexive = a.iter().all(|e| !irregular(e.1));
    let listed = op.code & 1 == 1;
    let itself = if listed { true } else { r.chance(1, 4) && (seq || reflexive) };
    let kinds = r.below(6);
    let sharing = !itself && r.chance(1, 3);
    let (o, _) = g(op.mask, op.nth, || match kinds {
        _ if sharing => {
            let x;
            (x, b) = match kinds {
                0..=3 => related::<SimK>(f, &a, &mut r),
                4 => related::<RcK>(f, &a, &mut r),
                _ => related::<ArcTK>(f, &a, &mut r),
            };
            x
        }
        0 => compare::<SimK, SimK>(f, &a, &b, itself, &mut r),
        1 => compare::<SimK, RcK>(f, &a, &b, itself, &mut r),
        2 => compare::<RcK, SimK>(f, &a, &b, itself, &mut r),
        3 => compare::<ArcTK, SimK>(f, &a, &b, itself, &mut r),
        4 => compare::<RcK, RcK>(f, &a, &b, itself, &mut r),
        _ => compare::<ArcTK, ArcTK>(f, &a, &b, itself, &mut r),
    });
    match o {
        Out::Ok(x) => {
            w.check_done();
            if x.got != x.want {
                let b = if itself { &a } else { &b };
                let class = if listed && !reflexive && x.got.0 && !x.want.0 { "equal-by-identity" } else { "wrong-relation" };
                violate(
                    class,
                    &format!(
                        "{}: comparing {} with {}{}: {}; expected {}",
                        x.what,
                        show(&a),
                        show(b),
                        if itself { " (its own clone)" } else { "" },
                        words(x.got),
                        words(x.want)
                    ),
                );
            }
        }
        Out::Injected(_) => w.cov.borrow_mut().injected[PART as usize] += 1,
        Out::Panic(t) => {
            if w.has(F_PANIC) {
                violate("unexpected-panic", &format!("comparing partially ordered elements: {t}"));
            }
        }
    }
}
