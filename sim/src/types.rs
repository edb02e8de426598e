//! Elements of other types: of no size, of one byte, large, owning memory, borrowed, collections
//! themselves.  The same histories must have the same answers, whatever is stored.

use crate::ds::Fam;
use crate::elem::{SimBuild, HASH_MODES};
use crate::pool::*;
use crate::ptr::SimK;
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::*;
use simrt::{site, violate, Rng};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::num::NonZeroU8;

thread_local! {
    /// Instances of `Unit` alive, and operations that might have some.
    static UNITS: Cell<(i64, u32)> = const { Cell::new((0, 0)) };
}

pub fn reset() {
    UNITS.with(|u| u.set((0, 0)));
}

/// Has no size, but a destructor.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Unit;
impl Unit {
    fn new() -> Unit {
        UNITS.with(|u| u.set((u.get().0 + 1, u.get().1)));
        Unit
    }
}
impl Clone for Unit {
    fn clone(&self) -> Unit {
        Unit::new()
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.with(|u| {
            u.set((u.get().0 - 1, u.get().1));
            if u.get().0 < 0 {
                violate("element-released-twice", "an element of no size was released twice");
            }
        });
    }
}

trait Ty: Clone + Ord + Hash + Debug {
    fn of(x: u32) -> Self;
}
impl Ty for () {
    fn of(_: u32) {}
}
impl Ty for Unit {
    fn of(_: u32) -> Unit {
        Unit::new()
    }
}
impl Ty for bool {
    fn of(x: u32) -> bool {
        x & 1 == 1
    }
}
impl Ty for u8 {
    fn of(x: u32) -> u8 {
        x as u8
    }
}
impl Ty for u64 {
    fn of(x: u32) -> u64 {
        u64::from(x) << 32 | u64::from(x)
    }
}
impl Ty for [u64; 24] {
    fn of(x: u32) -> [u64; 24] {
        let mut a = [7; 24];
        a[x as usize % 24] = u64::from(x);
        a
    }
}
impl Ty for String {
    fn of(x: u32) -> String {
        if x == 0 { String::new() } else { format!("element number {x}") }
    }
}
impl Ty for Box<u16> {
    fn of(x: u32) -> Box<u16> {
        Box::new(x as u16)
    }
}
impl Ty for &'static str {
    fn of(x: u32) -> &'static str {
        &"the quick brown fox"[x as usize % 9..][..x as usize / 9 % 10]
    }
}
impl Ty for Option<NonZeroU8> {
    fn of(x: u32) -> Option<NonZeroU8> {
        NonZeroU8::new(x as u8)
    }
}
impl<P: SharedPointerKind> Ty for List<u32, P> {
    fn of(x: u32) -> List<u32, P> {
        let mut l = List::new_with_ptr_kind();
        for i in 0..x % 5 {
            l.push_front_mut(x / 5 + i);
        }
        l
    }
}
impl<P: SharedPointerKind> Ty for Vector<Queue<u8, P>, P> {
    fn of(x: u32) -> Vector<Queue<u8, P>, P> {
        let mut v = Vector::new_with_bits(1);
        for i in 0..x % 4 {
            let mut q = Queue::new_with_ptr_kind();
            for k in 0..i {
                q.enqueue_mut((x / 4 + k) as u8);
            }
            v.push_back_mut(q);
        }
        v
    }
}

fn same<X: PartialEq + Debug>(what: &str, got: X, want: X) {
    if got != want {
        let cut = |x: &X| format!("{x:?}").chars().take(300).collect::<String>();
        violate("wrong-result", &format!("elements of type {}: {what}: {}, expected {}", std::any::type_name::<X>(), cut(&got), cut(&want)));
    }
}

fn hash<X: Hash>(x: &X) -> u64 {
    SimBuild::new(0, 1).hash_one(x)
}

/// A sequence as `Vec<T>` is one: elements are added at one end, and removed at one.
trait Seq<T>: Clone + Ord + Hash + Debug {
    /// Adding is at the front.
    const FRONT: bool;
    /// Removing is at the front.
    const POP: bool;
    fn empty(r: &mut Rng) -> Self;
    fn put(&mut self, x: T, derive: bool);
    fn del(&mut self, derive: bool) -> bool;
    fn n(&self) -> usize;
    fn empty_is(&self) -> bool;
    fn ends(&self) -> (Option<&T>, Option<&T>);
    fn all(&self) -> Vec<&T>;
    fn more(&mut self, _: Vec<T>) -> bool {
        false
    }
    /// What only this collection has; `false` if nothing.
    fn special(&mut self, _: &mut Vec<T>, _: u32, _: T, _: bool) -> bool {
        false
    }
}

macro_rules! seq {
    ($c:ident, $front:expr, $pop:expr, $put:ident / $put_mut:ident, $del:ident / $del_mut:ident, $len:ident, $new:expr, ($s:ident $ends:expr), $more:expr, $special:expr) => {
        impl<T: Ty, P: SharedPointerKind> Seq<T> for $c<T, P> {
            const FRONT: bool = $front;
            const POP: bool = $pop;
            fn empty(r: &mut Rng) -> Self {
                $new(r)
            }
            fn put(&mut self, x: T, derive: bool) {
                if derive {
                    *self = self.$put(x);
                } else {
                    self.$put_mut(x);
                }
            }
            fn del(&mut self, derive: bool) -> bool {
                if !derive {
                    return self.$del_mut();
                }
                match self.$del() {
                    Some(x) => {
                        *self = x;
                        true
                    }
                    None => false,
                }
            }
            fn n(&self) -> usize {
                self.$len()
            }
            fn empty_is(&self) -> bool {
                self.is_empty()
            }
            fn ends(&self) -> (Option<&T>, Option<&T>) {
                let $s = self;
                $ends
            }
            fn all(&self) -> Vec<&T> {
                self.iter().collect()
            }
            fn more(&mut self, v: Vec<T>) -> bool {
                $more(self, v)
            }
            fn special(&mut self, m: &mut Vec<T>, i: u32, x: T, derive: bool) -> bool {
                $special(self, m, i as usize, x, derive)
            }
        }
    };
}
seq!(List, true, true, push_front / push_front_mut, drop_first / drop_first_mut, len,
    |_| List::new_with_ptr_kind(),
    (l (l.first(), l.last())),
    |_: &mut Self, _| false,
    |l: &mut Self, m: &mut Vec<T>, _, _, derive| {
        if derive { *l = l.reverse() } else { l.reverse_mut() }
        m.reverse();
        true
    });
seq!(Stack, true, true, push / push_mut, pop / pop_mut, size,
    |_| Stack::new_with_ptr_kind(),
    (s (s.peek(), s.iter().last())),
    |_: &mut Self, _| false,
    |_: &mut Self, _: &mut Vec<T>, _, _, _| false);
seq!(Queue, false, true, enqueue / enqueue_mut, dequeue / dequeue_mut, len,
    |_| Queue::new_with_ptr_kind(),
    (s (s.peek(), s.iter().last())),
    |_: &mut Self, _| false,
    |_: &mut Self, _: &mut Vec<T>, _, _, _| false);
seq!(Vector, false, false, push_back / push_back_mut, drop_last / drop_last_mut, len,
    |r: &mut Rng| Vector::new_with_bits(r.range(1, 6) as u8),
    (s (s.first(), s.last())),
    |q: &mut Self, v| { q.extend(v); true },
    |v: &mut Self, m: &mut Vec<T>, i: usize, x: T, derive| {
        let i = i % (m.len() + 1);
        match (i % 3, derive) {
            (0, _) => {
                same("get_mut", v.get_mut(i).map(|e| *e = x.clone()).is_some(), i < m.len());
            }
            (_, true) => {
                let w = v.set(i, x.clone());
                same("set", w.is_some(), i < m.len());
                if let Some(w) = w { *v = w }
            }
            _ => same("set_mut", v.set_mut(i, x.clone()), i < m.len()),
        }
        if i < m.len() {
            m[i] = x.clone();
        }
        same("get", v.get(i), m.get(i));
        true
    });

/// A step in between that the scheduler may use, for pointers that have none of their own.
fn pause() {
    simrt::point(site::Hold);
}

fn observe<T: Ty, S: Seq<T>>(s: &S, m: &Vec<T>) {
    same("length", s.n(), m.len());
    same("is_empty", s.empty_is(), m.is_empty());
    same("ends", s.ends(), (m.first(), m.last()));
    same("content", s.all(), m.iter().collect());
}

fn seq<T: Ty, S: Seq<T>>(n: usize, steps: u32, dom: u32, r: &mut Rng) {
    let mut s = S::empty(r);
    let mut m: Vec<T> = Vec::new();
    let mut kept: Vec<(S, Vec<T>)> = Vec::new();
    let add = |m: &mut Vec<T>, x: T| if S::FRONT { m.insert(0, x) } else { m.push(x) };
    if n > 0 {
        for i in 0..n as u32 {
            s.put(T::of(i % dom), false);
        }
        m = (0..n as u32).map(|i| T::of(i % dom)).collect();
        if S::FRONT {
            m.reverse();
        }
    }
    for _ in 0..steps {
        pause();
        let derive = r.chance(1, 2);
        match r.below(if n > 0 { 10 } else { 16 }) {
            0..=5 => {
                let x = T::of(r.below(u64::from(dom)) as u32);
                s.put(x.clone(), derive);
                add(&mut m, x);
            }
            6 | 7 => {
                same("removal", s.del(derive), !m.is_empty());
                if S::POP && !m.is_empty() {
                    m.remove(0);
                } else {
                    m.pop();
                }
            }
            8 => {
                s.special(&mut m, r.u32(), T::of(r.below(u64::from(dom)) as u32), derive);
            }
            9 | 10 => {
                let k = r.below(10);
                let v: Vec<T> = (0..k).map(|_| T::of(r.below(u64::from(dom)) as u32)).collect();
                if s.more(v.clone()) {
                    // Extending adds at the end for all of them.
                    m.extend(v);
                }
            }
            11 | 12 => kept.push((s.clone(), m.clone())),
            13 if !kept.is_empty() => {
                // Go on from an older version.
                let k = r.below(kept.len() as u64) as usize;
                (s, m) = kept[k].clone();
            }
            14 if !kept.is_empty() => {
                let k = r.below(kept.len() as u64) as usize;
                let (s, m) = kept.swap_remove(k);
                observe(&s, &m);
            }
            _ => same("ends", s.ends(), (m.first(), m.last())),
        }
    }
    observe(&s, &m);
    // The same content, with nothing shared.
    let mut t = S::empty(r);
    let put = |t: &mut S, x: &T| t.put(x.clone(), false);
    if S::FRONT {
        m.iter().rev().for_each(|x| put(&mut t, x));
    } else {
        m.iter().for_each(|x| put(&mut t, x));
    }
    same("equality with the same content", s == t, true);
    same("order with the same content", s.cmp(&t), std::cmp::Ordering::Equal);
    same("hash of the same content", hash(&s), hash(&t));
    for (k, x) in &kept {
        observe(k, x);
        same("equality", s == *k, m == *x);
        same("order", s.cmp(k), m.cmp(x));
    }
    drop(s);
    pause();
    for (k, x) in &kept {
        observe(k, x);
    }
}

trait Map<K, V>: Clone + PartialEq + Debug {
    fn empty(r: &mut Rng) -> Self;
    fn ins(&mut self, k: K, v: V, derive: bool);
    fn del(&mut self, k: &K, derive: bool) -> bool;
    fn look(&self, k: &K) -> Option<&V>;
    fn touch(&mut self, k: &K) -> Option<&mut V>;
    fn n(&self) -> usize;
    fn all(&self) -> Vec<(&K, &V)>;
    fn members(&self) -> Vec<&K>;
}
macro_rules! map {
    ($t:ty, [$($g:tt)*], $new:expr) => {
        impl<K: Ty, V: Ty, P: SharedPointerKind $($g)*> Map<K, V> for $t {
            fn empty(r: &mut Rng) -> Self {
                $new(r)
            }
            fn ins(&mut self, k: K, v: V, derive: bool) {
                if derive { *self = self.insert(k, v) } else { self.insert_mut(k, v) }
            }
            fn del(&mut self, k: &K, derive: bool) -> bool {
                if !derive {
                    return self.remove_mut(k);
                }
                let n = self.size();
                *self = self.remove(k);
                self.size() < n
            }
            fn look(&self, k: &K) -> Option<&V> {
                self.get(k)
            }
            fn touch(&mut self, k: &K) -> Option<&mut V> {
                self.get_mut(k)
            }
            fn n(&self) -> usize {
                self.size()
            }
            fn all(&self) -> Vec<(&K, &V)> {
                let mut v: Vec<_> = self.iter().collect();
                v.sort_by(|a, b| a.0.cmp(b.0));
                v
            }
            fn members(&self) -> Vec<&K> {
                let mut v: Vec<_> = self.keys().collect();
                v.sort();
                v
            }
        }
    };
}
fn build(r: &mut Rng) -> (SimBuild, u8) {
    (SimBuild::new(r.below(u64::from(HASH_MODES)) as u8, r.u64()), *r.pick(&[2u8, 4, 8, 16, 32, 64]))
}
map!(HashTrieMap<K, V, P, SimBuild>, [], |r: &mut Rng| {
    let (h, d) = build(r);
    HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(h, d)
});
map!(RedBlackTreeMap<K, V, P>, [], |_: &mut Rng| RedBlackTreeMap::new_with_ptr_kind());

/// A set together with nothing.
#[derive(Clone, Debug)]
struct Set<S>(S, ());
impl<S: PartialEq> PartialEq for Set<S> {
    fn eq(&self, o: &Set<S>) -> bool {
        self.0 == o.0
    }
}
macro_rules! set {
    ($t:ty, $new:expr) => {
        impl<K: Ty, P: SharedPointerKind> Map<K, ()> for Set<$t> {
            fn empty(r: &mut Rng) -> Self {
                Set($new(r), ())
            }
            fn ins(&mut self, k: K, _: (), derive: bool) {
                if derive { self.0 = self.0.insert(k) } else { self.0.insert_mut(k) }
            }
            fn del(&mut self, k: &K, derive: bool) -> bool {
                if !derive {
                    return self.0.remove_mut(k);
                }
                let n = self.0.size();
                self.0 = self.0.remove(k);
                self.0.size() < n
            }
            fn look(&self, k: &K) -> Option<&()> {
                same("contains and get", self.0.contains(k), self.0.get(k) == Some(k));
                self.0.get(k).map(|_| &self.1)
            }
            fn touch(&mut self, k: &K) -> Option<&mut ()> {
                if self.0.contains(k) { Some(&mut self.1) } else { None }
            }
            fn n(&self) -> usize {
                self.0.size()
            }
            fn all(&self) -> Vec<(&K, &())> {
                self.members().into_iter().map(|k| (k, &self.1)).collect()
            }
            fn members(&self) -> Vec<&K> {
                let mut v: Vec<_> = self.0.iter().collect();
                v.sort();
                v
            }
        }
    };
}
set!(HashTrieSet<K, P, SimBuild>, |r: &mut Rng| {
    let (h, d) = build(r);
    HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(h, d)
});
set!(RedBlackTreeSet<K, P>, |_: &mut Rng| RedBlackTreeSet::new_with_ptr_kind());

fn observe_map<K: Ty, V: Ty, C: Map<K, V>>(c: &C, m: &BTreeMap<K, V>) {
    same("size", c.n(), m.len());
    same("content", c.all(), m.iter().collect());
    same("keys", c.members(), m.keys().collect());
}

fn map<K: Ty, V: Ty, C: Map<K, V>>(n: usize, steps: u32, dom: u32, r: &mut Rng) {
    let mut c = C::empty(r);
    let mut m: BTreeMap<K, V> = BTreeMap::new();
    let mut kept: Vec<(C, BTreeMap<K, V>)> = Vec::new();
    for i in 0..n as u32 {
        let (k, v) = (K::of(i), V::of(i % dom));
        c.ins(k.clone(), v.clone(), false);
        m.insert(k, v);
    }
    for _ in 0..steps {
        pause();
        let derive = r.chance(1, 2);
        let k = K::of(r.below(u64::from(dom)) as u32);
        match r.below(if n > 0 { 9 } else { 14 }) {
            0..=4 => {
                let v = V::of(r.below(u64::from(dom)) as u32);
                c.ins(k.clone(), v.clone(), derive);
                m.insert(k, v);
            }
            5 | 6 => same("removal", c.del(&k, derive), m.remove(&k).is_some()),
            7 => {
                let v = V::of(r.below(u64::from(dom)) as u32);
                let (x, y) = (c.touch(&k), m.get_mut(&k));
                same("get_mut", x.as_deref(), y.as_deref());
                if let (Some(x), Some(y)) = (x, y) {
                    *x = v.clone();
                    *y = v;
                }
            }
            8 | 9 => same("get", c.look(&k), m.get(&k)),
            10 | 11 => kept.push((c.clone(), m.clone())),
            12 if !kept.is_empty() => {
                let i = r.below(kept.len() as u64) as usize;
                (c, m) = kept[i].clone();
            }
            13 if !kept.is_empty() => {
                let i = r.below(kept.len() as u64) as usize;
                let (c, m) = kept.swap_remove(i);
                observe_map(&c, &m);
            }
            _ => same("size", c.n(), m.len()),
        }
    }
    observe_map(&c, &m);
    let mut t = C::empty(r);
    for (k, v) in &m {
        t.ins(k.clone(), v.clone(), false);
    }
    same("equality with the same content", c == t, true);
    for (k, x) in &kept {
        observe_map(k, x);
        same("equality", c == *k, m == *x);
    }
    drop(c);
    pause();
    for (k, x) in &kept {
        observe_map(k, x);
    }
}

fn family<T: Ty, V: Ty, P: SharedPointerKind>(f: Fam, n: usize, steps: u32, dom: u32, r: &mut Rng) {
    match f {
        Fam::List => seq::<T, List<T, P>>(n, steps, dom, r),
        Fam::Stack => seq::<T, Stack<T, P>>(n, steps, dom, r),
        Fam::Queue => seq::<T, Queue<T, P>>(n, steps, dom, r),
        Fam::Vector => seq::<T, Vector<T, P>>(n, steps, dom, r),
        Fam::HMap => map::<T, V, HashTrieMap<T, V, P, SimBuild>>(n, steps, dom, r),
        Fam::RMap => map::<T, V, RedBlackTreeMap<T, V, P>>(n, steps, dom, r),
        Fam::HSet => map::<T, (), Set<HashTrieSet<T, P, SimBuild>>>(n, steps, dom, r),
        Fam::RSet => map::<T, (), Set<RedBlackTreeSet<T, P>>>(n, steps, dom, r),
    }
}

fn types<P: SharedPointerKind>(f: Fam, which: u64, n: usize, steps: u32, dom: u32, r: &mut Rng) {
    match which {
        0 => family::<(), Unit, P>(f, n, steps, dom, r),
        1 => family::<Unit, u64, P>(f, n, steps, dom, r),
        2 => family::<bool, (), P>(f, n, steps, dom, r),
        3 => family::<u8, bool, P>(f, n, steps, dom, r),
        4 => family::<u64, [u64; 24], P>(f, n, steps, dom, r),
        5 => family::<[u64; 24], u8, P>(f, n, steps, dom, r),
        6 => family::<String, Box<u16>, P>(f, n, steps, dom, r),
        7 => family::<Box<u16>, String, P>(f, n, steps, dom, r),
        8 => family::<&'static str, List<u32, P>, P>(f, n, steps, dom, r),
        9 => family::<Option<NonZeroU8>, &'static str, P>(f, n, steps, dom, r),
        10 => family::<List<u32, P>, Vector<Queue<u8, P>, P>, P>(f, n, steps, dom, r),
        _ => family::<Vector<Queue<u8, P>, P>, Option<NonZeroU8>, P>(f, n, steps, dom, r),
    }
}

pub fn exec(w: &World, op: &Op, n: usize) {
    let mut r = Rng::new(u64::from(op.b) << 32 | u64::from(op.a) | 1 << 63);
    let f = w.spec.conf.fam;
    let which = r.below(12);
    let kind = r.below(3);
    let dom = *r.pick(&[2u32, 6, 30, 250]);
    // Colliding entries take quadratically long.
    let n = if matches!(f, Fam::HMap | Fam::HSet) { n % 1200 } else { n };
    let steps = if n > 0 { 8 } else { 4 + r.below(60) as u32 };
    UNITS.with(|u| u.set((u.get().0, u.get().1 + 1)));
    let (o, _) = g(0, 0, || match kind {
        0 => types::<SimK>(f, which, n, steps, dom, &mut r),
        1 => types::<RcK>(f, which, n, steps, dom, &mut r),
        _ => types::<ArcTK>(f, which, n, steps, dom, &mut r),
    });
    UNITS.with(|u| u.set((u.get().0, u.get().1 - 1)));
    w.check_done();
    if let Out::Panic(t) = o {
        if w.has(F_PANIC) {
            violate("unexpected-panic", &format!("elements of another type: {t}"));
        }
        return;
    }
    UNITS.with(|u| {
        if u.get().1 == 0 && u.get().0 != 0 {
            violate("element-leaked", &format!("{} elements of no size were never released", u.get().0));
        }
    });
}
