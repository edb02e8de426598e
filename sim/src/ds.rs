//! The collections under test behind one object-safe interface, and the reference models.

use crate::elem::{DefaultH, FeedHasher, SimH, E, Q};
use crate::ptr::SimK;
use archery::{ArcTK, RcK, SharedPointerKind};
use rpds::{
    HashTrieMap, HashTrieSet, List, Queue, RedBlackTreeMap, RedBlackTreeSet, Stack, Vector,
};
use simrt::{point, site};
use std::any::Any;
use std::cmp::Ordering;
use std::fmt;
use std::hash::Hash;
use std::io;
use std::ops::Bound;

/// A plain sequence (second component 0) or a dictionary sorted by key (sets: value 0).
pub type M = Vec<(u32, u32)>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fam {
    List,
    Stack,
    Queue,
    Vector,
    HMap,
    HSet,
    RMap,
    RSet,
}
pub const FAMS: [Fam; 8] = [
    Fam::List,
    Fam::Stack,
    Fam::Queue,
    Fam::Vector,
    Fam::HMap,
    Fam::HSet,
    Fam::RMap,
    Fam::RSet,
];
impl Fam {
    pub fn idx(self) -> u8 {
        FAMS.iter().position(|f| *f == self).unwrap() as u8
    }
    pub fn seq(self) -> bool {
        matches!(self, Fam::List | Fam::Stack | Fam::Queue | Fam::Vector)
    }
    pub fn hash(self) -> bool {
        matches!(self, Fam::HMap | Fam::HSet)
    }
    pub fn rb(self) -> bool {
        matches!(self, Fam::RMap | Fam::RSet)
    }
    pub fn map(self) -> bool {
        matches!(self, Fam::HMap | Fam::RMap)
    }
    pub fn set(self) -> bool {
        matches!(self, Fam::HSet | Fam::RSet)
    }
    pub fn double_ended(self) -> bool {
        self.rb() || self == Fam::Vector
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Sim,
    Arc,
    Rc,
}
pub const KINDS: [Kind; 3] = [Kind::Sim, Kind::Arc, Kind::Rc];

/// One element or entry as seen through a read path, with the instances it is made of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Item {
    pub a: u32,
    pub b: u32,
    pub ia: u32,
    pub ib: u32,
}
impl Item {
    pub fn ab(&self) -> (u32, u32) {
        (self.a, self.b)
    }
}
fn it1(e: &E) -> Item {
    Item { a: e.v(), b: 0, ia: e.inst(), ib: 0 }
}
fn itv(e: &E) -> Item {
    Item { a: 0, b: e.v(), ia: 0, ib: e.inst() }
}
fn it2((k, v): (&E, &E)) -> Item {
    Item { a: k.v(), b: v.v(), ia: k.inst(), ib: v.inst() }
}

// --- iterators --------------------------------------------------------------------------------

pub trait It {
    fn next(&mut self) -> Option<Item>;
    /// Outer `None`: not double ended.
    fn next_back(&mut self) -> Option<Option<Item>>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn nth_back(&mut self, n: usize) -> Option<Option<Item>>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item>;
    fn fold(self: Box<Self>) -> Vec<Item>;
    fn rfold(self: Box<Self>) -> Option<Vec<Item>>;
    fn double(&self) -> bool;
}
struct WF<I>(I, fn(&I) -> Option<usize>);
struct WD<I>(I, fn(&I) -> Option<usize>);
macro_rules! it_common {
    () => {
        fn next(&mut self) -> Option<Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
        fn len(&self) -> Option<usize> {
            (self.1)(&self.0)
        }
        fn nth(&mut self, n: usize) -> Option<Item> {
            self.0.nth(n)
        }
        fn count(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn last(self: Box<Self>) -> Option<Item> {
            self.0.last()
        }
        fn fold(self: Box<Self>) -> Vec<Item> {
            self.0.fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            })
        }
    };
}
impl<I: Iterator<Item = Item>> It for WF<I> {
    it_common!();
    fn next_back(&mut self) -> Option<Option<Item>> {
        None
    }
    fn nth_back(&mut self, _: usize) -> Option<Option<Item>> {
        None
    }
    fn rfold(self: Box<Self>) -> Option<Vec<Item>> {
        None
    }
    fn double(&self) -> bool {
        false
    }
}
impl<I: DoubleEndedIterator<Item = Item>> It for WD<I> {
    it_common!();
    fn next_back(&mut self) -> Option<Option<Item>> {
        Some(self.0.next_back())
    }
    fn nth_back(&mut self, n: usize) -> Option<Option<Item>> {
        Some(self.0.nth_back(n))
    }
    fn rfold(self: Box<Self>) -> Option<Vec<Item>> {
        Some(self.0.rfold(Vec::new(), |mut v, x| {
            v.push(x);
            v
        }))
    }
    fn double(&self) -> bool {
        true
    }
}
fn fwd<'a, I: ExactSizeIterator<Item = Item> + 'a>(i: I) -> Box<dyn It + 'a> {
    Box::new(WF(i, |i: &I| Some(i.len())))
}
fn pln<'a, I: Iterator<Item = Item> + 'a>(i: I) -> Box<dyn It + 'a> {
    Box::new(WF(i, |_: &I| None))
}
fn dbl<'a, I: ExactSizeIterator<Item = Item> + DoubleEndedIterator + 'a>(i: I) -> Box<dyn It + 'a> {
    Box::new(WD(i, |i: &I| Some(i.len())))
}
fn rng<'a, I: DoubleEndedIterator<Item = Item> + 'a>(i: I) -> Box<dyn It + 'a> {
    Box::new(WD(i, |_: &I| None))
}

pub const IT_ENTRIES: u8 = 0;
pub const IT_KEYS: u8 = 1;
pub const IT_VALUES: u8 = 2;
pub const IT_INTO: u8 = 3;

// --- operations -------------------------------------------------------------------------------

/// A modification.  Codes per family: see `mu_name`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mu {
    pub code: u8,
    pub a: u32,
    pub b: u32,
}

pub fn n_mu(f: Fam) -> u8 {
    match f {
        Fam::List => 3,
        Fam::Stack | Fam::Queue => 2,
        Fam::Vector => 5,
        Fam::HMap | Fam::RMap => 3,
        Fam::HSet | Fam::RSet => 2,
    }
}
pub fn mu_name(f: Fam, code: u8) -> &'static str {
    match (f, code) {
        (Fam::List, 0) => "push_front",
        (Fam::List, 1) => "drop_first",
        (Fam::List, _) => "reverse",
        (Fam::Stack, 0) => "push",
        (Fam::Stack, _) => "pop",
        (Fam::Queue, 0) => "enqueue",
        (Fam::Queue, _) => "dequeue",
        (Fam::Vector, 0) => "push_back",
        (Fam::Vector, 1) => "drop_last",
        (Fam::Vector, 2) => "set",
        (Fam::Vector, 3) => "get_mut",
        (Fam::Vector, _) => "index_mut",
        (_, 0) => "insert",
        (_, 1) => "remove",
        (_, _) => "get_mut",
    }
}
/// Whether the modification has a deriving form.
pub fn can_derive(f: Fam, code: u8) -> bool {
    match f {
        Fam::Vector => code < 3,
        Fam::HMap | Fam::RMap => code < 2,
        _ => true,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ret {
    Unit,
    Bool(bool),
    /// The operation is documented to panic.
    Panic,
}

pub fn model_apply(f: Fam, m: &mut M, mu: &Mu) -> Ret {
    let n = m.len();
    match (f, mu.code) {
        (Fam::List, 0) | (Fam::Stack, 0) => {
            m.insert(0, (mu.a, 0));
            Ret::Unit
        }
        (Fam::List, 1) | (Fam::Stack, _) | (Fam::Queue, 1) => {
            if n > 0 {
                m.remove(0);
            }
            Ret::Bool(n > 0)
        }
        (Fam::List, _) => {
            m.reverse();
            Ret::Unit
        }
        (Fam::Queue, _) | (Fam::Vector, 0) => {
            m.push((mu.a, 0));
            Ret::Unit
        }
        (Fam::Vector, 1) => Ret::Bool(m.pop().is_some()),
        (Fam::Vector, c) => {
            let i = mu.a as usize;
            if i < n {
                m[i] = (mu.b, 0);
                Ret::Bool(true)
            } else if c == 4 {
                Ret::Panic
            } else {
                Ret::Bool(false)
            }
        }
        (_, 0) => {
            let v = if f.map() { mu.b } else { 0 };
            match m.binary_search_by_key(&mu.a, |e| e.0) {
                Ok(i) => m[i] = (mu.a, v),
                Err(i) => m.insert(i, (mu.a, v)),
            }
            Ret::Unit
        }
        (_, 1) => match m.binary_search_by_key(&mu.a, |e| e.0) {
            Ok(i) => {
                m.remove(i);
                Ret::Bool(true)
            }
            Err(_) => Ret::Bool(false),
        },
        (_, _) => match m.binary_search_by_key(&mu.a, |e| e.0) {
            Ok(i) => {
                m[i].1 = mu.b;
                Ret::Bool(true)
            }
            Err(_) => Ret::Bool(false),
        },
    }
}

/// Elements consumed by the modification when it is handed its arguments.
pub fn model_lookup(m: &M, k: u32) -> Option<(u32, u32)> {
    m.binary_search_by_key(&k, |e| e.0).ok().map(|i| m[i])
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val {
    N(usize),
    B(bool),
    O(Option<(u32, u32)>),
    Panic,
}

pub const Q_LEN: u8 = 0;
pub const Q_EMPTY: u8 = 1;
pub const Q_FIRST: u8 = 2;
pub const Q_LAST: u8 = 3;
pub const Q_GET: u8 = 4;
pub const Q_GET_OWNED: u8 = 5;
pub const Q_CONTAINS: u8 = 6;
pub const Q_KV: u8 = 7;
pub const Q_INDEX: u8 = 8;
pub const NQ: u8 = 9;
pub const QUERY_NAMES: [&str; 9] = [
    "len", "is_empty", "first", "last", "get", "get(&K)", "contains", "get_key_value", "index",
];

pub fn supports(f: Fam, q: u8) -> bool {
    match q {
        Q_LEN | Q_EMPTY => true,
        Q_FIRST => !f.hash(),
        Q_LAST => matches!(f, Fam::List | Fam::Vector | Fam::RMap | Fam::RSet),
        Q_GET => !matches!(f, Fam::List | Fam::Stack | Fam::Queue),
        Q_GET_OWNED | Q_CONTAINS => !f.seq(),
        Q_KV => f.map(),
        Q_INDEX => f.map() || f == Fam::Vector,
        _ => false,
    }
}

pub fn model_query(f: Fam, m: &M, q: u8, a: u32) -> Val {
    match q {
        Q_LEN => Val::N(m.len()),
        Q_EMPTY => Val::B(m.is_empty()),
        Q_FIRST => Val::O(m.first().copied()),
        Q_LAST => Val::O(m.last().copied()),
        _ if f == Fam::Vector => match (m.get(a as usize), q) {
            (Some(x), _) => Val::O(Some(*x)),
            (None, Q_INDEX) => Val::Panic,
            (None, _) => Val::O(None),
        },
        Q_CONTAINS => Val::B(model_lookup(m, a).is_some()),
        Q_KV => Val::O(model_lookup(m, a)),
        Q_INDEX => match model_lookup(m, a) {
            Some((_, v)) => Val::O(Some((0, v))),
            None => Val::Panic,
        },
        _ => Val::O(model_lookup(m, a).map(|(k, v)| if f.map() { (0, v) } else { (k, 0) })),
    }
}

pub const R_EQ: u8 = 0;
pub const R_NE: u8 = 1;
pub const R_PCMP: u8 = 2;
pub const R_CMP: u8 = 3;
pub const R_SUBSET: u8 = 4;
pub const R_SUPERSET: u8 = 5;
pub const R_DISJOINT: u8 = 6;
pub const R_LT: u8 = 7;
pub const R_LE: u8 = 8;
pub const NR: u8 = 9;
pub const REL_NAMES: [&str; 9] =
    ["eq", "ne", "partial_cmp", "cmp", "is_subset", "is_superset", "is_disjoint", "lt", "le"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    B(bool),
    O(Option<Ordering>),
    /// Not available for this pair of types.
    NA,
}

pub fn model_relate(f: Fam, x: &M, y: &M, r: u8) -> Rel {
    let keys_in = |p: &M, q: &M| p.iter().all(|e| model_lookup(q, e.0).is_some());
    match r {
        R_EQ => Rel::B(x == y),
        R_NE => Rel::B(x != y),
        R_PCMP | R_CMP if !f.hash() => Rel::O(Some(x.cmp(y))),
        R_LT if !f.hash() => Rel::B(x < y),
        R_LE if !f.hash() => Rel::B(x <= y),
        R_SUBSET if f.set() => Rel::B(keys_in(x, y)),
        R_SUPERSET if f.set() => Rel::B(keys_in(y, x)),
        R_DISJOINT if f.set() => Rel::B(x.iter().all(|e| model_lookup(y, e.0).is_none())),
        _ => Rel::NA,
    }
}

/// What a clone cost and whether it is the same in memory as its source.
pub struct CloneCost {
    pub allocs: u64,
    pub nodes: u64,
    pub el_clones: u64,
    pub ptr_eq: Option<bool>,
}

pub trait Coll: 'static {
    fn any(&self) -> &dyn Any;
    fn fam(&self) -> Fam;
    fn kind(&self) -> Kind;
    fn dup(&self) -> Box<dyn Coll>;
    fn clone_cost(&self) -> CloneCost;
    /// In-place form.
    fn apply(&mut self, m: &Mu) -> Ret;
    /// Deriving form; `None` when the operation reports failure.
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>>;
    fn query(&self, q: u8, a: u32) -> Val;
    fn iter(&self, which: u8) -> Box<dyn It + '_>;
    fn range(&self, _lo: Bound<u32>, _hi: Bound<u32>) -> Option<Box<dyn It + '_>> {
        None
    }
    fn relate(&self, o: &dyn Coll, r: u8) -> Rel;
    fn ptr_eq(&self, o: &dyn Coll) -> Option<bool>;
    fn feed(&self, h: &mut FeedHasher) -> bool;
    fn ser_json(&self, w: &mut dyn io::Write) -> Result<(), serde_json::Error>;
    fn ser_tok(&self, t: &mut crate::ser::Tok) -> Result<(), crate::ser::TokErr>;
    fn show(&self, w: &mut dyn fmt::Write, debug: bool) -> fmt::Result;
    fn extend(&mut self, it: &mut dyn Iterator<Item = (u32, u32)>) -> bool;
    /// Obtains a reference to some element (chosen by `a`) and passes it on.
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool;
}

/// Static part: construction.
pub trait Conc: Coll + Sized {
    fn fresh(c: &Conf) -> Self;
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self;
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}

/// How a run's collections are configured.
#[derive(Clone, Copy, Debug)]
pub struct Conf {
    pub fam: Fam,
    pub kind: Kind,
    /// Hash collections under the default hasher.
    pub rnd: bool,
    pub hmode: u8,
    pub hseed: u64,
    pub degree: u8,
    pub bits: u8,
}

pub trait Maker {
    fn fresh(&self, c: &Conf) -> Box<dyn Coll>;
    fn collect(&self, it: &mut dyn Iterator<Item = (u32, u32)>) -> Box<dyn Coll>;
    fn de_json(&self, r: &mut dyn io::Read) -> Result<Box<dyn Coll>, serde_json::Error>;
    fn de_src(&self, s: crate::ser::Src) -> Result<Box<dyn Coll>, crate::ser::TokErr>;
}
struct Mk<C>(std::marker::PhantomData<C>);
impl<C: Conc> Maker for Mk<C> {
    fn fresh(&self, c: &Conf) -> Box<dyn Coll> {
        Box::new(C::fresh(c))
    }
    fn collect(&self, it: &mut dyn Iterator<Item = (u32, u32)>) -> Box<dyn Coll> {
        Box::new(C::collect(it))
    }
    fn de_json(&self, r: &mut dyn io::Read) -> Result<Box<dyn Coll>, serde_json::Error> {
        let mut d = serde_json::Deserializer::from_reader(r);
        let c = C::de(&mut d)?;
        d.end()?;
        Ok(Box::new(c))
    }
    fn de_src(&self, s: crate::ser::Src) -> Result<Box<dyn Coll>, crate::ser::TokErr> {
        Ok(Box::new(C::de(s)?))
    }
}
fn mk<C: Conc>() -> Box<dyn Maker> {
    Box::new(Mk::<C>(std::marker::PhantomData))
}

pub fn maker(c: &Conf) -> Box<dyn Maker> {
    use crate::elem::SimBuild;
    macro_rules! k {
        ($($t:ty, $s:ty, $r:ty);*) => {
            match c.kind { Kind::Sim => mk::<$($s)*>(), Kind::Arc => mk::<$($t)*>(), Kind::Rc => mk::<$($r)*>() }
        };
    }
    match c.fam {
        Fam::List => k!(List<E, ArcTK>, List<E, SimK>, List<E, RcK>),
        Fam::Stack => k!(Stack<E, ArcTK>, Stack<E, SimK>, Stack<E, RcK>),
        Fam::Queue => k!(Queue<E, ArcTK>, Queue<E, SimK>, Queue<E, RcK>),
        Fam::Vector => k!(Vector<E, ArcTK>, Vector<E, SimK>, Vector<E, RcK>),
        Fam::HMap if c.rnd => {
            k!(HashTrieMap<E, E, ArcTK, DefaultH>, HashTrieMap<E, E, SimK, DefaultH>, HashTrieMap<E, E, RcK, DefaultH>)
        }
        Fam::HSet if c.rnd => {
            k!(HashTrieSet<E, ArcTK, DefaultH>, HashTrieSet<E, SimK, DefaultH>, HashTrieSet<E, RcK, DefaultH>)
        }
        Fam::HMap => {
            k!(HashTrieMap<E, E, ArcTK, SimBuild>, HashTrieMap<E, E, SimK, SimBuild>, HashTrieMap<E, E, RcK, SimBuild>)
        }
        Fam::HSet => {
            k!(HashTrieSet<E, ArcTK, SimBuild>, HashTrieSet<E, SimK, SimBuild>, HashTrieSet<E, RcK, SimBuild>)
        }
        Fam::RMap => {
            k!(RedBlackTreeMap<E, E, ArcTK>, RedBlackTreeMap<E, E, SimK>, RedBlackTreeMap<E, E, RcK>)
        }
        Fam::RSet => {
            k!(RedBlackTreeSet<E, ArcTK>, RedBlackTreeSet<E, SimK>, RedBlackTreeSet<E, RcK>)
        }
    }
}

// --- adapters ---------------------------------------------------------------------------------

pub trait PK: SharedPointerKind + 'static {
    const K: Kind;
}
impl PK for SimK {
    const K: Kind = Kind::Sim;
}
impl PK for ArcTK {
    const K: Kind = Kind::Arc;
}
impl PK for RcK {
    const K: Kind = Kind::Rc;
}

fn measure<C>(c: &C, clone: impl Fn(&C) -> C, ptr_eq: impl Fn(&C, &C) -> Option<bool>) -> CloneCost {
    let b = simrt::counters();
    let d = clone(c);
    let a = simrt::counters();
    let pe = ptr_eq(c, &d);
    CloneCost {
        allocs: a.allocs - b.allocs,
        nodes: u64::from(a.site[site::PtrNew as usize] - b.site[site::PtrNew as usize]),
        el_clones: u64::from(a.site[site::ElClone as usize] - b.site[site::ElClone as usize]),
        ptr_eq: pe,
    }
}

fn bx<C: Coll>(c: C) -> Box<dyn Coll> {
    simrt::untracked(move || Box::new(c) as Box<dyn Coll>)
}

fn qb(b: Bound<u32>) -> Bound<Q> {
    match b {
        Bound::Included(v) => Bound::Included(Q::new(v)),
        Bound::Excluded(v) => Bound::Excluded(Q::new(v)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

macro_rules! common {
    ($fam:expr) => {
        fn any(&self) -> &dyn Any {
            self
        }
        fn fam(&self) -> Fam {
            $fam
        }
        fn kind(&self) -> Kind {
            P::K
        }
        fn dup(&self) -> Box<dyn Coll> {
            bx(self.clone())
        }
        fn ser_json(&self, w: &mut dyn io::Write) -> Result<(), serde_json::Error> {
            serde_json::to_writer(w, self)
        }
        fn ser_tok(&self, t: &mut crate::ser::Tok) -> Result<(), crate::ser::TokErr> {
            serde::Serialize::serialize(self, t)
        }
        fn show(&self, w: &mut dyn fmt::Write, debug: bool) -> fmt::Result {
            if debug {
                write!(w, "{:?}", self)
            } else {
                write!(w, "{}", self)
            }
        }
    };
}
macro_rules! ordered_rel {
    ($t1:ty, $t2:ty, $t3:ty) => {
        fn relate(&self, o: &dyn Coll, r: u8) -> Rel {
            macro_rules! on {
                ($o:expr) => {
                    match r {
                        R_EQ => return Rel::B(self == $o),
                        R_NE => return Rel::B(self != $o),
                        R_PCMP => return Rel::O(self.partial_cmp($o)),
                        R_LT => return Rel::B(self < $o),
                        R_LE => return Rel::B(self <= $o),
                        _ => {}
                    }
                };
            }
            if let Some(x) = o.any().downcast_ref::<$t1>() {
                on!(x);
            } else if let Some(x) = o.any().downcast_ref::<$t2>() {
                on!(x);
            } else if let Some(x) = o.any().downcast_ref::<$t3>() {
                on!(x);
            }
            if r == R_CMP {
                if let Some(x) = o.any().downcast_ref::<Self>() {
                    return Rel::O(Some(Ord::cmp(self, x)));
                }
            }
            self.set_rel(o, r)
        }
        fn feed(&self, h: &mut FeedHasher) -> bool {
            self.hash(h);
            true
        }
    };
}
/// Set relations, where the collection is a set.
trait SetRel {
    fn set_rel(&self, _o: &dyn Coll, _r: u8) -> Rel {
        Rel::NA
    }
}
macro_rules! no_ptr_eq {
    () => {
        fn ptr_eq(&self, _: &dyn Coll) -> Option<bool> {
            None
        }
        fn clone_cost(&self) -> CloneCost {
            measure(self, |c| c.clone(), |_, _| None)
        }
    };
}

impl<P: PK> SetRel for List<E, P> {}
impl<P: PK> Coll for List<E, P> {
    common!(Fam::List);
    ordered_rel!(List<E, SimK>, List<E, ArcTK>, List<E, RcK>);
    no_ptr_eq!();
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.push_front_mut(E::new(m.a));
                Ret::Unit
            }
            1 => Ret::Bool(self.drop_first_mut()),
            _ => {
                self.reverse_mut();
                Ret::Unit
            }
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.push_front(E::new(m.a)))),
            1 => self.drop_first().map(bx),
            _ => Some(bx(self.reverse())),
        }
    }
    fn query(&self, q: u8, _: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.len()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_FIRST => Val::O(self.first().map(|e| (e.v(), 0))),
            _ => Val::O(self.last().map(|e| (e.v(), 0))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            fwd(self.into_iter().map(it1))
        } else {
            fwd(self.iter().map(it1))
        }
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match if a & 1 == 0 { self.first() } else { self.last() } {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for List<E, P> {
    fn fresh(c: &Conf) -> Self {
        if c.hseed & 1 == 0 { List::new_with_ptr_kind() } else { Default::default() }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

impl<P: PK> SetRel for Stack<E, P> {}
impl<P: PK> Coll for Stack<E, P> {
    common!(Fam::Stack);
    ordered_rel!(Stack<E, SimK>, Stack<E, ArcTK>, Stack<E, RcK>);
    no_ptr_eq!();
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.push_mut(E::new(m.a));
                Ret::Unit
            }
            _ => Ret::Bool(self.pop_mut()),
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.push(E::new(m.a)))),
            _ => self.pop().map(bx),
        }
    }
    fn query(&self, q: u8, _: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.size()),
            Q_EMPTY => Val::B(self.is_empty()),
            _ => Val::O(self.peek().map(|e| (e.v(), 0))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            fwd(self.into_iter().map(it1))
        } else {
            fwd(self.iter().map(it1))
        }
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, _: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.peek() {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for Stack<E, P> {
    fn fresh(c: &Conf) -> Self {
        if c.hseed & 1 == 0 { Stack::new_with_ptr_kind() } else { Default::default() }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

impl<P: PK> SetRel for Queue<E, P> {}
impl<P: PK> Coll for Queue<E, P> {
    common!(Fam::Queue);
    ordered_rel!(Queue<E, SimK>, Queue<E, ArcTK>, Queue<E, RcK>);
    no_ptr_eq!();
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.enqueue_mut(E::new(m.a));
                Ret::Unit
            }
            _ => Ret::Bool(self.dequeue_mut()),
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.enqueue(E::new(m.a)))),
            _ => self.dequeue().map(bx),
        }
    }
    fn query(&self, q: u8, _: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.len()),
            Q_EMPTY => Val::B(self.is_empty()),
            _ => Val::O(self.peek().map(|e| (e.v(), 0))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            pln(self.into_iter().map(it1))
        } else {
            pln(self.iter().map(it1))
        }
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, _: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.peek() {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for Queue<E, P> {
    fn fresh(c: &Conf) -> Self {
        if c.hseed & 1 == 0 { Queue::new_with_ptr_kind() } else { Default::default() }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

impl<P: PK> SetRel for Vector<E, P> {}
impl<P: PK> Coll for Vector<E, P> {
    common!(Fam::Vector);
    ordered_rel!(Vector<E, SimK>, Vector<E, ArcTK>, Vector<E, RcK>);
    no_ptr_eq!();
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.push_back_mut(E::new(m.a));
                Ret::Unit
            }
            1 => Ret::Bool(self.drop_last_mut()),
            2 => Ret::Bool(self.set_mut(m.a as usize, E::new(m.b))),
            3 => match self.get_mut(m.a as usize) {
                Some(e) => {
                    point(site::Hold);
                    e.set(m.b);
                    point(site::Hold);
                    Ret::Bool(true)
                }
                None => Ret::Bool(false),
            },
            _ => {
                let e = &mut self[m.a as usize];
                point(site::Hold);
                e.set(m.b);
                Ret::Bool(true)
            }
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.push_back(E::new(m.a)))),
            1 => self.drop_last().map(bx),
            _ => self.set(m.a as usize, E::new(m.b)).map(bx),
        }
    }
    fn query(&self, q: u8, a: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.len()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_FIRST => Val::O(self.first().map(|e| (e.v(), 0))),
            Q_LAST => Val::O(self.last().map(|e| (e.v(), 0))),
            Q_GET => Val::O(self.get(a as usize).map(|e| (e.v(), 0))),
            _ => Val::O(Some((self[a as usize].v(), 0))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            dbl(self.into_iter().map(it1))
        } else {
            dbl(self.iter().map(it1))
        }
    }
    fn extend(&mut self, it: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        Extend::extend(self, it.map(|x| E::new(x.0)));
        true
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.get(a as usize % self.len().max(1)) {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for Vector<E, P> {
    fn fresh(c: &Conf) -> Self {
        match c.bits {
            0 => Vector::new_with_ptr_kind(),
            b => Vector::new_with_bits(b),
        }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

macro_rules! hash_rel {
    ($t1:ty, $t2:ty, $t3:ty) => {
        fn relate(&self, o: &dyn Coll, r: u8) -> Rel {
            macro_rules! on {
                ($o:expr) => {
                    match r {
                        R_EQ => return Rel::B(self == $o),
                        R_NE => return Rel::B(self != $o),
                        _ => {}
                    }
                };
            }
            if let Some(x) = o.any().downcast_ref::<$t1>() {
                on!(x);
            } else if let Some(x) = o.any().downcast_ref::<$t2>() {
                on!(x);
            } else if let Some(x) = o.any().downcast_ref::<$t3>() {
                on!(x);
            }
            self.set_rel(o, r)
        }
        fn ptr_eq(&self, o: &dyn Coll) -> Option<bool> {
            if let Some(x) = o.any().downcast_ref::<$t1>() {
                return Some(self.ptr_eq(x));
            } else if let Some(x) = o.any().downcast_ref::<$t2>() {
                return Some(self.ptr_eq(x));
            } else if let Some(x) = o.any().downcast_ref::<$t3>() {
                return Some(self.ptr_eq(x));
            }
            None
        }
        fn clone_cost(&self) -> CloneCost {
            measure(self, |c| c.clone(), |a, b| Some(a.ptr_eq(b)))
        }
        fn feed(&self, _: &mut FeedHasher) -> bool {
            false
        }
    };
}

impl<P: PK, H: SimH> SetRel for HashTrieMap<E, E, P, H> {}
impl<P: PK, H: SimH> Coll for HashTrieMap<E, E, P, H> {
    common!(Fam::HMap);
    hash_rel!(HashTrieMap<E, E, SimK, H>, HashTrieMap<E, E, ArcTK, H>, HashTrieMap<E, E, RcK, H>);
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.insert_mut(E::new(m.a), E::new(m.b));
                Ret::Unit
            }
            1 => Ret::Bool(self.remove_mut(&Q::new(m.a))),
            _ => match self.get_mut(&Q::new(m.a)) {
                Some(e) => {
                    point(site::Hold);
                    e.set(m.b);
                    point(site::Hold);
                    Ret::Bool(true)
                }
                None => Ret::Bool(false),
            },
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.insert(E::new(m.a), E::new(m.b)))),
            _ => Some(bx(self.remove(&Q::new(m.a)))),
        }
    }
    fn query(&self, q: u8, a: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.size()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_GET => Val::O(self.get(&Q::new(a)).map(|e| (0, e.v()))),
            Q_GET_OWNED => Val::O(self.get(&E::new(a)).map(|e| (0, e.v()))),
            Q_CONTAINS => Val::B(self.contains_key(&Q::new(a))),
            Q_KV => Val::O(self.get_key_value(&Q::new(a)).map(|(k, v)| (k.v(), v.v()))),
            _ => Val::O(Some((0, self[&Q::new(a)].v()))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        match which {
            IT_KEYS => fwd(self.keys().map(it1)),
            IT_VALUES => fwd(self.values().map(itv)),
            IT_INTO => fwd(self.into_iter().map(it2)),
            _ => fwd(self.iter().map(it2)),
        }
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.get_key_value(&Q::new(a)).map(|(k, v)| if a & 1 == 0 { k } else { v }) {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK, H: SimH> Conc for HashTrieMap<E, E, P, H> {
    fn fresh(c: &Conf) -> Self {
        if c.degree == 0 {
            HashTrieMap::new_with_hasher_and_ptr_kind(H::make(c.hmode, c.hseed))
        } else {
            HashTrieMap::new_with_hasher_and_degree_and_ptr_kind(H::make(c.hmode, c.hseed), c.degree)
        }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| (E::new(x.0), E::new(x.1))).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

impl<P: PK, H: SimH> SetRel for HashTrieSet<E, P, H> {
    fn set_rel(&self, o: &dyn Coll, r: u8) -> Rel {
        use crate::elem::SimBuild;
            macro_rules! on {
            ($o:expr) => {
                match r {
                    R_SUBSET => return Rel::B(self.is_subset($o)),
                    R_SUPERSET => return Rel::B(self.is_superset($o)),
                    R_DISJOINT => return Rel::B(self.is_disjoint($o)),
                    _ => {}
                }
            };
        }
        if let Some(x) = o.any().downcast_ref::<HashTrieSet<E, P, SimBuild>>() {
            on!(x);
        } else if let Some(x) = o.any().downcast_ref::<HashTrieSet<E, P, DefaultH>>() {
            on!(x);
        }
        Rel::NA
    }
}
impl<P: PK, H: SimH> Coll for HashTrieSet<E, P, H> {
    common!(Fam::HSet);
    hash_rel!(HashTrieSet<E, SimK, H>, HashTrieSet<E, ArcTK, H>, HashTrieSet<E, RcK, H>);
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.insert_mut(E::new(m.a));
                Ret::Unit
            }
            _ => Ret::Bool(self.remove_mut(&Q::new(m.a))),
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.insert(E::new(m.a)))),
            _ => Some(bx(self.remove(&Q::new(m.a)))),
        }
    }
    fn query(&self, q: u8, a: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.size()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_GET => Val::O(self.get(&Q::new(a)).map(|e| (e.v(), 0))),
            Q_GET_OWNED => Val::O(self.get(&E::new(a)).map(|e| (e.v(), 0))),
            _ => Val::B(self.contains(&Q::new(a))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            fwd(self.into_iter().map(it1))
        } else {
            fwd(self.iter().map(it1))
        }
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.get(&Q::new(a)) {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK, H: SimH> Conc for HashTrieSet<E, P, H> {
    fn fresh(c: &Conf) -> Self {
        if c.degree == 0 {
            HashTrieSet::new_with_hasher_with_ptr_kind(H::make(c.hmode, c.hseed))
        } else {
            HashTrieSet::new_with_hasher_and_degree_and_ptr_kind(H::make(c.hmode, c.hseed), c.degree)
        }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

macro_rules! rb_ptr_eq {
    ($t1:ty, $t2:ty, $t3:ty) => {
        fn ptr_eq(&self, o: &dyn Coll) -> Option<bool> {
            if let Some(x) = o.any().downcast_ref::<$t1>() {
                return Some(self.ptr_eq(x));
            } else if let Some(x) = o.any().downcast_ref::<$t2>() {
                return Some(self.ptr_eq(x));
            } else if let Some(x) = o.any().downcast_ref::<$t3>() {
                return Some(self.ptr_eq(x));
            }
            None
        }
        fn clone_cost(&self) -> CloneCost {
            measure(self, |c| c.clone(), |a, b| Some(a.ptr_eq(b)))
        }
    };
}

impl<P: PK> SetRel for RedBlackTreeMap<E, E, P> {}
impl<P: PK> Coll for RedBlackTreeMap<E, E, P> {
    common!(Fam::RMap);
    ordered_rel!(RedBlackTreeMap<E, E, SimK>, RedBlackTreeMap<E, E, ArcTK>, RedBlackTreeMap<E, E, RcK>);
    rb_ptr_eq!(RedBlackTreeMap<E, E, SimK>, RedBlackTreeMap<E, E, ArcTK>, RedBlackTreeMap<E, E, RcK>);
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.insert_mut(E::new(m.a), E::new(m.b));
                Ret::Unit
            }
            1 => Ret::Bool(self.remove_mut(&Q::new(m.a))),
            _ => match self.get_mut(&Q::new(m.a)) {
                Some(e) => {
                    point(site::Hold);
                    e.set(m.b);
                    point(site::Hold);
                    Ret::Bool(true)
                }
                None => Ret::Bool(false),
            },
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.insert(E::new(m.a), E::new(m.b)))),
            _ => Some(bx(self.remove(&Q::new(m.a)))),
        }
    }
    fn query(&self, q: u8, a: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.size()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_FIRST => Val::O(self.first().map(|(k, v)| (k.v(), v.v()))),
            Q_LAST => Val::O(self.last().map(|(k, v)| (k.v(), v.v()))),
            Q_GET => Val::O(self.get(&Q::new(a)).map(|e| (0, e.v()))),
            Q_GET_OWNED => Val::O(self.get(&E::new(a)).map(|e| (0, e.v()))),
            Q_CONTAINS => Val::B(self.contains_key(&Q::new(a))),
            Q_KV => Val::O(self.get_key_value(&Q::new(a)).map(|(k, v)| (k.v(), v.v()))),
            _ => Val::O(Some((0, self[&Q::new(a)].v()))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        match which {
            IT_KEYS => dbl(self.keys().map(it1)),
            IT_VALUES => dbl(self.values().map(itv)),
            IT_INTO => dbl(self.into_iter().map(it2)),
            _ => dbl(self.iter().map(it2)),
        }
    }
    fn range(&self, lo: Bound<u32>, hi: Bound<u32>) -> Option<Box<dyn It + '_>> {
        Some(rng(self.range::<Q, _>((qb(lo), qb(hi))).map(it2)))
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.get_key_value(&Q::new(a)).map(|(k, v)| if a & 1 == 0 { k } else { v }) {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for RedBlackTreeMap<E, E, P> {
    fn fresh(c: &Conf) -> Self {
        if c.hseed & 1 == 0 { RedBlackTreeMap::new_with_ptr_kind() } else { Default::default() }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| (E::new(x.0), E::new(x.1))).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}

impl<P: PK> SetRel for RedBlackTreeSet<E, P> {
    fn set_rel(&self, o: &dyn Coll, r: u8) -> Rel {
        macro_rules! on {
            ($o:expr) => {
                match r {
                    R_SUBSET => return Rel::B(self.is_subset($o)),
                    R_SUPERSET => return Rel::B(self.is_superset($o)),
                    R_DISJOINT => return Rel::B(self.is_disjoint($o)),
                    _ => {}
                }
            };
        }
        if let Some(x) = o.any().downcast_ref::<RedBlackTreeSet<E, SimK>>() {
            on!(x);
        } else if let Some(x) = o.any().downcast_ref::<RedBlackTreeSet<E, ArcTK>>() {
            on!(x);
        } else if let Some(x) = o.any().downcast_ref::<RedBlackTreeSet<E, RcK>>() {
            on!(x);
        }
        Rel::NA
    }
}
impl<P: PK> Coll for RedBlackTreeSet<E, P> {
    common!(Fam::RSet);
    ordered_rel!(RedBlackTreeSet<E, SimK>, RedBlackTreeSet<E, ArcTK>, RedBlackTreeSet<E, RcK>);
    rb_ptr_eq!(RedBlackTreeSet<E, SimK>, RedBlackTreeSet<E, ArcTK>, RedBlackTreeSet<E, RcK>);
    fn apply(&mut self, m: &Mu) -> Ret {
        match m.code {
            0 => {
                self.insert_mut(E::new(m.a));
                Ret::Unit
            }
            _ => Ret::Bool(self.remove_mut(&Q::new(m.a))),
        }
    }
    fn derive(&self, m: &Mu) -> Option<Box<dyn Coll>> {
        match m.code {
            0 => Some(bx(self.insert(E::new(m.a)))),
            _ => Some(bx(self.remove(&Q::new(m.a)))),
        }
    }
    fn query(&self, q: u8, a: u32) -> Val {
        match q {
            Q_LEN => Val::N(self.size()),
            Q_EMPTY => Val::B(self.is_empty()),
            Q_FIRST => Val::O(self.first().map(|k| (k.v(), 0))),
            Q_LAST => Val::O(self.last().map(|k| (k.v(), 0))),
            Q_GET => Val::O(self.get(&Q::new(a)).map(|e| (e.v(), 0))),
            Q_GET_OWNED => Val::O(self.get(&E::new(a)).map(|e| (e.v(), 0))),
            _ => Val::B(self.contains(&Q::new(a))),
        }
    }
    fn iter(&self, which: u8) -> Box<dyn It + '_> {
        if which == IT_INTO {
            dbl(self.into_iter().map(it1))
        } else {
            dbl(self.iter().map(it1))
        }
    }
    fn range(&self, lo: Bound<u32>, hi: Bound<u32>) -> Option<Box<dyn It + '_>> {
        Some(rng(self.range::<Q, _>((qb(lo), qb(hi))).map(it1)))
    }
    fn extend(&mut self, _: &mut dyn Iterator<Item = (u32, u32)>) -> bool {
        false
    }
    fn with_ref(&self, a: u32, f: &mut dyn FnMut(&E)) -> bool {
        match self.get(&Q::new(a)) {
            Some(e) => {
                f(e);
                true
            }
            None => false,
        }
    }
}
impl<P: PK> Conc for RedBlackTreeSet<E, P> {
    fn fresh(c: &Conf) -> Self {
        if c.hseed & 1 == 0 { RedBlackTreeSet::new_with_ptr_kind() } else { Default::default() }
    }
    fn collect(it: &mut dyn Iterator<Item = (u32, u32)>) -> Self {
        it.map(|x| E::new(x.0)).collect()
    }
    fn de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d)
    }
}
