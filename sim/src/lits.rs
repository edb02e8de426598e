//! The literal macros and the documented constructors, for the pointer kinds they are fixed to.

use crate::ds::*;
use crate::elem::{DefaultH, E};
use archery::{ArcTK, RcK};
use rpds::*;

/// A literal of `n` arguments (maps: `n` pairs); `el(i)` evaluates the i-th argument.
pub fn literal(f: Fam, sync: bool, n: usize, el: &mut dyn FnMut(usize) -> E) -> Option<Box<dyn Coll>> {
    macro_rules! arity {
        ($m:ident, $t:ty) => {{
            let c: $t = match n {
                0 => $m![],
                1 => $m![el(0)],
                2 => $m![el(0), el(1)],
                3 => $m![el(0), el(1), el(2)],
                4 => $m![el(0), el(1), el(2), el(3)],
                5 => $m![el(0), el(1), el(2), el(3), el(4)],
                6 => $m![el(0), el(1), el(2), el(3), el(4), el(5)],
                9 => $m![el(0), el(1), el(2), el(3), el(4), el(5), el(6), el(7), el(8)],
                17 => $m![el(0), el(1), el(2), el(3), el(4), el(5), el(6), el(7), el(8), el(9), el(10), el(11), el(12), el(13), el(14), el(15), el(16)],
                40 => $m![el(0), el(1), el(2), el(3), el(4), el(5), el(6), el(7), el(8), el(9), el(10), el(11), el(12), el(13), el(14), el(15), el(16), el(17), el(18), el(19), el(20), el(21), el(22), el(23), el(24), el(25), el(26), el(27), el(28), el(29), el(30), el(31), el(32), el(33), el(34), el(35), el(36), el(37), el(38), el(39)],
                _ => return None,
            };
            Some(simrt::untracked(move || Box::new(c) as Box<dyn Coll>))
        }};
    }
    macro_rules! pairs {
        ($m:ident, $t:ty) => {{
            let c: $t = match n {
                0 => $m![],
                1 => $m![el(0) => el(1)],
                2 => $m![el(0) => el(1), el(2) => el(3)],
                3 => $m![el(0) => el(1), el(2) => el(3), el(4) => el(5)],
                4 => $m![el(0) => el(1), el(2) => el(3), el(4) => el(5), el(6) => el(7)],
                5 => $m![el(0) => el(1), el(2) => el(3), el(4) => el(5), el(6) => el(7), el(8) => el(9)],
                9 => $m![el(0) => el(1), el(2) => el(3), el(4) => el(5), el(6) => el(7), el(8) => el(9), el(10) => el(11), el(12) => el(13), el(14) => el(15), el(16) => el(17)],
                35 => $m![el(0) => el(1), el(2) => el(3), el(4) => el(5), el(6) => el(7), el(8) => el(9), el(10) => el(11), el(12) => el(13), el(14) => el(15), el(16) => el(17), el(18) => el(19), el(20) => el(21), el(22) => el(23), el(24) => el(25), el(26) => el(27), el(28) => el(29), el(30) => el(31), el(32) => el(33), el(34) => el(35), el(36) => el(37), el(38) => el(39), el(40) => el(41), el(42) => el(43), el(44) => el(45), el(46) => el(47), el(48) => el(49), el(50) => el(51), el(52) => el(53), el(54) => el(55), el(56) => el(57), el(58) => el(59), el(60) => el(61), el(62) => el(63), el(64) => el(65), el(66) => el(67), el(68) => el(69)],
                _ => return None,
            };
            Some(simrt::untracked(move || Box::new(c) as Box<dyn Coll>))
        }};
    }
    match (f, sync) {
        (Fam::List, false) => arity!(list, List<E, RcK>),
        (Fam::List, true) => arity!(list_sync, List<E, ArcTK>),
        (Fam::Stack, false) => arity!(stack, Stack<E, RcK>),
        (Fam::Stack, true) => arity!(stack_sync, Stack<E, ArcTK>),
        (Fam::Queue, false) => arity!(queue, Queue<E, RcK>),
        (Fam::Queue, true) => arity!(queue_sync, Queue<E, ArcTK>),
        (Fam::Vector, false) => arity!(vector, Vector<E, RcK>),
        (Fam::Vector, true) => arity!(vector_sync, Vector<E, ArcTK>),
        (Fam::HMap, false) => pairs!(ht_map, HashTrieMap<E, E, RcK, DefaultH>),
        (Fam::HMap, true) => pairs!(ht_map_sync, HashTrieMap<E, E, ArcTK, DefaultH>),
        (Fam::HSet, false) => arity!(ht_set, HashTrieSet<E, RcK, DefaultH>),
        (Fam::HSet, true) => arity!(ht_set_sync, HashTrieSet<E, ArcTK, DefaultH>),
        (Fam::RMap, false) => pairs!(rbt_map, RedBlackTreeMap<E, E, RcK>),
        (Fam::RMap, true) => pairs!(rbt_map_sync, RedBlackTreeMap<E, E, ArcTK>),
        (Fam::RSet, false) => arity!(rbt_set, RedBlackTreeSet<E, RcK>),
        (Fam::RSet, true) => arity!(rbt_set_sync, RedBlackTreeSet<E, ArcTK>),
    }
}

/// One of the ways to make an empty collection of the family, and its name.
pub fn construct(f: Fam, sync: bool, way: u8, degree: u8) -> (Box<dyn Coll>, &'static str) {
    macro_rules! ways {
        ($($s:literal: $e:expr, $t:ty;)*) => {{
            let mut k = 0u8;
            $(let _ = $s; k += 1;)*
            let w = way % k;
            let mut i = 0u8;
            $({
                if i == w {
                    let c: $t = $e;
                    return (simrt::untracked(move || Box::new(c) as Box<dyn Coll>), $s);
                }
                i += 1;
            })*
            let _ = i;
            unreachable!()
        }};
    }
    match (f, sync) {
        (Fam::List, false) => ways! {
            "List::new": List::new(), List<E>;
            "List::default": List::default(), List<E>;
        },
        (Fam::List, true) => ways! {
            "List::new_sync": List::new_sync(), ListSync<E>;
            "ListSync::default": ListSync::default(), ListSync<E>;
        },
        (Fam::Stack, false) => ways! {
            "Stack::new": Stack::new(), Stack<E>;
            "Stack::default": Stack::default(), Stack<E>;
        },
        (Fam::Stack, true) => ways! {
            "Stack::new_sync": Stack::new_sync(), StackSync<E>;
            "StackSync::default": StackSync::default(), StackSync<E>;
        },
        (Fam::Queue, false) => ways! {
            "Queue::new": Queue::new(), Queue<E>;
            "Queue::default": Queue::default(), Queue<E>;
        },
        (Fam::Queue, true) => ways! {
            "Queue::new_sync": Queue::new_sync(), QueueSync<E>;
            "QueueSync::default": QueueSync::default(), QueueSync<E>;
        },
        (Fam::Vector, false) => ways! {
            "Vector::new": Vector::new(), Vector<E>;
            "Vector::default": Vector::default(), Vector<E>;
        },
        (Fam::Vector, true) => ways! {
            "Vector::new_sync": Vector::new_sync(), VectorSync<E>;
            "VectorSync::default": VectorSync::default(), VectorSync<E>;
        },
        (Fam::HMap, false) => ways! {
            "HashTrieMap::new": HashTrieMap::new(), HashTrieMap<E, E>;
            "HashTrieMap::default": HashTrieMap::default(), HashTrieMap<E, E>;
            "HashTrieMap::new_with_degree": HashTrieMap::new_with_degree(degree), HashTrieMap<E, E>;
        },
        (Fam::HMap, true) => ways! {
            "HashTrieMap::new_sync": HashTrieMap::new_sync(), HashTrieMapSync<E, E>;
            "HashTrieMapSync::default": HashTrieMapSync::default(), HashTrieMapSync<E, E>;
            "HashTrieMap::new_sync_with_degree": HashTrieMap::new_sync_with_degree(degree), HashTrieMapSync<E, E>;
        },
        (Fam::HSet, false) => ways! {
            "HashTrieSet::new": HashTrieSet::new(), HashTrieSet<E>;
            "HashTrieSet::default": HashTrieSet::default(), HashTrieSet<E>;
            "HashTrieSet::new_with_degree": HashTrieSet::new_with_degree(degree), HashTrieSet<E>;
        },
        (Fam::HSet, true) => ways! {
            "HashTrieSet::new_sync": HashTrieSet::new_sync(), HashTrieSetSync<E>;
            "HashTrieSetSync::default": HashTrieSetSync::default(), HashTrieSetSync<E>;
            "HashTrieSet::new_with_degree_sync": HashTrieSet::new_with_degree_sync(degree), HashTrieSetSync<E>;
        },
        (Fam::RMap, false) => ways! {
            "RedBlackTreeMap::new": RedBlackTreeMap::new(), RedBlackTreeMap<E, E>;
            "RedBlackTreeMap::default": RedBlackTreeMap::default(), RedBlackTreeMap<E, E>;
        },
        (Fam::RMap, true) => ways! {
            "RedBlackTreeMap::new_sync": RedBlackTreeMap::new_sync(), RedBlackTreeMapSync<E, E>;
            "RedBlackTreeMapSync::default": RedBlackTreeMapSync::default(), RedBlackTreeMapSync<E, E>;
        },
        (Fam::RSet, false) => ways! {
            "RedBlackTreeSet::new": RedBlackTreeSet::new(), RedBlackTreeSet<E>;
            "RedBlackTreeSet::default": RedBlackTreeSet::default(), RedBlackTreeSet<E>;
        },
        (Fam::RSet, true) => ways! {
            "RedBlackTreeSet::new_sync": RedBlackTreeSet::new_sync(), RedBlackTreeSetSync<E>;
            "RedBlackTreeSetSync::default": RedBlackTreeSetSync::default(), RedBlackTreeSetSync<E>;
        },
    }
}
