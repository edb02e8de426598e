//! Elements whose every callback is a scheduling point and a place for an injected failure, and the
//! hashers under which they are stored.  Every element instance is registered from birth to release.

use simrt::{fault, mix, point, point_fault, site, violate, Injected};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

thread_local! {
    /// State per instance: 1 alive, 2 released.  Index 0 is unused.
    static REG: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static ALIVE: Cell<u64> = const { Cell::new(0) };
    static DEF: Cell<(u8, u64, u64)> = const { Cell::new((0, 0, 0)) };
    static ENV: Cell<u64> = const { Cell::new(0) };
}

pub fn reset(hash_mode: u8, hash_seed: u64) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.clear();
        r.push(0);
    });
    ALIVE.with(|a| a.set(0));
    crate::types::reset();
    DEF.with(|d| d.set((hash_mode, hash_seed, 0)));
}

pub fn alive() -> u64 {
    ALIVE.with(|a| a.get())
}

/// Instances that are alive, in order of birth.
pub fn alive_set() -> Vec<u32> {
    REG.with(|r| {
        r.borrow().iter().enumerate().filter(|(_, s)| **s == 1).map(|(i, _)| i as u32).collect()
    })
}

fn born() -> u32 {
    ALIVE.with(|a| a.set(a.get() + 1));
    simrt::untracked(|| {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.push(1);
            (r.len() - 1) as u32
        })
    })
}

#[inline]
fn check(inst: u32, what: &str) {
    if inst != 0 {
        let s = REG.with(|r| r.borrow().get(inst as usize).copied().unwrap_or(0));
        if s != 1 {
            violate("element-used-after-release", &format!("{what} on element instance {inst} (state {s})"));
        }
    }
}

/// The comparable part of an element; also the borrowed form used in lookups (`inst == 0`).
pub struct Q {
    pub v: u32,
    pub inst: u32,
}

impl Q {
    pub fn new(v: u32) -> Q {
        Q { v, inst: 0 }
    }
}

impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        point_fault(site::ElEq);
        check(self.inst, "eq");
        check(o.inst, "eq");
        self.v == o.v
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        point_fault(site::ElOrd);
        check(self.inst, "cmp");
        check(o.inst, "cmp");
        self.v.cmp(&o.v)
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, s: &mut H) {
        point_fault(site::ElHash);
        check(self.inst, "hash");
        s.write_u32(self.v);
    }
}

/// An element (list item, key or value).
pub struct E {
    q: Q,
}

impl E {
    pub fn new(v: u32) -> E {
        E { q: Q { v, inst: born() } }
    }
    /// Value, with the liveness check.
    pub fn v(&self) -> u32 {
        check(self.q.inst, "read");
        self.q.v
    }
    pub fn inst(&self) -> u32 {
        self.q.inst
    }
    pub fn set(&mut self, v: u32) {
        check(self.q.inst, "write");
        self.q.v = v;
    }
    pub fn q(&self) -> &Q {
        &self.q
    }
}

impl Borrow<Q> for E {
    fn borrow(&self) -> &Q {
        &self.q
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        point_fault(site::ElClone);
        check(self.q.inst, "clone");
        E::new(self.q.v)
    }
}
impl Drop for E {
    fn drop(&mut self) {
        point(site::ElDrop);
        let i = self.q.inst as usize;
        let s = REG.with(|r| {
            let mut r = r.borrow_mut();
            let s = r.get(i).copied().unwrap_or(0);
            if s == 1 {
                r[i] = 2;
            }
            s
        });
        if s != 1 {
            violate("element-released-twice", &format!("element instance {i} released again"));
        }
        ALIVE.with(|a| a.set(a.get() - 1));
        if fault(site::ElDrop) {
            std::panic::panic_any(Injected(site::ElDrop));
        }
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.q == o.q
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.q.cmp(&o.q))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.q.cmp(&o.q)
    }
}
impl Hash for E {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.q.hash(s)
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point_fault(site::ElFmt);
        check(self.q.inst, "display");
        fmt::Display::fmt(&self.q.v, f)
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        point_fault(site::ElFmt);
        check(self.q.inst, "debug");
        fmt::Debug::fmt(&self.q.v, f)
    }
}
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        point(site::ElSer);
        check(self.q.inst, "serialize");
        if fault(site::ElSer) {
            return Err(serde::ser::Error::custom(INJECTED));
        }
        s.serialize_u32(self.q.v)
    }
}
pub const INJECTED: &str = "injected failure";

impl<'de> serde::Deserialize<'de> for E {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<E, D::Error> {
        point(site::ElDe);
        point_fault(site::DePanic);
        let v = <u32 as serde::Deserialize>::deserialize(d)?;
        if fault(site::ElDe) {
            return Err(serde::de::Error::custom(INJECTED));
        }
        Ok(E::new(v))
    }
}

// ---------------------------------------------------------------------------------------------
// Hashers
// ---------------------------------------------------------------------------------------------

pub const HASH_MODES: u8 = 12;

/// The hash of `v` under a simulated hasher.  Every mode is a legal deterministic hash function.
pub fn hash_of(mode: u8, seed: u64, v: u32) -> u64 {
    let x = mix(u64::from(v).wrapping_add(seed).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ seed);
    match mode {
        // Well mixed.
        0 | 1 => x,
        // Everything collides.
        2 => seed,
        // Few distinct hashes.
        3 => mix(seed ^ (x % 3)),
        4 => mix(seed ^ (x % 17)),
        // Long shared low part: entries meet deep in the trie.
        5 => x << (seed % 58),
        // Only the last bits of the hash vary.
        6 => (x << 60) | (mix(seed) >> 4),
        // Identity, no mixing at all.
        7 => u64::from(v),
        // Random sparse set of varying bits.
        8 => (x & mix(seed ^ 1)) | (mix(seed ^ 2) & !mix(seed ^ 1)),
        // Two hashes that differ in a single bit, anywhere.
        9 => mix(seed ^ 3) ^ ((x & 1) << (seed % 64)),
        // Groups: half collide completely, half are spread.
        10 => {
            if x & 1 == 0 {
                seed
            } else {
                x
            }
        }
        // High part constant, low part few values: shallow and crowded.
        _ => (mix(seed) & !0xfff) | (x & 0xfff),
    }
}

#[derive(Debug)]
pub struct SimBuild {
    pub mode: u8,
    pub seed: u64,
}

impl SimBuild {
    pub fn new(mode: u8, seed: u64) -> SimBuild {
        SimBuild { mode, seed }
    }
}
impl Clone for SimBuild {
    fn clone(&self) -> SimBuild {
        point_fault(site::BuildHasher);
        SimBuild { mode: self.mode, seed: self.seed }
    }
}
impl Default for SimBuild {
    /// As with `RandomState`, every default builder is seeded afresh (from the run's seed).
    fn default() -> SimBuild {
        DEF.with(|d| {
            let (m, s, n) = d.get();
            d.set((m, s, n + 1));
            SimBuild { mode: m, seed: mix(s.wrapping_add(n)) }
        })
    }
}
impl BuildHasher for SimBuild {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher { mode: self.mode, seed: self.seed, v: 0, n: 0 }
    }
}
pub struct SimHasher {
    mode: u8,
    seed: u64,
    v: u32,
    n: u32,
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.v = self.v.rotate_left(7) ^ u32::from(*x) ^ 0x55;
            self.n += 1;
        }
    }
    fn write_u32(&mut self, v: u32) {
        self.v = if self.n == 0 { v } else { self.v.rotate_left(9).wrapping_mul(31) ^ v };
        self.n += 1;
    }
    fn finish(&self) -> u64 {
        hash_of(self.mode, self.seed, self.v)
    }
}

/// Hashers the hash collections are run with.
pub trait SimH: BuildHasher + Clone + Default + std::fmt::Debug + 'static {
    const RANDOM: bool;
    fn make(mode: u8, seed: u64) -> Self;
    /// `(mode, seed)` when hashes are predictable by the oracle.
    fn params(&self) -> Option<(u8, u64)>;
}
impl SimH for SimBuild {
    const RANDOM: bool = false;
    fn make(mode: u8, seed: u64) -> SimBuild {
        SimBuild::new(mode, seed)
    }
    fn params(&self) -> Option<(u8, u64)> {
        Some((self.mode, self.seed))
    }
}
/// The hasher collections have when none is given.
#[cfg(feature = "std")]
pub type DefaultH = std::collections::hash_map::RandomState;
#[cfg(not(feature = "std"))]
#[allow(deprecated)]
pub type DefaultH = std::hash::BuildHasherDefault<core::hash::SipHasher>;

impl SimH for DefaultH {
    const RANDOM: bool = true;
    fn make(_: u8, _: u64) -> DefaultH {
        DefaultH::default()
    }
    fn params(&self) -> Option<(u8, u64)> {
        None
    }
}

/// Records exactly what is fed to it (for the hashing properties).
#[derive(Default)]
pub struct FeedHasher(pub Vec<u8>);
impl Hasher for FeedHasher {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3))
    }
}

// ---------------------------------------------------------------------------------------------
// The operating system's random numbers
// ---------------------------------------------------------------------------------------------

/// Seeds what `getrandom` returns on this OS thread.
pub fn set_env_seed(s: u64) {
    ENV.with(|e| e.set(s));
}

/// Replaces the system call behind `RandomState`: seeds of default hashers come from the run's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENV.with(|e| e.get());
    for i in 0..len {
        s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        unsafe { *buf.add(i) = mix(s) as u8 };
    }
    ENV.with(|e| e.set(s));
    len as isize
}
