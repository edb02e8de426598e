//! `SimK`: a shared pointer kind whose every operation is a scheduling point of the simulator.
//!
//! It follows the algorithm of the real thread-safe kind (`ArcTK`, triomphe) step by step - the
//! uniqueness test, the copy, the publication and the release of the old reference are separate
//! steps that other simulated threads may interleave with - and it detects misuse: freed blocks are
//! quarantined until the end of the run, so a late access or a second release is caught.

use archery::SharedPointerKind;
use simrt::{point, point_fault, site, violate};
use std::alloc::{alloc, dealloc, Layout};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::mem::ManuallyDrop;

const LIVE: u32 = 0xa11c_e5ed;
const DEAD: u32 = 0xdead_dead;

#[repr(C)]
struct Ctl {
    rc: Cell<usize>,
    state: Cell<u32>,
    id: u32,
}

#[repr(C)]
struct Inner<T> {
    ctl: Ctl,
    v: ManuallyDrop<T>,
}

pub struct SimK {
    p: *const Ctl,
}

thread_local! {
    static QUARANTINE: RefCell<Vec<(*mut u8, Layout)>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static LIVE_NODES: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// Forgets the previous run (frees its quarantine unless `leak`).
pub fn reset(leak: bool) {
    QUARANTINE.with(|q| {
        let q = std::mem::take(&mut *q.borrow_mut());
        if !leak {
            for (p, l) in q {
                unsafe { dealloc(p, l) };
            }
        }
    });
    NEXT.with(|n| n.set(0));
    LIVE_NODES.with(|n| n.set(0));
    MADE.with(|n| n.set(0));
}

pub fn live_nodes() -> i64 {
    LIVE_NODES.with(|n| n.get())
}

impl SimK {
    #[inline]
    fn inner<T>(&self) -> *mut Inner<T> {
        self.p as *mut Inner<T>
    }

    #[inline]
    fn ctl(&self) -> &Ctl {
        let c = unsafe { &*self.p };
        if c.state.get() != LIVE {
            violate("use-after-free", &format!("node {} used after it was freed", c.id));
        }
        c
    }

    /// The block is no longer in use; its value has been moved out or dropped.
    fn retire<T>(&self) {
        let c = unsafe { &*self.p };
        c.state.set(DEAD);
        c.rc.set(0);
        LIVE_NODES.with(|n| n.set(n.get() - 1));
        let l = Layout::new::<Inner<T>>();
        simrt::on_node_free(l.size());
        simrt::untracked(|| QUARANTINE.with(|q| q.borrow_mut().push((self.p as *mut u8, l))));
    }
}

unsafe impl SharedPointerKind for SimK {
    fn new<T>(v: T) -> SimK {
        point_fault(site::PtrNew);
        let l = Layout::new::<Inner<T>>();
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        LIVE_NODES.with(|n| n.set(n.get() + 1));
        MADE.with(|n| n.set(n.get() + 1));
        unsafe {
            let p = alloc(l) as *mut Inner<T>;
            assert!(!p.is_null());
            p.write(Inner {
                ctl: Ctl { rc: Cell::new(1), state: Cell::new(LIVE), id },
                v: ManuallyDrop::new(v),
            });
            SimK { p: p as *const Ctl }
        }
    }

    fn from_box<T>(v: Box<T>) -> SimK {
        SimK::new(*v)
    }

    unsafe fn as_ptr<T>(&self) -> *const T {
        self.ctl();
        unsafe { std::ptr::addr_of!((*self.inner::<T>()).v) as *const T }
    }

    unsafe fn deref<T>(&self) -> &T {
        point(site::PtrDeref);
        self.ctl();
        unsafe { &(*self.inner::<T>()).v }
    }

    unsafe fn try_unwrap<T>(self) -> Result<T, SimK> {
        point(site::PtrTryUnwrap);
        if self.ctl().rc.get() != 1 {
            return Err(self);
        }
        let v = unsafe { ManuallyDrop::take(&mut (*self.inner::<T>()).v) };
        self.retire::<T>();
        Ok(v)
    }

    unsafe fn get_mut<T>(&mut self) -> Option<&mut T> {
        point(site::PtrGetMut);
        if self.ctl().rc.get() == 1 {
            Some(unsafe { &mut (*self.inner::<T>()).v })
        } else {
            None
        }
    }

    unsafe fn make_mut<T: Clone>(&mut self) -> &mut T {
        point(site::PtrUnique);
        if self.ctl().rc.get() != 1 {
            let copy = T::clone(unsafe { &(*self.inner::<T>()).v });
            point(site::PtrMakeMut);
            let new = SimK::new(copy);
            let mut old = std::mem::replace(self, new);
            point(site::PtrPublish);
            unsafe { old.drop::<T>() };
        }
        unsafe { &mut (*self.inner::<T>()).v }
    }

    unsafe fn strong_count<T>(&self) -> usize {
        point(site::PtrCount);
        self.ctl().rc.get()
    }

    unsafe fn clone<T>(&self) -> SimK {
        point(site::PtrClone);
        let c = self.ctl();
        c.rc.set(c.rc.get() + 1);
        SimK { p: self.p }
    }

    unsafe fn drop<T>(&mut self) {
        point(site::PtrDrop);
        let c = self.ctl();
        let n = c.rc.get();
        if n == 0 {
            violate("double-free", &format!("node {} released twice", c.id));
        }
        c.rc.set(n - 1);
        if n == 1 {
            point(site::PtrFree);
            struct Retire<'a, T>(&'a SimK, std::marker::PhantomData<T>);
            impl<T> Drop for Retire<'_, T> {
                fn drop(&mut self) {
                    self.0.retire::<T>();
                }
            }
            let _r = Retire::<T>(self, std::marker::PhantomData);
            unsafe { ManuallyDrop::drop(&mut (*self.inner::<T>()).v) };
        }
    }
}

impl fmt::Debug for SimK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SimK")
    }
}
