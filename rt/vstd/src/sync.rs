//! Locks, condition variables, barriers, atomics and channels with scheduling points.
pub use std::sync::*;

use crate::sched::{controlled, point, yield_point};
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool as SBool, AtomicUsize as SUsize, Ordering::SeqCst};
use std::sync as ss;
use std::time::Duration;

pub mod atomic;
pub mod mpsc;

/// A critical section is only seen half way through by somebody who tries a lock without waiting for it (or asks
/// whether it is poisoned).  Where the code under test does that (run.sh looks), every acquisition is followed by a
/// scheduling point, so that others can find the lock held.
fn held_point() {
    static ON: ss::OnceLock<bool> = ss::OnceLock::new();
    if *ON.get_or_init(|| std::env::var_os("VSTD_HELD_POINTS").is_some()) {
        point("lock held", None);
    }
}

// ---- Mutex ----

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    held: SBool,
    inner: ss::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    inner: Option<ss::MutexGuard<'a, T>>,
    lock: &'a Mutex<T>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { held: SBool::new(false), inner: ss::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, r: LockResult<ss::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        self.held.store(true, SeqCst);
        match r {
            Ok(g) => Ok(MutexGuard { inner: Some(g), lock: self }),
            Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), lock: self })),
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if controlled() {
            point("mutex lock", Some(&|| !self.held.load(SeqCst)));
        }
        let r = self.wrap(self.inner.lock());
        held_point();
        r
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        point("mutex try_lock", None);
        match self.inner.try_lock() {
            Ok(g) => { let g = self.wrap(Ok(g)).ok().unwrap(); held_point(); Ok(g) }
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(self.wrap(Err(e)).err().unwrap())),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self { Mutex::new(t) }
}

impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}

impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if self.inner.is_some() {
            self.lock.held.store(false, SeqCst);
        }
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T { self.inner.as_ref().unwrap() }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T { self.inner.as_mut().unwrap() }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
}

// ---- RwLock ----

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    readers: SUsize,
    writer: SBool,
    inner: ss::RwLock<T>,
}

pub struct RwLockReadGuard<'a, T: ?Sized + 'a> { inner: ss::RwLockReadGuard<'a, T>, lock: &'a RwLock<T> }
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> { inner: ss::RwLockWriteGuard<'a, T>, lock: &'a RwLock<T> }

impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { readers: SUsize::new(0), writer: SBool::new(false), inner: ss::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    fn wrap_r<'a>(&'a self, r: LockResult<ss::RwLockReadGuard<'a, T>>) -> LockResult<RwLockReadGuard<'a, T>> {
        self.readers.fetch_add(1, SeqCst);
        match r {
            Ok(inner) => Ok(RwLockReadGuard { inner, lock: self }),
            Err(e) => Err(PoisonError::new(RwLockReadGuard { inner: e.into_inner(), lock: self })),
        }
    }
    fn wrap_w<'a>(&'a self, r: LockResult<ss::RwLockWriteGuard<'a, T>>) -> LockResult<RwLockWriteGuard<'a, T>> {
        self.writer.store(true, SeqCst);
        match r {
            Ok(inner) => Ok(RwLockWriteGuard { inner, lock: self }),
            Err(e) => Err(PoisonError::new(RwLockWriteGuard { inner: e.into_inner(), lock: self })),
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        if controlled() {
            point("rwlock read", Some(&|| !self.writer.load(SeqCst)));
        }
        let r = self.wrap_r(self.inner.read());
        held_point();
        r
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        if controlled() {
            point("rwlock write", Some(&|| !self.writer.load(SeqCst) && self.readers.load(SeqCst) == 0));
        }
        let r = self.wrap_w(self.inner.write());
        held_point();
        r
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point("rwlock try_read", None);
        match self.inner.try_read() {
            Ok(g) => { let g = self.wrap_r(Ok(g)).ok().unwrap(); held_point(); Ok(g) }
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(self.wrap_r(Err(e)).err().unwrap())),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point("rwlock try_write", None);
        match self.inner.try_write() {
            Ok(g) => { let g = self.wrap_w(Ok(g)).ok().unwrap(); held_point(); Ok(g) }
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(self.wrap_w(Err(e)).err().unwrap())),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) { self.lock.readers.fetch_sub(1, SeqCst); }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) { self.lock.writer.store(false, SeqCst); }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> { type Target = T; fn deref(&self) -> &T { &self.inner } }
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { &mut self.inner } }

// ---- Condvar ----

#[derive(Default)]
pub struct Condvar {
    waiters: ss::Mutex<Vec<ss::Arc<SBool>>>,
    real: ss::Condvar,
}

impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }

impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { waiters: ss::Mutex::new(Vec::new()), real: ss::Condvar::new() }
    }
    fn wait_impl<'a, T>(&self, mut guard: MutexGuard<'a, T>, timeout: Option<Duration>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = guard.lock;
        if controlled() {
            let flag = ss::Arc::new(SBool::new(false));
            self.waiters.lock().unwrap().push(flag.clone());
            drop(guard);
            if timeout.is_some() {
                // A timeout may fire at any moment: waiting is always enabled.
                yield_point("condvar wait_timeout");
                let fired = !flag.load(SeqCst);
                if fired {
                    self.waiters.lock().unwrap().retain(|f| !ss::Arc::ptr_eq(f, &flag));
                }
                return (lock.lock(), fired);
            }
            point("condvar wait", Some(&|| flag.load(SeqCst) && !lock.held.load(SeqCst)));
            let r = lock.inner.lock();
            return (lock.wrap(r), false);
        }
        let inner = guard.inner.take().unwrap();
        std::mem::forget(guard);
        match timeout {
            None => (lock.wrap(self.real.wait(inner)), false),
            Some(d) => match self.real.wait_timeout(inner, d) {
                Ok((g, t)) => (lock.wrap(Ok(g)), t.timed_out()),
                Err(e) => {
                    let (g, t) = e.into_inner();
                    (lock.wrap(Err(PoisonError::new(g))), t.timed_out())
                }
            },
        }
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_impl(guard, None).0
    }
    pub fn wait_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>>
    where F: FnMut(&mut T) -> bool {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(&self, guard: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (r, t) = self.wait_impl(guard, Some(d));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, d: Duration, mut condition: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where F: FnMut(&mut T) -> bool {
        loop {
            if !condition(&mut *guard) { return Ok((guard, WaitTimeoutResult(false))); }
            let (g, t) = self.wait_timeout(guard, d)?;
            guard = g;
            if t.timed_out() {
                let more = condition(&mut *guard);
                return Ok((guard, WaitTimeoutResult(more)));
            }
        }
    }
    pub fn notify_one(&self) {
        if controlled() {
            point("condvar notify_one", None);
            let mut w = self.waiters.lock().unwrap();
            if !w.is_empty() {
                let k = crate::sched::choose(w.len());
                w.remove(k).store(true, SeqCst);
            }
        } else {
            self.real.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if controlled() {
            point("condvar notify_all", None);
            for w in self.waiters.lock().unwrap().drain(..) {
                w.store(true, SeqCst);
            }
        } else {
            self.real.notify_all()
        }
    }
}

// ---- Barrier ----

pub struct Barrier {
    n: usize,
    state: Mutex<(usize, usize)>,
    cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut s = self.state.lock().unwrap();
        let gen = s.1;
        s.0 += 1;
        if s.0 < self.n {
            while s.1 == gen {
                s = self.cv.wait(s).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            s.0 = 0;
            s.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// silence unused warnings for re-exported names that are shadowed above
#[allow(dead_code)]
struct _Unused(UnsafeCell<()>);
