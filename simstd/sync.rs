//! Simulated `std::sync`.
pub use ::std::sync::*;
use crate::sched::{self, kind};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::marker::PhantomData;
use ::std::ops::{Deref, DerefMut};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::sync as real;
use ::std::sync::atomic::{AtomicU64 as RU64, AtomicUsize as RUsize, AtomicU8 as RU8, Ordering::Relaxed, Ordering::SeqCst};
use ::std::time::{Duration, Instant};

#[inline]
fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const u8 as usize
}

// ------------------------------------------------------------------------------------------ Mutex

pub struct Mutex<T: ?Sized> {
    id: RU64,
    inner: real::Mutex<T>,
}
#[must_use]
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: Option<real::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { id: RU64::new(0), inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> real::LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, inner: Some(g) }
    }
    fn acquire(&self) -> real::LockResult<MutexGuard<'_, T>> {
        if sched::me().is_none() {
            return match self.inner.lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(p) => Err(real::PoisonError::new(self.wrap(p.into_inner()))),
            };
        }
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.wrap(g)),
                Err(real::TryLockError::Poisoned(p)) => return Err(real::PoisonError::new(self.wrap(p.into_inner()))),
                Err(real::TryLockError::WouldBlock) => {
                    sched::block(addr(&self.id), kind::LOCK, sched::obj_id(&self.id), None);
                }
            }
        }
    }
    pub fn lock(&self) -> real::LockResult<MutexGuard<'_, T>> {
        if sched::me().is_some() {
            sched::point(kind::LOCK, sched::obj_id(&self.id));
        }
        self.acquire()
    }
    pub fn try_lock(&self) -> real::TryLockResult<MutexGuard<'_, T>> {
        if sched::me().is_some() {
            sched::point(kind::LOCK, sched::obj_id(&self.id));
        }
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(real::TryLockError::Poisoned(p)) => {
                Err(real::TryLockError::Poisoned(real::PoisonError::new(self.wrap(p.into_inner()))))
            }
            Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.inner.take() {
            drop(g);
            if sched::me().is_some() {
                sched::wake(addr(&self.lock.id));
                sched::point(kind::UNLOCK, sched::obj_id(&self.lock.id));
            }
        }
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}

// ----------------------------------------------------------------------------------------- RwLock

/// Like std's futex implementation, a reader also waits while a writer is waiting.
pub struct RwLock<T: ?Sized> {
    id: RU64,
    writers: RUsize,
    inner: real::RwLock<T>,
}
#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    id: &'a RU64,
    inner: Option<real::RwLockReadGuard<'a, T>>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    id: &'a RU64,
    inner: Option<real::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { id: RU64::new(0), writers: RUsize::new(0), inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> real::LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rg<'a>(&'a self, g: real::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
        RwLockReadGuard { id: &self.id, inner: Some(g) }
    }
    fn wg<'a>(&'a self, g: real::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
        RwLockWriteGuard { id: &self.id, inner: Some(g) }
    }
    pub fn read(&self) -> real::LockResult<RwLockReadGuard<'_, T>> {
        if sched::me().is_none() {
            return match self.inner.read() {
                Ok(g) => Ok(self.rg(g)),
                Err(p) => Err(real::PoisonError::new(self.rg(p.into_inner()))),
            };
        }
        sched::point(kind::READ, sched::obj_id(&self.id));
        loop {
            if self.writers.load(Relaxed) == 0 {
                match self.inner.try_read() {
                    Ok(g) => return Ok(self.rg(g)),
                    Err(real::TryLockError::Poisoned(p)) => {
                        return Err(real::PoisonError::new(self.rg(p.into_inner())))
                    }
                    Err(real::TryLockError::WouldBlock) => {}
                }
            }
            sched::block(addr(&self.id), kind::READ, sched::obj_id(&self.id), None);
        }
    }
    pub fn try_read(&self) -> real::TryLockResult<RwLockReadGuard<'_, T>> {
        if sched::me().is_some() {
            sched::point(kind::READ, sched::obj_id(&self.id));
            if self.writers.load(Relaxed) != 0 {
                return Err(real::TryLockError::WouldBlock);
            }
        }
        match self.inner.try_read() {
            Ok(g) => Ok(self.rg(g)),
            Err(real::TryLockError::Poisoned(p)) => {
                Err(real::TryLockError::Poisoned(real::PoisonError::new(self.rg(p.into_inner()))))
            }
            Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
        }
    }
    pub fn write(&self) -> real::LockResult<RwLockWriteGuard<'_, T>> {
        if sched::me().is_none() {
            return match self.inner.write() {
                Ok(g) => Ok(self.wg(g)),
                Err(p) => Err(real::PoisonError::new(self.wg(p.into_inner()))),
            };
        }
        sched::point(kind::WRITE, sched::obj_id(&self.id));
        let mut waiting = false;
        loop {
            match self.inner.try_write() {
                Ok(g) => {
                    if waiting {
                        self.writers.fetch_sub(1, Relaxed);
                    }
                    return Ok(self.wg(g));
                }
                Err(real::TryLockError::Poisoned(p)) => {
                    if waiting {
                        self.writers.fetch_sub(1, Relaxed);
                    }
                    return Err(real::PoisonError::new(self.wg(p.into_inner())));
                }
                Err(real::TryLockError::WouldBlock) => {}
            }
            if !waiting {
                waiting = true;
                self.writers.fetch_add(1, Relaxed);
            }
            sched::block(addr(&self.id), kind::WRITE, sched::obj_id(&self.id), None);
        }
    }
    pub fn try_write(&self) -> real::TryLockResult<RwLockWriteGuard<'_, T>> {
        if sched::me().is_some() {
            sched::point(kind::WRITE, sched::obj_id(&self.id));
        }
        match self.inner.try_write() {
            Ok(g) => Ok(self.wg(g)),
            Err(real::TryLockError::Poisoned(p)) => {
                Err(real::TryLockError::Poisoned(real::PoisonError::new(self.wg(p.into_inner()))))
            }
            Err(real::TryLockError::WouldBlock) => Err(real::TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
        self.inner.get_mut()
    }
}
fn rw_released(id: &RU64) {
    if sched::me().is_some() {
        sched::wake(addr(id));
        sched::point(kind::RELEASE, sched::obj_id(id));
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.inner.take();
        rw_released(self.id);
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.inner.take();
        rw_released(self.id);
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(mut s: Self) -> RwLockReadGuard<'a, T> {
        let g = real::RwLockWriteGuard::downgrade(s.inner.take().unwrap());
        let id = s.id;
        // waiting readers may go on; the drop of `s` wakes them
        RwLockReadGuard { id, inner: Some(g) }
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}

// ---------------------------------------------------------------------------------------- Condvar

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar {
    id: RU64,
    inner: real::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { id: RU64::new(0), inner: real::Condvar::new() }
    }
    fn sim_wait<'a, T: ?Sized>(&self, mut guard: MutexGuard<'a, T>, t: Option<u64>) -> (real::LockResult<MutexGuard<'a, T>>, bool) {
        let lock = guard.lock;
        let g = guard.inner.take();
        ::std::mem::forget(guard);
        drop(g);
        sched::wake(addr(&lock.id));
        let mut timed = false;
        if sched::spurious() {
            sched::point(kind::CV_WAIT, sched::obj_id(&self.id));
        } else {
            timed = sched::block(addr(&self.id), kind::CV_WAIT, sched::obj_id(&self.id), t);
        }
        (lock.acquire(), timed)
    }
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> real::LockResult<MutexGuard<'a, T>> {
        if sched::me().is_none() {
            let lock = guard.lock;
            let g = guard.inner.take().unwrap();
            ::std::mem::forget(guard);
            return match self.inner.wait(g) {
                Ok(g) => Ok(lock.wrap(g)),
                Err(p) => Err(real::PoisonError::new(lock.wrap(p.into_inner()))),
            };
        }
        self.sim_wait(guard, None).0
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut c: F) -> real::LockResult<MutexGuard<'a, T>> {
        while c(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(&self, mut guard: MutexGuard<'a, T>, dur: Duration) -> real::LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        if sched::me().is_none() {
            let lock = guard.lock;
            let g = guard.inner.take().unwrap();
            ::std::mem::forget(guard);
            return match self.inner.wait_timeout(g, dur) {
                Ok((g, r)) => Ok((lock.wrap(g), WaitTimeoutResult(r.timed_out()))),
                Err(p) => {
                    let (g, r) = p.into_inner();
                    Err(real::PoisonError::new((lock.wrap(g), WaitTimeoutResult(r.timed_out()))))
                }
            };
        }
        let (r, t) = self.sim_wait(guard, Some(dur.as_nanos() as u64));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(t))),
            Err(p) => Err(real::PoisonError::new((p.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, dur: Duration, mut c: F) -> real::LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let start = Instant::now();
        loop {
            if !c(&mut *guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            let left = match dur.checked_sub(start.elapsed()) {
                Some(l) => l,
                None => return Ok((guard, WaitTimeoutResult(true))),
            };
            guard = self.wait_timeout(guard, left)?.0;
        }
    }
    pub fn notify_one(&self) {
        if sched::me().is_none() {
            return self.inner.notify_one();
        }
        sched::wake_one(addr(&self.id));
        sched::point(kind::CV_NOTIFY, sched::obj_id(&self.id));
    }
    pub fn notify_all(&self) {
        if sched::me().is_none() {
            return self.inner.notify_all();
        }
        sched::wake(addr(&self.id));
        sched::point(kind::CV_NOTIFY, sched::obj_id(&self.id));
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

// --------------------------------------------------------------------------------- Once, OnceLock

const INCOMPLETE: u8 = 0;
const RUNNING: u8 = 1;
const COMPLETE: u8 = 2;
const POISONED: u8 = 3;

pub struct Once {
    id: RU64,
    state: RU8,
}
pub struct OnceState {
    poisoned: bool,
}
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
pub const ONCE_INIT: Once = Once::new();
struct Finish<'a> {
    o: &'a Once,
    to: u8,
}
impl<'a> Drop for Finish<'a> {
    fn drop(&mut self) {
        self.o.state.store(self.to, SeqCst);
        sched::wake(addr(&self.o.id));
    }
}
impl Once {
    pub const fn new() -> Self {
        Once { id: RU64::new(0), state: RU8::new(INCOMPLETE) }
    }
    pub fn is_completed(&self) -> bool {
        self.state.load(SeqCst) == COMPLETE
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.call(false, |_| f())
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        self.call(true, f)
    }
    fn call<F: FnOnce(&OnceState)>(&self, force: bool, f: F) {
        if self.is_completed() {
            return;
        }
        sched::point(kind::ONCE, 0);
        loop {
            let s = self.state.load(SeqCst);
            match s {
                COMPLETE => return,
                POISONED if !force => panic!("Once instance has previously been poisoned"),
                RUNNING => {
                    if sched::me().is_some() {
                        sched::block(addr(&self.id), kind::ONCE, sched::obj_id(&self.id), None);
                    } else {
                        ::std::thread::yield_now();
                    }
                }
                _ => {
                    if self.state.compare_exchange(s, RUNNING, SeqCst, SeqCst).is_err() {
                        continue;
                    }
                    let mut fin = Finish { o: self, to: POISONED };
                    f(&OnceState { poisoned: s == POISONED });
                    fin.to = COMPLETE;
                    return;
                }
            }
        }
    }
    pub fn wait(&self) {
        loop {
            match self.state.load(SeqCst) {
                COMPLETE => return,
                POISONED => panic!("Once instance has previously been poisoned"),
                _ => {
                    if sched::me().is_some() {
                        sched::block(addr(&self.id), kind::ONCE, sched::obj_id(&self.id), None);
                    } else {
                        ::std::thread::yield_now();
                    }
                }
            }
        }
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}

pub struct OnceLock<T> {
    once: Once,
    v: UnsafeCell<Option<T>>,
    _p: PhantomData<T>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), v: UnsafeCell::new(None), _p: PhantomData }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once_force(|_| {
            let x = f();
            unsafe { *self.v.get() = Some(x) };
        });
        self.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        let r = self.v.get_mut().take();
        self.once = Once::new();
        r
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = Self::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
    fn eq(&self, o: &Self) -> bool {
        self.get() == o.get()
    }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T> From<T> for OnceLock<T> {
    fn from(t: T) -> Self {
        let c = Self::new();
        let _ = c.set(t);
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    init: real::Mutex<Option<F>>,
}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), init: real::Mutex::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| {
            let f = this.init.lock().unwrap().take();
            f.expect("LazyLock instance has previously been poisoned")()
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}

// ---------------------------------------------------------------------------------------- Barrier

pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier { .. }")
    }
}

// ----------------------------------------------------------------------------------------- atomic

pub mod atomic {
    use crate::sched::{self, kind};
    pub use ::std::sync::atomic::*;
    use ::std::sync::atomic as real;
    use ::std::fmt;
    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[repr(transparent)]
            pub struct $name(real::$name);
            impl $name {
                pub const fn new(v: $t) -> Self { $name(real::$name::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { sched::point(kind::ATOMIC, 0); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { sched::point(kind::ATOMIC, 1); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 2); self.0.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { sched::point(kind::ATOMIC, 3); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { sched::point(kind::ATOMIC, 3); self.0.compare_exchange(a, b, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> { sched::point(kind::ATOMIC, 4); self.0.fetch_update(s, f, g) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
            }
            impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
            impl From<$t> for $name { fn from(v: $t) -> Self { $name::new(v) } }
        };
    }
    macro_rules! int {
        ($($name:ident $t:ty),*) => { $(
            common!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_add(v, o) }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_sub(v, o) }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_max(v, o) }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_min(v, o) }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_xor(v, o) }
                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { sched::point(kind::ATOMIC, 5); self.0.fetch_nand(v, o) }
            }
            impl Default for $name { fn default() -> Self { $name::new(0) } }
        )* };
    }
    int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
    common!(AtomicBool, bool);
    impl Default for AtomicBool { fn default() -> Self { AtomicBool::new(false) } }
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { sched::point(kind::ATOMIC, 5); self.0.fetch_and(v, o) }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { sched::point(kind::ATOMIC, 5); self.0.fetch_or(v, o) }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { sched::point(kind::ATOMIC, 5); self.0.fetch_xor(v, o) }
        pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { sched::point(kind::ATOMIC, 5); self.0.fetch_nand(v, o) }
    }
    pub fn spin_loop_hint() { sched::point(kind::YIELD, 0); }
}

// ------------------------------------------------------------------------------------------- mpsc

pub mod mpsc {
    use super::{Arc, Condvar, Mutex};
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use ::std::collections::VecDeque;
    use ::std::fmt;
    use ::std::time::Duration;

    struct Inner<T> {
        q: VecDeque<T>,
        senders: usize,
        alive: bool,
        cap: Option<usize>,
        taken: u64,
        sent: u64,
    }
    struct Chan<T> {
        m: Mutex<Inner<T>>,
        rx: Condvar,
        tx: Condvar,
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);

    fn mk<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan {
            m: Mutex::new(Inner { q: VecDeque::new(), senders: 1, alive: true, cap, taken: 0, sent: 0 }),
            rx: Condvar::new(),
            tx: Condvar::new(),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(Some(bound));
        (SyncSender(c.clone()), Receiver(c))
    }
    impl<T> Chan<T> {
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut g = self.m.lock().unwrap();
            loop {
                if !g.alive {
                    return Err(SendError(t));
                }
                match g.cap {
                    Some(c) if g.q.len() >= c.max(1) => g = self.tx.wait(g).unwrap(),
                    _ => break,
                }
            }
            g.q.push_back(t);
            g.sent += 1;
            let no = g.sent;
            self.rx.notify_one();
            if g.cap == Some(0) {
                while g.alive && g.taken < no {
                    g = self.tx.wait(g).unwrap();
                }
            }
            Ok(())
        }
        fn pop(&self, g: &mut Inner<T>) -> Option<T> {
            let r = g.q.pop_front();
            if r.is_some() {
                g.taken += 1;
                if g.cap.is_some() {
                    self.tx.notify_all();
                }
            }
            r
        }
        fn add(&self) {
            self.m.lock().unwrap().senders += 1;
        }
        fn del(&self) {
            let mut g = match self.m.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
            g.senders -= 1;
            if g.senders == 0 {
                self.rx.notify_all();
            }
        }
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            let mut g = self.0.m.lock().unwrap();
            if !g.alive {
                return Err(TrySendError::Disconnected(t));
            }
            if g.q.len() >= g.cap.unwrap_or(usize::MAX).max(1) {
                return Err(TrySendError::Full(t));
            }
            g.q.push_back(t);
            g.sent += 1;
            self.0.rx.notify_one();
            Ok(())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.add();
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            self.0.add();
            SyncSender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.del()
        }
    }
    impl<T> Drop for SyncSender<T> {
        fn drop(&mut self) {
            self.0.del()
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let mut g = match self.0.m.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
            g.alive = false;
            let old = ::std::mem::take(&mut g.q);
            self.0.tx.notify_all();
            drop(g);
            drop(old);
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(t) = self.0.pop(&mut g) {
                    return Ok(t);
                }
                if g.senders == 0 {
                    return Err(RecvError);
                }
                g = self.0.rx.wait(g).unwrap();
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap();
            match self.0.pop(&mut g) {
                Some(t) => Ok(t),
                None if g.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(t) = self.0.pop(&mut g) {
                    return Ok(t);
                }
                if g.senders == 0 {
                    return Err(RecvTimeoutError::Disconnected);
                }
                let (g2, r) = self.0.rx.wait_timeout(g, d).unwrap();
                g = g2;
                if r.timed_out() {
                    return match self.0.pop(&mut g) {
                        Some(t) => Ok(t),
                        None => Err(RecvTimeoutError::Timeout),
                    };
                }
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            Iter(self)
        }
    }
    impl<T> fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Sender { .. }")
        }
    }
    impl<T> fmt::Debug for SyncSender<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("SyncSender { .. }")
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
}
