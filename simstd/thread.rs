//! Simulated `std::thread`.
pub use ::std::thread::*;
use crate::sched::{self, kind};
use ::std::io;
use ::std::num::NonZeroUsize;
use ::std::sync::Mutex as RealMutex;
use ::std::thread as real;
use ::std::time::Duration;

pub fn yield_now() {
    if sched::me().is_some() {
        sched::point(kind::YIELD, 0);
    } else {
        real::yield_now()
    }
}
pub fn sleep(d: Duration) {
    if sched::me().is_some() {
        sched::point(kind::SLEEP, 0);
        sched::block(usize::MAX / 2, kind::SLEEP, 0, Some(d.as_nanos().min(u64::MAX as u128 / 4) as u64));
    } else {
        real::sleep(d)
    }
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    match sched::cfg_cpus() {
        Some(n) => Ok(NonZeroUsize::new(n.max(1)).unwrap()),
        None => real::available_parallelism(),
    }
}
pub fn park() {
    if sched::me().is_some() {
        sched::park(None)
    } else {
        real::park()
    }
}
pub fn park_timeout(d: Duration) {
    if sched::me().is_some() {
        sched::park(Some(d.as_nanos() as u64))
    } else {
        real::park_timeout(d)
    }
}

#[derive(Clone, Debug)]
pub struct Thread {
    inner: real::Thread,
    tid: Option<u32>,
}
impl Thread {
    pub fn unpark(&self) {
        match self.tid {
            Some(t) if sched::me().is_some() => sched::unpark(t),
            _ => self.inner.unpark(),
        }
    }
    pub fn id(&self) -> real::ThreadId {
        self.inner.id()
    }
    pub fn name(&self) -> Option<&str> {
        self.inner.name()
    }
}
pub fn current() -> Thread {
    Thread { inner: real::current(), tid: sched::me() }
}

pub struct JoinHandle<T> {
    inner: real::JoinHandle<T>,
    tid: Option<u32>,
    th: Thread,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> real::Result<T> {
        if let Some(t) = self.tid {
            sched::join(t);
        }
        self.inner.join()
    }
    pub fn thread(&self) -> &Thread {
        &self.th
    }
    pub fn is_finished(&self) -> bool {
        match self.tid {
            Some(t) if sched::me().is_some() => {
                sched::point(kind::JOIN, t);
                sched::is_dead(t)
            }
            _ => self.inner.is_finished(),
        }
    }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Debug)]
pub struct Builder {
    inner: real::Builder,
}
impl Builder {
    pub fn new() -> Self {
        Builder { inner: real::Builder::new() }
    }
    pub fn name(self, n: String) -> Self {
        Builder { inner: self.inner.name(n) }
    }
    pub fn stack_size(self, n: usize) -> Self {
        Builder { inner: self.inner.stack_size(n) }
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        match sched::prepare() {
            None => self.inner.spawn(f).map(|h| JoinHandle { th: Thread { inner: h.thread().clone(), tid: None }, inner: h, tid: None }),
            Some(tk) => {
                let tid = tk.tid();
                let h = self.inner.spawn(move || {
                    let _exit = sched::enter(tk);
                    f()
                })?;
                let r = JoinHandle { th: Thread { inner: h.thread().clone(), tid: Some(tid) }, inner: h, tid: Some(tid) };
                sched::point(kind::SPAWN, tid);
                Ok(r)
            }
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, scope: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match sched::prepare() {
            None => self.inner.spawn_scoped(scope.inner, f).map(|h| ScopedJoinHandle { th: Thread { inner: h.thread().clone(), tid: None }, inner: h, tid: None }),
            Some(tk) => {
                let tid = tk.tid();
                sched::quiet(|| scope.tids.lock().unwrap().push(tid));
                let h = self.inner.spawn_scoped(scope.inner, move || {
                    let _exit = sched::enter(tk);
                    f()
                })?;
                let r = ScopedJoinHandle { th: Thread { inner: h.thread().clone(), tid: Some(tid) }, inner: h, tid: Some(tid) };
                sched::point(kind::SPAWN, tid);
                Ok(r)
            }
        }
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub struct Scope<'scope, 'env: 'scope> {
    inner: &'scope real::Scope<'scope, 'env>,
    tids: RealMutex<Vec<u32>>,
}
pub struct ScopedJoinHandle<'scope, T> {
    inner: real::ScopedJoinHandle<'scope, T>,
    tid: Option<u32>,
    th: Thread,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> real::Result<T> {
        if let Some(t) = self.tid {
            sched::join(t);
        }
        self.inner.join()
    }
    pub fn thread(&self) -> &Thread {
        &self.th
    }
    pub fn is_finished(&self) -> bool {
        match self.tid {
            Some(t) if sched::me().is_some() => sched::is_dead(t),
            _ => self.inner.is_finished(),
        }
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    real::scope(|rs| {
        let s: &Scope<'_, 'env> = sched::quiet(|| Box::leak(Box::new(Scope { inner: rs, tids: RealMutex::new(vec![]) })));
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(s)));
        loop {
            let t = s.tids.lock().unwrap().pop();
            match t {
                Some(t) => sched::join(t),
                None => break,
            }
        }
        match r {
            Ok(r) => r,
            Err(e) => ::std::panic::resume_unwind(e),
        }
    })
}
