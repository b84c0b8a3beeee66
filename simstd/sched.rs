//! The deterministic scheduler.
//!
//! Simulated threads are real OS threads, but exactly one of them (the holder of the "baton") runs
//! at any time; every hand-over is decided here, from one seeded generator or from a recorded
//! script.  Code outside a simulated thread is untouched: all primitives then behave like std's.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Mutex, MutexGuard};
use std::thread::Thread;

pub type Tid = u32;

/// Kinds of scheduling points (also the alphabet of the event log).
pub mod kind {
    pub const LOCK: u8 = 1;
    pub const UNLOCK: u8 = 2;
    pub const READ: u8 = 3;
    pub const WRITE: u8 = 4;
    pub const RELEASE: u8 = 5;
    pub const CV_WAIT: u8 = 6;
    pub const CV_NOTIFY: u8 = 7;
    pub const SPAWN: u8 = 8;
    pub const EXIT: u8 = 9;
    pub const JOIN: u8 = 10;
    pub const YIELD: u8 = 11;
    pub const SLEEP: u8 = 12;
    pub const ATOMIC: u8 = 13;
    pub const PARK: u8 = 14;
    pub const ONCE: u8 = 15;
    pub const BLOCK: u8 = 16;
    pub const RAYON_PUSH: u8 = 20;
    pub const RAYON_INJECT: u8 = 21;
    pub const RAYON_FIND: u8 = 22;
    pub const RAYON_LATCH: u8 = 23;
    pub const RAYON_EXEC: u8 = 24;
    pub const MARK: u8 = 30;
    pub const NAMES: &[(u8, &str)] = &[
        (LOCK, "lock"), (UNLOCK, "unlock"), (READ, "read-lock"), (WRITE, "write-lock"),
        (RELEASE, "rw-release"), (CV_WAIT, "cv-wait"), (CV_NOTIFY, "cv-notify"), (SPAWN, "spawn"),
        (EXIT, "exit"), (JOIN, "join"), (YIELD, "yield"), (SLEEP, "sleep"), (ATOMIC, "atomic"),
        (PARK, "park"), (ONCE, "once"), (BLOCK, "block"), (RAYON_PUSH, "pool-push"),
        (RAYON_INJECT, "pool-inject"), (RAYON_FIND, "pool-find-work"), (RAYON_LATCH, "pool-latch"),
        (RAYON_EXEC, "pool-exec"), (MARK, "mark"),
    ];
    pub fn name(k: u8) -> &'static str {
        NAMES.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or("?")
    }
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// keep running the current thread until it blocks
    Sequential,
    /// at each point, with probability num/2^16, move to a random runnable thread
    Random { num: u32 },
    /// random strict priorities with `changes` priority-change points in the first `horizon` steps
    Pct { changes: u32, horizon: u64 },
    /// switch every `q` points
    Quantum { q: u32 },
    /// exactly these departures from the default choice
    Script(Vec<(u64, Tid)>),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub policy: Policy,
    pub seed: u64,
    pub max_steps: u64,
    /// windows [from,to) of steps in which a thread is not scheduled unless it is the only choice
    pub stalls: Vec<(Tid, u64, u64)>,
    /// probability num/2^16 of a spurious condition-variable wake-up per wait
    pub spurious: u32,
    pub cpus: usize,
    /// upper bound on pool threads that the thread-pool library reports
    pub max_pool: usize,
    /// idle rounds before a pool worker goes to sleep
    pub pool_rounds: u32,
    pub tick_ns: u64,
    /// keep the complete event list (for comparing executions)
    pub keep_events: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            policy: Policy::Sequential, seed: 1, max_steps: 5_000_000, stalls: vec![], spurious: 0,
            cpus: 4, max_pool: 16, pool_rounds: 2, tick_ns: 150, keep_events: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub steps: u64,
    pub switches: u64,
    pub blocks: u64,
    pub threads: u32,
    pub hash: u64,
    pub clock_ns: u64,
    pub decisions: Vec<(u64, Tid)>,
    pub events: Vec<u64>,
    pub kinds: [u64; 32],
    pub stalled: u64,
    pub spurious: u64,
    pub panics: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fatal {
    Deadlock(String),
    StepLimit(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Block { key: usize, k: u8, deadline: u64 },
    Dead,
}

struct Th {
    st: St,
    go: &'static Go,
    prio: u64,
    why: (u8, u32),
    woken_by_timeout: bool,
    token: bool,
}

struct Go {
    flag: AtomicBool,
    thread: Mutex<Option<Thread>>,
}

struct State {
    cfg: Config,
    th: Vec<Th>,
    cur: Tid,
    rng: u64,
    prng: u64,
    rep: Report,
    now: u64,
    consec: u64,
    low_prio: u64,
    changes: Vec<u64>,
    script_pos: usize,
    quantum_left: u32,
    next_obj: u32,
    tail: std::collections::VecDeque<u64>,
    ending: bool,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static RUN_NO: AtomicU32 = AtomicU32::new(0);
static OUT_CLOCK: AtomicU64 = AtomicU64::new(0);
static FATAL: Mutex<Option<fn(Fatal, Report)>> = Mutex::new(None);

std::thread_local! {
    static ME: Cell<Option<(u32, Tid)>> = const { Cell::new(None) };
    static INSIDE: Cell<u32> = const { Cell::new(0) };
}

/// Guard of the scheduler state; also tells the allocation tracer to look away.
struct Guard(MutexGuard<'static, Option<State>>);
impl std::ops::Deref for Guard {
    type Target = Option<State>;
    fn deref(&self) -> &Option<State> {
        &self.0
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut Option<State> {
        &mut self.0
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(i.get().wrapping_sub(1)));
    }
}

/// Is the calling thread inside the scheduler (or a section marked quiet by the harness)?
pub fn inside() -> bool {
    INSIDE.try_with(|i| i.get() != 0).unwrap_or(true)
}
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    INSIDE.with(|i| i.set(i.get() + 1));
    let r = f();
    INSIDE.with(|i| i.set(i.get() - 1));
    r
}

fn st() -> Guard {
    let _ = INSIDE.try_with(|i| i.set(i.get().wrapping_add(1)));
    match STATE.lock() {
        Ok(g) => Guard(g),
        Err(p) => Guard(p.into_inner()),
    }
}

/// The simulated thread this OS thread carries, if any.
#[inline]
pub fn me() -> Option<Tid> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    ME.try_with(|m| m.get()).ok().flatten().and_then(|(r, t)| if r == RUN_NO.load(Relaxed) { Some(t) } else { None })
}

pub fn on_fatal(f: fn(Fatal, Report)) {
    *FATAL.lock().unwrap() = Some(f);
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct Set {
    a: [Tid; 64],
    n: usize,
}
impl std::ops::Deref for Set {
    type Target = [Tid];
    fn deref(&self) -> &[Tid] {
        &self.a[..self.n]
    }
}

impl State {
    /// draws of the environment: the same whatever policy (or script) drives the run
    fn rnd(&mut self) -> u64 {
        splitmix(&mut self.rng)
    }
    /// draws of the scheduling policy
    fn prnd(&mut self) -> u64 {
        splitmix(&mut self.prng)
    }
    fn log(&mut self, t: Tid, k: u8, obj: u32) {
        let e = ((t as u64) << 40) | ((k as u64) << 32) | obj as u64;
        self.rep.hash = (self.rep.hash ^ e).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
        self.rep.kinds[(k & 31) as usize] += 1;
        if self.cfg.keep_events {
            self.rep.events.push(e);
        }
        if self.tail.len() >= 200 {
            self.tail.pop_front();
        }
        self.tail.push_back(e);
    }
    fn runnable(&self) -> Set {
        let mut r = Set { a: [0; 64], n: 0 };
        for (t, x) in self.th.iter().enumerate() {
            if x.st == St::Run && r.n < 64 {
                r.a[r.n] = t as Tid;
                r.n += 1;
            }
        }
        r
    }
    /// The choice when nothing departs: continue, except that a thread which yields (or has run
    /// for very long) hands over to the next runnable one in cyclic order.
    fn default_choice(&self, r: &[Tid], from: Tid, can_stay: bool, k: u8) -> Tid {
        if can_stay && k != kind::YIELD && self.consec < 4000 {
            return from;
        }
        *r.iter().find(|&&t| t > from).unwrap_or(&r[0])
    }
    fn choose(&mut self, from: Tid, can_stay: bool, k: u8) -> Option<Tid> {
        let r = self.runnable();
        if r.is_empty() {
            return None;
        }
        let step = self.rep.steps;
        let d = self.default_choice(&r, from, can_stay, k);
        let mut pick = if r.len() == 1 {
            r[0]
        } else {
            match &self.cfg.policy {
                Policy::Sequential => d,
                Policy::Script(v) => {
                    while self.script_pos < v.len() && v[self.script_pos].0 < step {
                        self.script_pos += 1;
                    }
                    if self.script_pos < v.len() && v[self.script_pos].0 == step && r.contains(&v[self.script_pos].1) {
                        v[self.script_pos].1
                    } else {
                        d
                    }
                }
                Policy::Random { num } => {
                    let n = *num as u64;
                    let x = self.prnd();
                    if !can_stay || (x & 0xffff) < n || d != from {
                        let y = self.prnd();
                        r[(y % r.len() as u64) as usize]
                    } else {
                        d
                    }
                }
                Policy::Quantum { q } => {
                    let q = *q;
                    if can_stay && self.quantum_left > 0 && k != kind::YIELD {
                        self.quantum_left -= 1;
                        from
                    } else {
                        self.quantum_left = q;
                        *r.iter().find(|&&t| t > from).unwrap_or(&r[0])
                    }
                }
                Policy::Pct { .. } => {
                    if self.changes.binary_search(&step).is_ok() || k == kind::YIELD || self.consec >= 2000 {
                        self.low_prio -= 1;
                        let lp = self.low_prio;
                        self.th[from as usize].prio = lp;
                    }
                    *r.iter().max_by_key(|&&t| self.th[t as usize].prio).unwrap()
                }
            }
        };
        if !matches!(self.cfg.policy, Policy::Script(_)) && r.len() > 1 && !self.cfg.stalls.is_empty() {
            let stalled = |s: &State, t: Tid| s.cfg.stalls.iter().any(|&(x, a, b)| x == t && step >= a && step < b);
            if stalled(self, pick) {
                let ok: Vec<Tid> = r.iter().cloned().filter(|&t| !stalled(self, t)).collect();
                if !ok.is_empty() {
                    self.rep.stalled += 1;
                    let y = self.prnd();
                    pick = ok[(y % ok.len() as u64) as usize];
                }
            }
        }
        if pick != d {
            self.rep.decisions.push((step, pick));
        }
        Some(pick)
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.th.iter().enumerate() {
            let w = match t.st {
                St::Run => "runnable".to_string(),
                St::Dead => continue,
                St::Block { .. } => format!("blocked at {}#{}", kind::name(t.why.0), t.why.1),
            };
            s.push_str(&format!("t{i}: {w}; "));
        }
        s
    }
}

fn fatal(mut g: Guard, f: Fatal) -> ! {
    let mut rep = Report::default();
    if let Some(s) = g.as_mut() {
        rep = s.rep.clone();
        rep.clock_ns = s.now;
    }
    drop(g);
    ACTIVE.store(false, SeqCst);
    let h = *FATAL.lock().unwrap();
    if let Some(h) = h {
        h(f, rep);
    }
    std::process::abort()
}

fn hand_over(g: Guard, next: Tid, self_go: Option<&'static Go>) {
    let go = g.as_ref().unwrap().th[next as usize].go;
    drop(g);
    go.flag.store(true, Release);
    let t = go.thread.lock().unwrap().clone();
    if let Some(t) = t {
        t.unpark();
    }
    if let Some(s) = self_go {
        wait_go(s);
    }
}

fn wait_go(s: &'static Go) {
    while !s.flag.swap(false, Acquire) {
        std::thread::park();
    }
}

fn step(s: &mut State, t: Tid, k: u8, obj: u32) -> bool {
    s.rep.steps += 1;
    s.consec += 1;
    s.now += s.cfg.tick_ns;
    s.log(t, k, obj);
    s.rep.steps <= s.cfg.max_steps
}

/// A place where another thread may be scheduled.
#[inline]
pub fn point(k: u8, obj: u32) {
    let Some(t) = me() else { return };
    let mut g = st();
    let s = g.as_mut().unwrap();
    if !step(s, t, k, obj) {
        let d = s.describe();
        fatal(g, Fatal::StepLimit(d));
    }
    let n = s.choose(t, true, k).unwrap();
    if n != t {
        s.cur = n;
        s.consec = 0;
        s.rep.switches += 1;
        let go = s.th[t as usize].go;
        hand_over(g, n, Some(go));
    }
}

/// Block the calling simulated thread on `key` until `wake(key)`; true if it was a timeout.
pub fn block(key: usize, k: u8, obj: u32, timeout_ns: Option<u64>) -> bool {
    let Some(t) = me() else { return false };
    let mut g = st();
    let s = g.as_mut().unwrap();
    if !step(s, t, kind::BLOCK, obj) {
        let d = s.describe();
        fatal(g, Fatal::StepLimit(d));
    }
    let deadline = timeout_ns.map(|n| s.now.saturating_add(n)).unwrap_or(u64::MAX);
    s.rep.blocks += 1;
    s.th[t as usize].st = St::Block { key, k, deadline };
    s.th[t as usize].why = (k, obj);
    s.th[t as usize].woken_by_timeout = false;
    pass_on(g, t, true)
}

fn pass_on(mut g: Guard, t: Tid, come_back: bool) -> bool {
    loop {
        let s = g.as_mut().unwrap();
        match s.choose(t, false, kind::BLOCK) {
            Some(n) => {
                s.cur = n;
                s.consec = 0;
                s.rep.switches += 1;
                if n == t {
                    let w = s.th[t as usize].woken_by_timeout;
                    return w;
                }
                let go = s.th[t as usize].go;
                if come_back {
                    hand_over(g, n, Some(go));
                    let g = st();
                    return g.as_ref().unwrap().th[t as usize].woken_by_timeout;
                } else {
                    hand_over(g, n, None);
                    return false;
                }
            }
            None => {
                // nothing runnable: let time pass to the next deadline
                let next = s.th.iter().filter_map(|x| match x.st {
                    St::Block { deadline, .. } if deadline != u64::MAX => Some(deadline),
                    _ => None,
                }).min();
                match next {
                    Some(d) => {
                        s.now = s.now.max(d);
                        for x in s.th.iter_mut() {
                            if let St::Block { deadline, .. } = x.st {
                                if deadline <= d {
                                    x.st = St::Run;
                                    x.woken_by_timeout = true;
                                }
                            }
                        }
                    }
                    None => {
                        let d = s.describe();
                        fatal(g, Fatal::Deadlock(d));
                    }
                }
            }
        }
    }
}

/// Make every thread blocked on `key` runnable.
pub fn wake(key: usize) {
    if me().is_none() {
        return;
    }
    let mut g = st();
    let s = g.as_mut().unwrap();
    for x in s.th.iter_mut() {
        if let St::Block { key: kk, .. } = x.st {
            if kk == key {
                x.st = St::Run;
            }
        }
    }
}

/// Make one (randomly chosen) thread blocked on `key` runnable.
pub fn wake_one(key: usize) {
    if me().is_none() {
        return;
    }
    let mut g = st();
    let s = g.as_mut().unwrap();
    let v: Vec<usize> = (0..s.th.len()).filter(|&i| matches!(s.th[i].st, St::Block { key: kk, .. } if kk == key)).collect();
    if v.is_empty() {
        return;
    }
    let i = if v.len() == 1 { 0 } else { (s.rnd() % v.len() as u64) as usize };
    s.th[v[i]].st = St::Run;
}

/// Sequential number for a synchronisation object, given out at first use.
pub fn obj_id(cell: &AtomicU64) -> u32 {
    if me().is_none() {
        return 0;
    }
    let run = RUN_NO.load(Relaxed) as u64;
    let v = cell.load(Relaxed);
    if v >> 32 == run && v as u32 != 0 {
        return v as u32;
    }
    let mut g = st();
    let s = g.as_mut().unwrap();
    s.next_obj += 1;
    let id = s.next_obj;
    cell.store((run << 32) | id as u64, Relaxed);
    id
}

pub fn now_ns() -> u64 {
    if me().is_some() {
        let mut g = st();
        if let Some(s) = g.as_mut() {
            s.now += 50;
            return s.now;
        }
    }
    OUT_CLOCK.fetch_add(20_000_000, Relaxed)
}

/// Let simulated time pass without blocking (used by the world model between events).
pub fn advance_ns(n: u64) {
    if me().is_some() {
        if let Some(s) = st().as_mut() {
            s.now += n;
        }
    }
}

/// A fair draw from the run's generator (used by the thread-pool library and the harness).
pub fn draw() -> u64 {
    if me().is_some() {
        if let Some(s) = st().as_mut() {
            return s.rnd();
        }
    }
    0x1234_5678_9abc_def1
}

pub fn cfg_cpus() -> Option<usize> {
    me()?;
    st().as_ref().map(|s| s.cfg.cpus)
}
pub fn cfg_max_pool() -> Option<usize> {
    me()?;
    st().as_ref().map(|s| s.cfg.max_pool)
}
pub fn cfg_pool_rounds() -> Option<u32> {
    me()?;
    st().as_ref().map(|s| s.cfg.pool_rounds)
}

pub fn spurious() -> bool {
    if me().is_none() {
        return false;
    }
    let mut g = st();
    let s = g.as_mut().unwrap();
    if s.cfg.spurious == 0 {
        return false;
    }
    let x = s.rnd() & 0xffff;
    if x < s.cfg.spurious as u64 {
        s.rep.spurious += 1;
        true
    } else {
        false
    }
}

/// Record an application-level event in the log (no scheduling decision).
pub fn mark(v: u32) {
    if let Some(t) = me() {
        if let Some(s) = st().as_mut() {
            s.log(t, kind::MARK, v);
        }
    }
}

/// Number of events logged so far, and a copy of the events from `from` on.
pub fn events_since(from: usize) -> Vec<u64> {
    st().as_ref().map(|s| s.rep.events[from.min(s.rep.events.len())..].to_vec()).unwrap_or_default()
}
pub fn event_count() -> usize {
    st().as_ref().map(|s| s.rep.events.len()).unwrap_or(0)
}

pub fn tail() -> Vec<u64> {
    st().as_ref().map(|s| s.tail.iter().cloned().collect()).unwrap_or_default()
}

pub fn progress() -> (u64, u64) {
    match STATE.try_lock() {
        Ok(g) => g.as_ref().map(|s| (s.rep.steps, s.now)).unwrap_or((0, 0)),
        Err(_) => (0, 0),
    }
}

// ------------------------------------------------------------------------------------------------
// threads

fn add_thread(s: &mut State) -> (Tid, &'static Go) {
    let go: &'static Go = Box::leak(Box::new(Go { flag: AtomicBool::new(false), thread: Mutex::new(None) }));
    let id = s.th.len() as Tid;
    let r = s.prnd();
    let prio = (1u64 << 40) + (r >> 25);
    s.th.push(Th { st: St::Run, go, prio, why: (0, 0), woken_by_timeout: false, token: false });
    s.rep.threads = s.th.len() as u32;
    (id, go)
}

pub struct Ticket {
    run: u32,
    tid: Tid,
    go: &'static Go,
}

impl Ticket {
    pub fn tid(&self) -> Tid {
        self.tid
    }
}

/// Reserve a slot for a thread about to be spawned by the current simulated thread.
pub fn prepare() -> Option<Ticket> {
    me()?;
    let mut g = st();
    let s = g.as_mut().unwrap();
    let (tid, go) = add_thread(s);
    s.th[tid as usize].st = St::Run;
    Some(Ticket { run: RUN_NO.load(Relaxed), tid, go })
}

pub struct Exit(Tid);

/// First thing a spawned simulated thread does.
pub fn enter(t: Ticket) -> Exit {
    *t.go.thread.lock().unwrap() = Some(std::thread::current());
    ME.with(|m| m.set(Some((t.run, t.tid))));
    wait_go(t.go);
    Exit(t.tid)
}

impl Drop for Exit {
    fn drop(&mut self) {
        if me() != Some(self.0) {
            return;
        }
        let t = self.0;
        let mut g = st();
        let s = g.as_mut().unwrap();
        if std::thread::panicking() {
            s.rep.panics += 1;
        }
        s.rep.steps += 1;
        s.log(t, kind::EXIT, 0);
        s.th[t as usize].st = St::Dead;
        for x in s.th.iter_mut() {
            if let St::Block { key, k: kind::JOIN, .. } = x.st {
                if key == t as usize {
                    x.st = St::Run;
                }
            }
        }
        pass_on(g, t, false);
        ME.with(|m| m.set(None));
    }
}

pub fn is_dead(t: Tid) -> bool {
    st().as_ref().map(|s| s.th[t as usize].st == St::Dead).unwrap_or(true)
}

pub fn join(t: Tid) {
    if me().is_none() {
        return;
    }
    point(kind::JOIN, t);
    while !is_dead(t) {
        block(t as usize, kind::JOIN, t, None);
    }
}

pub fn park(timeout: Option<u64>) {
    let Some(t) = me() else { return };
    point(kind::PARK, t);
    {
        let mut g = st();
        let th = &mut g.as_mut().unwrap().th[t as usize];
        if th.token {
            th.token = false;
            return;
        }
    }
    block(usize::MAX - t as usize, kind::PARK, t, timeout);
    let mut g = st();
    g.as_mut().unwrap().th[t as usize].token = false;
}

pub fn unpark(t: Tid) {
    if me().is_none() {
        return;
    }
    {
        let mut g = st();
        g.as_mut().unwrap().th[t as usize].token = true;
    }
    wake(usize::MAX - t as usize);
    point(kind::PARK, t);
}

/// Run `f` as simulated thread 0 on a fresh OS thread.  All threads spawned inside must have ended
/// when it returns (it waits for them).
pub fn run<R: Send>(cfg: Config, f: impl FnOnce() -> R + Send) -> (std::thread::Result<R>, Report) {
    let go: &'static Go;
    {
        let mut g = st();
        assert!(g.is_none(), "nested simulation");
        RUN_NO.fetch_add(1, SeqCst);
        let seed = cfg.seed;
        let mut s = State {
            rng: seed ^ 0xA076_1D64_78BD_642F, prng: seed.rotate_left(17) ^ 0x5851_F42D_4C95_7F2D,
            th: vec![], cur: 0, rep: Report { hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
            now: 1_000_000, consec: 0, low_prio: 1 << 30, changes: vec![], script_pos: 0, quantum_left: 0,
            next_obj: 0, tail: Default::default(), ending: false, cfg,
        };
        if let Policy::Pct { changes, horizon } = s.cfg.policy {
            let mut c: Vec<u64> = (0..changes).map(|_| s.prnd() % horizon.max(1)).collect();
            c.sort();
            c.dedup();
            s.changes = c;
        }
        if let Policy::Script(v) = &mut s.cfg.policy {
            v.sort();
        }
        let (_, g0) = add_thread(&mut s);
        go = g0;
        *g = Some(s);
    }
    ACTIVE.store(true, SeqCst);
    let run = RUN_NO.load(SeqCst);
    let res = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
            ME.with(|m| m.set(Some((run, 0))));
            *go.thread.lock().unwrap() = Some(std::thread::current());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            // wait for the rest
            loop {
                let alive: Option<Tid> = {
                    let mut g = st();
                    let s = g.as_mut().unwrap();
                    s.ending = true;
                    (1..s.th.len() as Tid).find(|&t| s.th[t as usize].st != St::Dead)
                };
                match alive {
                    Some(t) => join(t),
                    None => break,
                }
            }
            ME.with(|m| m.set(None));
            r
        }).unwrap().join().unwrap()
    });
    ACTIVE.store(false, SeqCst);
    let mut g = st();
    let s = g.take().unwrap();
    let mut rep = s.rep;
    rep.clock_ns = s.now;
    (res, rep)
}
