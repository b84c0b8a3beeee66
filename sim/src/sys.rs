//! The operating-system seam: libc entry points the code under test reaches (clocks, entropy,
//! files, standard output) are defined here and answered from the current simulated world when the
//! calling thread is a simulated one; every other caller gets the real system call.
use panacea_simstd::sched;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum IoKind {
    /// the call transfers at most this many bytes
    Short(usize),
    /// every call from here on transfers at most this many bytes
    ShortAll(usize),
    Err(i32),
    /// every call from here on fails
    ErrAll(i32),
    /// end of file from here on
    Eof,
    /// the source returns the same bytes forever (entropy only)
    Stuck(u8),
}

/// `target`: "getrandom", "devrandom", "file", "stdout"; `call`: "open" or "io"; `at`: how many
/// such calls go through before this one is hit.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct IoFault {
    pub target: String,
    pub call: String,
    pub at: u64,
    pub kind: IoKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct ClockPlan {
    /// nanoseconds since the epoch at the start of the run
    pub base: u64,
    /// the wall clock never moves
    pub frozen: bool,
    /// the monotonic clock never moves
    pub mono_frozen: bool,
    /// at the n-th reading, both clocks jump forward by so many ns
    pub jumps: Vec<(u64, u64)>,
    /// at the n-th reading, the wall clock (only) is set forwards or backwards by so many ns
    #[serde(default)]
    pub set: Vec<(u64, i64)>,
}

pub struct World {
    ent: [u64; 2],
    stuck: [Option<u8>; 2],
    clock: ClockPlan,
    clock_calls: u64,
    faults: Vec<IoFault>,
    seen: BTreeMap<(String, String), u64>,
    pub fired: BTreeMap<String, u64>,
    files: Vec<String>,
    fds: BTreeMap<i32, String>,
    pub stdout: Vec<u8>,
    pub capture: bool,
    pub entropy_bytes: u64,
    /// bytes handed out by (getrandom, /dev/random)
    pub drawn: [u64; 2],
    /// this bit of this byte of /dev/random is inverted
    pub flip: Option<(u64, u8)>,
}

impl World {
    pub fn new(entropy: u64, clock: ClockPlan, faults: Vec<IoFault>, files: Vec<String>, capture: bool) -> Self {
        World {
            ent: [entropy ^ 0x1111_2222_3333_4444, entropy.rotate_left(32) ^ 0x9999_8888_7777_6666],
            stuck: [None, None], clock, clock_calls: 0, faults, seen: Default::default(), fired: Default::default(),
            files, fds: Default::default(), stdout: vec![], capture, entropy_bytes: 0,
            drawn: [0, 0], flip: None,
        }
    }
    /// Which fault, if any, the next call of this kind on this target meets.
    fn fault(&mut self, target: &str, call: &str) -> Option<IoKind> {
        let n = self.seen.entry((target.into(), call.into())).or_insert(0);
        let k = *n;
        *n += 1;
        for f in &self.faults {
            if f.target == target && f.call == call {
                let hit = match f.kind {
                    IoKind::Short(_) | IoKind::Err(_) => f.at == k,
                    _ => k >= f.at,
                };
                if hit {
                    let name = match &f.kind {
                        IoKind::Short(_) | IoKind::ShortAll(_) => "short".to_string(),
                        IoKind::Err(e) | IoKind::ErrAll(e) => format!("errno{e}"),
                        IoKind::Eof => "eof".into(),
                        IoKind::Stuck(_) => "stuck".into(),
                    };
                    let kind = f.kind.clone();
                    *self.fired.entry(format!("{target}.{call}.{name}")).or_insert(0) += 1;
                    return Some(kind);
                }
            }
        }
        None
    }
    fn entropy(&mut self, src: usize, out: &mut [u8]) {
        self.entropy_bytes += out.len() as u64;
        for b in out.iter_mut() {
            *b = match self.stuck[src] {
                Some(v) => v,
                None => (crate::rng::next(&mut self.ent[src]) >> 24) as u8,
            };
            if src == 1 {
                if let Some((at, bit)) = self.flip {
                    if at == self.drawn[1] {
                        *b ^= 1 << (bit & 7);
                        *self.fired.entry("devrandom.bit-inverted".into()).or_insert(0) += 1;
                    }
                }
            }
            self.drawn[src] += 1;
        }
    }
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub static WARM: AtomicBool = AtomicBool::new(false);

pub fn install(w: World) {
    *WORLD.lock().unwrap_or_else(|p| p.into_inner()) = Some(w);
}
pub fn uninstall() -> Option<World> {
    WORLD.lock().unwrap_or_else(|p| p.into_inner()).take()
}
/// Act on the current world; not visible to the scheduler or the allocation tracer.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    sched::quiet(|| WORLD.lock().unwrap_or_else(|p| p.into_inner()).as_mut().map(f))
}
/// Change the entropy stream (a new process, in effect).
pub fn reseed(entropy: u64) {
    with(|w| {
        w.ent = [entropy ^ 0x1111_2222_3333_4444, entropy.rotate_left(32) ^ 0x9999_8888_7777_6666];
    });
}

fn simulated() -> bool {
    sched::me().is_some()
}

#[inline(always)]
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = (-r) as i32 };
        -1
    } else {
        r
    }
}
fn fail(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if simulated() {
        let realtime = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
        let mut ns = sched::now_ns();
        let base = with(|w| {
            w.clock_calls += 1;
            let c = w.clock_calls;
            if let Some(j) = w.clock.jumps.iter().find(|j| j.0 == c).map(|j| j.1) {
                *w.fired.entry("clock.jump".into()).or_insert(0) += 1;
                sched::advance_ns(j);
                ns += j;
            }
            for d in w.clock.set.iter().filter(|j| j.0 == c).map(|j| j.1).collect::<Vec<_>>() {
                *w.fired.entry(if d < 0 { "clock.set-back" } else { "clock.set-forward" }.into()).or_insert(0) += 1;
                w.clock.base = w.clock.base.wrapping_add_signed(d).clamp(1 << 59, 1 << 62);
            }
            if (realtime && w.clock.frozen) || (!realtime && w.clock.mono_frozen) {
                *w.fired.entry("clock.frozen".into()).or_insert(0) += 1;
                ns = 0;
            }
            if realtime { w.clock.base } else { 1_000_000_000 }
        })
        .unwrap_or(0);
        let t = base.wrapping_add(ns);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    if WARM.load(Relaxed) {
        let t = sched::now_ns();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}

fn sim_getrandom(buf: *mut u8, len: usize) -> i64 {
    with(|w| {
        let mut n = len.min(256);
        match w.fault("getrandom", "io") {
            Some(IoKind::Short(k)) | Some(IoKind::ShortAll(k)) => n = n.min(k.max(1)),
            Some(IoKind::Err(e)) | Some(IoKind::ErrAll(e)) => return fail(e),
            Some(IoKind::Stuck(v)) => w.stuck[0] = Some(v),
            Some(IoKind::Eof) | None => {}
        }
        w.entropy(0, unsafe { std::slice::from_raw_parts_mut(buf, n) });
        n as i64
    })
    .unwrap_or_else(|| fail(libc::EIO))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if simulated() {
        return sim_getrandom(buf as *mut u8, len) as isize;
    }
    if WARM.load(Relaxed) {
        std::ptr::write_bytes(buf as *mut u8, 7, len);
        return len as isize;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom && simulated() {
        if b == 0 {
            return 0;
        }
        return sim_getrandom(a as *mut u8, b);
    }
    if n == libc::SYS_clock_gettime {
        return clock_gettime(a as i32, b as *mut libc::timespec) as i64;
    }
    ret(raw(n, a, b, c, d, e, f))
}

unsafe fn do_open(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    if simulated() {
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        let target = with(|w| {
            if p == "/dev/random" || p == "/dev/urandom" {
                Some("devrandom".to_string())
            } else if w.files.contains(&p) {
                Some("file".to_string())
            } else {
                None
            }
        })
        .flatten();
        if let Some(t) = target {
            let f = with(|w| w.fault(&t, "open")).flatten();
            if let Some(IoKind::Err(e)) | Some(IoKind::ErrAll(e)) = f {
                return fail(e) as i32;
            }
            let fd = ret(raw(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32;
            if fd >= 0 {
                with(|w| w.fds.insert(fd, t));
            }
            return fd;
        }
    }
    ret(raw(libc::SYS_openat, dir as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if simulated() {
        with(|w| w.fds.remove(&fd));
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut libc::c_void, len: usize) -> isize {
    if simulated() {
        let target = with(|w| w.fds.get(&fd).cloned()).flatten();
        if let Some(t) = target {
            let mut n = len;
            match with(|w| w.fault(&t, "io")).flatten() {
                Some(IoKind::Short(k)) | Some(IoKind::ShortAll(k)) => n = n.min(k.max(1)),
                Some(IoKind::Err(e)) | Some(IoKind::ErrAll(e)) => return fail(e) as isize,
                Some(IoKind::Eof) => return 0,
                Some(IoKind::Stuck(v)) => {
                    with(|w| w.stuck[1] = Some(v));
                }
                None => {}
            }
            if t == "devrandom" {
                with(|w| w.entropy(1, std::slice::from_raw_parts_mut(buf as *mut u8, n)));
                return n as isize;
            }
            return ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) as isize;
        }
    }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, len: usize) -> isize {
    if fd == 1 && simulated() && with(|w| w.capture).unwrap_or(false) {
        return with(|w| {
            let mut n = len;
            match w.fault("stdout", "io") {
                Some(IoKind::Short(k)) | Some(IoKind::ShortAll(k)) => n = n.min(k.max(1)),
                Some(IoKind::Err(e)) | Some(IoKind::ErrAll(e)) => return fail(e) as isize,
                _ => {}
            }
            w.stdout.extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n));
            n as isize
        })
        .unwrap();
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if fd == 1 && simulated() && with(|w| w.capture).unwrap_or(false) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)) as isize
}

// ------------------------------------------------------------------------------------------------
// allocation tracer

pub struct Tracer;
pub static TRACING: AtomicBool = AtomicBool::new(false);
const CAP: usize = 1 << 21;
static TRACE: [AtomicU64; CAP] = [const { AtomicU64::new(0) }; CAP];
static TRACE_N: AtomicUsize = AtomicUsize::new(0);

fn note(size: usize) {
    if TRACING.load(Relaxed) && !sched::inside() {
        if let Some(t) = sched::me() {
            let i = TRACE_N.fetch_add(1, Relaxed);
            if i < CAP {
                TRACE[i].store(((t as u64) << 48) | size as u64, Relaxed);
            }
        }
    }
}

/// What simulated threads hold, outside the simulator: address -> size, in a table that does not
/// itself allocate.
mod held {
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicBool, Ordering::*};
    const SLOTS: usize = 1 << 21;
    struct Table(UnsafeCell<[(usize, usize); SLOTS]>);
    unsafe impl Sync for Table {}
    static TABLE: Table = Table(UnsafeCell::new([(0, 0); SLOTS]));
    static LOCK: AtomicBool = AtomicBool::new(false);
    pub static ON: AtomicBool = AtomicBool::new(false);
    static mut SUM: (usize, usize) = (0, 0);

    fn locked<R>(f: impl FnOnce(&mut [(usize, usize); SLOTS], &mut (usize, usize)) -> R) -> R {
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = unsafe { f(&mut *TABLE.0.get(), &mut *std::ptr::addr_of_mut!(SUM)) };
        LOCK.store(false, Release);
        r
    }
    fn home(p: usize) -> usize {
        ((p as u64 >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 43) as usize & (SLOTS - 1)
    }
    pub fn add(p: usize, n: usize) {
        locked(|t, s| {
            if s.1 >= SLOTS / 2 {
                return;
            }
            let mut i = home(p);
            while t[i].0 != 0 && t[i].0 != p {
                i = (i + 1) & (SLOTS - 1);
            }
            if t[i].0 == p {
                s.0 -= t[i].1;
                s.1 -= 1;
            }
            t[i] = (p, n);
            s.0 += n;
            s.1 += 1;
        })
    }
    pub fn remove(p: usize) {
        locked(|t, s| {
            let mut i = home(p);
            while t[i].0 != p {
                if t[i].0 == 0 {
                    return;
                }
                i = (i + 1) & (SLOTS - 1);
            }
            s.0 -= t[i].1;
            s.1 -= 1;
            // close the gap
            let mut j = i;
            loop {
                j = (j + 1) & (SLOTS - 1);
                if t[j].0 == 0 {
                    break;
                }
                let h = home(t[j].0);
                if (j.wrapping_sub(h) & (SLOTS - 1)) >= (j.wrapping_sub(i) & (SLOTS - 1)) {
                    t[i] = t[j];
                    i = j;
                }
            }
            t[i] = (0, 0);
        })
    }
    /// Bytes and blocks.
    pub fn sum() -> (usize, usize) {
        locked(|_, s| *s)
    }
    pub fn clear() {
        locked(|t, s| {
            if s.1 > 0 {
                t.fill((0, 0));
            }
            *s = (0, 0);
        })
    }
}
/// Start keeping account of what simulated threads hold.
pub fn account_on() {
    held::clear();
    held::ON.store(true, SeqCst);
}
pub fn account_off() {
    held::ON.store(false, SeqCst);
    held::clear();
}
/// Bytes and blocks held at present.
pub fn account() -> (usize, usize) {
    held::sum()
}
#[inline]
fn take(p: *mut u8, n: usize) {
    if held::ON.load(Relaxed) && !p.is_null() && !sched::inside() && sched::me().is_some() {
        held::add(p as usize, n);
    }
}
#[inline]
fn give(p: *mut u8) {
    if held::ON.load(Relaxed) {
        held::remove(p as usize);
    }
}

unsafe impl GlobalAlloc for Tracer {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let p = System.alloc(l);
        take(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        give(p);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        let p = System.alloc_zeroed(l);
        take(p, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        give(p);
        let q = System.realloc(p, l, n);
        take(q, n);
        q
    }
}

extern "C" {
    static __start___llvm_prf_cnts: u8;
    static __stop___llvm_prf_cnts: u8;
}
/// How often each region of the library's source has been executed so far in this process.
pub fn regions() -> Vec<u64> {
    unsafe {
        let a = std::ptr::addr_of!(__start___llvm_prf_cnts);
        let b = std::ptr::addr_of!(__stop___llvm_prf_cnts);
        let n = (b as usize - a as usize) / 8;
        (0..n).map(|i| std::ptr::read_volatile((a as *const u64).add(i))).collect()
    }
}

pub fn trace_on() {
    TRACE_N.store(0, SeqCst);
    TRACING.store(true, SeqCst);
}
pub fn trace_off() -> Vec<u64> {
    TRACING.store(false, SeqCst);
    let n = TRACE_N.load(SeqCst).min(CAP);
    (0..n).map(|i| TRACE[i].load(Relaxed)).collect()
}

pub fn raw_write(fd: i32, b: &[u8]) -> i64 {
    unsafe { raw(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) }
}

/// The code under test ends the process: report that instead.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if simulated() {
        if std::env::var_os(crate::toolp::ENV).is_some() {
            crate::toolp::child_exit(code);
        }
        let t = b"the code under test called exit\n";
        raw_write(2, t);
        libc::_exit(99);
    }
    extern "C" {
        fn fflush(f: *mut libc::c_void) -> i32;
    }
    fflush(std::ptr::null_mut());
    libc::_exit(code)
}
