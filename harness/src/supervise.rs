//! Makes a case in which the code under test never returns, overflows its stack, aborts or
//! allocates without bound a violation with a replay file, instead of the end of the check.
//!
//! Every thread that runs cases has a slot holding a pointer to its current input. A thread that
//! crashes (signal handler), allocates too much (global allocator) or uses too much CPU time for
//! one case (seen by the supervising thread, which then signals it) is parked for good, and the
//! supervising thread serialises its input, confirms the failure in a process of its own, shrinks
//! it there and reports it. Limits are on the CPU time of one case, never on elapsed time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::Value;

use crate::engine::Input;

/// CPU seconds one case may take (cases of the unchanged tree take milliseconds; see max_case_cpu_s
/// in the evidence files).
pub const CASE_CPU_S: u64 = 60;
/// CPU seconds a candidate may take while an input that hangs is made smaller.
const SHRINK_CPU_S: u64 = 5;
fn shrink_wall() -> Duration {
    Duration::from_secs(crate::env_u64("PBT_SHRINK_S", 60))
}
/// Live bytes one case may allocate.
const CASE_BYTES: isize = 2 << 30;

struct Slot {
    /// odd while a case runs
    seq: AtomicU64,
    input: AtomicPtr<()>,
    ser: AtomicPtr<()>,
    sub: AtomicPtr<String>,
    clock: AtomicI32,
    thread: AtomicU64,
    /// the case to be parked
    wanted: AtomicU64,
}

const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    seq: AtomicU64::new(0),
    input: AtomicPtr::new(std::ptr::null_mut()),
    ser: AtomicPtr::new(std::ptr::null_mut()),
    sub: AtomicPtr::new(std::ptr::null_mut()),
    clock: AtomicI32::new(0),
    thread: AtomicU64::new(0),
    wanted: AtomicU64::new(0),
};
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static PIPE: AtomicI32 = AtomicI32::new(-1);
/// The longest CPU time of a finished case, in microseconds.
static LONGEST: AtomicU64 = AtomicU64::new(0);

const NONE: usize = usize::MAX;

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(NONE) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static COUNTING: Cell<bool> = const { Cell::new(false) };
}

/// Counts the live bytes of the current case.
pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

fn grow(n: isize) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if v > CASE_BYTES && COUNTING.try_with(|c| c.get()).unwrap_or(false) {
            if PIPE.load(Ordering::Relaxed) < 0 {
                // in a probe
                let m = b"more than 2 GiB allocated\n";
                unsafe {
                    libc::write(2, m.as_ptr().cast(), m.len());
                    libc::abort();
                }
            }
            park(b'm');
        }
    });
}

fn park(kind: u8) -> ! {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(NONE);
    let m = [if slot == NONE { 255u8 } else { slot as u8 }, kind];
    unsafe {
        libc::write(PIPE.load(Ordering::Relaxed), m.as_ptr().cast(), 2);
        loop {
            libc::pause();
        }
    }
}

extern "C" fn on_crash(sig: i32) {
    park(sig as u8)
}

/// The supervising thread wants this thread's case, if it is still the same one.
extern "C" fn on_request(_: i32) {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(NONE);
    if slot != NONE {
        let s = &TABLE[slot];
        let seq = s.seq.load(Ordering::SeqCst);
        if seq % 2 == 1 && s.wanted.load(Ordering::SeqCst) == seq {
            park(b'h');
        }
    }
}

fn cpu_of(clock: i32) -> Option<Duration> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    (unsafe { libc::clock_gettime(clock, &mut t) } == 0)
        .then(|| Duration::new(t.tv_sec as u64, t.tv_nsec as u32))
}

fn my_cpu() -> Duration {
    cpu_of(libc::CLOCK_THREAD_CPUTIME_ID).unwrap_or_default()
}

/// Gives the calling thread a slot (if there is one left).
pub fn register() {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    if n >= SLOTS {
        return;
    }
    let s = &TABLE[n];
    unsafe {
        let me = libc::pthread_self();
        let mut c: libc::clockid_t = 0;
        extern "C" {
            fn pthread_getcpuclockid(t: libc::pthread_t, c: *mut libc::clockid_t) -> i32;
        }
        if pthread_getcpuclockid(me, &mut c) != 0 {
            return;
        }
        s.thread.store(me as u64, Ordering::SeqCst);
        s.clock.store(c, Ordering::SeqCst);
    }
    SLOT.with(|x| x.set(n));
}

/// Names the sub-check whose cases follow on this thread.
pub fn set_sub(name: &str) {
    let n = SLOT.with(|s| s.get());
    if n != NONE {
        // (leaked: a handful per run)
        TABLE[n].sub.store(Box::into_raw(Box::new(name.to_string())), Ordering::SeqCst);
    }
}

fn ser_of<I: Input>(p: *const ()) -> Value {
    serde_json::to_value(unsafe { &*(p as *const I) }).unwrap_or(Value::Null)
}

pub struct Entered {
    slot: usize,
    cpu: Duration,
}

/// Marks the beginning of a case on this thread; its end when dropped.
pub fn enter<I: Input>(input: &I) -> Entered {
    let slot = SLOT.with(|s| s.get());
    LIVE.with(|l| l.set(0));
    COUNTING.with(|c| c.set(true));
    if slot == NONE {
        return Entered { slot, cpu: Duration::ZERO };
    }
    let s = &TABLE[slot];
    s.input.store(input as *const I as *mut (), Ordering::SeqCst);
    s.ser.store(ser_of::<I> as fn(*const ()) -> Value as *mut (), Ordering::SeqCst);
    s.seq.fetch_add(1, Ordering::SeqCst);
    Entered { slot, cpu: my_cpu() }
}

impl Drop for Entered {
    fn drop(&mut self) {
        COUNTING.with(|c| c.set(false));
        if self.slot != NONE {
            TABLE[self.slot].seq.fetch_add(1, Ordering::SeqCst);
            let us = my_cpu().saturating_sub(self.cpu).as_micros() as u64;
            LONGEST.fetch_max(us, Ordering::Relaxed);
        }
    }
}

pub fn cases_begun() -> u64 {
    TABLE.iter().map(|s| s.seq.load(Ordering::Relaxed).div_ceil(2)).sum()
}

pub fn longest_case_s() -> f64 {
    LONGEST.load(Ordering::Relaxed) as f64 / 1e6
}

/// The exit code of a supervised run that handed over a case (on its report descriptor).
pub const HANDED_OVER: i32 = 99;

/// Starts the supervising thread, which hands a crashed or endless case to the parent process.
/// (Nothing more is done in this process: the stopped thread may hold any lock.)
pub fn start(report_fd: i32) {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return;
        }
        PIPE.store(fds[1], Ordering::SeqCst);
        let set = |sig: i32, f: extern "C" fn(i32)| {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = f as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER | libc::SA_RESTART;
            libc::sigemptyset(&mut a.sa_mask);
            libc::sigaction(sig, &a, std::ptr::null_mut());
        };
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            set(sig, on_crash);
        }
        set(libc::SIGUSR1, on_request);
    }
    let fd = fds[0];
    std::thread::spawn(move || {
        let mut seen = [(0u64, Duration::ZERO); SLOTS];
        loop {
            match next_event(fd, 500) {
                None => {
                    for (s, old) in TABLE.iter().zip(seen.iter_mut()) {
                        let seq = s.seq.load(Ordering::SeqCst);
                        if seq % 2 == 0 {
                            continue;
                        }
                        let Some(cpu) = cpu_of(s.clock.load(Ordering::SeqCst)) else { continue };
                        if old.0 != seq {
                            *old = (seq, cpu);
                        } else if cpu.saturating_sub(old.1) > Duration::from_secs(CASE_CPU_S) {
                            s.wanted.store(seq, Ordering::SeqCst);
                            unsafe {
                                libc::pthread_kill(
                                    s.thread.load(Ordering::SeqCst) as libc::pthread_t,
                                    libc::SIGUSR1,
                                );
                            }
                        }
                    }
                }
                Some((slot, kind)) => {
                    let mut slots = vec![slot as usize];
                    if slots[0] >= SLOTS {
                        // some helper thread crashed: whose case it was is found out by trying
                        slots = park_all(fd);
                    }
                    let cases: Vec<Value> = slots
                        .into_iter()
                        .map(|n| {
                            let s = &TABLE[n];
                            unsafe {
                                let f: fn(*const ()) -> Value =
                                    std::mem::transmute(s.ser.load(Ordering::SeqCst));
                                let sub = &*s.sub.load(Ordering::SeqCst);
                                serde_json::json!([sub, f(s.input.load(Ordering::SeqCst))])
                            }
                        })
                        .collect();
                    let text = serde_json::json!({
                        "hang": kind == b'h', "kind": kind, "begun": cases_begun(), "cases": cases,
                    })
                    .to_string();
                    let mut rest = text.as_bytes();
                    unsafe {
                        while !rest.is_empty() {
                            let n = libc::write(report_fd, rest.as_ptr().cast(), rest.len());
                            if n <= 0 {
                                break;
                            }
                            rest = &rest[n as usize..];
                        }
                        libc::_exit(HANDED_OVER);
                    }
                }
            }
        }
    });
}

/// What a supervised run handed over, confirmed and made smaller: sub-check, message, input, number
/// of cases begun. An error if none of the cases fails by itself.
pub fn investigate(id: &str, report: &Value, dir: &Path) -> Result<(String, String, Value, u64), String> {
    let hang = report["hang"].as_bool().unwrap_or(false);
    let none = vec![];
    for c in report["cases"].as_array().unwrap_or(&none) {
        let sub = c[0].as_str().unwrap_or("");
        let p = Prober { id, sub, dir };
        if let Probe::Fails(m) = p.probe(&c[1], CASE_CPU_S) {
            let (m, v) = p.shrink(m, c[1].clone(), hang);
            return Ok((sub.to_string(), m, v, report["begun"].as_u64().unwrap_or(0)));
        }
    }
    Err(format!("a case ended abnormally ({}) but does not do so by itself", report["kind"]))
}

fn next_event(fd: i32, ms: i32) -> Option<(u8, u8)> {
    unsafe {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        if libc::poll(&mut p, 1, ms) <= 0 {
            return None;
        }
        let mut b = [0u8; 2];
        (libc::read(fd, b.as_mut_ptr().cast(), 2) == 2).then_some((b[0], b[1]))
    }
}

fn park_all(fd: i32) -> Vec<usize> {
    let mut asked = 0;
    for s in &TABLE {
        let seq = s.seq.load(Ordering::SeqCst);
        if seq % 2 == 1 {
            s.wanted.store(seq, Ordering::SeqCst);
            unsafe {
                libc::pthread_kill(
                    s.thread.load(Ordering::SeqCst) as libc::pthread_t,
                    libc::SIGUSR1,
                );
            }
            asked += 1;
        }
    }
    let mut parked = vec![];
    let end = Instant::now() + Duration::from_secs(10);
    while parked.len() < asked && Instant::now() < end {
        if let Some((n, _)) = next_event(fd, 200) {
            if (n as usize) < SLOTS {
                parked.push(n as usize);
            }
        }
    }
    parked
}

#[derive(Debug)]
pub enum Probe {
    Holds,
    Fails(String),
    /// not an input of this sub-check
    Invalid,
}

pub struct Prober<'a> {
    pub id: &'a str,
    pub sub: &'a str,
    pub dir: &'a Path,
}

impl Prober<'_> {
    /// Runs one case in a process of its own.
    pub fn probe(&self, input: &Value, cpu_s: u64) -> Probe {
        let file = self.dir.join("probe.json");
        let body = serde_json::json!({
            "property": self.id, "sub_check": self.sub, "input": input,
        });
        if std::fs::write(&file, body.to_string()).is_err() {
            return Probe::Invalid;
        }
        probe_file(&file, cpu_s)
    }

    /// Removes and simplifies parts of the input while it still fails.
    fn shrink(&self, msg: String, input: Value, hang: bool) -> (String, Value) {
        let end = Instant::now() + shrink_wall();
        let limit = if hang { SHRINK_CPU_S } else { CASE_CPU_S };
        let (first_msg, first) = (msg.clone(), input.clone());
        let (mut msg, mut cur) = (msg, input);
        loop {
            let mut found = None;
            smaller(&cur, &mut |c| {
                if Instant::now() > end {
                    return true;
                }
                if let Probe::Fails(m) = self.probe(&c, limit) {
                    found = Some((m, c));
                    return true;
                }
                false
            });
            match found {
                Some(x) => (msg, cur) = x,
                None => break,
            }
        }
        if hang && cur != first {
            // what was made smaller must fail by the full limit too
            match self.probe(&cur, CASE_CPU_S) {
                Probe::Fails(m) => msg = m,
                _ => return (first_msg, first),
            }
        }
        (msg, cur)
    }
}

pub fn probe_file(file: &Path, cpu_s: u64) -> Probe {
    let Ok(me) = std::env::current_exe() else { return Probe::Invalid };
    let mut cmd = Command::new(me);
    cmd.arg("probe").arg(file).stdin(Stdio::null());
    // whatever it leaves behind goes with our own scratch directory
    cmd.env("TMPDIR", crate::scratch::dir());
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let Ok(out) = cmd.output() else { return Probe::Invalid };
    let text = String::from_utf8_lossy(&out.stdout);
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Probe::Holds,
        (Some(1), _) => {
            Probe::Fails(text.trim_end().strip_prefix("fails: ").unwrap_or("fails").to_string())
        }
        (_, Some(libc::SIGXCPU)) => {
            Probe::Fails(format!("no result after {cpu_s} s of CPU time"))
        }
        (_, Some(s)) => {
            let err = String::from_utf8_lossy(&out.stderr);
            let err: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).take(3).collect();
            Probe::Fails(format!("ended by signal {s} ({})", err.join("; ")))
        }
        _ => Probe::Invalid,
    }
}

/// Gives simpler values to `f`, the boldest first, until it returns true. (One at a time: those of
/// a large input together would not fit into memory.)
fn smaller(v: &Value, f: &mut dyn FnMut(Value) -> bool) -> bool {
    match v {
        Value::Array(a) => {
            let mut n = a.len();
            while n > 0 {
                for at in (0..a.len()).step_by(n) {
                    let mut b = a[..at].to_vec();
                    b.extend_from_slice(&a[(at + n).min(a.len())..]);
                    if f(Value::Array(b)) {
                        return true;
                    }
                }
                n /= 2;
            }
            a.len() <= 200
                && a.iter().enumerate().any(|(i, x)| {
                    smaller(x, &mut |s| {
                        let mut b = a.clone();
                        b[i] = s;
                        f(Value::Array(b))
                    })
                })
        }
        Value::Object(o) => o.iter().any(|(k, x)| {
            smaller(x, &mut |s| {
                let mut b = o.clone();
                b.insert(k.clone(), s);
                f(Value::Object(b))
            })
        }),
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            let mut n = c.len();
            while n > 0 {
                for at in (0..c.len()).step_by(n) {
                    let b = c[..at].iter().chain(&c[(at + n).min(c.len())..]).collect();
                    if f(Value::String(b)) {
                        return true;
                    }
                }
                n /= 2;
            }
            false
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                let mut c = vec![0, u / 2, u.saturating_sub(1)];
                c.dedup();
                c.into_iter().filter(|c| *c < u).any(|c| f(Value::from(c)))
            } else if let Some(i) = n.as_i64() {
                [0, i / 2].into_iter().any(|c| f(Value::from(c)))
            } else {
                false
            }
        }
        Value::Bool(true) => f(Value::Bool(false)),
        _ => false,
    }
}

/// Runs `f` on a thread like those of the cases.
pub fn on_case_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(crate::engine::STACK)
            .spawn_scoped(sc, || {
                register();
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

