//! The simulation core: the tape of choices, the run's event hash, counters and virtual clock.
//! Every choice of a run is a draw from one of three streams; replay is a pure function of the tape.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;

/// Workload choices: dataset, options, queries.
pub const W: usize = 0;
/// Schedule and fault choices.
pub const F: usize = 1;
/// Hash keys handed to the standard library.
pub const H: usize = 2;

pub use crate::rng::Rng;

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Tape(pub [Vec<u64>; 3]);

impl Tape {
    pub fn len(&self) -> usize {
        self.0.iter().map(|v| v.len()).sum()
    }
}

enum Src {
    Gen(Rng),
    Replay(Vec<u64>, usize),
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    /// fault kinds that actually fired
    pub faults: BTreeMap<String, u64>,
    /// rare conditions that were reached
    pub probes: BTreeMap<String, u64>,
    /// simulated nanoseconds
    pub sim_ns: u64,
    /// simulated I/O operations and requests
    pub io_ops: u64,
    /// a short description of the run's workload
    pub desc: String,
    pub nontrivial: bool,
}

pub struct Sim {
    src: [Src; 3],
    rec: Tape,
    hash: u64,
    trace: Option<Vec<String>>,
    stats: Stats,
    now: u64,
    steps: u64,
    step_cap: u64,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
}

pub struct StepCap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
impl fmt::Display for Viol {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[{}] {}", self.class, self.msg)
    }
}
pub type SResult = Result<(), Viol>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($arg:tt)*) => { return Err($crate::core::Viol { class: $class.to_string(), msg: format!($($arg)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !($cond) { $crate::viol!($class, $($arg)*) } };
}

pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("no simulation is running")))
}
fn try_with<T>(f: impl FnOnce(&mut Sim) -> T) -> Option<T> {
    SIM.try_with(|s| match s.try_borrow_mut() {
        Ok(mut g) => g.as_mut().map(f),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

pub fn install(tape: Option<Tape>, seed: u64, tracing: bool) {
    let src = match tape {
        Some(t) => t.0.map(|v| Src::Replay(v, 0)),
        None => [
            Src::Gen(Rng::new(seed)),
            Src::Gen(Rng::new(seed ^ 0x5555_0001)),
            Src::Gen(Rng::new(seed ^ 0x7777_0002)),
        ],
    };
    let sim = Sim {
        src,
        rec: Tape::default(),
        hash: 0xcbf2_9ce4_8422_2325,
        trace: if tracing { Some(Vec::new()) } else { None },
        stats: Stats::default(),
        now: 0,
        steps: 0,
        step_cap: 3_000_000,
    };
    SIM.with(|s| *s.borrow_mut() = Some(sim));
    ACTIVE.with(|a| a.set(true));
}

pub fn uninstall() -> (Tape, u64, Vec<String>, Stats) {
    ACTIVE.with(|a| a.set(false));
    let mut s = SIM.with(|s| s.borrow_mut().take()).expect("no simulation");
    s.stats.sim_ns = s.now;
    s.stats.io_ops = s.steps;
    (s.rec, s.hash, s.trace.unwrap_or_default(), s.stats)
}

/// Runs `f` in a simulation of its own with a fixed seed, leaving the current one untouched:
/// for things that are the same in every run and made once per process.
pub fn aside<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    let saved = SIM.with(|s| s.borrow_mut().take());
    install(None, seed, false);
    with(|s| s.step_cap = u64::MAX);
    let r = f();
    uninstall();
    if saved.is_some() {
        ACTIVE.with(|a| a.set(true));
    }
    SIM.with(|s| *s.borrow_mut() = saved);
    r
}

pub fn draw(stream: usize, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|s| {
        let v = match &mut s.src[stream] {
            Src::Gen(r) => r.below(n),
            Src::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                x.min(n - 1)
            }
        };
        s.rec.0[stream].push(v);
        v
    })
}

/// For getrandom: never panics, returns None outside a simulation.
pub fn draw_hash_key() -> Option<u64> {
    try_with(|s| {
        let v = match &mut s.src[H] {
            Src::Gen(r) => r.next(),
            Src::Replay(v, pos) => {
                let x = v.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                x
            }
        };
        s.rec.0[H].push(v);
        v
    })
}

/// workload choice in [0,n)
pub fn w(n: usize) -> usize {
    draw(W, n as u64) as usize
}
/// schedule / fault choice in [0,n)
pub fn f(n: usize) -> usize {
    draw(F, n as u64) as usize
}
/// true with probability num/den; false is the simple value
pub fn wb(num: u64, den: u64) -> bool {
    draw(W, den) >= den - num
}
pub fn fb(num: u64, den: u64) -> bool {
    draw(F, den) >= den - num
}
pub fn wpick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[w(xs.len())]
}

pub fn fired(kind: &str) {
    with(|s| *s.stats.faults.entry(kind.to_string()).or_default() += 1)
}
pub fn try_fired(kind: &str) {
    try_with(|s| *s.stats.faults.entry(kind.to_string()).or_default() += 1);
}
pub fn probe(kind: &str) {
    with(|s| *s.stats.probes.entry(kind.to_string()).or_default() += 1)
}
pub fn describe(d: impl Into<String>) {
    with(|s| s.stats.desc = d.into())
}
pub fn nontrivial() {
    with(|s| s.stats.nontrivial = true)
}
pub fn now() -> u64 {
    with(|s| s.now)
}
pub fn set_now(t: u64) {
    with(|s| s.now = t)
}
/// An event of the run: goes into the run's hash and, when tracing, into the event log.
pub fn ev(kind: &'static str, a: u64, b: u64) {
    try_with(|s| {
        let mut h = s.hash;
        for x in [fnv(kind.as_bytes()), a, b] {
            h ^= x;
            h = h.wrapping_mul(0x100_0000_01b3);
            h ^= h >> 29;
        }
        s.hash = h;
        if let Some(t) = &mut s.trace {
            if t.len() < 20_000 {
                let l = format!("t={}ns {} {} {}", s.now, kind, a, b);
                t.push(l);
            }
        }
    });
}
pub fn note(f: impl FnOnce() -> String) {
    try_with(|s| {
        if let Some(t) = &mut s.trace {
            if t.len() < 20_000 {
                t.push(f());
            }
        }
    });
}
/// One simulated I/O operation; a run that needs absurdly many is hanging.
/// A run with a large input needs more.
pub fn more_steps(n: u64) {
    with(|s| s.step_cap = s.step_cap.saturating_add(n));
}
pub fn step() {
    let over = with(|s| {
        s.steps += 1;
        s.steps > s.step_cap
    });
    if over {
        std::panic::panic_any(StepCap);
    }
}

/// A reader that goes on far beyond what it announced would fill the memory: it counts as one
/// that never ends.
pub fn delivered(features: usize, announced: Option<usize>) {
    let most = announced.map_or(200_000, |n| n.saturating_mul(2).saturating_add(2000));
    if features > most {
        std::panic::panic_any(StepCap);
    }
}

// ---------------------------------------------------------------- panics

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let file = l.file();
                let file = file.rsplit("/src/").next().unwrap_or(file).to_string();
                (file, l.line())
            })
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        PANIC_MSG.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("{}:{}: {}", loc.0, loc.1, msg));
            }
        });
    }));
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs library code; a panic in it becomes a violation of class `panic`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<StepCap>() {
                return Err(Viol {
                    class: "hang".into(),
                    msg: "the run exceeded its bound on simulated I/O operations".into(),
                });
            }
            let m = PANIC_MSG
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| payload_str(&*p));
            // class: the file and the message without numbers, so that line moves do not matter
            let file = m.split(':').next().unwrap_or("").to_string();
            if m.contains(": harness: ") {
                return Err(Viol { class: format!("harness {}", file), msg: m });
            }
            Err(Viol {
                class: format!("panic in {}", file),
                msg: m,
            })
        }
    }
}

// ---------------------------------------------------------------- allocation meter

pub struct Meter;
thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
/// Requests above this fail, so that a runaway size aborts the worker instead of the machine.
const HARD_LIMIT: usize = 1 << 30;

fn note_alloc(n: usize) -> bool {
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
    n <= HARD_LIMIT
}
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !note_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if !note_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if !note_alloc(n) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
pub fn alloc_reset() {
    BIGGEST.with(|b| b.set(0))
}
pub fn alloc_biggest() -> usize {
    BIGGEST.with(|b| b.get())
}
