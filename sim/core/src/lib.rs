//! Deterministic simulator core: choice tape, global simulation state, seeded
//! runner with process isolation, minimiser, replay and evidence.
pub mod galloc;
pub mod machines;
pub mod runner;
pub mod sys;

use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};

#[global_allocator]
static GLOBAL: galloc::Checking = galloc::Checking;

/// Payload of the panic that ends a run with a violation.
pub struct Violation {
    pub class: String,
    pub detail: String,
}

/// Payload of the panic that ends a run without verdict (e.g. tape exhausted far beyond use).
pub struct Discard;

/// Payload of panics injected into user callbacks.
pub struct Injected;

pub struct State {
    s: [u64; 4],
    replay: Option<Vec<u64>>,
    pos: usize,
    pub tape: Vec<u64>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub digest: u64,
    pub steps: u64,
    pub sim_time: u64,
    pub nontrivial: bool,
    pub pending: Option<(String, String)>,
    // accumulated over runs
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub thorough: bool,
}

struct Global(UnsafeCell<State>);
// Only the thread that holds the baton touches the simulation state.
unsafe impl Sync for Global {}

static SIM: Global = Global(UnsafeCell::new(State {
    s: [1, 2, 3, 4],
    replay: None,
    pos: 0,
    tape: Vec::new(),
    verbose: false,
    log: Vec::new(),
    digest: 0,
    steps: 0,
    sim_time: 0,
    nontrivial: false,
    pending: None,
    faults: BTreeMap::new(),
    probes: BTreeMap::new(),
    states: BTreeSet::new(),
    thorough: false,
}));

#[allow(clippy::mut_from_ref)]
pub fn st() -> &'static mut State {
    unsafe { &mut *SIM.0.get() }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub(crate) fn start_run(seed: u64, replay: Option<Vec<u64>>, verbose: bool) {
    galloc::reset();
    let s = st();
    let mut x = seed;
    s.s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
    s.replay = replay;
    s.pos = 0;
    s.tape.clear();
    s.verbose = verbose;
    s.log.clear();
    s.digest = 0;
    s.steps = 0;
    s.sim_time = 0;
    s.nontrivial = false;
    s.pending = None;
}

fn raw() -> u64 {
    let s = &mut st().s;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

const MAX_TAPE: usize = 1 << 20;

/// Uniform choice in `0..n` (n = 0 means the full 64-bit range). Smaller is simpler.
pub fn choose(n: u64) -> u64 {
    let s = st();
    let v = match &s.replay {
        Some(t) => {
            let v = t.get(s.pos).copied().unwrap_or(0);
            if n == 0 {
                v
            } else {
                v % n
            }
        }
        None => {
            let r = raw();
            if n == 0 {
                r
            } else {
                ((r as u128 * n as u128) >> 64) as u64
            }
        }
    };
    s.pos += 1;
    let _g = galloc::track(false);
    s.tape.push(v);
    unsafe {
        let m = runner::TAPE_MIRROR;
        if !m.is_null() && s.tape.len() < MAX_TAPE {
            *m.add(s.tape.len()) = v;
            *m = s.tape.len() as u64;
        }
    }
    if s.tape.len() > MAX_TAPE {
        std::panic::panic_any(Discard);
    }
    v
}

pub fn below(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    choose(n as u64) as usize
}

/// Inclusive range.
pub fn range(lo: usize, hi: usize) -> usize {
    lo + below(hi - lo + 1)
}

/// True with probability num/den; the simplest choice is false.
pub fn chance(num: u64, den: u64) -> bool {
    if num == 0 {
        return false;
    }
    choose(den) >= den - num
}

pub fn pick<T>(xs: &[T]) -> &T {
    &xs[below(xs.len())]
}

/// Sizes biased to small values and to neighbours of powers of two.
pub fn size(max: usize) -> usize {
    let v = match choose(8) {
        0..=2 => below(4.min(max + 1)),
        3..=4 => below(17.min(max + 1)),
        5 => {
            let b = 1usize << below(20);
            (b + below(3)).saturating_sub(1)
        }
        _ => below(max + 1),
    };
    v.min(max)
}

/// Mix a value of the event history into the run digest.
pub fn note(v: u64) {
    let s = st();
    s.digest = mix(s.digest, v);
}

pub use runner::{isolated, label};

pub fn step() {
    let s = st();
    s.steps += 1;
}

pub fn advance_time(d: u64) {
    st().sim_time += d;
}

pub fn fault(kind: &'static str) {
    let _g = galloc::track(false);
    *st().faults.entry(kind).or_insert(0) += 1;
    st().nontrivial = true;
    note(hash_bytes(kind.as_bytes()));
    if st().verbose {
        log_line(format!("  !! fault: {kind}"));
    }
}

pub fn probe(kind: &'static str) {
    let _g = galloc::track(false);
    *st().probes.entry(kind).or_insert(0) += 1;
}

pub fn nontrivial() {
    st().nontrivial = true;
}

/// Record an abstract state for the distinct-states measure.
pub fn state(h: u64) {
    let s = st();
    if s.states.len() < 2_000_000 {
        let _g = galloc::track(false);
        s.states.insert(h);
    }
}

pub fn log_line(l: String) {
    let _g = galloc::track(false);
    runner::mirror_log(&l);
    let s = st();
    if s.log.len() < 5000 {
        s.log.push(l);
    }
}

/// Log an event: formatted only when verbose, never draws from the tape.
#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => {
        if $crate::st().verbose {
            let _g = $crate::galloc::track(false);
            $crate::log_line(format!($($t)*));
        }
    };
}

/// End the run with a violation.
#[cold]
pub fn violate(class: &str, detail: String) -> ! {
    core::mem::forget(galloc::track(false));
    galloc::fail_off();
    // Destructors over a broken state could hide the verdict behind a crash:
    // hand it over and leave the process.
    log_line(format!("VIOLATED {class}: {detail}"));
    st().pending.get_or_insert((class.to_string(), detail));
    runner::report_pending_and_exit()
}

/// Like `violate`, for verdicts of the harness over intact state: the run ends
/// by unwinding, so a recorded finding costs the worker nothing.
#[cold]
pub fn violate_soft(class: &str, detail: String) -> ! {
    galloc::fail_off();
    let _g = galloc::track(false);
    log_line(format!("VIOLATED {class}: {detail}"));
    std::panic::panic_any(Violation { class: class.to_string(), detail })
}

/// Remember a violation noticed where unwinding is not possible; the runner
/// reports it when the run ends.
pub fn violate_later(class: &str, detail: String) {
    let _g = galloc::track(false);
    st().pending.get_or_insert((class.to_string(), detail));
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            let _g = $crate::galloc::track(false);
            $crate::violate($class, format!($($t)*));
        }
    };
}

/// Report heap faults noticed by the checking allocator.
pub fn check_heap(ctx: &str) {
    if let Some(f) = galloc::take_fault() {
        violate(f, format!("{f} noticed after {ctx}"));
    }
}

/// Run `f`, turning a panic of the code under test into a violation unless it
/// is one of the simulator's own payloads. Injected panics are returned.
pub fn guard<R>(ctx: &str, f: impl FnOnce() -> R) -> Result<R, Injected> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                return Err(Injected);
            }
            if p.is::<Violation>() || p.is::<Discard>() {
                std::panic::resume_unwind(p);
            }
            core::mem::forget(galloc::track(false));
            galloc::fail_off();
            let (loc, msg) = runner::last_panic();
            violate(&format!("panic@{loc}"), format!("{ctx}: panicked at {loc}: {msg}"))
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 200 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}
