//! Seeded runner: worker processes over seed ranges, crash and hang
//! attribution, minimisation, replay files and evidence.
use crate::sys;
use crate::*;
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub rule: &'static str,
    pub quick_runs: u64,
    pub quick_secs: f64,
    pub thorough_runs: u64,
    pub thorough_secs: f64,
    /// Unit of simulated time, for the evidence.
    pub time_unit: &'static str,
    pub interleavings: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// Shared-memory slot of a worker or of a minimisation attempt.
#[repr(C)]
struct Slot {
    index: AtomicU64,
    runs: AtomicU64,
    done: AtomicU64,
    len: AtomicU64,
    used: AtomicU64,
    text: [u8; 4000],
}

struct Shared {
    p: *mut u8,
}
impl Shared {
    fn new(n: usize) -> Self {
        Shared { p: sys::shared_map((n + 1) * core::mem::size_of::<Slot>()) }
    }
    fn free(self, n: usize) {
        unsafe { sys::munmap(self.p.cast(), (n + 1) * core::mem::size_of::<Slot>()) };
    }
    fn slot(&self, i: usize) -> &Slot {
        unsafe { &*(self.p as *const Slot).add(i) }
    }
    fn put_text(&self, i: usize, s: &str) {
        let n = s.len().min(4000);
        unsafe {
            let d = core::ptr::addr_of_mut!((*(self.p as *mut Slot).add(i)).text) as *mut u8;
            core::ptr::copy_nonoverlapping(s.as_ptr(), d, n);
        }
        self.slot(i).len.store(n as u64, Relaxed);
    }
    fn text(&self, i: usize) -> String {
        let s = self.slot(i);
        String::from_utf8_lossy(&s.text[..s.len.load(Relaxed) as usize]).into_owned()
    }
}

struct LastPanic(UnsafeCell<(String, String)>);
unsafe impl Sync for LastPanic {}
static LAST_PANIC: LastPanic = LastPanic(UnsafeCell::new((String::new(), String::new())));

pub fn last_panic() -> (String, String) {
    unsafe { (*LAST_PANIC.0.get()).clone() }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = galloc::track(false);
        if info.payload().is::<Violation>() || info.payload().is::<Discard>() || info.payload().is::<Injected>() {
            return;
        }
        let loc = match info.location() {
            Some(l) => {
                let f = l.file();
                let f = f.rsplit_once("crates/").map(|x| x.1).unwrap_or(f);
                let f = f.rsplit_once("library/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            }
            None => "?".into(),
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // A panic of the code under test is a violation wherever it happens,
        // unless the workload announced that it expects one.
        if EXPECT.load(Relaxed) == 0 {
            crate::violate(&format!("panic@{loc}"), format!("panicked at {loc}: {msg}"));
        }
        unsafe {
            *LAST_PANIC.0.get() = (loc, msg);
        }
    }));
}

/// Non-zero while panics of library code are an accepted outcome.
pub static EXPECT: AtomicU64 = AtomicU64::new(1);

struct Reporter(UnsafeCell<Option<(usize, *mut u8)>>);
unsafe impl Sync for Reporter {}
static REPORTER: Reporter = Reporter(UnsafeCell::new(None));

/// Name the situation the run is in: a crash or hang from here on is reported
/// under this name.
pub fn label(l: &'static str) {
    unsafe {
        if let Some((i, p)) = *REPORTER.0.get() {
            Shared { p }.put_text(i, l);
        }
    }
}

/// Run a step which may take the process down in a process of its own, so that
/// a recorded crash costs the worker nothing. The step must make no choices.
pub fn isolated(name: &'static str, f: impl FnOnce()) {
    let (res, text) = {
        let _g = galloc::track(false);
        let sh = Shared::new(1);
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe { *REPORTER.0.get() = Some((0, sh.p)) };
            quiet_stderr();
            label(name);
            sys::watchdog(HANG_SECS);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            core::mem::forget(galloc::track(false));
            match r.as_ref().map_err(|p| p.downcast_ref::<Violation>()) {
                Ok(()) => sh.slot(0).done.store(1, Relaxed),
                Err(v) => {
                    let (c, d) = match (st().pending.take(), v) {
                        (Some(p), _) => p,
                        (_, Some(v)) => (v.class.clone(), v.detail.clone()),
                        _ => ("harness-error:isolated".into(), "unexpected panic".into()),
                    };
                    sh.put_text(0, &format!("{c}\n{d}"));
                    sh.slot(0).done.store(2, Relaxed);
                }
            }
            unsafe { sys::_exit(0) }
        }
        let mut status = 0;
        unsafe { sys::waitpid(pid, &mut status, 0) };
        let t = sh.text(0);
        let done = sh.slot(0).done.load(Relaxed);
        sh.free(1);
        let res = match (done, status & 0x7f) {
            (1, 0) => None,
            (2, _) => Some(t.split_once('\n').map(|x| x.0.to_string()).unwrap_or_default()),
            (_, sig) => Some(crash_class(sig, name)),
        };
        (res, t)
    };
    if let Some(c) = res {
        crate::violate_soft(&c, format!("{name}: the step ended its process: {c} {text}"));
    }
}

/// Used when a violation is noticed while unwinding.
pub fn report_pending_and_exit() -> ! {
    unsafe {
        if let Some((i, p)) = *REPORTER.0.get() {
            let sh = Shared { p };
            let s = st();
            EXPECT.store(1, Relaxed);
            let (c, d) = s.pending.clone().unwrap_or_default();
            sh.slot(i).used.store(s.tape.len() as u64, Relaxed);
            sh.put_text(i, &format!("{c}\n{d}"));
            sh.slot(i).done.store(2, Relaxed);
        }
        sys::_exit(10)
    }
}

pub enum Outcome {
    Ok,
    Discard,
    Viol(String, String),
}

fn execute(prop: &Prop, seed: u64, replay: Option<Vec<u64>>, verbose: bool) -> Outcome {
    start_run(seed, replay, verbose);
    EXPECT.store(0, Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(prop.run));
    EXPECT.store(1, Relaxed);
    core::mem::forget(galloc::track(false));
    galloc::fail_off();
    let hf = galloc::take_fault();
    let out = match r {
        Ok(()) => {
            if let Some((c, d)) = st().pending.take() {
                Outcome::Viol(c, d)
            } else if let Some(f) = hf {
                Outcome::Viol(f.to_string(), format!("{f} noticed at the end of the run"))
            } else {
                Outcome::Ok
            }
        }
        Err(p) => {
            if let Some((c, d)) = st().pending.take() {
                Outcome::Viol(c, d)
            } else if let Some(v) = p.downcast_ref::<Violation>() {
                Outcome::Viol(v.class.clone(), v.detail.clone())
            } else if p.is::<Discard>() {
                Outcome::Discard
            } else if p.is::<Injected>() {
                Outcome::Viol("harness-error:injected-escaped".into(), "an injected panic escaped the harness".into())
            } else {
                let (loc, msg) = last_panic();
                Outcome::Viol(format!("panic@{loc}"), format!("panicked at {loc}: {msg}"))
            }
        }
    };
    out
}

fn signal_name(s: i32) -> String {
    match s {
        4 => "SIGILL".into(),
        6 => "SIGABRT".into(),
        7 => "SIGBUS".into(),
        8 => "SIGFPE".into(),
        9 => "SIGKILL".into(),
        11 => "SIGSEGV".into(),
        26 => "hang(cpu-time)".into(),
        n => format!("signal{n}"),
    }
}

fn crash_class(sig: i32, label: &str) -> String {
    if label.is_empty() {
        format!("crash:{}", signal_name(sig))
    } else {
        format!("crash:{}:{label}", signal_name(sig))
    }
}

fn quiet_stderr() {
    // Aborts print to stderr; keep the check's output readable.
    extern "C" {
        fn open(p: *const i8, f: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr().cast(), 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}

fn limits() {
    unsafe {
        sys::setrlimit(9, &[6 << 30, 6 << 30]); // RLIMIT_AS
        sys::setrlimit(4, &[0, 0]); // no core files
        sys::prctl(1, 9, 0, 0, 0); // die with parent
    }
}

const HANG_SECS: i64 = 20;

/// Run one tape in a forked child. Returns (class, detail, used tape length).
fn attempt(prop: &Prop, seed: u64, tape: Option<&[u64]>, hang: i64) -> Option<(String, String, usize)> {
    let sh = Shared::new(1);
    let pid = unsafe { sys::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        quiet_stderr();
        limits();
        unsafe { *REPORTER.0.get() = Some((0, sh.p)) };
        sys::watchdog(hang);
        let out = execute(prop, seed, tape.map(|t| t.to_vec()), false);
        let s = sh.slot(0);
        s.used.store(st().tape.len() as u64, Relaxed);
        match out {
            Outcome::Viol(c, d) => {
                sh.put_text(0, &format!("{c}\n{d}"));
                s.done.store(2, Relaxed);
            }
            _ => s.done.store(1, Relaxed),
        }
        unsafe { sys::_exit(0) }
    }
    let mut status = 0;
    unsafe { sys::waitpid(pid, &mut status, 0) };
    let s = sh.slot(0);
    let used = s.used.load(Relaxed) as usize;
    let r = match s.done.load(Relaxed) {
        1 => None,
        2 => {
            let t = sh.text(0);
            let (c, d) = t.split_once('\n').unwrap_or((&t, ""));
            Some((c.to_string(), d.to_string(), used))
        }
        _ => {
            let sig = status & 0x7f;
            if sig == 0 {
                Some(("exit".into(), format!("process exited with {}", (status >> 8) & 0xff), usize::MAX))
            } else {
                let n = crash_class(sig, &sh.text(0));
                Some((n.clone(), format!("the run ended the process: {n}"), usize::MAX))
            }
        }
    };
    unsafe { sys::munmap(sh.p, 2 * core::mem::size_of::<Slot>()) };
    r
}

/// Tape recorded up to a crash: re-run recording the tape into shared memory as it grows.
fn record_tape(prop: &Prop, seed: u64, replay: Option<&[u64]>) -> Vec<u64> {
    const CAP: usize = 1 << 20;
    let mem = sys::shared_map((CAP + 1) * 8) as *mut u64;
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        quiet_stderr();
        limits();
        sys::watchdog(HANG_SECS);
        // The tape vector itself lives in the shared mapping.
        unsafe {
            st().tape = Vec::new();
            TAPE_MIRROR = mem;
        }
        let _ = execute(prop, seed, replay.map(|t| t.to_vec()), false);
        unsafe { sys::_exit(0) }
    }
    let mut status = 0;
    unsafe {
        sys::waitpid(pid, &mut status, 0);
        let n = (*mem as usize).min(CAP);
        let v = (0..n).map(|i| *mem.add(1 + i)).collect();
        sys::munmap(mem as *mut u8, (CAP + 1) * 8);
        v
    }
}

pub static mut TAPE_MIRROR: *mut u64 = core::ptr::null_mut();

/// Two violations are the same failure when their classes agree.
fn same(a: &str, b: &str) -> bool {
    a == b
}

fn minimise(prop: &Prop, class: &str, tape: Vec<u64>, secs: f64) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let hang = if class.contains("hang") { 5 } else { HANG_SECS };
    let mut best = tape;
    let mut detail = String::new();
    let budget = if class.contains("hang") { secs * 1.5 } else { secs };
    let mut test = |t: &[u64], best: &mut Vec<u64>, detail: &mut String| -> bool {
        tries += 1;
        match attempt(prop, 0, Some(t), hang) {
            Some((c, d, used)) if same(&c, class) => {
                let mut v = t.to_vec();
                if used < v.len() {
                    v.truncate(used);
                }
                while v.last() == Some(&0) {
                    v.pop();
                }
                *best = v;
                *detail = d;
                true
            }
            _ => false,
        }
    };
    let over = |t0: &Instant| t0.elapsed().as_secs_f64() > budget;
    if !test(&best.clone(), &mut best, &mut detail) {
        return (best, detail, tries);
    }
    let mut progress = true;
    while progress && !over(&t0) {
        progress = false;
        // drop spans
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(&t0) {
                let mut t = best.clone();
                let e = (i + size).min(t.len());
                t.drain(i..e);
                if test(&t, &mut best, &mut detail) {
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 || over(&t0) {
                break;
            }
            size = (size / 2).max(1);
        }
        // zero spans, then lower single values
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(&t0) {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut t = best.clone();
                    t[i..e].fill(0);
                    if test(&t, &mut best, &mut detail) {
                        progress = true;
                    }
                }
                i += size;
            }
            if size == 1 || over(&t0) {
                break;
            }
            size = (size / 2).max(1);
        }
        let mut i = 0;
        while i < best.len() && !over(&t0) {
            while i < best.len() && best[i] > 1 && !over(&t0) {
                let v = best[i];
                let mut t = best.clone();
                t[i] = v / 2;
                if test(&t, &mut best, &mut detail) {
                    progress = true;
                    continue;
                }
                let mut t = best.clone();
                t[i] = v - 1;
                if v > 64 || !test(&t, &mut best, &mut detail) {
                    break;
                }
                progress = true;
            }
            i += 1;
        }
    }
    (best, detail, tries)
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn write_replay(prop: &Prop, seed: u64, index: u64, class: &str, detail: &str, tape: &[u64], log: &[String]) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.replay", prop.id, seed, index));
    let mut s = String::new();
    let _ = writeln!(s, "property: {}\nseed: {}\nrun: {}\nclass: {}\ndetail: {}", prop.id, seed, index, class, detail.replace('\n', "\\n"));
    let _ = writeln!(s, "tape: {}", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "# minimised schedule and fault trace (event log of the replayed tape):");
    for l in log {
        let _ = writeln!(s, "# {}", l.replace('\n', "\\n"));
    }
    fs::write(&path, s).expect("write replay");
    path
}

/// Event log of a tape; a crash keeps whatever was logged before it.
fn trace_of(prop: &Prop, seed: u64, tape: Option<&[u64]>, max: usize) -> Vec<String> {
    const CAP: usize = 1 << 20;
    let mem = sys::shared_map(CAP + 16);
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        quiet_stderr();
        limits();
        sys::watchdog(10);
        unsafe { LOG_MIRROR = (mem, CAP) };
        let out = execute(prop, seed, tape.map(|t| t.to_vec()), true);
        if let Outcome::Viol(c, d) = out {
            log_line(format!("VIOLATED {c}: {d}"));
        }
        unsafe { sys::_exit(0) }
    }
    let mut status = 0;
    unsafe {
        sys::waitpid(pid, &mut status, 0);
        let n = core::ptr::read(mem as *const u64) as usize;
        let b = core::slice::from_raw_parts(mem.add(8), n).to_vec();
        sys::munmap(mem, CAP + 16);
        let s = String::from_utf8_lossy(&b).into_owned();
        let v: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        if v.len() > max {
            let mut h: Vec<String> = v[..max / 2].to_vec();
            h.push(format!("... {} lines ...", v.len() - max));
            h.extend_from_slice(&v[v.len() - max / 2..]);
            h
        } else {
            v
        }
    }
}

pub static mut LOG_MIRROR: (*mut u8, usize) = (core::ptr::null_mut(), 0);

pub(crate) fn mirror_log(l: &str) {
    unsafe {
        let (m, cap) = LOG_MIRROR;
        if m.is_null() {
            return;
        }
        let n = core::ptr::read(m as *const u64) as usize;
        if n + l.len() + 1 > cap {
            return;
        }
        core::ptr::copy_nonoverlapping(l.as_ptr(), m.add(8 + n), l.len());
        *m.add(8 + n + l.len()) = b'\n';
        core::ptr::write(m as *mut u64, (n + l.len() + 1) as u64);
    }
}

fn run_seed(base: u64, prop: &Prop, index: u64) -> u64 {
    mix(mix(base, hash_bytes(prop.id.as_bytes())), index)
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            // finding: property=C07 key=<violation key> <what fails>
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == id {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push((k.to_string(), w.to_string()));
                    }
                }
            }
        }
    }
    v
}

struct Found {
    index: u64,
    class: String,
}

#[derive(Default)]
struct Agg {
    runs: u64,
    discarded: u64,
    nontrivial: u64,
    steps: u64,
    time: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    digests: BTreeSet<u64>,
}

fn worker(prop: &Prop, base: u64, w: usize, n: usize, start: u64, limit: u64, deadline: Instant, sh: &Shared, out: &Path, known: &[(String, String)], digests: bool) -> ! {
    quiet_stderr();
    limits();
    unsafe { *REPORTER.0.get() = Some((w, sh.p)) };
    let slot = sh.slot(w);
    let stop = &sh.slot(n).index;
    let mut a = Agg::default();
    let mut dlist: Vec<(u64, u64)> = Vec::new();
    let mut index = start;
    while index < limit && stop.load(Relaxed) == 0 && Instant::now() < deadline {
        slot.index.store(index, Relaxed);
        slot.done.store(0, Relaxed);
        slot.len.store(0, Relaxed);
        sys::watchdog(HANG_SECS);
        let r = execute(prop, run_seed(base, prop, index), None, false);
        sys::watchdog(0);
        let s = st();
        a.runs += 1;
        a.steps += s.steps;
        a.time += s.sim_time;
        a.choices += s.tape.len() as u64;
        let dg = s.tape.iter().fold(s.digest, |h, &x| mix(h, x));
        if s.nontrivial {
            a.nontrivial += 1;
            if a.digests.len() < 2_000_000 {
                a.digests.insert(dg);
            }
        }
        if digests {
            let code = match &r {
                Outcome::Ok => 0,
                Outcome::Discard => 1,
                Outcome::Viol(c, _) => hash_bytes(c.as_bytes()),
            };
            dlist.push((index, mix(dg, code)));
        }
        match r {
            Outcome::Ok => {}
            Outcome::Discard => a.discarded += 1,
            Outcome::Viol(c, d) => {
                if known.iter().any(|k| k.0 == c) {
                    *a.known.entry(c).or_insert(0) += 1;
                } else if !digests {
                    sh.put_text(w, &format!("{c}\n{d}"));
                    slot.used.store(s.tape.len() as u64, Relaxed);
                    slot.done.store(2, Relaxed);
                    stop.store(1, Relaxed);
                    break;
                }
            }
        }
        slot.runs.store(a.runs, Relaxed);
        index += n as u64;
    }
    // results
    let s = st();
    let mut t = String::new();
    let _ = writeln!(t, "n {} {} {} {} {} {}", a.runs, a.discarded, a.nontrivial, a.steps, a.time, a.choices);
    for (k, v) in &s.faults {
        let _ = writeln!(t, "f {v} {k}");
    }
    for (k, v) in &s.probes {
        let _ = writeln!(t, "p {v} {k}");
    }
    for (k, v) in &a.known {
        let _ = writeln!(t, "k {v} {k}");
    }
    for v in &s.states {
        let _ = writeln!(t, "s {v:x}");
    }
    for v in &a.digests {
        let _ = writeln!(t, "d {v:x}");
    }
    for (i, d) in &dlist {
        let _ = writeln!(t, "x {i} {d:x}");
    }
    let _ = fs::write(out, t);
    if slot.done.load(Relaxed) != 2 {
        slot.done.store(1, Relaxed);
    }
    unsafe { sys::_exit(0) }
}

struct Batch {
    agg: Agg,
    found: Option<Found>,
    dlist: BTreeMap<u64, u64>,
    wall: f64,
}

fn batch(prop: &Prop, base: u64, workers: usize, limit: u64, secs: f64, known: &[(String, String)], digests: bool) -> Batch {
    let t0 = Instant::now();
    let deadline = t0 + std::time::Duration::from_secs_f64(secs);
    let sh = Shared::new(workers);
    let tmp = std::env::temp_dir().join(format!("simrun-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&tmp).expect("scratch dir");
    let mut pids: BTreeMap<i32, (usize, PathBuf)> = BTreeMap::new();
    let mut files = Vec::new();
    let mut gen = 0;
    let spawn = |w: usize, start: u64, gen: &mut usize, files: &mut Vec<PathBuf>| {
        *gen += 1;
        let out = tmp.join(format!("{w}-{gen}"));
        files.push(out.clone());
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            worker(prop, base, w, workers, start, limit, deadline, &sh, &out, known, digests);
        }
        (pid, out)
    };
    for w in 0..workers {
        let (pid, out) = spawn(w, w as u64, &mut gen, &mut files);
        pids.insert(pid, (w, out));
    }
    let mut found: Option<Found> = None;
    let mut agg = Agg::default();
    while !pids.is_empty() {
        let mut status = 0;
        let pid = unsafe { sys::waitpid(-1, &mut status, 0) };
        if pid < 0 {
            break;
        }
        let Some((w, _out)) = pids.remove(&pid) else { continue };
        let slot = sh.slot(w);
        let index = slot.index.load(Relaxed);
        let sig = status & 0x7f;
        let done = slot.done.load(Relaxed);
        let class = if done == 2 {
            let t = sh.text(w);
            Some(t.split_once('\n').map(|x| x.0.to_string()).unwrap_or(t))
        } else if done == 1 {
            None
        } else if sig != 0 {
            Some(crash_class(sig, &sh.text(w)))
        } else {
            Some("exit".to_string())
        };
        let clean = done == 1 || (done == 2 && sig == 0 && (status >> 8) & 0xff == 0);
        if let Some(c) = class {
            if known.iter().any(|k| k.0 == c) {
                *agg.known.entry(c).or_insert(0) += 1;
            } else if found.as_ref().map_or(true, |f| index < f.index) {
                if !digests {
                    sh.slot(workers).index.store(1, Relaxed);
                    found = Some(Found { index, class: c });
                }
            }
            if !clean && (found.is_none()) {
                // crashed on a known finding (or in determinism mode): continue behind it
                let (pid, out) = spawn(w, index + workers as u64, &mut gen, &mut files);
                pids.insert(pid, (w, out));
            }
        }
    }
    let mut dlist = BTreeMap::new();
    for f in files {
        let Ok(s) = fs::read_to_string(&f) else { continue };
        for l in s.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "n" => {
                    let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    agg.runs += v[0];
                    agg.discarded += v[1];
                    agg.nontrivial += v[2];
                    agg.steps += v[3];
                    agg.time += v[4];
                    agg.choices += v[5];
                }
                "f" | "p" | "k" => {
                    let (n, name) = r.split_once(' ').unwrap();
                    let m = match k {
                        "f" => &mut agg.faults,
                        "p" => &mut agg.probes,
                        _ => &mut agg.known,
                    };
                    *m.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                }
                "s" => {
                    agg.states.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                "d" => {
                    agg.digests.insert(u64::from_str_radix(r, 16).unwrap_or(0));
                }
                "x" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    dlist.insert(a.parse().unwrap(), u64::from_str_radix(b, 16).unwrap());
                }
                _ => {}
            }
        }
        let _ = fs::remove_file(&f);
    }
    let _ = fs::remove_dir(&tmp);
    Batch { agg, found, dlist, wall: t0.elapsed().as_secs_f64() }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}

fn workers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)
    })
}

fn check(prop: &Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    st().thorough = thorough;
    let (runs, secs) = if thorough { (prop.thorough_runs, prop.thorough_secs) } else { (prop.quick_runs, prop.quick_secs) };
    let secs = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(secs);
    let known = known_findings(prop.id);
    println!("simulating {}: VERIF_SEED={} tier={} up to {} runs / {:.0} s on {} workers", prop.id, seed, if thorough { "thorough" } else { "quick" }, runs, secs, workers());
    let b = batch(prop, seed, workers(), runs, secs, &known, false);
    // determinism spot check: the first runs again, at another worker count, digests compared
    let mut det = (0u64, 0u64);
    if b.found.is_none() {
        let n = (b.agg.runs / 20).clamp(16, 400).min(runs);
        let x = batch(prop, seed, 1.max(workers() / 2 - 1), n, secs, &known, true);
        let y = batch(prop, seed, workers(), n, secs, &known, true);
        for (i, d) in &x.dlist {
            if let Some(e) = y.dlist.get(i) {
                det.0 += 1;
                if e != d {
                    det.1 += 1;
                }
            }
        }
    }
    let mut violations = 0;
    let mut vlines = Vec::new();
    let mut code = 0;
    if let Some(f) = &b.found {
        let rs = run_seed(seed, prop, f.index);
        let (class, detail, tape) = reproduce(prop, rs, &f.class);
        if class.starts_with("harness-error") {
            eprintln!("harness error: {class}: {detail}");
            return 3;
        }
        let (tape2, detail2, tries) = minimise(prop, &class, tape.clone(), if thorough { 90.0 } else { 40.0 });
        let final_tape = tape2;
        let log = trace_of(prop, 0, Some(&final_tape), 400);
        let d = if detail2.is_empty() { detail } else { detail2 };
        let path = write_replay(prop, seed, f.index, &class, &d, &final_tape, &log);
        println!("violation class: {class}");
        println!("detail: {}", d.chars().take(1500).collect::<String>());
        println!("found at run {} of seed {}; tape minimised from {} to {} choices in {} attempts", f.index, seed, tape.len(), final_tape.len(), tries);
        for l in log.iter().take(60) {
            println!("  | {l}");
        }
        vlines.push(format!("VIOLATION property={} replay={}", prop.id, path.display()));
        violations = 1;
        code = 1;
    }
    if det.1 != 0 && code == 0 {
        eprintln!("harness error: {} of {} runs were not deterministic", det.1, det.0);
        code = 3;
    }
    for (k, w) in &known {
        println!("KNOWN-FINDING: property={} {} [{} occurrence(s) this run, key={}]", prop.id, w, b.agg.known.get(k).copied().unwrap_or(0), k);
    }
    let a = &b.agg;
    let mut samples = Vec::new();
    for i in 0..2u64 {
        let l = trace_of(prop, run_seed(seed, prop, i), None, 40);
        samples.push(format!("run {i}: {}", l.join(" ; ")).chars().take(3000).collect::<String>());
    }
    let hours = (b.wall / 3600.0).max(1e-9);
    let lvl = "exploration";
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{",
        js(prop.id),
        js(if thorough { "thorough" } else { "quick" }),
        seed,
        js(lvl)
    );
    let _ = write!(e, "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},", a.runs, a.digests.len(), js(prop.rule));
    let _ = write!(e, "\"simulated_runs\":{},\"nontrivial_runs\":{},\"discarded_runs\":{},\"runs_per_hour\":{},\"seeds_per_hour\":{},", a.runs, a.nontrivial, a.discarded, (a.runs as f64 / hours) as u64, (a.runs as f64 / hours) as u64);
    let _ = write!(e, "\"simulated_steps\":{},\"scheduler_choices\":{},\"simulated_time\":{},\"simulated_time_unit\":{},", a.steps, a.choices, a.time, js(prop.time_unit));
    let _ = write!(e, "\"faults_injected\":{},\"conditions_reached\":{},", jmap(&a.faults), jmap(&a.probes));
    let _ = write!(e, "\"distinct_states\":{},\"distinct_states_measure\":{},", a.states.len(), js(prop.interleavings));
    let _ = write!(e, "\"determinism\":{{\"runs_compared\":{},\"diverged\":{},\"worker_counts\":[{},{}]}},", det.0, det.1, 1.max(workers() / 2 - 1), workers());
    let _ = write!(e, "\"real_components\":{},\"stub_components\":{},", jlist(&prop.real.iter().map(|s| s.to_string()).collect::<Vec<_>>()), jlist(&prop.stub.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    let _ = write!(e, "\"known_findings_hit\":{},\"samples\":{}}},", jmap(&a.known), jlist(&samples));
    let _ = write!(e, "\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n", jlist(&prop.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()), t0.elapsed().as_secs_f64(), violations);
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", prop.id)), e).expect("write evidence");
    println!(
        "{}: {} runs ({} distinct non-trivial), {} steps, {} choices, {} states, {} faults of {} kinds, {:.1} s; determinism {}/{} equal",
        prop.id, a.runs, a.digests.len(), a.steps, a.choices, a.states.len(), a.faults.values().sum::<u64>(), a.faults.len(), b.wall, det.0 - det.1, det.0
    );
    if code == 0 && a.runs == 0 {
        eprintln!("harness error: no run was executed");
        code = 3;
    }
    for l in vlines {
        println!("{l}");
    }
    code
}

fn reproduce(prop: &Prop, rs: u64, class: &str) -> (String, String, Vec<u64>) {
    let tape = record_tape(prop, rs, None);
    match attempt(prop, 0, Some(&tape), HANG_SECS) {
        Some((c, d, _)) => (c, d, tape),
        None => (class.to_string(), "did not reproduce from its own tape".into(), tape),
    }
}

fn replay(props: &[Prop], path: &str) -> i32 {
    let s = match fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 3;
        }
    };
    let mut id = "";
    let mut class = "";
    let mut tape = Vec::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("property: ") {
            id = r.trim();
        } else if let Some(r) = l.strip_prefix("class: ") {
            class = r.trim();
        } else if let Some(r) = l.strip_prefix("tape:") {
            tape = r.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
        }
    }
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 3;
    };
    for l in trace_of(prop, 0, Some(&tape), 1000) {
        println!("  | {l}");
    }
    match attempt(prop, 0, Some(&tape), HANG_SECS) {
        Some((c, d, _)) => {
            println!("class: {c}{}\ndetail: {d}", if c == class { " (as recorded)" } else { " (DIFFERS from the recorded class)" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id}: the replayed run held");
            0
        }
    }
}

pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(3)
        })
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(find(&args[2])),
        Some("replay") => replay(props, &args[2]),
        Some("one") => {
            // one PROP INDEX: run one seed of the current VERIF_SEED verbosely
            let p = find(&args[2]);
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let rs = run_seed(seed, p, args[3].parse().unwrap_or(0));
            for l in trace_of(p, rs, None, 100000) {
                println!("{l}");
            }
            println!("{:?}", attempt(p, rs, None, HANG_SECS));
            0
        }
        Some("selfcheck") => {
            let p = find(&args[2]);
            let n: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1000);
            let mut bad = 0;
            let mut cmp = 0;
            for seed in 1..=4u64 {
                let mut prev: Option<BTreeMap<u64, u64>> = None;
                for w in [1usize, 3, 8, 8] {
                    let b = batch(p, seed, w, n, 1e6, &[], true);
                    if let Some(q) = &prev {
                        for (i, d) in &b.dlist {
                            cmp += 1;
                            if q.get(i) != Some(d) {
                                bad += 1;
                                println!("seed {seed} run {i} diverged");
                            }
                        }
                    }
                    prev = Some(b.dlist);
                }
            }
            println!("{}: {cmp} comparisons, {bad} diverged", p.id);
            (bad != 0) as i32 * 3
        }
        _ => {
            eprintln!("usage: check PROP | replay FILE | one PROP INDEX | selfcheck PROP N");
            3
        }
    };
    std::process::exit(code)
}
