//! Emulated machines of other byte orders and word sizes. Each runs the real
//! code compiled for its target under an interpreter, deterministically, and
//! answers one request after another over a pipe; it keeps no state between
//! them, so that an answer depends on nothing but the request.
use crate::galloc;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

pub const TARGETS: &[(&str, &str)] = &[
    ("s390x-unknown-linux-gnu", "big"),
    ("powerpc-unknown-linux-gnu", "big"),
    ("armv7-unknown-linux-gnueabihf", "little"),
];

struct Machine {
    owner: u32,
    child: Child,
    log: std::fs::File,
}
impl Machine {
    fn said(&mut self) -> String {
        use std::io::Seek;
        let mut b = vec![];
        let _ = self.log.rewind();
        let _ = self.log.read_to_end(&mut b);
        let log = String::from_utf8_lossy(&b);
        let at = log.find("error: Undefined").or_else(|| log.find("panicked at")).or_else(|| log.find("error")).unwrap_or(0);
        log[at..].lines().take(6).map(|l| l.trim()).collect::<Vec<_>>().join(" / ").chars().take(700).collect()
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        if self.owner == std::process::id() {
            unsafe { kill(-(self.child.id() as i32), 9) };
            let _ = self.child.wait();
        }
    }
}
extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
}

thread_local! {
    static MACHINES: RefCell<Vec<Option<Machine>>> = const { RefCell::new(Vec::new()) };
}

fn start(package: &str, which: usize) -> Machine {
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let target = TARGETS[which].0;
    let dir = root.join("target/machines").join(target);
    let path = std::env::temp_dir().join(format!("simnode-{}-{which}", std::process::id()));
    let log = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&path).expect("log of a machine");
    let _ = std::fs::remove_file(&path);
    let err = log.try_clone().expect("log of a machine");
    let child = Command::new("cargo")
        .args(["miri", "run", "-q", "--offline", "--locked", "-p", package, "--target", target])
        .current_dir(root.join("sim"))
        .env("CARGO_TARGET_DIR", &dir)
        .env("MIRI_SYSROOT", dir.join("sysroot"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows")
        .env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu")
        .env("RUSTFLAGS", "-Awarnings")
        .env_remove("RUSTC_WRAPPER")
        .env_remove("RUSTC_WORKSPACE_WRAPPER")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(err)
        .process_group(0)
        .spawn()
        .expect("a machine starts");
    Machine { owner: std::process::id(), child, log }
}

/// Read from a pipe, waiting at most two minutes.
fn receive(m: &mut Machine, n: usize) -> Result<Vec<u8>, String> {
    let out = m.child.stdout.as_mut().unwrap();
    let mut b = vec![0; n];
    let mut have = 0;
    while have < n {
        // struct pollfd { fd: i32, events: i16, revents: i16 }
        let mut fd = [out.as_raw_fd(), 1];
        match unsafe { poll(&mut fd, 1, 120_000) } {
            0 => return Err("no answer".into()),
            r if r < 0 => continue,
            _ => {}
        }
        match out.read(&mut b[have..]) {
            Ok(0) => return Err("died".into()),
            Ok(k) => have += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return Err(e.to_string()),
        }
    }
    Ok(b)
}
/// Tools may have had something to say on the same pipe before.
fn greeting(m: &mut Machine) -> Result<(), String> {
    let mut seen = vec![];
    while !seen.ends_with(b"\nmachine ready\n") {
        seen.extend(receive(m, 1)?);
    }
    Ok(())
}
fn message(m: &mut Machine) -> Result<Vec<u8>, String> {
    let n = receive(m, 4)?;
    let n = u32::from_le_bytes([n[0], n[1], n[2], n[3]]) as usize;
    receive(m, n)
}

/// Send a request to a machine, which runs the program of a package, and return its answer, or how it failed.
pub fn ask(package: &str, which: usize, request: &[u8]) -> Result<Vec<u8>, String> {
    galloc::untracked(|| {
        MACHINES.with(|all| {
            let mut all = all.borrow_mut();
            while all.len() < TARGETS.len() {
                all.push(None);
            }
            let slot = &mut all[which];
            if slot.as_ref().is_some_and(|m| m.owner != std::process::id()) {
                std::mem::forget(slot.take());
            }
            if slot.is_none() {
                let mut m = start(package, which);
                if let Err(e) = greeting(&mut m) {
                    return Err(format!("harness-error: machine {} did not start: {e}: {}", TARGETS[which].0, m.said()));
                }
                *slot = Some(m);
            }
            let m = slot.as_mut().unwrap();
            let mut o = (request.len() as u32).to_le_bytes().to_vec();
            o.extend_from_slice(request);
            let sent = m.child.stdin.as_mut().unwrap().write_all(&o).map_err(|e| e.to_string());
            match sent.and_then(|()| message(m)) {
                Ok(a) => Ok(a),
                Err(e) => {
                    // It may still be writing down why.
                    if e == "died" {
                        let _ = m.child.wait();
                    }
                    let said = m.said();
                    *slot = None;
                    Err(format!("{e}: {said}"))
                }
            }
        })
    })
}
/// End the machines of this process.
pub fn stop() {
    galloc::untracked(|| MACHINES.with(|all| all.borrow_mut().clear()));
}
