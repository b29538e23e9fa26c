//! C08: what the readers give is what they hold.
use crate::dynx::*;
use crate::site::*;
use musli::de::UnsizedVisitor;
use musli::reader::{Reader, SliceReader};
use musli::{Allocator, Context};
use simcore::*;

/// What a reader is expected to hold.
struct Model<'de> {
    data: &'de [u8],
    at: usize,
    /// Ends of the limits it is read through.
    ends: Vec<usize>,
    name: &'static str,
}
impl Model<'_> {
    fn left(&self) -> usize {
        self.ends.iter().copied().min().unwrap() - self.at
    }
    fn take(&mut self, n: usize) -> Option<&[u8]> {
        if n > self.left() {
            return None;
        }
        self.at += n;
        Some(&self.data[self.at - n..self.at])
    }
}
fn check(m: &mut Model<'_>, what: &str, n: usize, got: Result<Option<&[u8]>, ()>) -> bool {
    let (left, at, name) = (m.left(), m.at, m.name);
    ev!("  {name} {what} {n} of {left}: {}", if got.is_ok() { "ok" } else { "refused" });
    match (got, m.take(n)) {
        (Ok(got), Some(want)) => {
            if let Some(got) = got {
                ensure!(got == want, "reader-wrong-bytes", "{name}: {what} of {n} bytes at {at} gave {} not {}", hex(got), hex(want));
            }
            true
        }
        (Err(()), None) => {
            probe("more than there is refused");
            false
        }
        (Ok(_), None) => violate("reader-invented-bytes", format!("{name}: {what} of {n} bytes succeeded with {left} left")),
        (Err(()), Some(_)) => violate("reader-refused", format!("{name}: {what} of {n} bytes failed with {left} left")),
    }
}

struct V<'a>(&'a mut Vec<u8>, &'a mut Option<*const u8>);
impl<'de, 'a, C: Context> UnsizedVisitor<'de, C, [u8]> for V<'a> {
    type Ok = ();
    type Error = C::Error;
    type Allocator = C::Allocator;
    type __UseMusliUnsizedVisitorAttributeMacro = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_owned(self, _: C, v: musli::alloc::Vec<u8, Self::Allocator>) -> Result<(), C::Error>
    where
        Self::Allocator: Allocator,
    {
        self.0.extend_from_slice(v.as_slice());
        Ok(())
    }
    fn visit_borrowed(self, _: C, v: &'de [u8]) -> Result<(), C::Error> {
        *self.1 = Some(v.as_ptr());
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn visit_ref(self, _: C, v: &[u8]) -> Result<(), C::Error> {
        self.0.extend_from_slice(v);
        Ok(())
    }
}

/// One request; false once the reader has refused.
fn op<'de, R: Reader<'de>>(r: &mut R, m: &mut Model<'de>, cx: Cx) -> bool {
    let left = m.left();
    let n = match choose(8) {
        0 => 0,
        1 => left,
        2 => left + 1,
        3 => left + below(20),
        4 => m.data.len() - m.at,
        5 => m.data.len() - m.at + 1,
        _ => below(left.min(9) + 1),
    };
    step();
    ensure!(r.peek() == m.data.get(m.at).copied().filter(|_| left > 0), "reader-wrong-bytes", "{}: peek with {left} left", m.name);
    ensure!(r.is_eof() == (left == 0), "reader-wrong-end", "{}: end of input reported as {} with {left} left", m.name, left != 0);
    match choose(7) {
        0 => {
            let n = match choose(6) {
                0 => usize::MAX,
                1 => isize::MAX as usize,
                2 => usize::MAX - below(1 << 16),
                3 => (m.data.as_ptr() as usize).wrapping_neg(),
                _ => n,
            };
            let g = r.skip(cx, n).map_err(drop);
            check(m, "skip", n, g.map(|()| None))
        }
        1 => {
            let mut buf = vec![0xEE; n];
            let g = r.read(cx, &mut buf).map_err(drop);
            check(m, "read", n, g.map(|()| Some(&buf[..])))
        }
        2 => {
            let n = if choose(8) == 0 { usize::MAX - below(100) } else { n };
            let (mut out, mut p) = (vec![], None);
            let g = r.read_bytes(cx, n, V(&mut out, &mut p)).map_err(drop);
            let at = m.at;
            if let (Ok(()), Some(p), true) = (g, p, n > 0) {
                ensure!(p == m.data[at..].as_ptr(), "borrow-outside-input", "{}: bytes borrowed from elsewhere than where they are", m.name);
            }
            check(m, "read_bytes", n, g.map(|()| Some(&out[..])))
        }
        3 => {
            let mut buf = vec![0xEEu8; n + 16];
            // SAFETY: there is room for `n`.
            let g = unsafe { r.read_bytes_uninit(cx, buf.as_mut_ptr(), n) }.map_err(drop);
            ensure!(buf[n..].iter().all(|b| *b == 0xEE), "wrote-past-end", "{}: more than {n} bytes were written", m.name);
            check(m, "read_bytes_uninit", n, g.map(|()| Some(&buf[..n])))
        }
        4 => {
            let g = r.read_byte(cx).map_err(drop);
            let b = g.map(|b| [b]);
            check(m, "read_byte", 1, b.as_ref().map(|b| Some(&b[..])).map_err(|_| ()))
        }
        5 => {
            macro_rules! arr {
                ($n:expr) => {{
                    let g = r.read_array::<_, $n>(cx).map_err(drop);
                    check(m, "read_array", $n, g.as_ref().map(|b| Some(&b[..])).map_err(|_| ()))
                }};
            }
            match choose(4) {
                0 => arr!(0),
                1 => arr!(2),
                2 => arr!(16),
                _ => arr!(5),
            }
        }
        _ => {
            let mut b = r.borrow_mut();
            let g = b.skip(cx, n).map_err(drop);
            check(m, "skip through a borrow", n, g.map(|()| None))
        }
    }
}

fn leaf<'de, R: Reader<'de>>(r: &mut R, m: &mut Model<'de>, cx: Cx) -> bool {
    for _ in 0..range(1, 6) {
        if !op(r, m, cx) {
            return false;
        }
    }
    true
}
macro_rules! level {
    ($f:ident, $next:ident) => {
        fn $f<'de, R: Reader<'de>>(r: &mut R, m: &mut Model<'de>, cx: Cx) -> bool {
            for _ in 0..range(1, 5) {
                match choose(5) {
                    0 => {
                        // looked at through a clone: the reader itself stays where it is
                        if let Some(mut c) = r.try_clone() {
                            probe("clone");
                            let (at, ends) = (m.at, m.ends.clone());
                            leaf(&mut c, m, cx);
                            m.at = at;
                            m.ends = ends;
                        }
                    }
                    1 | 2 => {
                        let n = match choose(5) {
                            0 => usize::MAX,
                            1 => m.left(),
                            _ => below(m.left() + 4),
                        };
                        m.ends.push(m.at.saturating_add(n));
                        let mut l = r.borrow_mut().limit(n);
                        ensure!(l.remaining() == n, "reader-wrong-end", "{}: a limit of {n} starts with {}", m.name, l.remaining());
                        let before = m.at;
                        let ok = $next(&mut l, m, cx);
                        if ok {
                            ensure!(l.remaining() == n - (m.at - before), "reader-wrong-end", "{}: {} remain of a limit of {n} after {} bytes", m.name, l.remaining(), m.at - before);
                        }
                        m.ends.pop();
                        if !ok {
                            return false;
                        }
                    }
                    _ => {
                        if !op(r, m, cx) {
                            return false;
                        }
                    }
                }
            }
            true
        }
    };
}
level!(two, leaf);
level!(three, two);
level!(four, three);

pub fn scene() {
    let n = match choose(4) {
        0 => below(4),
        1 => below(200),
        _ => below(40),
    };
    let data: Vec<u8> = (0..n).map(|_| choose(256) as u8).collect();
    let mut g = sys::Guarded::new(n + 8);
    let mem: &[u8] = g.place_end(&data);
    let site = Site::any();
    let cx = site.cx();
    ev!("{n} bytes {}", hex(&data));
    for _ in 0..range(1, 3) {
        cx.clear();
        let which = choose(4);
        let name = ["&[u8]", "SliceReader", "&mut &[u8]", "&mut SliceReader"][which as usize];
        let mut m = Model { data: mem, at: 0, ends: vec![n], name };
        let at = |m: &Model<'_>| m.at;
        let ok = guard("read", || match which {
            0 => {
                let mut r: &[u8] = mem;
                let ok = four(&mut r, &mut m, cx);
                ensure!(!ok || r == &mem[at(&m)..], "wrong-consumption", "{name}: {} bytes left of {n} after reading {}", r.len(), at(&m));
                ok
            }
            1 => {
                let mut r = SliceReader::new(mem);
                let ok = four(&mut r, &mut m, cx);
                ensure!(!ok || r.as_slice() == &mem[at(&m)..] && r.remaining() == n - at(&m), "wrong-consumption", "{name}: {} bytes left of {n} after reading {}", r.remaining(), at(&m));
                ok
            }
            2 => {
                let mut r: &[u8] = mem;
                let ok = four(&mut &mut r, &mut m, cx);
                ensure!(!ok || r == &mem[at(&m)..], "wrong-consumption", "{name}: {} bytes left of {n} after reading {}", r.len(), at(&m));
                ok
            }
            _ => {
                let mut r = SliceReader::new(mem);
                let ok = four(&mut &mut r, &mut m, cx);
                ensure!(!ok || r.as_slice() == &mem[at(&m)..], "wrong-consumption", "{name}: {} bytes left of {n} after reading {}", r.remaining(), at(&m));
                ok
            }
        })
        .ok()
        .unwrap();
        if !ok {
            fault("read past what survived");
        }
        ensure!(ok || cx.error().is_some(), "error-not-captured", "{name}: a reader refused, but the context captured nothing");
        state(mix(which, mix(n.min(50) as u64, m.at.min(50) as u64)));
        advance_time(1);
    }
    site.close("readers");
    nontrivial();
}
