//! Answers requests until its input ends.
use std::io::{Read, Write};

fn main() {
    let mut input = std::io::stdin();
    let mut out = std::io::stdout();
    let _ = write!(out, "{}\nmachine ready\n", node::machine());
    let _ = out.flush();
    let mut say = |b: &[u8]| {
        let mut o = (b.len() as u32).to_le_bytes().to_vec();
        o.extend_from_slice(b);
        let _ = out.write_all(&o);
        let _ = out.flush();
    };
    loop {
        let mut n = [0; 4];
        if input.read_exact(&mut n).is_err() {
            return;
        }
        let mut request = vec![0; u32::from_le_bytes(n) as usize];
        if input.read_exact(&mut request).is_err() {
            return;
        }
        say(&node::answer(&request));
    }
}
