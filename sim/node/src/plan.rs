//! What machines are told to do, and how they are told.

/// The plan, read byte by byte; zeroes follow its end.
pub struct Plan<'a>(&'a [u8]);
impl<'a> Plan<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Plan(b)
    }
    pub fn byte(&mut self) -> u8 {
        match self.0.split_first() {
            Some((b, rest)) => {
                self.0 = rest;
                *b
            }
            None => 0,
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.byte() as usize % n
    }
    pub fn num(&mut self) -> u128 {
        let b = self.byte();
        match b % 8 {
            0 => 0,
            1 => b as u128,
            2 => u128::MAX,
            3 => 1 << (b / 8 * 4),
            4 => (1u128 << (b / 8 * 4)).wrapping_sub(1),
            5 => 0x0102030405060708090a0b0c0d0e0f10,
            _ => (0..8).fold(0u128, |n, _| n << 8 | self.byte() as u128) * 0x1_0000_0001_0000_0001,
        }
    }
    pub fn text(&mut self) -> String {
        let n = self.below(7);
        (0..n).map(|_| ['a', 'b', 'é', '\0', '中', '🦀', 'z', ' '][self.below(8)]).collect()
    }
    pub fn key(&mut self, seen: &[String]) -> String {
        let mut s = match seen.len() {
            0 => String::new(),
            n => {
                let k = &seen[self.below(n)];
                let mut cut = self.below(k.len() + 1);
                while !k.is_char_boundary(cut) {
                    cut -= 1;
                }
                k[..cut].to_string()
            }
        };
        let n = self.below(4);
        for _ in 0..n {
            s.push(['a', 'b', 'c', 'é'][self.below(4)]);
        }
        s
    }
}

/// A message is a number of parts.
pub fn pack(parts: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![];
    for p in parts {
        o.extend_from_slice(&(p.len() as u32).to_le_bytes());
        o.extend_from_slice(p);
    }
    o
}
pub fn unpack(mut b: &[u8]) -> Vec<&[u8]> {
    let mut parts = vec![];
    while let Some((n, rest)) = b.split_first_chunk::<4>() {
        let n = (u32::from_le_bytes(*n) as usize).min(rest.len());
        parts.push(&rest[..n]);
        b = &rest[n..];
    }
    parts
}

