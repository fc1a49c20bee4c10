//! Choice tape: every random decision of every generator is read from here, so
//! a generated case *is* its tape. proptest generates and shrinks tapes; the
//! coverage-guided driver evolves them; a replay file stores one.
//! A zero (or exhausted) tape always selects the simplest alternative.

#[derive(Clone, Debug)]
pub struct Tape {
    pub d: Vec<u32>,
    pub pos: usize,
}

impl Tape {
    pub fn new(d: Vec<u32>) -> Self {
        Tape { d, pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.d.len())
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.d.len()
    }
    pub fn u32(&mut self) -> u32 {
        let v = self.d.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        ((self.u32() as u64) << 32) | self.u32() as u64
    }
    pub fn u16(&mut self) -> u16 {
        self.u32() as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.u32() as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        // Multiply-shift keeps small tape values small.
        (self.u32() as usize) % n
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; false on a zero tape.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights; 0 on a zero tape.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        0
    }
    /// n bytes expanded from one tape word (all zero on a zero tape).
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let s = self.u32();
        expand(s, n)
    }
    /// Printable ASCII of length n.
    pub fn ascii(&mut self, n: usize) -> String {
        self.fill(n)
            .into_iter()
            .map(|b| (b' ' + b % 95) as char)
            .collect()
    }
    pub fn word(&mut self, n: usize) -> String {
        self.fill(n)
            .into_iter()
            .map(|b| (b'A' + b % 26) as char)
            .collect()
    }
    /// An "interesting" 32-bit value: boundaries or uniform.
    pub fn int32(&mut self) -> u32 {
        const B: [u32; 16] = [
            0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff,
            0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x0102_0304,
        ];
        match self.below(3) {
            0 => self.below(100) as u32,
            1 => *self.pick(&B),
            _ => self.u32(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // zero tape keeps the order
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Usually none, at times far more of something than a file usually has.
    pub fn crowd(&mut self) -> usize {
        if self.chance(1, 20) {
            *self.pick(&[17usize, 33, 65, 110, 140, 270, 520, 1100])
        } else {
            0
        }
    }
    /// Size with a long tail: mostly small.
    pub fn size(&mut self, small: usize, big: usize) -> usize {
        if self.chance(1, 6) {
            self.below(big + 1)
        } else {
            self.below(small + 1)
        }
    }
}

pub fn expand(seed: u32, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut x = seed as u64 ^ 0x9E37_79B9_7F4A_7C15;
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        out.extend_from_slice(&z.to_le_bytes());
    }
    out.truncate(n);
    out
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
