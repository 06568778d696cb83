//! Small deterministic PRNG (splitmix64-seeded xoshiro256**).

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }

    /// Generator of one test case: depends on nothing but these three.
    pub fn for_case(seed: u64, prop: &str, case: u64) -> Self {
        let mut x = seed ^ hash_bytes(prop.as_bytes());
        let a = splitmix(&mut x);
        Rng::new(a ^ case.wrapping_mul(0xD1342543DE82EF95))
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }

    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True with probability num/den.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        unreachable!()
    }

    /// Unsigned number of at most `bits` bits, biased to boundaries: uniform
    /// bit length, sometimes a power of two or all-ones, +-1.
    pub fn num(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { !0u128 } else { (1u128 << bits) - 1 };
        let b = self.below(bits as usize + 1) as u32;
        let x = match self.below(6) {
            0 if b < 128 => 1u128 << b,
            1 if b < 128 => (1u128 << b).wrapping_sub(1),
            2 if b < 128 => (1u128 << b).wrapping_add(1),
            3 => mask.wrapping_sub(self.below(3) as u128),
            _ => {
                if b == 0 { 0 } else { self.u128() >> (128 - b) }
            }
        };
        x & mask
    }

    /// A length that sits on a boundary of the format or of usual buffers.
    pub fn edge_len(&mut self) -> usize {
        *self.pick(&[
            15usize, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096,
            4097, 8191, 8192, 8193, 16383, 16384, 16385,
        ])
    }

    pub fn string(&mut self, max_chars: usize) -> String {
        const PART: &[&str] = &[
            "\u{feff}", "\0", " ", "\t", "\n", "\r\n", "\u{a0}", "\u{2028}", "\u{301}", "e\u{301}", "\u{200d}", "\u{202e}",
            "\u{fffd}", "\u{1f600}", "\u{df}", "\u{130}", "\u{fb01}", "\"", "\\", "\u{7f}", "\u{80}", "\u{85}", "a", "A", "-->",
            "<!", "</", "{}", "%s", "\u{10ffff}", "null", "0", "\u{ad}", "\u{3000}", "\u{1}", "\u{1b}[0m",
        ];
        let n = match self.below(4) {
            0 => 0,
            1 => self.below(max_chars.min(4) + 1),
            _ => self.below(max_chars + 1),
        };
        match self.below(8) {
            // made of awkward parts
            0 | 1 => {
                let k = self.range(1, 3);
                (0..k).map(|_| *self.pick(PART)).collect()
            }
            // an awkward part at an end
            2 => {
                let s: String = (0..n).map(|_| self.ch()).collect();
                let p = *self.pick(PART);
                if self.chance(1, 2) { format!("{p}{s}") } else { format!("{s}{p}") }
            }
            // one char over and over
            3 => {
                let c = self.ch();
                (0..n).map(|_| c).collect()
            }
            _ => (0..n).map(|_| self.ch()).collect(),
        }
    }

    /// A string of the given length in bytes.
    pub fn string_of_len(&mut self, bytes: usize) -> String {
        let unit = *self.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0"]);
        let mut s = String::with_capacity(bytes);
        let lead = self.below(unit.len().min(bytes + 1));
        for _ in 0..lead {
            s.push('x');
        }
        while s.len() + unit.len() <= bytes {
            s.push_str(unit);
        }
        while s.len() < bytes {
            s.push('y');
        }
        s
    }

    pub fn ch(&mut self) -> char {
        const EDGE: &[u32] = &[
            0, 0x3f, 0x40, 0x7f, 0x80, 0x7ff, 0x800, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xfffd, 0xffff,
            0x10000, 0x1fffff & 0x10ffff, 0x10fffe, 0x10ffff, 0x1ffff, 0x20000, 0x22, 0x5c, 0x0a, 0x27,
        ];
        match self.below(4) {
            0 => char::from_u32(*self.pick(EDGE)).unwrap(),
            1 => loop {
                if let Some(c) = char::from_u32(self.below(0x110000) as u32) {
                    return c;
                }
            },
            _ => (self.range(0x20, 0x7e) as u8) as char,
        }
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = if self.chance(1, 4) { 0 } else { self.below(max + 1) };
        match self.below(8) {
            0 => {
                let b = *self.pick(&[0u8, 0xff, 0x80, 0x7f, 1, b'a']);
                vec![b; n]
            }
            1 => (0..n).map(|i| i as u8).collect(),
            _ => (0..n).map(|_| self.u64() as u8).collect(),
        }
    }
}
