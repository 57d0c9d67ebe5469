//! Deterministic pseudo random numbers. Every random choice of the simulator comes from here.

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ bytes.len() as u64;
    for c in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || { s = s.wrapping_add(0x9E37_79B9_7F4A_7C15); mix(s) };
        Rng([n(), n(), n(), n()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Small numbers most of the time, now and then up to max.
    pub fn skewed(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0..=4 => 3,
            5..=7 => 10,
            8 => 40,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
    /// Integers with many special values.
    pub fn wild(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4) as u64,
            1 => 1u64 << self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(1),
            3 => (1u64 << self.below(64)).wrapping_neg(),
            4 => !(self.below(130) as u64),
            5 => self.below(1 << 15) as u64,
            6 => *self.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
            _ => self.u64(),
        }
    }
}
