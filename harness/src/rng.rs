//! Deterministic random choices, biased to boundaries.
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ stream.wrapping_mul(0xd1b5_4a32_d192_ed03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn flag(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// Bytes with structure: random, constant, counting, or mostly zero
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.below(6) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => (0..n).map(|i| i as u8).collect(),
            3 => {
                let mut v = vec![0; n];
                if n > 0 {
                    let i = self.below(n as u64) as usize;
                    v[i] = self.byte();
                }
                v
            }
            _ => self.bytes(n),
        }
    }
    /// Integer of a random number of bits, often next to a power of two
    pub fn int(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let b = self.range(0, bits as u64) as u32;
        let x = match self.below(8) {
            0 | 1 | 2 => {
                let base = if b >= 64 { u64::MAX } else { 1u64 << b };
                base.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            3 => *self.pick(&[0, 1, 63, 64, 255, 256, 16383, 16384, 65535, 65536,
                (1 << 30) - 1, 1 << 30, (1 << 32) - 1, 1 << 32, (1u64 << 62) - 1]),
            4 => {
                // the same byte everywhere or bytes that tell positions apart
                if self.flag() { 0x0102_0304_0506_0708 } else { 0x1111_1111_1111_1111u64.wrapping_mul(self.below(4)) }
            }
            _ => self.next() >> (64 - b.max(1)),
        };
        x & max
    }
    /// Length biased to small values and to the boundaries of length fields
    pub fn len(&mut self, max: usize) -> usize {
        let x = match self.below(10) {
            0 => 0,
            1 => 1,
            2 | 3 => self.below(8),
            4 | 5 => self.below(32),
            6 => *self.pick(&[15, 16, 17, 19, 20, 21, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            7 => self.below(300),
            8 => self.below(1300),
            _ if max > 20000 && self.flag() => { let x = self.range(20000, max as u64); *self.pick(&[32767, 32768, x, x, max as u64, max as u64]) }
            _ => *self.pick(&[16382, 16383, 16384, 16385, 4095, 4096, 1200, 2048, 1023, 1024]),
        } as usize;
        if x > max { self.below(max as u64 + 1) as usize } else { x }
    }
}
