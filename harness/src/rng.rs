//! small deterministic generator
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() as u128 * n as u128 >> 64) as u64
        }
    }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        if a == 0 && b == u64::MAX {
            return self.next();
        }
        a + self.below(b - a + 1)
    }
    pub fn range128(&mut self, a: u128, b: u128) -> u128 {
        if b <= a {
            return a;
        }
        let span = b - a;
        let x = ((self.next() as u128) << 64) | self.next() as u128;
        if span == u128::MAX {
            x
        } else {
            a + x % (span + 1)
        }
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// index drawn by weight
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(t);
        for (i, v) in w.iter().enumerate() {
            if x < *v as u64 {
                return i;
            }
            x -= *v as u64;
        }
        w.len() - 1
    }
    /// log-uniform in [lo, hi]
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let (a, b) = (64 - lo.max(1).leading_zeros() as u64, 64 - hi.leading_zeros() as u64);
        let bits = self.range(a, b);
        let top = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let bot = 1u64 << (bits - 1);
        self.range(bot.max(lo), top.min(hi).max(lo))
    }
    pub fn log128(&mut self, lo: u128, hi: u128) -> u128 {
        if hi <= lo {
            return lo;
        }
        let (a, b) = (128 - lo.max(1).leading_zeros() as u64, 128 - hi.leading_zeros() as u64);
        let bits = self.range(a, b);
        let top = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let bot = 1u128 << (bits - 1);
        let (x, y) = (bot.max(lo), top.min(hi));
        self.range128(x, y.max(x))
    }
    pub fn key(&mut self) -> anchor_lang::prelude::Pubkey {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        anchor_lang::prelude::Pubkey::new_from_array(b)
    }
}
