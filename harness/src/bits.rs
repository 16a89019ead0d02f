//! Bit level writer and reader of the reference model. Deliberately one bit at a time.

#[derive(Clone, Default, Debug)]
pub struct BitW {
    pub bytes: Vec<u8>,
    pub n: usize,
}

pub fn width(x: u64) -> u32 {
    let mut n = 0;
    let mut x = x;
    while x != 0 {
        n += 1;
        x >>= 1;
    }
    n
}

/// Bits that every value of a bounded integer takes at least.
pub fn low_bits(max: u64) -> u32 {
    width(max).max(1) - 1
}

impl BitW {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bit(&mut self, b: bool) -> &mut Self {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            self.bytes[self.n / 8] |= 1 << (self.n % 8);
        }
        self.n += 1;
        self
    }
    pub fn put(&mut self, v: u64, n: u32) -> &mut Self {
        for i in 0..n {
            self.bit((v >> i) & 1 == 1);
        }
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.put(v as u64, 8)
    }
    pub fn i32(&mut self, v: i32) -> &mut Self {
        self.put(v as u32 as u64, 32)
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.put(v as u64, 32)
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.put(v, 64)
    }
    pub fn f32(&mut self, v: f32) -> &mut Self {
        self.put(v.to_bits() as u64, 32)
    }
    pub fn raw(&mut self, v: &[u8]) -> &mut Self {
        for b in v {
            self.u8(*b);
        }
        self
    }
    /// Bounded integer: `low_bits(max)` bits, then one more if that bit could be set without
    /// reaching `max`.
    pub fn bounded(&mut self, v: u64, max: u64) -> &mut Self {
        let lb = low_bits(max);
        let low = v & ((1u64 << lb) - 1);
        self.put(low, lb);
        if low + (1u64 << lb) < max {
            self.bit((v >> lb) & 1 == 1);
        }
        self
    }
    pub fn append(&mut self, o: &BitW) -> &mut Self {
        for i in 0..o.n {
            self.bit((o.bytes[i / 8] >> (i % 8)) & 1 == 1);
        }
        self
    }
}

pub fn representable(v: u64, max: u64) -> bool {
    let lb = low_bits(max);
    let low = v & ((1u64 << lb) - 1);
    v >> lb == 0 || (v >> lb == 1 && low + (1u64 << lb) < max)
}

#[derive(Clone)]
pub struct BitR<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    /// Set once a read ran past the end.
    pub short: bool,
}

impl<'a> BitR<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        BitR { d, pos: 0, short: false }
    }
    pub fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    pub fn get(&mut self, n: u32) -> Option<u64> {
        if (n as usize) > self.left() {
            self.short = true;
            return None;
        }
        let mut v = 0u64;
        let mut i = 0;
        while i < n {
            let byte = self.d[self.pos / 8] as u64;
            let off = (self.pos % 8) as u32;
            let take = (8 - off).min(n - i);
            v |= ((byte >> off) & ((1u64 << take) - 1)) << i;
            i += take;
            self.pos += take as usize;
        }
        Some(v)
    }
    pub fn bit(&mut self) -> Option<bool> {
        self.get(1).map(|x| x == 1)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.get(8).map(|x| x as u8)
    }
    pub fn i8(&mut self) -> Option<i8> {
        self.get(8).map(|x| x as u8 as i8)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.get(32).map(|x| x as u32)
    }
    pub fn i32(&mut self) -> Option<i32> {
        self.get(32).map(|x| x as u32 as i32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.get(64)
    }
    pub fn f32(&mut self) -> Option<f32> {
        self.get(32).map(|x| f32::from_bits(x as u32))
    }
    pub fn bytes(&mut self, n: usize) -> Option<Vec<u8>> {
        if n * 8 > self.left() {
            self.short = true;
            return None;
        }
        Some((0..n).map(|_| self.u8().unwrap()).collect())
    }
    pub fn bounded(&mut self, max: u64) -> Option<u64> {
        let lb = low_bits(max);
        let low = self.get(lb)?;
        if low + (1u64 << lb) < max && self.bit()? {
            return Some(low + (1u64 << lb));
        }
        Some(low)
    }
}
