use crate::core::Rng;

/// LSB-first bit writer. With `tamper`, individual field writes are randomly replaced.
#[derive(Clone, Default)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    acc: u64,
    nbits: usize,
    pub tamper: Option<(Rng2, u32)>,
    pub tampered: u32,
    /// If set, redundant representations of U32 fields are chosen at random.
    pub alt: Option<Rng2>,
}

#[derive(Clone)]
pub struct Rng2(pub Rng);

thread_local! {
    /// Source and rates (tokens, fields) of invalid values in wild streams.
    pub static WILD_RNG: std::cell::Cell<(u64, u64, u64)> = const { std::cell::Cell::new((0, 0, 0)) };
}

/// A random number with a probability of 1 in n.
pub fn wild_hit(n: u64) -> Option<u64> {
    let (s, a, b) = WILD_RNG.get();
    if n == 0 {
        return None;
    }
    let mut r = Rng(s);
    let hit = r.below(n) == 0;
    let v = r.next();
    WILD_RNG.set((r.0, a, b));
    hit.then_some(v)
}

pub fn wild_value(v: u32, x: u64) -> u32 {
    let k = (x >> 8) as u32;
    match x & 15 {
        0 => 0,
        1 => v.wrapping_add(1),
        2 => v.saturating_sub(1),
        3 => u32::MAX,
        4 => 1 << 31,
        5 => k >> 1,
        6 => k,
        7 => v.wrapping_mul(2),
        8..12 => k % 64,
        12 => k % 1024,
        13 => k % (1 << 20),
        _ => v ^ (1 << (k % 32)),
    }
}

impl BitWriter {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bit_len(&self) -> usize {
        self.bytes.len() * 8 + self.nbits
    }
    fn raw(&mut self, n: usize, v: u64) {
        assert!(n <= 56);
        debug_assert!(n == 64 || v >> n == 0, "value {v} does not fit {n} bits");
        self.acc |= v << self.nbits;
        self.nbits += n;
        while self.nbits >= 8 {
            self.bytes.push(self.acc as u8);
            self.acc >>= 8;
            self.nbits -= 8;
        }
    }
    pub fn write(&mut self, n: usize, v: u64) {
        let mut v = v;
        if n > 0
            && let Some(x) = wild_hit(WILD_RNG.get().2)
        {
            let mask = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
            v = wild_value(v as u32, x) as u64 & mask;
        }
        if n > 0
            && let Some((r, den)) = &mut self.tamper
            && r.0.below(*den as u64) == 0
        {
            let mask = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
            v = match r.0.below(4) {
                0 => r.0.next() & mask,
                1 => mask,
                2 => v ^ (1 << r.0.below(n as u64)),
                _ => (v + 1) & mask,
            };
            self.tampered += 1;
        }
        if n > 56 {
            self.raw(32, v & 0xffff_ffff);
            self.raw(n - 32, v >> 32);
        } else {
            self.raw(n, v);
        }
    }
    pub fn bool(&mut self, b: bool) {
        self.write(1, b as u64);
    }
    pub fn align(&mut self) {
        if self.nbits > 0 {
            let n = 8 - self.nbits;
            self.raw(n, 0);
        }
    }
    pub fn append_bytes(&mut self, b: &[u8]) {
        assert!(self.nbits == 0);
        self.bytes.extend_from_slice(b);
    }
    /// Appends all bits of another (possibly unaligned) writer.
    pub fn append(&mut self, o: &BitWriter) {
        for &b in &o.bytes {
            self.raw(8, b as u64);
        }
        if o.nbits > 0 {
            self.raw(o.nbits, o.acc & ((1 << o.nbits) - 1));
        }
        self.tampered += o.tampered;
    }
    /// Writes a U32 field.
    pub fn u2(&mut self, d: [U; 4], v: u32) {
        let a = self.alt.as_mut().map(|r| r.0.below(1 << 20)).unwrap_or(0);
        u2s(self, d, v, a);
    }
    pub fn coin(&mut self) -> bool {
        self.alt.as_mut().map(|r| r.0.below(2) == 1).unwrap_or(false)
    }
    pub fn f16(&mut self, v: f32) {
        self.write(16, f16_bits(v) as u64);
    }
    pub fn finish(mut self) -> Vec<u8> {
        self.align();
        self.bytes
    }
}

pub fn floor_log2(v: u64) -> usize {
    63 - v.leading_zeros() as usize
}
pub fn ceil_log2(v: u64) -> usize {
    if v <= 1 { 0 } else { floor_log2(v - 1) + 1 }
}

/// One alternative of a U32 field: `Val(v)` or `Bits(n, offset)`.
#[derive(Clone, Copy, Debug)]
pub enum U {
    V(u32),
    B(usize, u32),
}

/// Selects an encoding for `v`. `alt` picks among the valid selectors.
pub fn u2s(bw: &mut BitWriter, d: [U; 4], v: u32, alt: u64) {
    let mut ok = vec![];
    for (i, u) in d.iter().enumerate() {
        let fits = match *u {
            U::V(x) => x == v,
            U::B(n, off) => v >= off && ((v - off) as u64) < (1u64 << n),
        };
        if fits {
            ok.push(i);
        }
    }
    assert!(!ok.is_empty(), "value {v} not encodable as {d:?}");
    let i = ok[(alt % ok.len() as u64) as usize];
    bw.write(2, i as u64);
    if let U::B(n, off) = d[i] {
        bw.write(n, (v - off) as u64);
    }
}

pub fn u64_field(bw: &mut BitWriter, v: u64) {
    if v == 0 {
        bw.write(2, 0);
    } else if v <= 16 {
        bw.write(2, 1);
        bw.write(4, v - 1);
    } else if v <= 272 {
        bw.write(2, 2);
        bw.write(8, v - 17);
    } else {
        bw.write(2, 3);
        bw.write(12, v & 0xfff);
        let mut v = v >> 12;
        let mut shift = 12;
        loop {
            if v == 0 {
                bw.write(1, 0);
                break;
            }
            bw.write(1, 1);
            if shift == 60 {
                bw.write(4, v & 0xf);
                break;
            }
            bw.write(8, v & 0xff);
            v >>= 8;
            shift += 8;
        }
    }
}

pub fn f16_bits(v: f32) -> u16 {
    // round-to-nearest-even conversion via f64 arithmetic, finite inputs within range
    let b = v.to_bits();
    let sign = ((b >> 16) & 0x8000) as u16;
    let a = f32::from_bits(b & 0x7fff_ffff) as f64;
    if a == 0.0 {
        return sign;
    }
    let mut e = a.log2().floor() as i32;
    if e < -14 {
        e = -14;
    }
    let m = (a / 2f64.powi(e - 10)).round_ties_even() as i64; // 1024..2047 for normals
    let (mut m, mut e) = (m, e);
    if m >= 2048 {
        m >>= 1;
        e += 1;
    }
    if m < 1024 {
        return sign | m as u16;
    }
    assert!(e <= 15, "f16 overflow {v}");
    sign | (((e + 15) as u16) << 10) | (m as u16 & 0x3ff)
}

pub fn f16_to_f32(h: u16) -> f32 {
    let s = if h & 0x8000 != 0 { -1.0f64 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3ff) as f64;
    (match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }) as f32
}

pub fn pack_signed(v: i32) -> u32 {
    ((v << 1) ^ (v >> 31)) as u32
}

pub fn zigzag_unpack(u: u32) -> i32 {
    ((u >> 1) as i32) ^ -((u & 1) as i32)
}
