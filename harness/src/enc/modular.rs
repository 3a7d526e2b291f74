//! Modular sub-bitstreams: an encoder that makes random but valid choices (trees, predictors,
//! transforms, entropy codes) and a reference model of the decoder (ISO/IEC 18181-1 annex H),
//! written with plain loops over whole channels.
use super::bits::*;
use super::entropy::*;
use crate::core::{Rng, Src};

#[derive(Clone, Debug, PartialEq)]
pub struct Chan {
    pub w: usize,
    pub h: usize,
    /// -1 for meta channels
    pub hs: i32,
    pub vs: i32,
    pub data: Vec<i32>,
}
impl Chan {
    pub fn new(w: usize, h: usize, hs: i32, vs: i32) -> Self {
        Chan { w, h, hs, vs, data: vec![0; w * h] }
    }
    pub fn at(&self, x: usize, y: usize) -> i32 {
        self.data[y * self.w + x]
    }
    pub fn is_meta(&self) -> bool {
        self.hs < 0
    }
    pub fn rect(&self, x0: usize, y0: usize, w: usize, h: usize) -> Chan {
        let mut c = Chan::new(w, h, self.hs, self.vs);
        for y in 0..h {
            c.data[y * w..][..w].copy_from_slice(&self.data[(y0 + y) * self.w + x0..][..w]);
        }
        c
    }
    pub fn put(&mut self, x0: usize, y0: usize, c: &Chan) {
        for y in 0..c.h {
            self.data[(y0 + y) * self.w + x0..][..c.w].copy_from_slice(&c.data[y * c.w..][..c.w]);
        }
    }
}

/// What values a coded channel should have.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tex {
    Range { lo: i32, hi: i32 },
    /// Palette indices; `neg` deltas may be used, `ext` implicit entries may be used.
    Index { n: i32, neg: bool, ext: bool },
    Resid { amp: i32 },
    /// A palette; the first `deltas` entries are small.
    Pal { deltas: usize, lo: i32, hi: i32 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Shape {
    pub w: usize,
    pub h: usize,
    pub hs: i32,
    pub vs: i32,
    pub tex: Tex,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Sq {
    pub horizontal: bool,
    pub in_place: bool,
    pub begin: usize,
    pub num: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tr {
    Rct { begin: usize, ty: u32 },
    Palette { begin: usize, nc: usize, colors: usize, deltas: usize, pred: u32 },
    /// Empty: the default sequence.
    Squeeze(Vec<Sq>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Wp {
    pub p1: i64,
    pub p2: i64,
    pub p3: [i64; 5],
    pub w: [u64; 4],
}
impl Wp {
    pub fn def() -> Self {
        Wp { p1: 16, p2: 10, p3: [7, 7, 7, 0, 0], w: [13, 12, 12, 12] }
    }
    fn random(r: &mut Rng) -> Self {
        Wp {
            p1: r.below(32) as i64,
            p2: r.below(32) as i64,
            p3: std::array::from_fn(|_| r.below(32) as i64),
            w: std::array::from_fn(|_| r.below(16)),
        }
    }
    fn write(&self, bw: &mut BitWriter) {
        let d = *self == Wp::def() && !bw.coin();
        bw.bool(d);
        if d {
            return;
        }
        bw.write(5, self.p1 as u64);
        bw.write(5, self.p2 as u64);
        for p in self.p3 {
            bw.write(5, p as u64);
        }
        for w in self.w {
            bw.write(4, w);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Hdr {
    pub global_tree: bool,
    pub wp: Wp,
    pub trs: Vec<Tr>,
}

impl Hdr {
    pub fn write(&self, bw: &mut BitWriter) {
        use U::{B, V};
        bw.bool(self.global_tree);
        self.wp.write(bw);
        bw.u2([V(0), V(1), B(4, 2), B(8, 18)], self.trs.len() as u32);
        let begin = [B(3, 0), B(6, 8), B(10, 72), B(13, 1096)];
        for t in &self.trs {
            match t {
                Tr::Rct { begin: b, ty } => {
                    bw.write(2, 0);
                    bw.u2(begin, *b as u32);
                    bw.u2([V(6), B(2, 0), B(4, 2), B(6, 10)], *ty);
                }
                Tr::Palette { begin: b, nc, colors, deltas, pred } => {
                    bw.write(2, 1);
                    bw.u2(begin, *b as u32);
                    bw.u2([V(1), V(3), V(4), B(13, 1)], *nc as u32);
                    bw.u2([B(8, 0), B(10, 256), B(12, 1280), B(16, 5376)], *colors as u32);
                    bw.u2([V(0), B(8, 1), B(10, 257), B(16, 1281)], *deltas as u32);
                    bw.write(4, *pred as u64);
                }
                Tr::Squeeze(v) => {
                    bw.write(2, 2);
                    bw.u2([V(0), B(4, 1), B(6, 9), B(8, 41)], v.len() as u32);
                    for s in v {
                        bw.bool(s.horizontal);
                        bw.bool(s.in_place);
                        bw.u2(begin, s.begin as u32);
                        bw.u2([V(1), V(2), V(3), B(4, 4)], s.num as u32);
                    }
                }
            }
        }
    }
}

pub fn default_squeeze(sh: &[Shape]) -> Vec<Sq> {
    let nm = sh.iter().take_while(|s| s.hs < 0).count();
    let nc = sh.len() - nm;
    let (mut w, mut h) = (sh[nm].w, sh[nm].h);
    let mut v = vec![];
    if nc > 2 && (sh[nm + 1].w, sh[nm + 1].h) == (w, h) {
        if w > 1 {
            v.push(Sq { horizontal: true, in_place: false, begin: nm + 1, num: 2 });
        }
        if h > 1 {
            v.push(Sq { horizontal: false, in_place: false, begin: nm + 1, num: 2 });
        }
    }
    let mut s = |horizontal| v.push(Sq { horizontal, in_place: true, begin: nm, num: nc });
    if w <= h && h > 8 {
        s(false);
        h = h.div_ceil(2);
    }
    while w > 8 || h > 8 {
        if w > 8 {
            s(true);
            w = w.div_ceil(2);
        }
        if h > 8 {
            s(false);
            h = h.div_ceil(2);
        }
    }
    v
}

pub fn meta_apply(sh: &mut Vec<Shape>, tr: &Tr, r: &mut Rng) {
    match tr {
        Tr::Rct { begin, ty } => {
            // chroma-like channels are centred on zero
            let op = ty % 7;
            for k in 0..3 {
                if let Tex::Range { lo, hi } = sh[begin + k].tex
                    && op != 0
                    && k > 0
                    && r.below(3) > 0
                {
                    let d = (hi - lo) / 2;
                    sh[begin + k].tex = Tex::Range { lo: -d / 2, hi: d / 2 };
                }
            }
        }
        Tr::Palette { begin, nc, colors, deltas, pred } => {
            let (lo, hi) = match sh[*begin].tex {
                Tex::Range { lo, hi } => (lo, hi),
                Tex::Index { n, .. } => (0, n.max(1) - 1),
                Tex::Resid { amp } => (-amp, amp),
                Tex::Pal { lo, hi, .. } => (lo, hi),
            };
            let can_neg = *deltas > 0 || *pred != 0 || r.below(4) == 0;
            let size = (colors + deltas) as i32;
            let neg = size == 0 || (can_neg && r.below(2) == 0);
            let ext = size == 0 || r.below(3) == 0;
            sh[*begin].tex = Tex::Index { n: size, neg, ext };
            sh.drain(begin + 1..begin + nc);
            sh.insert(0, Shape { w: colors + deltas, h: *nc, hs: -1, vs: -1, tex: Tex::Pal { deltas: *deltas, lo, hi } });
        }
        Tr::Squeeze(v) => {
            let v = if v.is_empty() { default_squeeze(sh) } else { v.clone() };
            for s in v {
                for i in 0..s.num {
                    let c = sh[s.begin + i].clone();
                    let amp = match c.tex {
                        Tex::Range { lo, hi } => ((hi as i64 - lo as i64) / 8).clamp(1, 1 << 20) as i32,
                        Tex::Index { n, .. } => n / 2 + 1,
                        Tex::Resid { amp } => amp / 2 + 1,
                        Tex::Pal { .. } => 20,
                    };
                    let (mut a, mut b) = (c.clone(), c.clone());
                    b.tex = Tex::Resid { amp };
                    if s.horizontal {
                        a.w = c.w.div_ceil(2);
                        b.w = c.w / 2;
                    } else {
                        a.h = c.h.div_ceil(2);
                        b.h = c.h / 2;
                    }
                    if c.hs >= 0 {
                        for q in [&mut a, &mut b] {
                            if s.horizontal { q.hs += 1 } else { q.vs += 1 }
                        }
                    }
                    sh[s.begin + i] = a;
                    let at = if s.in_place { s.begin + s.num + i } else { sh.len() };
                    sh.insert(at, b);
                }
            }
        }
    }
}

fn tendency(b: i64, a: i64, n: i64) -> i64 {
    let mut d = 0;
    if b >= a && a >= n {
        d = (4 * b - 3 * n - a + 6) / 12;
        if d - (d & 1) > 2 * (b - a) {
            d = 2 * (b - a) + 1;
        }
        if d + (d & 1) > 2 * (a - n) {
            d = 2 * (a - n);
        }
    } else if b <= a && a <= n {
        d = (4 * b - 3 * n - a - 6) / 12;
        if d + (d & 1) < 2 * (b - a) {
            d = 2 * (b - a) - 1;
        }
        if d - (d & 1) < 2 * (a - n) {
            d = 2 * (a - n);
        }
    }
    d
}

thread_local! {
    /// Set when an intermediate value went beyond what decoders compute exactly (they may use 32 bits).
    pub static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn unsqueeze_line(avg: &[i32], res: &[i32], out: &mut [i32]) {
    let n = res.len();
    for x in 0..n {
        let a = avg[x] as i64;
        let next = if x + 1 < avg.len() { avg[x + 1] } else { avg[x] } as i64;
        let prev = if x > 0 { out[2 * x - 1] as i64 } else { a };
        let d = res[x] as i64 + tendency(prev, a, next);
        if [a, next, prev, d].iter().any(|v| v.abs() > 1 << 28) {
            WIDE.set(true);
        }
        let first = a + d / 2;
        out[2 * x] = first as i32;
        out[2 * x + 1] = (first - d) as i32;
    }
    if out.len() % 2 == 1 {
        out[2 * n] = avg[n];
    }
}

fn unsqueeze(avg: &Chan, res: &Chan, horizontal: bool) -> Chan {
    let (w, h) = if horizontal { (avg.w + res.w, avg.h) } else { (avg.w, avg.h + res.h) };
    let meta = avg.is_meta();
    let mut o = Chan::new(w, h, avg.hs - (!meta && horizontal) as i32, avg.vs - (!meta && !horizontal) as i32);
    if horizontal {
        for y in 0..h {
            unsqueeze_line(&avg.data[y * avg.w..][..avg.w], &res.data[y * res.w..][..res.w], &mut o.data[y * w..][..w]);
        }
    } else {
        let mut line = vec![0; h];
        for x in 0..w {
            let a: Vec<i32> = (0..avg.h).map(|y| avg.at(x, y)).collect();
            let b: Vec<i32> = (0..res.h).map(|y| res.at(x, y)).collect();
            unsqueeze_line(&a, &b, &mut line);
            for y in 0..h {
                o.data[y * w + x] = line[y];
            }
        }
    }
    o
}



const DELTA_PALETTE: [[i32; 3]; 72] = [[0, 0, 0], [4, 4, 4], [11, 0, 0], [0, 0, -13], [0, -12, 0], [-10, -10, -10], [-18, -18, -18], [-27, -27, -27], [-18, -18, 0], [0, 0, -32], [-32, 0, 0], [-37, -37, -37], [0, -32, -32], [24, 24, 45], [50, 50, 50], [-45, -24, -24], [-24, -45, -45], [0, -24, -24], [-34, -34, 0], [-24, 0, -24], [-45, -45, -24], [64, 64, 64], [-32, 0, -32], [0, -32, 0], [-32, 0, 32], [-24, -45, -24], [45, 24, 45], [24, -24, -45], [-45, -24, 24], [80, 80, 80], [64, 0, 0], [0, 0, -64], [0, -64, -64], [-24, -24, 45], [96, 96, 96], [64, 64, 0], [45, -24, -24], [34, -34, 0], [112, 112, 112], [24, -45, -45], [45, 45, -24], [0, -32, 32], [24, -24, 45], [0, 96, 96], [45, -24, 24], [24, -45, -24], [-24, -45, 24], [0, -64, 0], [96, 0, 0], [128, 128, 128], [64, 0, 64], [144, 144, 144], [96, 96, 0], [-36, -36, 36], [45, -24, -45], [45, -45, -24], [0, 0, -96], [0, 128, 128], [0, 96, 0], [45, 24, -45], [-128, 0, 0], [24, -45, 24], [-45, 24, -45], [64, 0, -64], [64, -64, -64], [96, 0, 96], [45, -45, 24], [24, 45, -45], [64, 64, -64], [128, 128, 0], [0, 0, -128], [-24, 45, -45]];

fn palette_value(pal: &Chan, index: i32, c: usize, bits: u32) -> i32 {
    let size = pal.w as i64;
    let bd = bits.min(24);
    let i = index as i64;
    if i < 0 {
        if c >= 3 {
            return 0;
        }
        let k = (-(i + 1)) % 143;
        let mut v = DELTA_PALETTE[((k + 1) / 2) as usize][c];
        if k % 2 == 0 {
            v = -v;
        }
        if bd > 8 {
            v <<= bd - 8;
        }
        v
    } else if i < size {
        pal.at(i as usize, c)
    } else if c >= 3 {
        0
    } else if i < size + 64 {
        let k = (i - size) >> (2 * c) & 3;
        ((k * ((1i64 << bd) - 1)) / 4) as i32 + (1 << (bd as i32 - 3).max(0))
    } else {
        let k = (i - size - 64) / [1, 5, 25][c] % 5;
        ((k * ((1i64 << bd) - 1)) / 4) as i32
    }
}

#[derive(Clone, Copy, Default)]
pub struct Nb {
    w: i64,
    n: i64,
    nw: i64,
    ne: i64,
    ww: i64,
    nn: i64,
    nee: i64,
}

pub fn neighbours(c: &Chan, x: usize, y: usize) -> Nb {
    let p = |x: usize, y: usize| c.data[y * c.w + x] as i64;
    let w = if x > 0 {
        p(x - 1, y)
    } else if y > 0 {
        p(x, y - 1)
    } else {
        0
    };
    let n = if y > 0 { p(x, y - 1) } else { w };
    let nw = if x > 0 && y > 0 { p(x - 1, y - 1) } else { w };
    let ne = if x + 1 < c.w && y > 0 { p(x + 1, y - 1) } else { n };
    let ww = if x > 1 { p(x - 2, y) } else { w };
    let nn = if y > 1 { p(x, y - 2) } else { n };
    let nee = if x + 2 < c.w && y > 0 { p(x + 2, y - 1) } else { ne };
    Nb { w, n, nw, ne, ww, nn, nee }
}

fn gradient(w: i64, n: i64, nw: i64) -> i64 {
    (w + n - nw).clamp(w.min(n), w.max(n))
}

pub fn predict(pred: u32, b: &Nb, wp: i64) -> i64 {
    match pred {
        0 => 0,
        1 => b.w,
        2 => b.n,
        3 => (b.w + b.n) / 2,
        4 => {
            let g = b.w + b.n - b.nw;
            if (g - b.w).abs() < (g - b.n).abs() { b.w } else { b.n }
        }
        5 => gradient(b.w, b.n, b.nw),
        6 => wp,
        7 => b.ne,
        8 => b.nw,
        9 => b.ww,
        10 => (b.w + b.nw) / 2,
        11 => (b.n + b.nw) / 2,
        12 => (b.n + b.ne) / 2,
        _ => (6 * b.n - 2 * b.nn + 7 * b.w + b.ww + b.nee + 3 * b.ne + 8) / 16,
    }
}

/// The self-correcting predictor.
pub struct WpState {
    w: usize,
    hdr: Wp,
    /// Errors of the four sub-predictors (index (y + 1) * w + x, from a row above the image on),
    /// each with the error of the sample south-west of it added.
    sub: Vec<[u32; 4]>,
    err: Vec<i64>,
    p: [i64; 4],
    pred: i64,
}
impl WpState {
    pub fn new(hdr: &Wp, w: usize, h: usize) -> Self {
        WpState { w, hdr: hdr.clone(), sub: vec![[0; 4]; w * (h + 1)], err: vec![0; w * h], p: [0; 4], pred: 0 }
    }
    /// (prediction, property)
    pub fn predict(&mut self, x: usize, y: usize, b: &Nb) -> (i64, i64) {
        let w = self.w;
        let (en, ene, enw): ([u32; 4], [u32; 4], [u32; 4]);
        let (mut tn, mut tne, mut tnw) = (0, 0, 0);
        let tw = if x > 0 { self.err[y * w + x - 1] } else { 0 };
        let xe = if x + 1 < w { x + 1 } else { x };
        let xw = x.saturating_sub(1);
        en = self.sub[y * w + x];
        ene = self.sub[y * w + xe];
        enw = self.sub[y * w + xw];
        if y > 0 {
            let r = (y - 1) * w;
            tn = self.err[r + x];
            tne = self.err[r + xe];
            tnw = self.err[r + xw];
        }
        let mut weight = [0u64; 4];
        for i in 0..4 {
            let e = en[i].wrapping_add(ene[i]).wrapping_add(enw[i]) as u64;
            let shift = (floor_log2(e + 1) as i64 - 5).max(0);
            let div = (1u64 << 24) / ((e >> shift) + 1);
            weight[i] = 4 + ((self.hdr.w[i] * div) >> shift);
        }
        let (n8, w8, ne8, nw8, nn8) = (b.n << 3, b.w << 3, b.ne << 3, b.nw << 3, b.nn << 3);
        let p3 = &self.hdr.p3;
        self.p = [
            w8 + ne8 - n8,
            n8 - (((tw + tn + tne) * self.hdr.p1) >> 5),
            w8 - (((tw + tn + tnw) * self.hdr.p2) >> 5),
            n8 - ((tnw * p3[0] + tn * p3[1] + tne * p3[2] + (nn8 - n8) * p3[3] + (nw8 - w8) * p3[4]) >> 5),
        ];
        let lw = floor_log2(weight.iter().sum::<u64>());
        let ws: Vec<i64> = weight.iter().map(|&x| (x >> (lw - 4)) as i64).collect();
        let sum_w: i64 = ws.iter().sum();
        let s: i64 = (sum_w >> 1) - 1 + ws.iter().zip(&self.p).map(|(a, b)| a * b).sum::<i64>();
        let mut pred = (s * ((1i64 << 24) / sum_w)) >> 24;
        if ((tn ^ tw) | (tn ^ tnw)) <= 0 {
            let mx = w8.max(ne8).max(n8);
            let mn = w8.min(ne8).min(n8);
            pred = pred.clamp(mn, mx);
        }
        self.pred = pred;
        let mut prop = tw;
        for t in [tn, tnw, tne] {
            if t.abs() > prop.abs() {
                prop = t;
            }
        }
        ((pred + 3) >> 3, prop)
    }
    pub fn update(&mut self, x: usize, y: usize, v: i32) {
        let v8 = (v as i64) << 3;
        let at = y * self.w + x;
        self.err[at] = (self.pred - v8) as i32 as i64;
        for i in 0..4 {
            let e = (((self.p[i] - v8).abs() + 3) >> 3) as u32;
            self.sub[at + self.w][i] = e;
            if x + 1 < self.w {
                let a = &mut self.sub[at + 1][i];
                *a = a.wrapping_add(e);
            }
        }
    }
}

fn inv_rct(ch: &mut [Chan], ty: u32) {
    let op = ty % 7;
    let perm = ty / 7;
    let n = ch[0].data.len();
    for k in 0..n {
        let (a, b, c) = (ch[0].data[k] as i64, ch[1].data[k] as i64, ch[2].data[k] as i64);
        let (x, y, z) = match op {
            0 => (a, b, c),
            1 => (a, b, c + a),
            2 => (a, b + a, c),
            3 => (a, b + a, c + a),
            4 => (a, b + ((a + c) as i32 >> 1) as i64, c),
            5 => (a, b + ((a + (c + a)) as i32 >> 1) as i64, c + a),
            _ => {
                let t = (a - (c >> 1)) as i32 as i64;
                let g = c + t;
                let bl = t - (b >> 1);
                (bl + b, g, bl)
            }
        };
        let v = [x as i32, y as i32, z as i32];
        let pos = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]][perm as usize];
        for i in 0..3 {
            ch[pos[i]].data[k] = v[i];
        }
    }
}

/// Undoes a transform on a list of channels. `before` is the list of shapes before the transform.
pub fn inverse(ch: &mut Vec<Chan>, before: &[Shape], tr: &Tr, wp: &Wp, bits: u32) {
    match tr {
        Tr::Rct { begin, ty } => inv_rct(&mut ch[*begin..begin + 3], *ty),
        Tr::Palette { begin, nc, deltas, pred, .. } => {
            let pal = ch.remove(0);
            let idx = ch.remove(*begin);
            for c in 0..*nc {
                let mut o = Chan::new(idx.w, idx.h, idx.hs, idx.vs);
                let mut st = (*pred == 6).then(|| WpState::new(wp, idx.w, idx.h));
                for y in 0..idx.h {
                    for x in 0..idx.w {
                        let i = idx.at(x, y);
                        let e = palette_value(&pal, i, c, bits);
                        let nb = neighbours(&o, x, y);
                        let w = st.as_mut().map_or(0, |s| s.predict(x, y, &nb).0);
                        let v = if (i as i64) < *deltas as i64 { (predict(*pred, &nb, w) + e as i64) as i32 } else { e };
                        o.data[y * idx.w + x] = v;
                        if let Some(s) = &mut st {
                            s.update(x, y, v);
                        }
                    }
                }
                ch.insert(begin + c, o);
            }
        }
        Tr::Squeeze(v) => {
            let v = if v.is_empty() { default_squeeze(before) } else { v.clone() };
            for s in v.iter().rev() {
                for i in (0..s.num).rev() {
                    let at = if s.in_place { s.begin + s.num + i } else { ch.len() - 1 };
                    let res = ch.remove(at);
                    ch[s.begin + i] = unsqueeze(&ch[s.begin + i], &res, s.horizontal);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Node {
    Split { prop: u32, val: i32, l: usize, r: usize },
    Leaf { ctx: usize, pred: u32, offset: i32, mul_log: u32, mul_bits: u32 },
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub nodes: Vec<Node>,
    pub leaves: usize,
    pub uses_wp: bool,
    pub refs: usize,
    pub rle: bool,
    pub kind: &'static str,
}

/// What is allowed in a tree.
#[derive(Clone, Copy, Debug)]
pub struct TreeOpt {
    /// Every value must be representable (multiplier 1).
    pub exact: bool,
    pub max_nodes: usize,
    pub num_chans: usize,
    pub max_stream: usize,
}

impl Tree {
    pub fn single(pred: u32) -> Tree {
        Tree {
            nodes: vec![Node::Leaf { ctx: 0, pred, offset: 0, mul_log: 0, mul_bits: 0 }],
            leaves: 1,
            uses_wp: pred == 6,
            refs: 0,
            rle: false,
            kind: "single",
        }
    }

    pub fn random(src: &mut Src, o: &TreeOpt) -> Tree {
        let kind = src.weighted(&[4, 3, 3, 6, 3, 2]);
        let mut r = src.rng();
        let name = ["single", "wp only", "gradient only", "general", "per channel", "fast lossless"][kind];
        if kind == 0 {
            let mut t = Tree::single([5, 6, 0][r.below(3) as usize]);
            if r.below(2) == 0 {
                let Node::Leaf { pred, offset, mul_log, mul_bits, .. } = &mut t.nodes[0] else { unreachable!() };
                *pred = r.below(14) as u32;
                if r.below(2) == 0 {
                    *offset = r.range(-100, 100) as i32;
                }
                if !o.exact && r.below(2) == 0 {
                    *mul_log = r.below(6) as u32;
                    *mul_bits = r.below(6) as u32;
                }
                t.uses_wp = *pred == 6;
            }
            return t;
        }
        let lim = (o.max_nodes.max(3) - 1) / 2;
        let k = r.below(6);
        let want = 1 + r.below([1, 3, 8, 20, 60, 200][k as usize].min(lim as u64)) as usize;
        // list of pending nodes: (property ranges on the path, forced kind)
        struct Pend {
            ranges: Vec<(u32, i64, i64)>,
            depth: usize,
            sub: usize,
        }
        let mut nodes: Vec<Node> = vec![];
        let mut queue: std::collections::VecDeque<Pend> = Default::default();
        queue.push_back(Pend { ranges: vec![], depth: 0, sub: kind });
        let mut splits = 0;
        let mut leaves = 0;
        let mut max_ref = 0usize;
        let mut uses_wp = false;
        let fixed_pred = r.below(14) as u32;
        let same_pred = r.below(3) == 0;
        while let Some(p) = queue.pop_front() {
            let open = queue.len() + 1;
            let may = splits < want && (r.below(4) > 0 || open == 1);
            let mut done = false;
            if may {
                let mut sub = p.sub;
                let prop = match p.sub {
                    1 => 15,
                    2 => 9,
                    4 => {
                        if p.depth < 2 {
                            r.below(2) as u32
                        } else {
                            sub = 1 + r.below(3) as usize;
                            match sub {
                                1 => 15,
                                2 => 9,
                                _ => r.below(16) as u32,
                            }
                        }
                    }
                    5 => 0,
                    _ => {
                        let x = r.below(20) as u32;
                        if x < 16 {
                            x
                        } else if x < 18 {
                            16 + r.below(4 * o.num_chans.clamp(1, 4) as u64) as u32
                        } else {
                            // beyond the channels there are
                            16 + r.below(24) as u32
                        }
                    }
                };
                let (lo, hi) = p.ranges.iter().rev().find(|x| x.0 == prop).map_or((i32::MIN as i64, i32::MAX as i64), |x| (x.1, x.2));
                let cand = match prop {
                    0 => r.below(o.num_chans.max(1) as u64 + 1) as i64,
                    1 => r.below(o.max_stream as u64 + 1) as i64,
                    2 | 3 => {
                        let b = r.below(10);
                        r.below(1 << b) as i64
                    }
                    _ => {
                        let b = r.below(12);
                        let v = r.below(1 << b) as i64;
                        let v = if prop == 15 { v * 4 } else { v };
                        if r.below(2) == 0 { -v } else { v }
                    }
                };
                if cand >= lo && cand < hi && p.depth < 100 {
                    splits += 1;
                    let l = nodes.len() + open;
                    nodes.push(Node::Split { prop, val: cand as i32, l, r: l + 1 });
                    for (a, b) in [(cand + 1, hi), (lo, cand)] {
                        let mut ranges = p.ranges.clone();
                        ranges.push((prop, a, b));
                        queue.push_back(Pend { ranges, depth: p.depth + 1, sub });
                    }
                    if prop == 15 {
                        uses_wp = true;
                    }
                    if prop >= 16 {
                        max_ref = max_ref.max((prop as usize - 16) / 4 + 1);
                    }
                    done = true;
                }
            }
            if !done {
                let pred = match p.sub {
                    1 => 6,
                    2 | 5 => 5,
                    4 => [0, 5, 6, r.below(14) as u32][r.below(4) as usize],
                    _ if same_pred => fixed_pred,
                    _ => r.below(14) as u32,
                };
                uses_wp |= pred == 6;
                let plain = matches!(p.sub, 1 | 2 | 5) && (p.sub == 5 || r.below(8) > 0);
                let offset = if plain || r.below(2) == 0 { 0 } else { r.range(-50, 50) as i32 };
                let (mul_log, mul_bits) = if o.exact || plain || r.below(3) > 0 { (0, 0) } else { (r.below(5) as u32, r.below(7) as u32) };
                nodes.push(Node::Leaf { ctx: leaves, pred, offset, mul_log, mul_bits });
                leaves += 1;
            }
        }
        Tree { nodes, leaves, uses_wp, refs: max_ref, rle: kind == 5, kind: name }
    }

    fn tokens(&self) -> Vec<Tok> {
        let mut t = vec![];
        for n in &self.nodes {
            match *n {
                Node::Split { prop, val, .. } => {
                    t.push(tok(1, prop + 1));
                    t.push(tok(0, pack_signed(val)));
                }
                Node::Leaf { pred, offset, mul_log, mul_bits, .. } => {
                    t.push(tok(1, 0));
                    t.push(tok(2, pred));
                    t.push(tok(3, pack_signed(offset)));
                    t.push(tok(4, mul_log));
                    t.push(tok(5, mul_bits));
                }
            }
        }
        t
    }

    pub fn write_nodes(&self, bw: &mut BitWriter, src: &mut Src) {
        let t = self.tokens();
        let b = build(src, 6, &[(&t, 0)], true, LzMode::Maybe);
        b.code.write_header(bw);
        b.code.write_stream(bw, &b.streams[0]);
    }

    fn walk(&self, props: &[i32]) -> &Node {
        let mut i = 0;
        loop {
            match &self.nodes[i] {
                Node::Split { prop, val, l, r } => {
                    let v = props.get(*prop as usize).copied().unwrap_or(0);
                    i = if v > *val { *l } else { *r };
                }
                n => return n,
            }
        }
    }
}

/// Target values of a channel.
pub fn texture(sh: &Shape, r: &mut Rng) -> Vec<i32> {
    let (w, h) = (sh.w, sh.h);
    let n = w * h;
    match sh.tex {
        Tex::Resid { amp } => {
            let amp = amp as i64;
            match r.below(4) {
                0 => vec![0; n],
                1 => (0..n).map(|_| if r.below(16) == 0 { r.range(-amp, amp) as i32 } else { 0 }).collect(),
                2 => (0..n).map(|_| r.range(-amp.min(3), amp.min(3)) as i32).collect(),
                _ => (0..n).map(|_| r.range(-amp, amp) as i32).collect(),
            }
        }
        Tex::Index { n: size, neg, ext } => {
            let few = 1 + r.below(size.max(1) as u64) as i64;
            let style = r.below(3);
            let mut cur = 0i64;
            let base = texture_range(w, h, 0, few as i32 - 1, r);
            (0..n)
                .map(|k| {
                    let odd = r.below(6) == 0 || size == 0;
                    if odd && neg && (!ext || r.below(2) == 0) {
                        let top = if r.below(20) == 0 { 400 } else { 143 };
                        return -1 - r.below(top) as i32;
                    }
                    if odd && ext {
                        return size + r.below(64 + 125) as i32;
                    }
                    match style {
                        0 => base[k],
                        1 => {
                            if r.below(5) == 0 {
                                cur = r.below(few as u64) as i64;
                            }
                            cur as i32
                        }
                        _ => r.below(few as u64) as i32,
                    }
                })
                .collect()
        }
        Tex::Pal { deltas, lo, hi } => {
            let mut v = texture_range(w, h, lo, hi, r);
            for c in 0..h {
                for i in 0..deltas.min(w) {
                    let a = ((hi as i64 - lo as i64) / 16).clamp(1, 1 << 12);
                    v[c * w + i] = r.range(-a, a) as i32;
                }
            }
            v
        }
        Tex::Range { lo, hi } => texture_range(w, h, lo, hi, r),
    }
}

fn texture_range(w: usize, h: usize, lo: i32, hi: i32, r: &mut Rng) -> Vec<i32> {
    let n = w * h;
    let span = hi as i64 - lo as i64;
    let at = |f: f64| (lo as i64 + (f.clamp(0.0, 1.0) * span as f64).round() as i64) as i32;
    match r.below(8) {
        0 => vec![r.range(lo as i64, hi as i64) as i32; n],
        1 => {
            let (a, b, c, d) = (r.f(), r.f() * 0.2, r.f() * 0.2, r.f() * 0.05);
            (0..n)
                .map(|k| {
                    let (x, y) = ((k % w) as f64, (k / w) as f64);
                    at(0.5 + 0.4 * ((x * b + a).sin() * (y * c).cos()) + d * (r.f() - 0.5))
                })
                .collect()
        }
        2 => (0..n).map(|_| r.range(lo as i64, hi as i64) as i32).collect(),
        3 => {
            // flat areas with edges
            let k = 1 + r.below(12) as usize;
            let pts: Vec<(f64, f64, i32)> = (0..k).map(|_| (r.f() * w as f64, r.f() * h as f64, r.range(lo as i64, hi as i64) as i32)).collect();
            (0..n)
                .map(|i| {
                    let (x, y) = ((i % w) as f64, (i / w) as f64);
                    pts.iter().min_by(|a, b| ((a.0 - x).powi(2) + (a.1 - y).powi(2)).total_cmp(&((b.0 - x).powi(2) + (b.1 - y).powi(2)))).unwrap().2
                })
                .collect()
        }
        4 => {
            // few values, with runs
            let k = 1 + r.below(6) as usize;
            let v: Vec<i32> = (0..k).map(|_| r.range(lo as i64, hi as i64) as i32).collect();
            let mut cur = v[0];
            (0..n)
                .map(|_| {
                    if r.below(9) == 0 {
                        cur = v[r.below(k as u64) as usize];
                    }
                    cur
                })
                .collect()
        }
        5 => {
            // repeated tile
            let (tw, th) = (1 + r.below(9) as usize, 1 + r.below(9) as usize);
            let v: Vec<i32> = (0..tw * th).map(|_| r.range(lo as i64, hi as i64) as i32).collect();
            (0..n).map(|i| v[(i / w % th) * tw + i % w % tw]).collect()
        }
        6 => {
            // extremes and sparse values
            let b = r.range(lo as i64, hi as i64) as i32;
            (0..n)
                .map(|_| match r.below(12) {
                    0 => lo,
                    1 => hi,
                    _ => b,
                })
                .collect()
        }
        _ => {
            // random walk
            let mut cur = r.range(lo as i64, hi as i64);
            let step = 1 + span / 64;
            (0..n)
                .map(|_| {
                    cur = (cur + r.range(-step, step)).clamp(lo as i64, hi as i64);
                    cur as i32
                })
                .collect()
        }
    }
}

/// Encodes channel `i` of the list; replaces its samples by what the decoder will see.
#[allow(clippy::too_many_arguments)]
pub fn encode_channel(tree: &Tree, wp: &Wp, stream: usize, chans: &mut [Chan], i: usize, toks: &mut Vec<Tok>) {
    let (prev, rest) = chans.split_at_mut(i);
    let cur = &mut rest[0];
    let (w, h) = (cur.w, cur.h);
    let refs: Vec<&Chan> =
        prev.iter().rev().filter(|c| (c.w, c.h, c.hs, c.vs) == (w, h, cur.hs, cur.vs)).take(tree.refs).collect();
    let mut st = tree.uses_wp.then(|| WpState::new(wp, w, h));
    let mut props = vec![0i32; 16 + 4 * tree.refs];
    props[0] = i as i32;
    props[1] = stream as i32;
    let single = tree.nodes.len() == 1;
    let target = std::mem::replace(&mut cur.data, vec![0; w * h]);
    for y in 0..h {
        props[9] = 0;
        for x in 0..w {
            let b = neighbours(cur, x, y);
            let (wpp, wprop) = st.as_mut().map_or((0, 0), |s| s.predict(x, y, &b));
            if !single {
                let last9 = props[9] as i64;
                let v = [
                    y as i64, x as i64, b.n.abs(), b.w.abs(), b.n, b.w, b.w - last9, b.w + b.n - b.nw, b.w - b.nw, b.nw - b.n, b.n - b.ne,
                    b.n - b.nn, b.w - b.ww, wprop,
                ];
                for (p, v) in props[2..16].iter_mut().zip(v) {
                    *p = v as i32;
                }
                for (k, rc) in refs.iter().enumerate() {
                    let v = rc.at(x, y) as i64;
                    let l = if x > 0 { rc.at(x - 1, y) as i64 } else { 0 };
                    let t = if y > 0 { rc.at(x, y - 1) as i64 } else { l };
                    let tl = if x > 0 && y > 0 { rc.at(x - 1, y - 1) as i64 } else { l };
                    let g = gradient(l, t, tl);
                    for (j, q) in [v.abs(), v, (v - g).abs(), v - g].into_iter().enumerate() {
                        props[16 + 4 * k + j] = q as i32;
                    }
                }
            }
            let Node::Leaf { ctx, pred, offset, mul_log, mul_bits } = *tree.walk(&props) else { unreachable!() };
            let mul = ((mul_bits as i64) + 1) << mul_log;
            let guess = predict(pred, &b, wpp) + offset as i64;
            let d = target[y * w + x] as i64 - guess;
            let res = if mul == 1 { d } else { (d + d.signum() * (mul / 2)) / mul };
            let v = (guess + res * mul) as i32;
            cur.data[y * w + x] = v;
            toks.push(tok(ctx, pack_signed(res as i32)));
            if let Some(s) = &mut st {
                s.update(x, y, v);
            }
        }
    }
}

/// A sub-bitstream whose entropy code is not chosen yet.
pub struct Stream {
    pub head: BitWriter,
    toks: Vec<Tok>,
    width: u32,
    /// Own tree and its code.
    local: Option<Tree>,
    pub empty: bool,
}

pub struct ModEnc {
    pub global: Option<Tree>,
    pub streams: Vec<Stream>,
    pub desc: String,
}

pub struct StreamOpt {
    pub id: usize,
    /// Write the header here (false: the header was written before, as in the global stream).
    pub header: bool,
    pub exact: bool,
}

impl ModEnc {
    pub fn new(global: Option<Tree>) -> Self {
        ModEnc { global, streams: vec![], desc: String::new() }
    }

    /// Codes channels (whose data are targets, replaced by what will be decoded) without transforms applied here.
    pub fn code(&mut self, src: &mut Src, chans: &mut [Chan], hdr: &Hdr, o: &StreamOpt) -> usize {
        let idx = self.streams.len();
        if chans.iter().all(|c| c.w == 0 || c.h == 0) {
            self.streams.push(Stream { head: BitWriter::new(), toks: vec![], width: 0, local: None, empty: true });
            return idx;
        }
        let mut head = BitWriter::new();
        if src.chance(1, 3) {
            head.alt = Some(Rng2(src.rng()));
        }
        if o.header {
            hdr.write(&mut head);
        }
        let samples: usize = chans.iter().map(|c| c.w * c.h).sum();
        let local = (!hdr.global_tree).then(|| {
            let t = Tree::random(
                src,
                &TreeOpt { exact: o.exact, max_nodes: (1024 + samples).min(1 << 20).min(301), num_chans: chans.len(), max_stream: o.id + 2 },
            );
            self.desc += &format!(" local:{}", t.kind);
            t
        });
        let tree = local.as_ref().or(self.global.as_ref()).unwrap();
        let mut toks = vec![];
        for i in 0..chans.len() {
            if chans[i].w > 0 && chans[i].h > 0 {
                encode_channel(tree, &hdr.wp, o.id, chans, i, &mut toks);
            }
        }
        // channels without samples are not among those to be coded
        let width = chans.iter().filter(|c| c.h > 0).map(|c| c.w).max().unwrap_or(0) as u32;
        self.streams.push(Stream { head, toks, width, local, empty: false });
        idx
    }

    /// Generates a stream for the given logical channels, with random transforms; returns the
    /// channels as decoded and the stream number.
    pub fn random_stream(&mut self, src: &mut Src, shapes: &[Shape], bits: u32, o: &StreamOpt) -> (Vec<Chan>, usize) {
        let hdr = random_hdr(src, shapes, self.global.is_some(), 3, false, bits);
        self.stream_with(src, shapes, bits, o, &hdr)
    }

    pub fn stream_with(&mut self, src: &mut Src, shapes: &[Shape], bits: u32, o: &StreamOpt, hdr: &Hdr) -> (Vec<Chan>, usize) {
        let mut r = src.rng();
        let mut cur = shapes.to_vec();
        let mut before = vec![];
        for t in &hdr.trs {
            before.push(cur.clone());
            meta_apply(&mut cur, t, &mut r);
        }
        let mut ch: Vec<Chan> = cur.iter().map(|s| Chan { w: s.w, h: s.h, hs: s.hs, vs: s.vs, data: texture(s, &mut r) }).collect();
        let id = self.code(src, &mut ch, hdr, o);
        for (t, b) in hdr.trs.iter().zip(&before).rev() {
            inverse(&mut ch, b, t, &hdr.wp, bits);
        }
        (ch, id)
    }

    /// Writes the global tree (without the presence bit) if there is one, and returns the bits of the streams.
    pub fn finish(mut self, src: &mut Src) -> (BitWriter, Vec<BitWriter>, String) {
        let mut tree_bits = BitWriter::new();
        let mut global_items: Vec<Vec<Item>> = vec![];
        let mut code = None;
        if let Some(t) = &self.global {
            t.write_nodes(&mut tree_bits, src);
            let inp: Vec<(&[Tok], u32)> =
                self.streams.iter().filter(|s| s.local.is_none() && !s.empty).map(|s| (&s.toks[..], s.width)).collect();
            let b = build(src, t.leaves, &inp, true, if t.rle { LzMode::Rle } else { LzMode::Maybe });
            b.code.write_header(&mut tree_bits);
            self.desc += &format!(" global:{}/{}", t.kind, b.code.desc);
            global_items = b.streams;
            code = Some(b.code);
        }
        let mut gi = global_items.into_iter();
        let mut out = vec![];
        for s in &mut self.streams {
            let mut bw = std::mem::take(&mut s.head);
            if !s.empty {
                if let Some(t) = &s.local {
                    t.write_nodes(&mut bw, src);
                    let b = build(src, t.leaves, &[(&s.toks, s.width)], true, if t.rle { LzMode::Rle } else { LzMode::Maybe });
                    b.code.write_header(&mut bw);
                    b.code.write_stream(&mut bw, &b.streams[0]);
                } else {
                    code.as_ref().unwrap().write_stream(&mut bw, &gi.next().unwrap());
                }
            }
            out.push(bw);
        }
        (tree_bits, out, self.desc)
    }
}

/// A random valid header for the given channels.
pub fn random_hdr(src: &mut Src, shapes: &[Shape], have_global: bool, max_tr: usize, global_stream: bool, bits: u32) -> Hdr {
    let wp = if src.chance(1, 4) {
        let mut r = src.rng();
        Wp::random(&mut r)
    } else {
        Wp::def()
    };
    let mut trs = vec![];
    let mut cur = shapes.to_vec();
    let ok = cur.iter().any(|s| s.w > 0 && s.h > 0);
    let den = if global_stream { 2 } else { 5 };
    let mut squeezed = false;
    while ok && trs.len() < max_tr && src.chance(1, den) {
        let first = cur.iter().take_while(|s| s.hs < 0).count();
        // runs of equal channels
        let eq = |a: &Shape, b: &Shape| (a.w, a.h, a.hs, a.vs) == (b.w, b.h, b.hs, b.vs);
        let run = |i: usize| cur[i..].iter().take_while(|s| eq(s, &cur[i]) && (s.hs < 0) == (cur[i].hs < 0)).count();
        // sums of large samples would overflow
        let wide = bits > 28;
        let t = match src.weighted(&[4, 4, if wide { 0 } else { 3 }]) {
            0 => {
                let c: Vec<usize> = (first..cur.len()).filter(|&i| run(i) >= 3).collect();
                if c.is_empty() {
                    break;
                }
                let begin = *src.pick(&c);
                let mut ty = src.below(42) as u32;
                if wide && ty % 7 > 3 {
                    ty -= 3;
                }
                Tr::Rct { begin, ty }
            }
            1 => {
                let c: Vec<usize> = (first..cur.len()).filter(|&i| cur[i].w > 0 && cur[i].h > 0).collect();
                if c.is_empty() {
                    break;
                }
                let begin = *src.pick(&c);
                let m = run(begin).min(6);
                let nc = 1 + src.usize(m);
                let nc = if m >= 3 && src.bool() { 3 } else { nc };
                let top = if src.chance(1, 8) { 2000 } else { 300 };
                let colors = src.log_u(top) as usize;
                let deltas = if src.chance(1, 3) { src.log_u(300) as usize } else { 0 };
                let colors = if colors + deltas == 0 { 1 } else { colors };
                let pred = if deltas > 0 || src.chance(1, 6) { src.below(14) as u32 } else { 0 };
                Tr::Palette { begin, nc, colors, deltas, pred }
            }
            _ => {
                if squeezed && src.chance(2, 3) {
                    break;
                }
                squeezed = true;
                if cur.len() <= first {
                    break;
                }
                if src.chance(2, 3) {
                    Tr::Squeeze(vec![])
                } else {
                    let n = src.urange(1, 5);
                    let mut tmp = cur.clone();
                    let mut v = vec![];
                    let mut rr = Rng::new(1);
                    for _ in 0..n {
                        let begin = first + src.usize(tmp.len() - first);
                        let num = 1 + src.usize((tmp.len() - begin).min(4));
                        let s = Sq { horizontal: src.bool(), in_place: !src.chance(1, 3), begin, num };
                        if tmp[begin..begin + num].iter().any(|c| c.hs > 12 || c.vs > 12) {
                            break;
                        }
                        meta_apply(&mut tmp, &Tr::Squeeze(vec![s]), &mut rr);
                        v.push(s);
                    }
                    if v.is_empty() {
                        break;
                    }
                    Tr::Squeeze(v)
                }
            }
        };
        let mut rr = Rng::new(2);
        meta_apply(&mut cur, &t, &mut rr);
        trs.push(t);
    }
    let global_tree = have_global && !src.chance(1, 4);
    Hdr { global_tree, wp, trs }
}
