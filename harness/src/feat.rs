//! Reference model of what frame features do to decoded samples, on whole frames and in double
//! precision, with the error single precision can make.
use crate::core::Src;
use crate::enc::bits::*;
use crate::enc::entropy::*;
use crate::enc::headers::*;
use crate::enc::tables::*;
use crate::spline::*;
use crate::synth::*;

#[derive(Clone)]
pub struct Pl {
    pub w: usize,
    pub h: usize,
    pub d: Vec<V>,
}
impl Pl {
    pub fn new(w: usize, h: usize) -> Pl {
        Pl { w, h, d: vec![V::exact(0.0); w * h] }
    }
    /// Sample with mirrored borders.
    #[inline]
    pub fn m(&self, x: i64, y: i64) -> V {
        self.d[mirror(y, self.h) * self.w + mirror(x, self.w)]
    }
}

pub fn mirror(mut x: i64, n: usize) -> usize {
    let n = n as i64;
    loop {
        if x < 0 {
            x = -x - 1;
        } else if x >= n {
            x = 2 * n - 1 - x;
        } else {
            return x as usize;
        }
    }
}

pub fn f16r(v: f32) -> f64 {
    f16_to_f32(f16_bits(v)) as f64
}

// ------------------------------------------------------------------ description

#[derive(Clone, Debug)]
pub struct PatchPos {
    pub x: u32,
    pub y: u32,
    /// Colour, then extra channels.
    pub blend: Vec<Blend>,
}
#[derive(Clone, Debug)]
pub struct Patch {
    pub slot: u32,
    pub x0: u32,
    pub y0: u32,
    pub w: u32,
    pub h: u32,
    pub at: Vec<PatchPos>,
}

#[derive(Clone, Debug, Default)]
pub struct Feats {
    pub patches: Vec<Patch>,
    pub splines: Option<Splines>,
    pub noise: [u32; 8],
    /// LF dequantization factors (X, Y, B).
    pub lfq: Option<[f32; 3]>,
}

impl Feats {
    /// The feature streams at the start of LfGlobal.
    pub fn write(&self, src: &mut Src, img: &ImgHdr, fh: &FrameHdr) -> BitWriter {
        let mut bw = BitWriter::new();
        let mut standalone = |src: &mut Src, bw: &mut BitWriter, n: usize, toks: &[Tok]| {
            let b = build(src, n, &[(toks, 0)], true, LzMode::Maybe);
            b.code.write_header(bw);
            b.code.write_stream(bw, &b.streams[0]);
        };
        if fh.flags & F_PATCHES != 0 {
            let mut t = vec![tok(0, self.patches.len() as u32)];
            for p in &self.patches {
                t.extend([tok(1, p.slot), tok(3, p.x0), tok(3, p.y0), tok(2, p.w - 1), tok(2, p.h - 1), tok(7, p.at.len() as u32 - 1)]);
                for (i, a) in p.at.iter().enumerate() {
                    if i == 0 {
                        t.extend([tok(4, a.x), tok(4, a.y)]);
                    } else {
                        let q = &p.at[i - 1];
                        t.extend([tok(6, pack_signed(a.x as i32 - q.x as i32)), tok(6, pack_signed(a.y as i32 - q.y as i32))]);
                    }
                    for b in &a.blend {
                        t.push(tok(5, b.mode));
                        if b.mode >= 4 && img.ecs.len() > 1 {
                            t.push(tok(8, b.alpha));
                        }
                        if b.mode >= 3 {
                            t.push(tok(9, b.clamp as u32));
                        }
                    }
                }
            }
            standalone(src, &mut bw, 10, &t);
        }
        if fh.flags & F_SPLINES != 0 {
            standalone(src, &mut bw, 6, &self.splines.as_ref().unwrap().tokens());
        }
        if fh.flags & F_NOISE != 0 {
            for v in self.noise {
                bw.write(10, v as u64);
            }
        }
        bw.bool(self.lfq.is_none());
        if let Some(q) = self.lfq {
            for v in q {
                bw.f16(v);
            }
        }
        bw
    }
    /// Multipliers of coded values.
    pub fn lf_factors(&self) -> [f64; 3] {
        match self.lfq {
            None => [1.0 / 4096.0, 1.0 / 512.0, 1.0 / 256.0],
            Some(q) => q.map(|v| f16r(v) / 128.0),
        }
    }
}

// ------------------------------------------------------------------ stages

fn conv(terms: impl Iterator<Item = (V, f64)>) -> V {
    let (mut v, mut e, mut a) = (0.0, 0.0, 0.0);
    for (p, w) in terms {
        v += p.v * w;
        e += p.e * w.abs();
        a += (p.v * w).abs();
    }
    if !(v.abs() < 1e15 && e < 1e15 && a < 1e15) {
        return V { v: f64::NAN, e: f64::INFINITY };
    }
    V { v, e: e + a * 6.0 * ULP }
}

fn chroma(p: &Pl, horiz: bool, w: usize, h: usize) -> Pl {
    let mut o = Pl::new(w, h);
    for y in 0..h {
        for x in 0..w {
            let k = if horiz { x } else { y };
            let (sx, sy) = if horiz { (x / 2, y) } else { (x, y / 2) };
            let d = if k % 2 == 0 { -1 } else { 1 };
            let (dx, dy) = if horiz { (d, 0) } else { (0, d) };
            let (sx, sy) = (sx as i64, sy as i64);
            o.d[y * w + x] = conv([(p.m(sx, sy), 0.75), (p.m(sx + dx, sy + dy), 0.25)].into_iter());
        }
    }
    o
}

fn gaborish(p: &Pl, w1: f64, w2: f64) -> Pl {
    let t = 1.0 + 4.0 * w1 + 4.0 * w2;
    let mut o = Pl::new(p.w, p.h);
    for y in 0..p.h as i64 {
        for x in 0..p.w as i64 {
            let it = (0..9).map(|k| {
                let (dx, dy): (i64, i64) = (k % 3 - 1, k / 3 - 1);
                let w = [1.0, w1, w2][(dx.abs() + dy.abs()) as usize];
                (p.m(x + dx, y + dy), w / t)
            });
            o.d[y as usize * p.w + x as usize] = conv(it);
        }
    }
    o
}

const INV_SIGMA_NUM: f64 = -1.1715728752538099024;
const MIN_SIGMA: f64 = -3.90524291751269967;

/// One pass of the edge-preserving filter; `sigma` gives the inverse sigma of a block.
fn epf(p: &[Pl], f: &Filter, pass: u32, sigma: &dyn Fn(usize, usize) -> f64) -> Vec<Pl> {
    let (w, h) = (p[0].w, p[0].h);
    let scale: [f64; 3] = f.weights.map(|w| w.map(f16r)).unwrap_or([40.0, 5.0, 3.5]);
    let sg: [f64; 4] = f.sigma.map(|w| w.map(f16r)).unwrap_or([0.46, 0.9, 6.5, 2.0 / 3.0]);
    let (s0, s2, border) = (sg[1], sg[2], sg[3]);
    let sm = 1.65 * [s0, 1.0, s2][pass as usize];
    let near: Vec<(i64, i64)> = (0..25)
        .map(|k| (k % 5 - 2, k / 5 - 2))
        .filter(|&(x, y): &(i64, i64)| {
            let d = x.abs() + y.abs();
            d > 0 && d <= if pass == 0 { 2 } else { 1 }
        })
        .collect();
    let plus: &[(i64, i64)] = if pass == 2 { &[(0, 0)] } else { &[(0, 0), (-1, 0), (1, 0), (0, -1), (0, 1)] };
    let mut o: Vec<Pl> = p.to_vec();
    for y in 0..h {
        for x in 0..w {
            let is = sigma(x / 8, y / 8);
            if is < MIN_SIGMA {
                continue;
            }
            let edge = [0, 7].contains(&(x % 8)) || [0, 7].contains(&(y % 8));
            let mul = is * if edge { sm * border } else { sm };
            let (px, py) = (x as i64, y as i64);
            let (mut sw, mut se) = (1.0, 0.0);
            let mut acc = [0, 1, 2].map(|c| p[c].m(px, py).v);
            let mut err = [0, 1, 2].map(|c| p[c].m(px, py).e);
            let mut big = 0f64;
            let mut devs = [0f64; 3];
            for &(dx, dy) in &near {
                let (mut sad, mut e) = (0.0, 0.0);
                for c in 0..3 {
                    for &(ox, oy) in plus {
                        let a = p[c].m(px + ox, py + oy);
                        let b = p[c].m(px + ox + dx, py + oy + dy);
                        sad += (a.v - b.v).abs() * scale[c].abs();
                        e += (a.e + b.e + (a.v.abs() + b.v.abs()) * 3.0 * ULP) * scale[c].abs();
                    }
                }
                // negative scales are not generated
                let wt = (1.0 + sad * mul).max(0.0);
                let we = e * mul.abs() + 3.0 * ULP * (1.0 + (sad * mul).abs());
                let we = if 1.0 + sad * mul + we < 0.0 { 0.0 } else { we };
                sw += wt;
                se += we;
                for c in 0..3 {
                    let v = p[c].m(px + dx, py + dy);
                    acc[c] += v.v * wt;
                    err[c] += v.e * wt;
                    big = big.max(v.v.abs());
                    devs[c] += we * (v.v - p[c].m(px, py).v).abs();
                }
            }
            for c in 0..3 {
                let v = acc[c] / sw;
                let spread = (v - p[c].m(px, py).v).abs();
                let e = err[c] / sw + (devs[c] + se * spread) / sw + 12.0 * ULP * (big + v.abs());
                o[c].d[y * w + x] = if v.is_finite() && e.is_finite() { V { v, e } } else { V { v: f64::NAN, e: f64::INFINITY } };
            }
        }
    }
    o
}

pub fn up_weights(img: &ImgHdr, n: usize) -> Vec<f64> {
    let i = n.trailing_zeros() as usize - 1;
    match &img.up_weights[i] {
        Some(w) => w.iter().map(|&v| f16r(v)).collect(),
        None => [&UP2[..], &UP4[..], &UP8[..]][i].iter().map(|&v| v as f32 as f64).collect(),
    }
}

fn upsample(p: &Pl, n: usize, weights: &[f64], ow: usize, oh: usize) -> Pl {
    let h = n / 2;
    let mut kern = vec![[[0.0; 5]; 5]; n * n];
    for i in 0..5 * h {
        for j in 0..5 * h {
            let (y, x) = (i.min(j), i.max(j));
            let w = weights[5 * h * y + x - y - (y * y.saturating_sub(1) / 2)];
            let (ky, kx, iy, ix) = (j / 5, i / 5, j % 5, i % 5);
            for (my, mx) in [(false, false), (false, true), (true, false), (true, true)] {
                let (ky, iy) = if my { (n - 1 - ky, 4 - iy) } else { (ky, iy) };
                let (kx, ix) = if mx { (n - 1 - kx, 4 - ix) } else { (kx, ix) };
                kern[ky * n + kx][iy][ix] = w;
            }
        }
    }
    let mut o = Pl::new(ow, oh);
    for y in 0..oh {
        for x in 0..ow {
            let (sx, sy) = ((x / n) as i64, (y / n) as i64);
            let k = &kern[(y % n) * n + x % n];
            let at = |i: usize| p.m(sx + (i % 5) as i64 - 2, sy + (i / 5) as i64 - 2);
            let mut v = conv((0..25).map(|i| (at(i), k[i / 5][i % 5])));
            let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
            let mut e = 0f64;
            for i in 0..25 {
                let q = at(i);
                lo = lo.min(q.v);
                hi = hi.max(q.v);
                e = e.max(q.e);
            }
            if v.v.is_finite() {
                // clamping can only bring an inexact value closer to the bounds
                v = V { v: v.v.clamp(lo, hi), e: v.e.max(e) };
            }
            o.d[y * ow + x] = v;
        }
    }
    o
}

// ------------------------------------------------------------------ patches

fn blend_patch(img: &ImgHdr, b: &[Blend], old: &[V], new: &[V], out: &mut [V]) {
    let one = V::exact(1.0);
    let cl = |v: V, c: bool| if c { v.clamp01() } else { v };
    let union = |a: V, b: V| one.sub(one.sub(a).mul(one.sub(b)));
    let has_alpha = img.ecs.iter().any(|e| e.ty == 0);
    for c in 0..3 + img.ecs.len() {
        let (b, ec) = if c < 3 { (&b[0], None) } else { (&b[1 + c - 3], Some(c - 3)) };
        let (o, n) = (old[c], new[c]);
        let a = b.alpha as usize;
        let no_alpha = ec.is_none() && !has_alpha;
        out[c] = match b.mode {
            0 => o,
            1 => n,
            2 => o.add(n),
            3 => o.mul(cl(n, b.clamp)),
            4 | 5 if no_alpha => {
                if b.mode == 4 { n } else { o }
            }
            6 | 7 if no_alpha => o.add(n),
            4 | 5 => {
                let (t, u, ta, ua) = if b.mode == 4 { (n, o, new[3 + a], old[3 + a]) } else { (o, n, old[3 + a], new[3 + a]) };
                let ta = cl(ta, b.clamp);
                if ec == Some(a) {
                    union(ta, ua)
                } else if img.ecs[a].alpha_assoc {
                    t.add(u.mul(one.sub(ta)))
                } else {
                    t.mul(ta).add(u.mul(ua).mul(one.sub(ta))).div0(union(ta, ua))
                }
            }
            6 if ec == Some(a) => o,
            6 => o.add(n.mul(cl(new[3 + a], b.clamp))),
            7 if ec == Some(a) => n,
            _ => n.add(o.mul(cl(old[3 + a], b.clamp))),
        };
    }
    // blending colours also blends their alpha channel
    let b = &b[0];
    if (b.mode == 4 || b.mode == 5) && has_alpha {
        let a = b.alpha as usize;
        let (t, u) = if b.mode == 4 { (new[3 + a], old[3 + a]) } else { (old[3 + a], new[3 + a]) };
        out[3 + a] = union(cl(t, b.clamp), u);
    }
}

fn apply_patches(img: &ImgHdr, p: &mut [Pl], patches: &[Patch], canvas: &Canvas) {
    let n = p.len();
    let (mut old, mut new, mut out) = (vec![V::exact(0.0); n], vec![V::exact(0.0); n], vec![V::exact(0.0); n]);
    for q in patches {
        let s = canvas.slots[q.slot as usize].as_ref().unwrap();
        for a in &q.at {
            for y in 0..q.h {
                for x in 0..q.w {
                    if (a.x + x) as usize >= p[0].w || (a.y + y) as usize >= p[0].h {
                        continue;
                    }
                    let d = (a.y + y) as usize * p[0].w + (a.x + x) as usize;
                    let f = (q.y0 + y) as usize * s.w + (q.x0 + x) as usize;
                    for c in 0..n {
                        old[c] = p[c].d[d];
                        new[c] = s.planes[c][f];
                    }
                    blend_patch(img, &a.blend, &old, &new, &mut out);
                    for c in 0..n {
                        p[c].d[d] = out[c];
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ noise

struct Xorshift {
    s0: [u64; 8],
    s1: [u64; 8],
}
impl Xorshift {
    fn new(a: u32, b: u32, c: u32, d: u32) -> Self {
        let sm = |z: u64| {
            let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let (mut s0, mut s1) = ([0; 8], [0; 8]);
        s0[0] = sm((((a as u64) << 32) + b as u64).wrapping_add(0x9E3779B97F4A7C15));
        s1[0] = sm((((c as u64) << 32) + d as u64).wrapping_add(0x9E3779B97F4A7C15));
        for i in 1..8 {
            s0[i] = sm(s0[i - 1]);
            s1[i] = sm(s1[i - 1]);
        }
        Xorshift { s0, s1 }
    }
    fn fill(&mut self) -> [u64; 8] {
        let mut o = [0; 8];
        for i in 0..8 {
            let mut s1 = self.s0[i];
            let s0 = self.s1[i];
            o[i] = s1.wrapping_add(s0);
            self.s0[i] = s0;
            s1 ^= s1 << 23;
            self.s1[i] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        }
        o
    }
}

fn noise_planes(w: usize, h: usize, gd: usize, vis: (u32, u32)) -> Vec<Pl> {
    let mut raw = vec![Pl::new(w, h), Pl::new(w, h), Pl::new(w, h)];
    for y0 in (0..h).step_by(gd) {
        for x0 in (0..w).step_by(gd) {
            let mut r = Xorshift::new(vis.0, vis.1, x0 as u32, y0 as u32);
            let (gw, gh) = (gd.min(w - x0), gd.min(h - y0));
            for p in &mut raw {
                for y in 0..gh {
                    let mut b = [0; 8];
                    for x in 0..gw {
                        let k = x % 16;
                        if k == 0 {
                            b = r.fill();
                        }
                        let bits = (b[k / 2] >> (32 * (k % 2))) as u32;
                        p.d[(y0 + y) * w + x0 + x] = V::exact(f32::from_bits(bits >> 9 | 0x3f80_0000) as f64);
                    }
                }
            }
        }
    }
    raw.iter()
        .map(|p| {
            let mut o = Pl::new(w, h);
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    let it = (0..25).map(|k| {
                        let (dx, dy) = (k % 5 - 2, k / 5 - 2);
                        (p.m(x + dx, y + dy), if dx == 0 && dy == 0 { -3.84 } else { 0.16 })
                    });
                    o.d[y as usize * w + x as usize] = conv(it);
                }
            }
            o
        })
        .collect()
}

fn add_noise(p: &mut [Pl], n: &[Pl], lut: &[u32; 8], ytox: f64, ytob: f64) {
    let lut = lut.map(|v| v as f64 / 1024.0);
    let strength = |v: V| -> V {
        let f = |x: f64| {
            let s = (x * 6.0).max(0.0);
            let (i, fr) = if s >= 7.0 { (6, 1.0) } else { (s.floor() as usize, s - s.floor()) };
            (lut[i] + (lut[i + 1] - lut[i]) * fr).clamp(0.0, 1.0)
        };
        if !v.v.is_finite() {
            return V { v: 0.5, e: 1.0 };
        }
        let a = f(v.v);
        // a piecewise linear function
        let slope = (0..7).map(|i| (lut[i + 1] - lut[i]).abs()).fold(0.0, f64::max) * 6.0;
        V { v: a, e: (slope * v.e).min(1.0) + 8.0 * ULP }
    };
    let k = |v: f64| V::exact(v);
    for i in 0..p[0].d.len() {
        let (vx, vy) = (p[0].d[i], p[1].d[i]);
        let sg = strength(vy.sub(vx).mul(k(0.5)));
        let sr = strength(vy.add(vx).mul(k(0.5)));
        let [nr, ng, nc] = [0, 1, 2].map(|c| n[c].d[i].mul(k(0.22)));
        let mix = |a: V| a.mul(k(0.0078125)).add(nc.mul(k(0.9921875)));
        let (rn, gn) = (sr.mul(mix(nr)), sg.mul(mix(ng)));
        let rg = rn.add(gn);
        p[0].d[i] = vx.add(rg.mul(k(ytox))).add(rn).sub(gn);
        p[1].d[i] = vy.add(rg);
        p[2].d[i] = p[2].d[i].add(rg.mul(k(ytob)));
    }
}

// ------------------------------------------------------------------ the pipeline

/// Everything up to the colour transform. `ch`: colour (3) and extra channels as decoded.
/// `sigma`: inverse sigma of blocks if not constant; `cc`: the chroma-from-luma factors.
pub fn features(
    img: &ImgHdr,
    fh: &FrameHdr,
    f: &Feats,
    mut ch: Vec<Pl>,
    canvas: &Canvas,
    vis: (u32, u32),
    sigma: Option<&dyn Fn(usize, usize) -> f64>,
    cc: (f64, f64),
) -> Vec<Vec<V>> {
    let (w, h) = fh.size(img);
    let (w, h) = (w as usize, h as usize);
    let (uw, uh) = fh.upsampled_size(img);
    let (uw, uh) = (uw as usize, uh as usize);
    if !MODEL.get() {
        return ch.iter().map(|_| vec![V::exact(0.0); uw * uh]).collect();
    }
    for c in 0..3 {
        let (hs, vs) = fh.chan_shift(c);
        if hs > 0 {
            let ph = ch[c].h;
            ch[c] = chroma(&ch[c], true, w, ph);
        }
        if vs > 0 {
            ch[c] = chroma(&ch[c], false, w, h);
        }
    }
    let fl = &fh.filter;
    if fl.gab {
        for c in 0..3 {
            let (a, b) = match fl.gab_w {
                Some(g) => (f16r(g[c][0]), f16r(g[c][1])),
                None => (0.115169525, 0.061248592),
            };
            ch[c] = gaborish(&ch[c], a, b);
        }
    }
    let konst = INV_SIGMA_NUM / f16r(fl.sigma_modular);
    let flat = |_: usize, _: usize| konst;
    for (pass, min) in [(0, 3), (1, 1), (2, 2)] {
        if fl.epf_iters >= min {
            let o = epf(&ch[..3], fl, pass, sigma.unwrap_or(&flat));
            ch[..3].clone_from_slice(&o);
        }
    }
    let late = fh.upsampling > 1 && fh.ec_up.iter().all(|&u| u == fh.upsampling);
    if !late {
        for (i, &u) in fh.ec_up.iter().enumerate() {
            if u > 1 {
                ch[3 + i] = upsample(&ch[3 + i], u as usize, &up_weights(img, u as usize), uw, uh);
            }
        }
    }
    if fh.flags & F_PATCHES != 0 {
        apply_patches(img, &mut ch, &f.patches, canvas);
    }
    if fh.flags & F_SPLINES != 0 {
        f.splines.as_ref().unwrap().draw(&mut ch[..3], cc);
    }
    if fh.upsampling > 1 {
        let n = fh.upsampling as usize;
        let k = if late { ch.len() } else { 3 };
        for c in ch.iter_mut().take(k) {
            *c = upsample(c, n, &up_weights(img, n), uw, uh);
        }
    }
    if fh.flags & F_NOISE != 0 && f.noise != [0; 8] {
        let n = noise_planes(uw, uh, fh.group_dim() as usize, vis);
        add_noise(&mut ch[..3], &n, &f.noise, cc.0, cc.1);
    }
    if std::env::var("VERIF_DUMP").is_ok() && uw * uh < 100 {
        eprintln!("before colour transform: {:?}", ch.iter().map(|p| p.d.iter().map(|v| (v.v, v.e)).collect::<Vec<_>>()).collect::<Vec<_>>());
    }
    ch.into_iter().map(|p| p.d).collect()
}

/// YCbCr (in the order Cb, Y, Cr) to RGB.
pub fn ycbcr(p: &mut [Vec<V>]) {
    let k = |v: f64| V::exact(v);
    for i in 0..p[0].len() {
        let (cb, cr) = (p[0][i], p[2][i]);
        let y = p[1][i].add(k(128.0 / 255.0));
        p[0][i] = y.add(cr.mul(k(1.402)));
        p[1][i] = y.sub(cb.mul(k(0.114 * 1.772 / 0.587))).sub(cr.mul(k(0.299 * 1.402 / 0.587)));
        p[2][i] = y.add(cb.mul(k(1.772)));
    }
}
