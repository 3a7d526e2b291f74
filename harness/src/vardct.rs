//! VarDCT frames: an encoder of random coefficients and a reference model, in double precision,
//! of what they decode to.
use crate::core::{Rng, Src};
use crate::enc::bits::*;
use crate::enc::entropy::*;
use crate::enc::frame::*;
use crate::enc::headers::*;
use crate::enc::modular::*;
use crate::enc::qtables::*;
use crate::feat::*;
use crate::synth::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::f64::consts::PI;

/// Blocks covered by the transforms, their coefficient order and their quantization table.
pub const CX: [usize; 27] = [1, 1, 1, 1, 2, 4, 1, 2, 1, 4, 2, 4, 1, 1, 1, 1, 1, 1, 8, 4, 8, 16, 8, 16, 32, 16, 32];
pub const CY: [usize; 27] = [1, 1, 1, 1, 2, 4, 2, 1, 4, 1, 4, 2, 1, 1, 1, 1, 1, 1, 8, 8, 4, 16, 16, 8, 32, 32, 16];
pub const ORDER: [usize; 27] = [0, 1, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 1, 1, 1, 1, 1, 1, 7, 8, 8, 9, 10, 10, 11, 12, 12];
const QT: [usize; 27] = [0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 10, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16];
/// Blocks (wide, high) of each coefficient order.
const ORDER_DIM: [(usize, usize); 13] = [(1, 1), (1, 1), (2, 2), (4, 4), (2, 1), (4, 1), (4, 2), (8, 8), (8, 4), (16, 16), (16, 8), (32, 32), (32, 16)];
/// Blocks of the quantization tables: rows and columns of the coefficient matrix.
const QROWS: [usize; 17] = [1, 1, 1, 1, 2, 4, 1, 1, 2, 1, 1, 8, 4, 16, 8, 32, 16];
const QCOLS: [usize; 17] = [1, 1, 1, 1, 2, 4, 2, 4, 4, 1, 1, 8, 8, 16, 16, 32, 32];

// ------------------------------------------------------------------ inverse transforms

thread_local! {
    static COS: RefCell<HashMap<usize, std::rc::Rc<Vec<f64>>>> = RefCell::new(HashMap::new());
}

/// Values of the basis functions: at sample x of function u, [x * n + u].
fn basis(n: usize) -> std::rc::Rc<Vec<f64>> {
    COS.with(|m| {
        m.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let mut v = vec![0.0; n * n];
                for x in 0..n {
                    for u in 0..n {
                        let s = if u == 0 { 1.0 } else { 2f64.sqrt() };
                        v[x * n + u] = s * ((2 * x + 1) as f64 * u as f64 * PI / (2 * n) as f64).cos();
                    }
                }
                std::rc::Rc::new(v)
            })
            .clone()
    })
}

/// Inverse DCT to `rows` x `cols` samples. Coefficients are stored with as many columns as the larger
/// side; the row is the horizontal frequency unless the block is wide.
fn idct(c: &[f64], rows: usize, cols: usize) -> Vec<f64> {
    let (bh, bv) = (basis(cols), basis(rows));
    let stride = rows.max(cols);
    // horizontally
    let mut t = vec![0.0; rows * cols];
    let mut used = vec![false; rows];
    for v in 0..rows {
        for h in 0..cols {
            let k = if rows >= cols { c[h * stride + v] } else { c[v * stride + h] };
            if k != 0.0 {
                used[v] = true;
                for x in 0..cols {
                    t[v * cols + x] += k * bh[x * cols + h];
                }
            }
        }
    }
    let mut o = vec![0.0; rows * cols];
    for v in (0..rows).filter(|&v| used[v]) {
        for y in 0..rows {
            let b = bv[y * rows + v];
            for x in 0..cols {
                o[y * cols + x] += b * t[v * cols + x];
            }
        }
    }
    o
}

/// Low frequency coefficients of a block from the means of its 8x8 parts.
fn low_freqs(lf: &[f64], n: usize, m: usize) -> Vec<f64> {
    // n rows, m columns; result [v * m + h]
    let g = |u: usize, n: usize| {
        let t = u as f64 * PI / (16 * n) as f64;
        if u == 0 { 1.0 } else { 8.0 * t.sin() / (8.0 * t).sin() }
    };
    let (bv, bh) = (basis(n), basis(m));
    let mut o = vec![0.0; n * m];
    for v in 0..n {
        for h in 0..m {
            let mut s = 0.0;
            for y in 0..n {
                for x in 0..m {
                    s += lf[y * m + x] * bv[y * n + v] * bh[x * m + h];
                }
            }
            o[v * m + h] = s / (n * m) as f64 * g(v, n) * g(h, m);
        }
    }
    o
}

/// Samples of a block, given its coefficients (without the lowest frequencies) and its LF samples.
fn inverse(t: usize, c: &mut [f64], lf: &[f64]) -> Vec<f64> {
    let (cy, cx) = (CY[t], CX[t]);
    let (rows, cols) = (cy * 8, cx * 8);
    match t {
        1 | 2 | 3 | 12..=17 => {
            c[0] = lf[0];
            small(t, c)
        }
        _ => {
            let l = low_freqs(lf, cy, cx);
            let stride = rows.max(cols);
            for v in 0..cy {
                for h in 0..cx {
                    c[if rows >= cols { h * stride + v } else { v * stride + h }] = l[v * cx + h];
                }
            }
            idct(c, rows, cols)
        }
    }
}

fn small(t: usize, c: &[f64]) -> Vec<f64> {
    let mut o = vec![0.0; 64];
    let quad = |c: &[f64]| {
        let (a, b, d, e) = (c[0], c[1], c[8], c[9]);
        [a + b + d + e, a + b - d - e, a - b + d - e, a - b - d + e]
    };
    match t {
        // identity
        1 => {
            let dc = quad(c);
            for y in 0..2 {
                for x in 0..2 {
                    let at = |iy: usize, ix: usize| c[(y + iy * 2) * 8 + x + ix * 2];
                    let sum: f64 = (1..16).map(|k| at(k / 4, k % 4)).sum();
                    let mid = dc[y * 2 + x] - sum / 16.0;
                    for iy in 0..4 {
                        for ix in 0..4 {
                            o[(4 * y + iy) * 8 + 4 * x + ix] = match (iy, ix) {
                                (1, 1) => mid,
                                (0, 0) => mid + at(1, 1),
                                _ => mid + at(iy, ix),
                            };
                        }
                    }
                }
            }
        }
        2 => {
            let mut b = c.to_vec();
            for s in [1, 2, 4] {
                let p = b.clone();
                for y in 0..s {
                    for x in 0..s {
                        let (a, r, d, e) = (p[y * 8 + x], p[y * 8 + s + x], p[(y + s) * 8 + x], p[(y + s) * 8 + s + x]);
                        let q = [a + r + d + e, a + r - d - e, a - r + d - e, a - r - d + e];
                        for k in 0..4 {
                            b[(2 * y + k / 2) * 8 + 2 * x + k % 2] = q[k];
                        }
                    }
                }
            }
            o = b;
        }
        3 => {
            let dc = quad(c);
            for k in 0..4 {
                let (y, x) = (k / 2, k % 2);
                let b: Vec<f64> = (0..16).map(|i| if i == 0 { dc[k] } else { c[(y + i / 4 * 2) * 8 + x + i % 4 * 2] }).collect();
                for (i, v) in idct(&b, 4, 4).into_iter().enumerate() {
                    o[(y * 4 + i / 4) * 8 + x * 4 + i % 4] = v;
                }
            }
        }
        12 | 13 => {
            for k in 0..2 {
                let dc = if k == 0 { c[0] + c[8] } else { c[0] - c[8] };
                let b: Vec<f64> = (0..32).map(|i| if i == 0 { dc } else { c[(k + i / 8 * 2) * 8 + i % 8] }).collect();
                if t == 12 {
                    o[k * 32..][..32].copy_from_slice(&idct(&b, 4, 8));
                } else {
                    for (i, v) in idct(&b, 8, 4).into_iter().enumerate() {
                        o[i / 4 * 8 + k * 4 + i % 4] = v;
                    }
                }
            }
        }
        _ => {
            let (fx, fy) = ((t - 14) & 1, (t - 14) / 2);
            let dc = [(c[0] + c[8] + c[1]) * 4.0, c[0] + c[8] - c[1], c[0] - c[8]];
            // the corner
            let b: Vec<f64> = (0..16).map(|i| if i == 0 { dc[0] } else { c[i / 4 * 16 + i % 4 * 2] }).collect();
            for y in 0..4 {
                for x in 0..4 {
                    let (py, px) = (if fy == 1 { 3 - y } else { y }, if fx == 1 { 3 - x } else { x });
                    o[(y + fy * 4) * 8 + fx * 4 + x] = (0..16).map(|j| b[j] * AFV[j * 16 + py * 4 + px]).sum();
                }
            }
            // beside it
            let b: Vec<f64> = (0..16).map(|i| if i == 0 { dc[1] } else { c[i / 4 * 16 + i % 4 * 2 + 1] }).collect();
            for (i, v) in idct(&b, 4, 4).into_iter().enumerate() {
                o[(i / 4 + fy * 4) * 8 + (1 - fx) * 4 + i % 4] = v;
            }
            // the other half
            let b: Vec<f64> = (0..32).map(|i| if i == 0 { dc[2] } else { c[(1 + i / 8 * 2) * 8 + i % 8] }).collect();
            for (i, v) in idct(&b, 4, 8).into_iter().enumerate() {
                o[(i / 8 + (1 - fy) * 4) * 8 + i % 8] = v;
            }
        }
    }
    o
}

/// Rounding errors of an inverse transform, relative to the sum of the magnitudes.
fn idct_err(t: usize) -> f64 {
    (match CX[t].max(CY[t]) {
        1 => 24.0,
        2 => 28.0,
        4 => 32.0,
        8 => 60.0,
        16 => 120.0,
        _ => 240.0,
    }) * ULP
}

// ------------------------------------------------------------------ quantization tables

type Bands = [Vec<f64>; 3];

#[derive(Clone, Debug)]
enum Q {
    Lib,
    Id([[f64; 3]; 3]),
    Dct2([[f64; 6]; 3]),
    Dct4(Bands, [[f64; 2]; 3]),
    Dct4x8(Bands, [f64; 3]),
    Afv([[f64; 9]; 3], Bands, Bands),
    Dct(Bands),
    Raw(f64, Vec<i32>),
}

fn mult(v: f64) -> f64 {
    if v > 0.0 { 1.0 + v } else { 1.0 / (1.0 - v) }
}

fn band_values(p: &[f64]) -> Vec<f64> {
    let mut b = vec![p[0]];
    for v in &p[1..] {
        b.push(b[b.len() - 1] * mult(*v));
    }
    b
}

fn interp(pos: f64, b: &[f64]) -> f64 {
    let i = (pos.floor() as usize).min(b.len().saturating_sub(2));
    if b.len() == 1 { b[0] } else { b[i] * (b[i + 1] / b[i]).powf(pos - i as f64) }
}

fn dct_weights(p: &[f64], rows: usize, cols: usize) -> Vec<f64> {
    let b = band_values(p);
    let scale = (b.len() - 1) as f64 / (2f64.sqrt() + 1e-6);
    let mut o = vec![];
    for y in 0..rows {
        for x in 0..cols {
            let (dx, dy) = (x as f64 / (cols - 1) as f64, y as f64 / (rows - 1) as f64);
            o.push(interp((dx * dx + dy * dy).sqrt() * scale, &b));
        }
    }
    o
}

fn lib_encoding(i: usize) -> Q {
    match i {
        1 => Q::Id([[280.0, 3160.0, 3160.0], [60.0, 864.0, 864.0], [18.0, 200.0, 200.0]]),
        2 => Q::Dct2([[3840.0, 2560.0, 1280.0, 640.0, 480.0, 300.0], [960.0, 640.0, 320.0, 180.0, 140.0, 120.0], [640.0, 320.0, 128.0, 64.0, 32.0, 16.0]]),
        3 => Q::Dct4(default_bands("dct4x4"), [[1.0; 2]; 3]),
        9 => Q::Dct4x8(default_bands("dct4x8"), [1.0; 3]),
        10 => Q::Afv(
            [
                [3072.0, 3072.0, 256.0, 256.0, 256.0, 414.0, 0.0, 0.0, 0.0],
                [1024.0, 1024.0, 50.0, 50.0, 50.0, 58.0, 0.0, 0.0, 0.0],
                [384.0, 384.0, 12.0, 12.0, 12.0, 22.0, -0.25, -0.25, -0.25],
            ],
            default_bands("dct4x8"),
            default_bands("dct4x4"),
        ),
        _ => Q::Dct(default_bands(
            ["dct", "", "", "", "dct16x16", "dct32x32", "dct8x16", "dct8x32", "dct16x32", "", "", "dct64x64", "dct32x64", "dct128x128", "dct64x128", "dct256x256", "dct128x256"][i],
        )),
    }
}

/// Multipliers of coefficients, by channel, in the order of the coefficient matrix.
fn table(q: &Q, i: usize) -> [Vec<f64>; 3] {
    let (rows, cols) = (8 * QROWS[i], 8 * QCOLS[i]);
    std::array::from_fn(|c| {
        let w: Vec<f64> = match q {
            Q::Lib => return table(&lib_encoding(i), i)[c].clone(),
            Q::Raw(den, d) => return d[c * rows * cols..][..rows * cols].iter().map(|&v| den * v as f64).collect(),
            Q::Id(w) => {
                let mut o = vec![w[c][0]; 64];
                o[1] = w[c][1];
                o[8] = w[c][1];
                o[9] = w[c][2];
                o
            }
            Q::Dct2(w) => (0..64)
                .map(|k| {
                    let (y, x) = (k / 8, k % 8);
                    let m: usize = x.max(y);
                    // quadrants of 2x2, 4x4 and 8x8 blocks
                    let (lvl, half) = if m < 2 { (0, 1) } else if m < 4 { (1, 2) } else { (2, 4) };
                    w[c][2 * lvl + (x >= half && y >= half) as usize]
                })
                .collect(),
            Q::Dct4(p, m) => {
                let w = dct_weights(&p[c], 4, 4);
                let mut o: Vec<f64> = (0..64).map(|k| w[k / 16 * 4 + k % 8 / 2]).collect();
                o[1] /= m[c][0];
                o[8] /= m[c][0];
                o[9] /= m[c][1];
                o
            }
            Q::Dct4x8(p, m) => {
                let w = dct_weights(&p[c], 4, 8);
                let mut o: Vec<f64> = (0..64).map(|k| w[k / 16 * 8 + k % 8]).collect();
                o[8] /= m[c];
                o
            }
            Q::Afv(w, p48, p44) => {
                const FREQS: [f64; 16] = [
                    0.0, 0.0, 0.8517778890324296, 5.37778436506804, 0.0, 0.0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4.0, 7.275749096817861,
                    10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235,
                ];
                let (lo, hi) = (FREQS[2], FREQS[15] - FREQS[2] + 1e-6);
                let b = band_values(&w[c][5..]);
                let (a48, a44) = (dct_weights(&p48[c], 4, 8), dct_weights(&p44[c], 4, 4));
                (0..64)
                    .map(|k| {
                        let (y, x) = (k / 8, k % 8);
                        let w = &w[c];
                        match (y, x) {
                            (0, 0) => 1.0,
                            (1, 0) => w[0],
                            (0, 1) => w[1],
                            (2, 0) => w[2],
                            (0, 2) => w[3],
                            (2, 2) => w[4],
                            _ if y % 2 == 1 => a48[y / 2 * 8 + x],
                            _ if x % 2 == 1 => a44[y / 2 * 4 + x / 2],
                            _ => interp((FREQS[y / 2 * 4 + x / 2] - lo) * 3.0 / hi, &b),
                        }
                    })
                    .collect()
            }
            Q::Dct(p) => dct_weights(&p[c], rows, cols),
        };
        w.iter().map(|v| 1.0 / v).collect()
    })
}

fn lib_table(i: usize) -> &'static [Vec<f64>; 3] {
    static T: [std::sync::OnceLock<[Vec<f64>; 3]>; 17] = [const { std::sync::OnceLock::new() }; 17];
    T[i].get_or_init(|| table(&Q::Lib, i))
}

fn gen_f16(src: &mut Src, lo: f64, hi: f64) -> f64 {
    if wild(src, 40) {
        return *src.pick(&[0.0, -1.0, 65504.0, -65504.0, 6e-8, -6e-8, 1e-8, 100.0]);
    }
    f16r((lo + (hi - lo) * src.unit()) as f32)
}

fn gen_bands(src: &mut Src, bw: &mut BitWriter) -> Bands {
    let n = if src.chance(1, 8) { 16 } else { src.urange(1, 8) };
    bw.write(4, n as u64 - 1);
    std::array::from_fn(|_| {
        (0..n)
            .map(|i| {
                let v = if i == 0 { gen_f16(src, 1.0, 60.0) } else { gen_f16(src, -2.0, 0.5) };
                bw.f16(v as f32);
                if i == 0 { v * 64.0 } else { v }
            })
            .collect()
    })
}

/// A random encoding of a table; returns its bits, and the channels of a raw one.
fn gen_qtable(src: &mut Src, i: usize, bw: &mut BitWriter) -> (Q, bool) {
    let one = i < 4 || i == 9 || i == 10;
    let mode = if one { src.urange(0, 7) } else { *src.pick(&[0usize, 6, 6, 7]) };
    let mode = if mode == 7 && QROWS[i] * QCOLS[i] > 16 { 6 } else { mode };
    bw.write(3, mode as u64);
    let mut f = |src: &mut Src, bw: &mut BitWriter, lo: f64, hi: f64| {
        let v = gen_f16(src, lo, hi);
        bw.f16(v as f32);
        v
    };
    let q = match mode {
        0 => Q::Lib,
        1 => Q::Id(std::array::from_fn(|_| std::array::from_fn(|_| f(src, bw, 0.3, 60.0) * 64.0))),
        2 => Q::Dct2(std::array::from_fn(|_| std::array::from_fn(|_| f(src, bw, 0.3, 60.0) * 64.0))),
        3 => {
            let m = std::array::from_fn(|_| std::array::from_fn(|_| f(src, bw, 0.3, 3.0)));
            Q::Dct4(gen_bands(src, bw), m)
        }
        4 => {
            let m = std::array::from_fn(|_| f(src, bw, 0.3, 3.0));
            Q::Dct4x8(gen_bands(src, bw), m)
        }
        5 => {
            let w = std::array::from_fn(|_| {
                std::array::from_fn(|k| match k {
                    0..6 => f(src, bw, 0.3, 60.0) * 64.0,
                    _ => f(src, bw, -2.0, 1.0),
                })
            });
            let a = gen_bands(src, bw);
            let b = gen_bands(src, bw);
            Q::Afv(w, a, b)
        }
        6 => Q::Dct(gen_bands(src, bw)),
        _ => {
            let den = f(src, bw, 0.00002, 0.0005);
            let n = 3 * 64 * QROWS[i] * QCOLS[i];
            let mut r = src.rng();
            let flat = r.below(2) == 0;
            let hi = if r.below(4) == 0 { 300 } else { 60 };
            let base = r.range(1, hi);
            Q::Raw(den, (0..n).map(|_| if flat && r.below(8) > 0 { base } else { r.range(1, hi) } as i32).collect())
        }
    };
    let raw = matches!(q, Q::Raw(..));
    (q, raw)
}

// ------------------------------------------------------------------ contexts and orders

fn natural_order(cx: usize, cy: usize) -> Vec<u32> {
    let n = cx * 8;
    let ratio = cx / cy;
    let (mut low, mut rest) = (vec![0; cx * cy], vec![]);
    // zigzag over a square of the longer side, keeping the lines that exist
    for d in 0..2 * n - 1 {
        let (a, b) = (d.saturating_sub(n - 1), d.min(n - 1));
        for j in a..=b {
            let (x, y) = if d < n {
                if d % 2 == 0 { (j, d - j) } else { (d - j, j) }
            } else if (2 * n - 2 - d) % 2 == 0 {
                (j, d - j)
            } else {
                (d - j, j)
            };
            if y % ratio != 0 {
                continue;
            }
            let y = y / ratio;
            if x < cx && y < cy {
                low[y * cx + x] = (y * n + x) as u32;
            } else {
                rest.push((y * n + x) as u32);
            }
        }
    }
    low.extend(rest);
    low
}

/// Context of the frequency and of the number of remaining coefficients.
fn zero_ctx(left: usize, k: usize, log_blocks: usize, prev: usize) -> usize {
    let left = (left + (1 << log_blocks) - 1) >> log_blocks;
    let k = k >> log_blocks;
    let freq = match k {
        1..=15 => k - 1,
        16..=31 => 15 + (k - 16) / 2,
        _ => 23 + (k - 32) / 4,
    };
    let num = match left {
        1 => 0,
        2 => 31,
        3..=4 => 62,
        5..=8 => 93,
        9..=12 => 123,
        13..=20 => 152,
        21..=32 => 180,
        _ => 206,
    };
    (num + freq) * 2 + prev
}

struct BlockCtx {
    lf_thr: [Vec<i32>; 3],
    qf_thr: Vec<u32>,
    map: Vec<u8>,
    num_lf: usize,
    num: usize,
}

fn gen_block_ctx(src: &mut Src, bw: &mut BitWriter, lf_amp: [i64; 3]) -> BlockCtx {
    let def = src.chance(1, 2);
    bw.bool(def);
    if def {
        let y = [0u8, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6];
        let c = [7u8, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14];
        return BlockCtx { lf_thr: Default::default(), qf_thr: vec![], map: [y, c, c].concat(), num_lf: 1, num: 15 };
    }
    let mut num_lf = 1;
    let lf_thr: [Vec<i32>; 3] = std::array::from_fn(|c| {
        let n = if src.bool() { src.urange(0, 3) } else if src.chance(1, 6) { 15 } else { 0 };
        let n = n.min(64 / num_lf - 1);
        let mut v: Vec<i32> = (0..n)
            .map(|_| match src.below(8) {
                0 => src.range(-100000, 100000) as i32,
                1 => 0,
                _ => src.range(-lf_amp[c] / 4 - 2, lf_amp[c] + 2) as i32,
            })
            .collect();
        if src.chance(3, 4) {
            v.sort();
        }
        bw.write(4, n as u64);
        for &t in &v {
            bw.u2([U::B(4, 0), U::B(8, 16), U::B(16, 272), U::B(32, 65808)], pack_signed(t));
        }
        num_lf *= n + 1;
        v
    });
    let top = if src.bool() { 3 } else { 15 };
    let nq = src.urange(0, (64 / num_lf - 1).min(top));
    bw.write(4, nq as u64);
    let qf_thr: Vec<u32> = (0..nq).map(|_| src.bool()).collect::<Vec<_>>().into_iter().map(|low| src.urange(1, if low { 30 } else { 255 }) as u32).collect();
    for &t in &qf_thr {
        bw.u2([U::B(2, 0), U::B(3, 4), U::B(5, 12), U::B(8, 44)], t - 1);
    }
    let n = 39 * num_lf * (nq + 1);
    let k = src.urange(1, 16) as u64;
    let mut r = src.rng();
    let mut map: Vec<u8> = (0..n).map(|_| r.below(k) as u8).collect();
    // no unused contexts
    let mut used: Vec<u8> = map.clone();
    used.sort();
    used.dedup();
    for v in &mut map {
        *v = used.iter().position(|u| u == v).unwrap() as u8;
    }
    bw.append(&ctx_map_bits(&map, used.len(), &mut r));
    BlockCtx { lf_thr, qf_thr, map, num_lf, num: used.len() }
}

// ------------------------------------------------------------------ frames

pub struct Vd {
    pub bytes: Vec<u8>,
    /// Colour (X, Y, B or Cb, Y, Cr) and extra channels as decoded.
    pub planes: Vec<Pl>,
    /// Inverse sigma of the blocks, rows of `bw`.
    pub sigma: Vec<f64>,
    pub bw: usize,
    pub cc: (f64, f64),
    pub labels: Vec<String>,
}

#[derive(Clone, Copy)]
struct Block {
    x: usize,
    y: usize,
    t: usize,
    quant: u32,
}

fn u32_log(src: &mut Src, lo: f64, hi: f64) -> u32 {
    (lo.ln() + (hi.ln() - lo.ln()) * src.unit()).exp() as u32
}

/// A VarDCT frame. `pre`: the bits before the quantizer parameters; `lf`: the LF image if coded in
/// another frame; `flat_cc`: no colour correlation of the LF image.
#[allow(clippy::too_many_arguments)]
pub fn vardct_frame(src: &mut Src, img: &ImgHdr, fh: &FrameHdr, f: &Feats, exact: bool, desc: &mut String, pre: BitWriter, lf: Option<&[Pl]>, flat_cc: bool) -> Vd {
    let geo = Geo::new(img, fh);
    let (bw, bh) = fh.size_blocks(img);
    let (bw, bh) = (bw as usize, bh as usize);
    let (w, h) = fh.size(img);
    let shift: [(usize, usize); 3] = std::array::from_fn(|c| {
        let (a, b) = fh.chan_shift(c);
        (a as usize, b as usize)
    });
    let is444 = shift == [(0, 0); 3];
    let mut sec = Sections::new(img, fh);
    let mut me = ModEnc::new(gen_global_tree(src, img, fh, exact));
    // ---- LfGlobal
    let mut b = pre;
    if src.chance(1, 3) {
        b.alt = Some(Rng2(src.rng()));
    }
    let gs = if src.chance(1, 16) { u32_log(src, 1.0, 73728.0) } else { u32_log(src, 1500.0, 40000.0) };
    let lq = if src.chance(1, 8) { u32_log(src, 1.0, 65536.0) } else { *src.pick(&[16u32, 16, 32, 10, 64]) };
    b.u2([U::B(11, 1), U::B(11, 2049), U::B(12, 4097), U::B(16, 8193)], gs);
    b.u2([U::V(16), U::B(5, 1), U::B(8, 1), U::B(16, 1)], lq);
    let lff = f.lf_factors();
    let inv_lf = 65536.0 / (gs as f64 * lq as f64);
    let lf_step = lff.map(|v| v * inv_lf);
    // wanted ranges of the LF samples
    let want: [(f64, f64); 3] = if img.xyb { [(-0.02, 0.02), (0.0, 0.9), (-0.25, 0.25)] } else { [(-0.4, 0.4); 3] };
    let wild_lf = wild(src, 10);
    let lf_range = |c: usize, extra: u32| {
        let s = lf_step[c] / (1 << extra) as f64;
        let q = |v: f64| (v / s).clamp(-8e6, 8e6) as i64;
        if let Some(f) = FLAT.get() {
            let at = (((want[c].0 + (want[c].1 - want[c].0) * f) / lf_step[c]).clamp(-1e6, 1e6).floor() as i64) << extra;
            return (at, at);
        }
        if wild_lf { (i32::MIN as i64 / 2, i32::MAX as i64 / 2) } else { (q(want[c].0) - 1, q(want[c].1) + 1) }
    };
    let bctx = gen_block_ctx(src, &mut b, [0, 1, 2].map(|c| lf_range(c, 1).1));
    // colour correlation
    let (mut factor, mut base, mut tolf) = (84u32, [0.0, 1.0], [0i32, 0]);
    let def = src.bool();
    b.bool(def);
    if !def {
        factor = *src.pick(&[84u32, 256, 2, 100, 257, 258, 1000, 65793]);
        b.u2([U::V(84), U::V(256), U::B(8, 2), U::B(16, 258)], factor);
        base = [gen_f16(src, -0.3, 0.3), gen_f16(src, -0.5, 1.5)];
        b.f16(base[0] as f32);
        b.f16(base[1] as f32);
        for v in &mut tolf {
            if !flat_cc && src.bool() {
                *v = src.range(-128, 127) as i32 / if factor < 60 { 40 } else { 1 };
            }
            b.write(8, (*v + 128) as u64);
        }
    }
    let cc_lf = [0, 1].map(|k| base[k] + tolf[k] as f64 / factor as f64);
    let cc_amp = (factor as i32 / 2).clamp(1, 127);
    let at = {
        sec.lf_global.push(Piece::Bits(b));
        sec.lf_global.len()
    };
    let shapes = frame_shapes(img, fh);
    let ech = modular_part(src, &mut me, img, fh, &shapes, &ModOpt { exact, max_tr: 3 }, &mut sec);
    // ---- LF groups
    let mut lfp: [Pl; 3] = std::array::from_fn(|c| Pl::new(bw >> shift[c].0, bh >> shift[c].1));
    let mut lf_idx = vec![0usize; bw * bh];
    let mut tiles = [vec![0i32; bw.div_ceil(8) * bh.div_ceil(8)], vec![0i32; bw.div_ceil(8) * bh.div_ceil(8)]];
    let tw = bw.div_ceil(8);
    let mut sharp = vec![0usize; bw * bh];
    let mut quant = vec![0u32; bw * bh];
    let mut blocks: Vec<Block> = vec![];
    // which transforms
    let allowed: Vec<usize> = {
        let max = if !is444 && !wild(src, 4) { 1 } else { 32 };
        let all: Vec<usize> = (0..27).filter(|&t| CX[t].max(CY[t]) <= max && CX[t] <= bw && CY[t] <= bh).collect();
        match src.below(4) {
            0 => all,
            1 => vec![0, *src.pick(&all), *src.pick(&all)],
            2 => {
                let big: Vec<usize> = all.iter().copied().filter(|&t| CX[t] * CY[t] > 1).collect();
                if big.is_empty() { all } else { vec![*src.pick(&big), *src.pick(&big), *src.pick(&all)] }
            }
            _ => vec![*src.pick(&all)],
        }
    };
    let qmax = *src.pick(&[1u32, 12, 40, 256]);
    // rules that are broken: blocks overlap, leave their group or the frame
    let (over, cross, out) = (wild(src, 6), wild(src, 6), wild(src, 12));
    let (bad_t, bad_sharp, bad_n, huge) = (wild(src, 10), wild(src, 8), wild(src, 10), wild(src, 4));
    let mut r: Rng = src.rng();
    for g in 0..geo.nl() {
        let (x0, y0) = (g % geo.lx * 256, g / geo.lx * 256);
        let (gw, gh) = ((bw - x0).min(256), (bh - y0).min(256));
        if lf.is_none() {
            let extra = if src.chance(2, 3) { 0 } else { src.below(4) as u32 };
            let mut b = BitWriter::new();
            b.write(2, extra as u64);
            sec.lf[g].insert(0, Piece::Bits(b));
            let sh: Vec<Shape> = [1usize, 0, 2]
                .iter()
                .map(|&c| {
                    let (lo, hi) = lf_range(c, extra);
                    Shape { w: gw >> shift[c].0, h: gh >> shift[c].1, hs: 0, vs: 0, tex: Tex::Range { lo: lo as i32, hi: hi as i32 } }
                })
                .collect();
            let (dec, s) = me.random_stream(src, &sh, img.depth.bits, &StreamOpt { id: geo.id_vardct_lf(g), header: true, exact });
            if std::env::var("VERIF_DUMP").is_ok() && gw * gh < 9 {
                eprintln!("lf {extra} {lf_step:?} {dec:?} {sh:?}");
            }
            sec.lf[g].insert(1, Piece::Stream(s));
            for c in 0..3 {
                let d = &dec[[1, 0, 2][c]];
                let (px, py) = (x0 >> shift[c].0, y0 >> shift[c].1);
                for y in 0..d.h {
                    for x in 0..d.w {
                        let one = |c: usize| {
                            let v = dec[[1, 0, 2][c]].at(x, y) as f64 * lf_step[c] / (1 << extra) as f64;
                            V { v, e: v.abs() * 4.0 * ULP }
                        };
                        let mut v = one(c);
                        if is444 && c != 1 {
                            let m = cc_lf[c / 2];
                            v = v.add(one(1).mul(V { v: m, e: m.abs() * 2.0 * ULP }));
                        }
                        let lw = lfp[c].w;
                        lfp[c].d[(py + y) * lw + px + x] = v;
                    }
                }
            }
            if bctx.num_lf > 1 {
                for y in 0..gh {
                    for x in 0..gw {
                        let bucket = |c: usize| {
                            let v = dec[[1, 0, 2][c]].at(x >> shift[c].0, y >> shift[c].1);
                            bctx.lf_thr[c].iter().filter(|&&t| v > t).count()
                        };
                        let n = |c: usize| bctx.lf_thr[c].len() + 1;
                        lf_idx[(y0 + y) * bw + x0 + x] = (bucket(0) * n(2) + bucket(2)) * n(1) + bucket(1);
                    }
                }
            }
        }
        // HF metadata
        let mut taken = vec![false; gw * gh];
        let first = blocks.len();
        for y in 0..gh {
            for x in 0..gw {
                if taken[y * gw + x] {
                    continue;
                }
                let fits = |t: usize| {
                    (cross || x % 32 + CX[t] <= 32 && y % 32 + CY[t] <= 32)
                        && (out || x + CX[t] <= gw && y + CY[t] <= gh)
                        && (0..CY[t].min(gh - y)).all(|j| (0..CX[t].min(gw - x)).all(|i| over || !taken[(y + j) * gw + x + i]))
                };
                let mut t = allowed[r.below(allowed.len() as u64) as usize];
                for _ in 0..3 {
                    if !fits(t) {
                        t = allowed[r.below(allowed.len() as u64) as usize];
                    }
                }
                if !fits(t) {
                    t = *[0, 0, 1, 2, 3, 12, 13, 14, 15, 16, 17].get(r.below(11) as usize).unwrap();
                }
                let q = 1 + r.below(qmax as u64) as u32;
                for j in 0..CY[t].min(gh - y) {
                    for i in 0..CX[t].min(gw - x) {
                        taken[(y + j) * gw + x + i] = true;
                        quant[(y0 + y + j) * bw + x0 + x + i] = q;
                    }
                }
                blocks.push(Block { x: x0 + x, y: y0 + y, t, quant: q });
            }
        }
        let mine = &blocks[first..];
        let extra = if mine.len() < gw * gh && src.chance(1, 6) { 1 } else { 0 };
        let n = mine.len() + extra;
        let n = if bad_n { src.urange(1, n) } else { n };
        let mut bits = BitWriter::new();
        bits.write(ceil_log2((gw * gh) as u64), n as u64 - 1);
        sec.lf[g].push(Piece::Bits(bits));
        let (cw, ch) = (gw.div_ceil(8), gh.div_ceil(8));
        let amp = *src.pick(&[0i32, cc_amp.min(20), cc_amp, 140]);
        let amp = if wild(src, 8) { i32::MAX } else { amp.min(cc_amp * 3) };
        let tile = |r: &mut Rng| -> Chan {
            let mut c = Chan::new(cw, ch, 3, 3);
            c.data = texture(&Shape { w: cw, h: ch, hs: 3, vs: 3, tex: Tex::Range { lo: -amp, hi: amp } }, r);
            c
        };
        let mut chans = vec![tile(&mut r), tile(&mut r), Chan::new(n, 2, 0, 0), Chan::new(gw, gh, 0, 0)];
        for (i, b) in mine.iter().take(n).enumerate() {
            chans[2].data[i] = if bad_t && r.below(8) == 0 { r.range(-1, 40) as i32 } else { b.t as i32 };
            let q = b.quant as i32 - 1;
            // out of range values are clamped
            let odd = r.below(20) == 0;
            chans[2].data[n + i] = if odd && q == 255 { 255 + r.below(100) as i32 } else if odd && q == 0 { -(r.below(100) as i32) } else { q };
        }
        if extra > 0 && !bad_n {
            chans[2].data[n - 1] = r.below(40) as i32;
            chans[2].data[2 * n - 1] = r.below(300) as i32;
        }
        chans[3].data = texture(&Shape { w: gw, h: gh, hs: 0, vs: 0, tex: if bad_sharp { Tex::Range { lo: -1, hi: 9 } } else { Tex::Range { lo: 0, hi: 7 } } }, &mut r);
        let hdr = Hdr { global_tree: exact && me.global.is_some() && src.bool(), wp: Wp::def(), trs: vec![] };
        let s = me.code(src, &mut chans, &hdr, &StreamOpt { id: geo.id_hf_meta(g), header: true, exact: true });
        sec.lf[g].push(Piece::Stream(s));
        for k in 0..2 {
            for y in 0..ch {
                for x in 0..cw {
                    tiles[k][(y0 / 8 + y) * tw + x0 / 8 + x] = chans[k].at(x, y).clamp(-128, 127);
                }
            }
        }
        for y in 0..gh {
            for x in 0..gw {
                sharp[(y0 + y) * bw + x0 + x] = chans[3].at(x, y).clamp(0, 7) as usize;
            }
        }
    }
    if let Some(l) = lf {
        for c in 0..3 {
            assert!((l[c].w, l[c].h) == (bw, bh) || !MODEL.get());
            lfp[c] = l[c].clone();
        }
    } else if MODEL.get() && fh.flags & (F_SKIP_LF_SMOOTH | F_LF_FRAME) == 0 {
        lfp = smooth(&lfp, lf_step);
    }
    // ---- HfGlobal
    let mut b = BitWriter::new();
    let def = src.chance(2, 3);
    b.bool(def);
    let mut modes: Vec<String> = vec![];
    let mut qt: Vec<Option<[Vec<f64>; 3]>> = vec![None; 17];
    if !def {
        for (i, q) in qt.iter_mut().enumerate() {
            let used = blocks.iter().any(|b| QT[b.t] == i);
            if !(used || src.chance(1, 8)) || src.chance(1, 4) {
                b.write(3, 0);
                continue;
            }
            let (enc, raw) = gen_qtable(src, i, &mut b);
            let name = format!("{enc:?}").split('(').next().unwrap().to_string();
            *desc += &format!(" q{i}:{name}");
            if used {
                modes.push(name);
            }
            *q = Some(table(&enc, i));
            if raw {
                let Q::Raw(_, d) = &enc else { unreachable!() };
                sec.hf_global.push(Piece::Bits(std::mem::take(&mut b)));
                // the raster of the table, read with rows as long as the matrix has rows
                let (tw, th) = (8 * QROWS[i], 8 * QCOLS[i]);
                let mut ch: Vec<Chan> = (0..3)
                    .map(|c| {
                        let mut ch = Chan::new(tw, th, 0, 0);
                        ch.data = d[c * tw * th..][..tw * th].to_vec();
                        ch
                    })
                    .collect();
                let hdr = Hdr { global_tree: exact && me.global.is_some() && src.bool(), wp: Wp::def(), trs: vec![] };
                let s = me.code(src, &mut ch, &hdr, &StreamOpt { id: geo.id_qtable(i), header: true, exact: true });
                sec.hf_global.push(Piece::Stream(s));
            }
        }
    }
    let np = fh.passes.num as usize;
    let ng = geo.ng();
    let nh = if ng > 1 && src.bool() { src.urange(1, ng.min(4)) } else { 1 };
    b.write(ceil_log2(ng as u64), nh as u64 - 1);
    // ---- coefficients
    let per = bctx.num * (37 + 458);
    let mut groups: Vec<Vec<usize>> = vec![vec![]; ng];
    for (i, b) in blocks.iter().enumerate() {
        groups[b.y / 32 * geo.gx + b.x / 32].push(i);
    }
    // raster order in each group
    for g in &mut groups {
        g.sort_by_key(|&i| (blocks[i].y, blocks[i].x));
    }
    let amp = *src.pick(&[0.02, 0.06, 0.15, 0.3, 1.0]);
    let dense = src.chance(1, 4);
    let empty = src.chance(1, 10) || FLAT.get().is_some();
    let mut coefs: Vec<[Vec<i64>; 3]> = blocks.iter().map(|b| std::array::from_fn(|_| vec![0; 64 * CX[b.t] * CY[b.t]])).collect();
    let tab = |t: usize| qt[QT[t]].as_ref().unwrap_or_else(|| lib_table(QT[t]));
    let sg = gs as f64 / 65536.0;
    let qm: [f64; 3] = if img.xyb { [1.25f64.powf(2.0 - fh.x_qm as f64), 1.0, 1.25f64.powf(2.0 - fh.b_qm as f64)] } else { [1.0; 3] };
    let present = |b: &Block, c: usize| b.x % (1 << shift[c].0) == 0 && b.y % (1 << shift[c].1) == 0;
    for p in 0..np {
        // orders
        let mut used = 0u32;
        if src.bool() {
            for o in 0..13 {
                let size = ORDER_DIM[o].0 * ORDER_DIM[o].1;
                let inuse = blocks.iter().any(|b| ORDER[b.t] == o);
                if src.chance(if inuse { 2 } else { 1 }, if size > 64 { 20 } else if size > 8 { 12 } else { 3 }) {
                    used |= 1 << o;
                }
            }
            if src.chance(1, 4) {
                used = *src.pick(&[0x5fu32, 0x13]);
            }
        }
        b.u2([U::V(0x5f), U::V(0x13), U::V(0), U::B(13, 0)], used);
        let mut orders: Vec<Option<[Vec<u32>; 3]>> = vec![None; 13];
        let natural: Vec<Vec<u32>> = (0..13).map(|o| if blocks.iter().any(|b| ORDER[b.t] == o) { natural_order(ORDER_DIM[o].0, ORDER_DIM[o].1) } else { vec![] }).collect();
        if used != 0 {
            let mut toks = vec![];
            for o in (0..13).filter(|o| used >> o & 1 == 1) {
                let skip = ORDER_DIM[o].0 * ORDER_DIM[o].1;
                let n = skip * 64;
                let perms: [Vec<u32>; 3] = std::array::from_fn(|_| {
                    let mut v: Vec<u32> = (0..n as u32).collect();
                    match r.below(4) {
                        0 => {}
                        1 => {
                            for i in (skip + 1..n).rev() {
                                v.swap(i, skip + r.below((i - skip + 1) as u64) as usize);
                            }
                        }
                        2 => v[skip..].reverse(),
                        _ => {
                            for _ in 0..1 + r.below(10) {
                                let i = skip + r.below((n - skip) as u64) as usize;
                                let j = (i + r.below(8) as usize).min(n - 1);
                                v.swap(i, j);
                            }
                        }
                    }
                    toks.extend(perm_tokens(&v, skip));
                    v
                });
                if !natural[o].is_empty() {
                    orders[o] = Some(perms.map(|p| p.iter().map(|&i| natural[o][i as usize]).collect()));
                }
            }
            let bt = build(src, 8, &[(&toks, 0)], true, LzMode::Maybe);
            bt.code.write_header(&mut b);
            bt.code.write_stream(&mut b, &bt.streams[0]);
        }
        let sh = fh.passes.shift.get(p).copied().unwrap_or(0);
        let mut toks: Vec<Vec<Tok>> = vec![];
        let mut hist = vec![];
        for g in 0..ng {
            let hi = src.below(nh as u64) as usize;
            hist.push(hi);
            let off = hi * per;
            let (gx, gy) = (g % geo.gx * 32, g / geo.gx * 32);
            let mut nzs = [vec![0usize; 1024], vec![0; 1024], vec![0; 1024]];
            let mut tk = vec![];
            for &i in &groups[g] {
                let bl = blocks[i];
                let (cx, cy) = (CX[bl.t], CY[bl.t]);
                let (nb, nc) = (cx * cy, cx * cy * 64);
                let lg = floor_log2(nb as u64);
                for c in [1, 0, 2] {
                    if !present(&bl, c) {
                        continue;
                    }
                    let (sx, sy) = ((bl.x - gx) >> shift[c].0, (bl.y - gy) >> shift[c].1);
                    let pred = match (sx, sy) {
                        (0, 0) => 32,
                        (0, _) => nzs[c][(sy - 1) * 32],
                        (_, 0) => nzs[c][sx - 1],
                        _ => (nzs[c][(sy - 1) * 32 + sx] + nzs[c][sy * 32 + sx - 1]).div_ceil(2),
                    };
                    let qi = bctx.qf_thr.iter().filter(|&&t| bl.quant > t).count();
                    let k = ((if c < 2 { 1 - c } else { 2 }) * 13 + ORDER[bl.t]) * (bctx.qf_thr.len() + 1) + qi;
                    let bc = bctx.map[k * bctx.num_lf + lf_idx[bl.y * bw + bl.x]] as usize;
                    // choose coefficients
                    let room = nc - nb;
                    let want = if empty || r.below(5) == 0 {
                        0
                    } else if dense && r.below(3) == 0 {
                        r.below(room as u64 + 1) as usize
                    } else {
                        let m = if r.below(3) == 0 { 60 * nb } else { 8 };
                        (r.below(m as u64 + 1) as usize).min(room)
                    };
                    let reach = if r.below(3) == 0 { room } else { (want * 2 + r.below(10 * nb as u64) as usize).min(room) };
                    let mut vals = vec![0i64; reach];
                    let step = tab(bl.t);
                    let a = amp * if img.xyb { [0.05, 1.0, 0.5][c] } else { 1.0 } / (1.0 + want as f64 / 4.0);
                    let ord = orders[ORDER[bl.t]].as_ref().map(|o| &o[c]).unwrap_or(&natural[ORDER[bl.t]]);
                    for j in 0..want {
                        let at = if want == room { j } else { r.below(reach.max(1) as u64) as usize };
                        if at >= reach {
                            continue;
                        }
                        let st = step[c][ord[nb + at] as usize] / sg / bl.quant as f64 * qm[c];
                        let top = ((a / st) as i64 >> sh).clamp(1, 100000);
                        let top = if huge { 1 << r.below(32) } else { top };
                        let m = if r.below(2) == 0 { 1 } else { 1 + r.below(top as u64) as i64 };
                        vals[at] = if r.below(2) == 0 { m } else { -m };
                    }
                    let mut left = vals.iter().filter(|&&v| v != 0).count();
                    let nctx = if pred < 8 { pred } else if pred < 64 { 4 + pred / 2 } else { 36 };
                    tk.push(tok(off + nctx * bctx.num + bc, left as u32));
                    let nz = (left + nb - 1) >> lg;
                    for j in 0..cy.min(32 - sy) {
                        for i in 0..cx.min(32 - sx) {
                            nzs[c][(sy + j) * 32 + sx + i] = nz;
                        }
                    }
                    let mut prev = (left <= nc / 16) as usize;
                    for (j, &v) in vals.iter().enumerate() {
                        if left == 0 {
                            break;
                        }
                        let ctx = off + bctx.num * 37 + 458 * bc + zero_ctx(left, nb + j, lg, prev);
                        tk.push(tok(ctx, pack_signed(v as i32)));
                        prev = (v != 0) as usize;
                        left -= prev;
                        coefs[i][c][ord[nb + j] as usize] += v << sh;
                    }
                }
            }
            toks.push(tk);
        }
        let inp: Vec<(&[Tok], u32)> = toks.iter().map(|t| (&t[..], 0)).collect();
        let bt = build(src, nh * per, &inp, true, LzMode::Maybe);
        bt.code.write_header(&mut b);
        for g in 0..ng {
            let mut bits = BitWriter::new();
            bits.write(ceil_log2(nh as u64), hist[g] as u64);
            bt.code.write_stream(&mut bits, &bt.streams[g]);
            sec.pass[p * ng + g].insert(0, Piece::Bits(bits));
        }
    }
    sec.hf_global.push(Piece::Bits(b));
    // ---- put together
    let has = me.global.is_some();
    let (tb, streams, d) = me.finish(src);
    *desc += &d;
    let mut b = BitWriter::new();
    b.bool(has);
    b.append(&tb);
    sec.lf_global.insert(at, Piece::Bits(b));
    let (bytes, _) = sec.assemble(src, img, fh, streams);
    let mut transforms: Vec<usize> = blocks.iter().map(|b| b.t).collect();
    transforms.sort();
    transforms.dedup();
    // ---- reconstruction
    let bias: [f64; 4] = match &img.opsin {
        Some(o) if img.xyb => o.quant_biases.map(f16r),
        _ => [1.0 - 0.05465007330715401, 1.0 - 0.07005449891748593, 1.0 - 0.049935103337343655, 0.145],
    };
    if !MODEL.get() {
        blocks.clear();
    }
    let mut planes: Vec<Pl> = (0..3).map(|c| Pl::new((bw * 8) >> shift[c].0, (bh * 8) >> shift[c].1)).collect();
    for (i, bl) in blocks.iter().enumerate() {
        let (cx, cy) = (CX[bl.t], CY[bl.t]);
        let step = tab(bl.t);
        let mut val: [Vec<f64>; 3] = std::array::from_fn(|c| {
            let m = qm[c] / sg / bl.quant as f64;
            coefs[i][c]
                .iter()
                .zip(&step[c])
                .map(|(&q, s)| {
                    if q == 0 {
                        return 0.0;
                    }
                    let q = q as f64;
                    (if q.abs() < 2.0 { q * bias[c] } else { q - bias[3] / q }) * m * s
                })
                .collect()
        });
        let mag: [f64; 3] = std::array::from_fn(|c| val[c].iter().map(|v| v.abs()).sum());
        let mut mag = [mag[0], mag[1], mag[2]];
        for c in [0, 2] {
            let k = c / 2;
            let m = base[k] + tiles[k][bl.y / 8 * tw + bl.x / 8] as f64 / factor as f64;
            let y = val[1].clone();
            for (a, b) in val[c].iter_mut().zip(y) {
                *a += m * b;
            }
            mag[c] += m.abs() * mag[1];
        }
        for c in 0..3 {
            if !present(bl, c) {
                continue;
            }
            let (lx, ly) = (bl.x >> shift[c].0, bl.y >> shift[c].1);
            let mut lv = vec![];
            let (mut le, mut lm) = (0f64, 0f64);
            for y in 0..cy {
                for x in 0..cx {
                    let v = lfp[c].d[(ly + y) * lfp[c].w + lx + x];
                    lv.push(v.v);
                    le = le.max(v.e);
                    lm = lm.max(v.v.abs());
                }
            }
            let px = inverse(bl.t, &mut val[c], &lv);
            let n = cx.max(cy) as f64;
            let e = (mag[c] * 2.0 + lm * 2.0 * n.sqrt()) * idct_err(bl.t) + le * if n > 1.0 { 3.0 } else { 1.0 };
            let pl = &mut planes[c];
            for y in 0..cy * 8 {
                for x in 0..cx * 8 {
                    pl.d[(ly * 8 + y) * pl.w + lx * 8 + x] = V { v: px[y * cx * 8 + x], e };
                }
            }
        }
    }
    for c in 0..3 {
        let (cw, chh) = ((w as usize).div_ceil(1 << shift[c].0), (h as usize).div_ceil(1 << shift[c].1));
        let p = &planes[c];
        let mut o = Pl::new(cw, chh);
        for y in 0..chh {
            for x in 0..cw {
                o.d[y * cw + x] = p.d[y * p.w + x];
            }
        }
        planes[c] = o;
    }
    for (c, e) in ech.iter().zip(&img.ecs) {
        let d = c.data.iter().map(|&v| if e.depth.float { V::exact(sample_value(&e.depth, v)) } else { V::new(sample_value(&e.depth, v)) }).collect();
        planes.push(Pl { w: c.w, h: c.h, d });
    }
    let fl = &fh.filter;
    let mul = fl.sigma.map(|s| f16r(s[0])).unwrap_or(0.46);
    let lut: [f64; 8] = match fl.sharp_lut {
        Some(l) => l.map(f16r),
        None => std::array::from_fn(|i| i as f64 / 7.0),
    };
    let sigma = (0..bw * bh).map(|i| 1.0 / (mul / (sg * quant[i] as f64 * -1.1715728752538099024) * lut[sharp[i]]).min(-1e-4)).collect();
    let mut labels: Vec<String> = transforms.iter().map(|t| format!("transform:{t}")).collect();
    labels.extend(modes.iter().map(|m| format!("table:{m}")));
    labels.push(format!("hf:{}{}{}", ["one group", "groups"][(ng > 1) as usize], [",one pass", ",passes"][(np > 1) as usize], [",one histogram", ",histograms"][(nh > 1) as usize]));
    labels.push(format!("lf:{}{}", ["one group", "groups"][(geo.nl() > 1) as usize], [",one context", ",contexts"][(bctx.num_lf > 1) as usize]));
    labels.push(if is444 { "444" } else { "subsampled" }.to_string());
    *desc += &format!(" gs{gs} lq{lq} hist{nh} thr{:?}/{:?} cc{factor} {base:?} {tolf:?} transforms{transforms:?} blocks{}", bctx.lf_thr, bctx.qf_thr, blocks.len());
    Vd { bytes, planes, sigma, bw, cc: (cc_lf[0], cc_lf[1]), labels }
}

/// Adaptive smoothing of the LF image.
fn smooth(p: &[Pl; 3], step: [f64; 3]) -> [Pl; 3] {
    let (w, h) = (p[0].w, p[0].h);
    let mut o = p.clone();
    if w <= 2 || h <= 2 {
        return o;
    }
    const SIDE: f64 = 0.20345139757231578;
    const CORNER: f64 = 0.0334829185968739;
    for y in 1..h - 1 {
        for x in 1..w - 1 {
            let mut gap = 0.5f64;
            let mut ge = 0f64;
            let mut sm = [V::exact(0.0); 3];
            for c in 0..3 {
                let (mut v, mut e, mut a) = (0.0, 0.0, 0.0);
                for k in 0..9 {
                    let (dx, dy) = (k % 3, k / 3);
                    let q = p[c].d[(y + dy - 1) * w + x + dx - 1];
                    let wt = match (dx == 1, dy == 1) {
                        (true, true) => 1.0 - 4.0 * (SIDE + CORNER),
                        (false, false) => CORNER,
                        _ => SIDE,
                    };
                    v += q.v * wt;
                    e += q.e * wt;
                    a += q.v.abs() * wt;
                }
                sm[c] = V { v, e: e + a * 8.0 * ULP };
                let mc = p[c].d[y * w + x];
                gap = gap.max((mc.v - v).abs() / step[c]);
                ge = ge.max((sm[c].e + mc.e) / step[c]);
            }
            let fac = (3.0 - 4.0 * gap).max(0.0);
            let fe = (4.0 * ge + 8.0 * ULP * (1.0 + gap)).min(1.0);
            for c in 0..3 {
                let mc = p[c].d[y * w + x];
                let d = sm[c].v - mc.v;
                let fe = if 3.0 - 4.0 * gap + fe < 0.0 { 0.0 } else { fe };
                let v = d * fac + mc.v;
                o[c].d[y * w + x] = V { v, e: d.abs() * fe + (sm[c].e + mc.e) * fac + mc.e + 4.0 * ULP * (mc.v.abs() + d.abs()) };
            }
        }
    }
    o
}
