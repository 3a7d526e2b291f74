//! Reference model of colour transforms.
use crate::enc::headers::*;
use crate::synth::*;

pub const OPSIN: [f64; 9] = [
    11.031566901960783,
    -9.866943921568629,
    -0.16462299647058826,
    -3.254147380392157,
    4.418770392156863,
    -0.16462299647058826,
    -3.6588512862745097,
    2.7129230470588235,
    1.9459282392156863,
];
const BIAS: f64 = -0.0037930732552754493;

pub type M = [[f64; 3]; 3];
pub fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
pub fn apply(a: &M, v: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|i| (0..3).map(|k| a[i][k] * v[k]).sum())
}
pub fn inv(a: &M) -> M {
    let c = |i: usize, j: usize| {
        let (i1, i2, j1, j2) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
        a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]
    };
    let det = a[0][0] * c(0, 0) + a[0][1] * c(0, 1) + a[0][2] * c(0, 2);
    std::array::from_fn(|i| std::array::from_fn(|j| c(j, i) / det))
}

pub const D65: (f64, f64) = (0.3127, 0.3290);
pub const SRGB: [(f64, f64); 3] = [(0.639998686, 0.330010138), (0.300003784, 0.600003357), (0.150002046, 0.059997204)];

pub fn white_xy(c: &Color) -> (f64, f64) {
    match c.white {
        2 => (c.white_xy.0 as f64 / 1e6, c.white_xy.1 as f64 / 1e6),
        10 => (1.0 / 3.0, 1.0 / 3.0),
        11 => (0.314, 0.351),
        _ => D65,
    }
}
pub fn prim_xy(c: &Color) -> [(f64, f64); 3] {
    match c.prim {
        2 => c.prim_xy.map(|p| (p.0 as f64 / 1e6, p.1 as f64 / 1e6)),
        9 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
        11 => [(0.680, 0.320), (0.265, 0.690), (0.150, 0.060)],
        _ => SRGB,
    }
}

fn xyz(p: (f64, f64)) -> [f64; 3] {
    [p.0 / p.1, 1.0, (1.0 - p.0 - p.1) / p.1]
}

/// Linear RGB to XYZ.
pub fn rgb_to_xyz(p: [(f64, f64); 3], w: (f64, f64)) -> M {
    let m: M = std::array::from_fn(|i| std::array::from_fn(|j| [p[j].0, p[j].1, 1.0 - p[j].0 - p[j].1][i]));
    let s = apply(&inv(&m), xyz(w));
    std::array::from_fn(|i| std::array::from_fn(|j| m[i][j] * s[j]))
}

/// Bradford adaptation to D50.
pub fn adapt_d50(w: (f64, f64)) -> M {
    let b: M = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];
    let (from, to) = (apply(&b, xyz(w)), apply(&b, [0.96422, 1.0, 0.82521]));
    let d: M = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { to[i] / from[i] } else { 0.0 }));
    mul(&inv(&b), &mul(&d, &b))
}

/// XYB planes to what the image's colour encoding says.
pub fn from_xyb(img: &ImgHdr, p: &mut [Vec<V>]) {
    let (om, ob): ([f64; 9], [f64; 3]) = match &img.opsin {
        Some(o) => (o.matrix.map(crate::feat::f16r), o.biases.map(crate::feat::f16r)),
        None => (OPSIN, [BIAS; 3]),
    };
    let intensity = crate::feat::f16r(img.tone.intensity);
    let mut m: M = std::array::from_fn(|i| std::array::from_fn(|j| om[3 * i + j]));
    let mut lum = [0.2126, 0.7152, 0.0722];
    let c = &img.color;
    if img.is_gray() {
        m = mul(&[lum, lum, lum], &m);
    } else if c.prim != 1 || c.white != 1 {
        let srgb = mul(&adapt_d50(D65), &rgb_to_xyz(SRGB, D65));
        let org = rgb_to_xyz(prim_xy(c), white_xy(c));
        lum = org[1];
        let t = mul(&inv(&mul(&adapt_d50(white_xy(c)), &org)), &srgb);
        m = mul(&t, &m);
    }
    let k = V::exact;
    let sc = 255.0 / intensity;
    for i in 0..p[0].len() {
        let (x, y, b) = (p[0][i], p[1][i], p[2][i]);
        let g = [y.add(x), y.sub(x), b];
        let l: Vec<V> = (0..3)
            .map(|c| {
                let v = g[c].sub(V::new(ob[c].cbrt()));
                v.mul(v).mul(v.mul(V::new(sc))).add(V::new(ob[c] * sc))
            })
            .collect();
        let lin: Vec<V> = (0..3)
            .map(|c| {
                let mut s = V::exact(0.0);
                for j in 0..3 {
                    // matrices are computed with rounded constants
                    let mut t = l[j].mul(k(m[c][j]));
                    t.e += t.v.abs() * 3e-6;
                    s = s.add(t);
                }
                s
            })
            .collect();
        let out = transfer(&c.tf, intensity, lum, [lin[0], lin[1], lin[2]]);
        for c in 0..3 {
            p[c][i] = out[c];
        }
    }
}

fn curve(v: V, f: impl Fn(f64) -> f64, abs: f64, rel: f64) -> V {
    if !v.v.is_finite() || !v.e.is_finite() || v.v.abs() + v.e > 1.0 {
        // approximations need not hold outside
        return V { v: 0.0, e: f64::INFINITY };
    }
    let g = |x: f64| f(x.abs()).copysign(x);
    let y = g(v.v);
    let (lo, hi) = (g(v.v - v.e), g(v.v + v.e));
    V { v: y, e: (y - lo).abs().max((hi - y).abs()) + abs + rel * y.abs() }
}

/// Linear to encoded.
pub fn transfer(tf: &Tf, intensity: f64, lum: [f64; 3], v: [V; 3]) -> [V; 3] {
    let gamma = |g: f64| v.map(|v| curve(v, |x| x.powf(g), 1e-7, 5e-5));
    match tf {
        Tf::Enum(8) => v,
        Tf::Gamma(g) => gamma(*g as f64 * 1e-7),
        Tf::Enum(17) => gamma(1.0 / 2.6),
        Tf::Enum(13) => v.map(|v| curve(v, |x| if x <= 0.0031308 { x * 12.92 } else { 1.055 * x.powf(1.0 / 2.4) - 0.055 }, 1e-6, 2e-6)),
        Tf::Enum(1) => v.map(|v| curve(v, |x| if x < 0.018 { 4.5 * x } else { 1.099 * x.powf(0.45) - 0.099 }, 1e-6, 2e-6)),
        Tf::Enum(16) => {
            let s = intensity / 10000.0;
            v.map(|v| {
                let v = V { v: v.v * s, e: v.e * s };
                curve(
                    v,
                    |x| {
                        let xp = x.powf(2610.0 / 16384.0);
                        ((3424.0 / 4096.0 + xp * 2413.0 / 128.0) / (1.0 + xp * 2392.0 / 128.0)).powf(2523.0 / 32.0)
                    },
                    5e-6,
                    2e-6,
                )
            })
        }
        Tf::Enum(18) => {
            let sg = 1.2 * 1.111f64.powf((intensity / 1000.0).log2());
            let exp = (1.0 - sg) / sg;
            let mut v = v;
            if exp.abs() >= 0.1 - 1e-6 {
                let mut y = V::exact(0.0);
                for c in 0..3 {
                    y = y.add(v[c].mul(V::new(lum[c])));
                }
                if !(y.v - y.e > 1e-9) || exp.abs() < 0.1 + 1e-6 {
                    return [V { v: 0.0, e: f64::INFINITY }; 3];
                }
                let (m, lo, hi) = (y.v.powf(exp), (y.v + y.e).powf(exp), (y.v - y.e).powf(exp));
                let m = V { v: m, e: (m - lo).abs().max((hi - m).abs()) + 5e-5 * m };
                v = v.map(|v| v.mul(m));
            }
            v.map(|v| {
                curve(
                    v,
                    |x| {
                        let (a, c) = (0.17883277, 0.5599107295);
                        if x <= 1.0 / 12.0 { (3.0 * x).sqrt() } else { a * (12.0 * x - (1.0 - 4.0 * a)).ln() + c }
                    },
                    2e-6,
                    2e-6,
                )
            })
        }
        Tf::Enum(_) => v.map(|_| V { v: 0.0, e: f64::INFINITY }),
    }
}
