//! Reference model of splines.
use crate::enc::bits::*;
use crate::enc::entropy::*;
use crate::feat::Pl;
use crate::synth::*;

#[derive(Clone, Debug, Default)]
pub struct Spline {
    /// Control points.
    pub points: Vec<(i32, i32)>,
    /// Coefficients of X, Y, B, sigma.
    pub dct: [Vec<i32>; 4],
}
#[derive(Clone, Debug, Default)]
pub struct Splines {
    pub adjust: i32,
    pub list: Vec<Spline>,
}

pub fn erf(x: f64) -> f64 {
    let a = x.abs();
    if a > 6.0 {
        return 1f64.copysign(x);
    }
    let r = if a < 2.5 {
        let (mut t, mut s) = (a, a);
        for n in 1..60 {
            t *= -a * a / n as f64;
            s += t / (2 * n + 1) as f64;
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        // continued fraction of erfc
        let mut f = a;
        for k in (1..60).rev() {
            f = a + k as f64 / 2.0 / f;
        }
        1.0 - (-a * a).exp() / f / std::f64::consts::PI.sqrt()
    };
    r.copysign(x)
}

impl Splines {
    pub fn tokens(&self) -> Vec<Tok> {
        let mut t = vec![tok(2, self.list.len() as u32 - 1)];
        for (i, s) in self.list.iter().enumerate() {
            let p = s.points[0];
            if i == 0 {
                t.extend([tok(1, p.0 as u32), tok(1, p.1 as u32)]);
            } else {
                let q = self.list[i - 1].points[0];
                t.extend([tok(1, pack_signed(p.0 - q.0)), tok(1, pack_signed(p.1 - q.1))]);
            }
        }
        t.push(tok(0, pack_signed(self.adjust)));
        for s in &self.list {
            t.push(tok(3, s.points.len() as u32 - 1));
            let (mut dx, mut dy) = (0, 0);
            for w in s.points.windows(2) {
                let (nx, ny) = (w[1].0 - w[0].0, w[1].1 - w[0].1);
                t.extend([tok(4, pack_signed(nx - dx)), tok(4, pack_signed(ny - dy))]);
                (dx, dy) = (nx, ny);
            }
            for d in &s.dct {
                t.extend(d.iter().map(|&v| tok(5, pack_signed(v))));
            }
        }
        t
    }

    /// Draws onto X, Y and B planes.
    pub fn draw(&self, p: &mut [Pl], cc: (f64, f64)) {
        let (w, h) = (p[0].w as i64, p[0].h as i64);
        let inv = if self.adjust >= 0 { 1.0 / (1.0 + self.adjust as f64 / 8.0) } else { 1.0 - self.adjust as f64 / 8.0 };
        const WEIGHT: [f64; 4] = [0.0042, 0.075, 0.07, 0.3333];
        for s in &self.list {
            let mut c: Vec<Vec<f64>> = (0..4)
                .map(|k| s.dct[k].iter().enumerate().map(|(i, &v)| v as f64 * WEIGHT[k] * inv * if i == 0 { 0.5f64.sqrt() } else { 1.0 }).collect())
                .collect();
            for i in 0..32 {
                c[0][i] += cc.0 * c[1][i];
                c[2][i] += cc.1 * c[1][i];
            }
            let pts = spaced(&curve(&s.points));
            let len = pts.len() as f64 - 2.0 + pts[pts.len() - 1].2;
            if len <= 0.0 {
                continue;
            }
            let ext = s.points.iter().map(|q| q.0.abs().max(q.1.abs())).max().unwrap() as f64;
            let pe = 1e-3f64.max(2e-5 * ext);
            // phase error relative to the coefficient index
            let dphase = std::f64::consts::PI / 32.0 * 31.0 * (pe / len.max(1.0)).min(1.0) + 3e-6;
            let terr: Vec<f64> = c.iter().map(|c| c.iter().enumerate().map(|(i, v)| v.abs() * (2e-4 + i as f64 * dphase).min(2.0)).sum::<f64>() * 2f64.sqrt() + 1e-7).collect();
            for (i, &(cx, cy, mult)) in pts.iter().enumerate() {
                let t = 31.0 * (i as f64 / len).min(1.0);
                let at = |k: usize| c[k].iter().enumerate().map(|(i, v)| v * (std::f64::consts::PI / 32.0 * i as f64 * (t + 0.5)).cos()).sum::<f64>() * 2f64.sqrt();
                let sigma = at(3);
                let col = [at(0), at(1), at(2)];
                let (se, me) = (terr[3], if mult < 1.0 { 2.0 * pe } else { 0.0 });
                let mc = col.iter().fold(0.01f64, |a, v| a.max(v.abs())) * mult.abs();
                let md = |d: f64| (-2.0 * sigma * sigma * (0.1f64.ln() * d - mc.ln())).sqrt();
                let (m3, m5) = (md(3.0), md(5.0));
                let unsure = sigma.abs() <= 2.0 * se;
                // samples drawn for sure, and possibly
                let outer = if unsure {
                    (sigma.abs() + se) * 7.0 + 2.0
                } else {
                    let mh = (0..3).fold(0.01f64, |a, k| a.max(col[k].abs() + terr[k])) * (mult.abs() + me);
                    (-2.0 * (sigma.abs() + se).powi(2) * (0.1f64.ln() * 5.0 - mh.ln())).sqrt() + 1.0 + pe
                };
                let m3 = if unsure { f64::NAN } else { m3 * (1.0 - se / sigma.abs()) - 2.0 * pe };
                let sure = |v: i64, c: f64| v as f64 >= (c - m3).round() + 0.01 && v as f64 <= (c + m3).round() - 0.01
                    || (v as f64 - c).abs() <= m3 - 0.51;
                let corner = !(m5 >= 0.0) || !(m3 >= 0.0);
                let outer = if outer.is_nan() { 1.0 } else { outer };
                let (y0, y1) = (((cy - outer).floor() as i64).max(0), ((cy + outer).ceil() as i64).min(h - 1));
                // positions left of the image count as column 0
                let (x0, x1) = (((cx - outer).floor() as i64).max(0), ((cx + outer).ceil() as i64).max(0).min(w - 1));
                let mut plot = |x: i64, y: i64, known: bool| {
                    let d = ((x as f64 - cx).powi(2) + (y as f64 - cy).powi(2)).sqrt();
                    let f = |d: f64, s: f64| {
                        let k = 0.353_553_38;
                        erf((d / 2.0 + k) / s) - erf((d / 2.0 - k) / s)
                    };
                    let (v, e) = if unsure {
                        let m = sigma.abs() + se;
                        (0.0, m)
                    } else {
                        let g = |d: f64, s: f64| s / 4.0 * f(d, s).powi(2);
                        let v = g(d, sigma);
                        let mut e = (g((d - pe).max(0.0), sigma) - g(d + pe, sigma)).abs();
                        e += (g(d, sigma + se) - v).abs().max((g(d, sigma - se) - v).abs());
                        // the error function is approximate
                        let fd = f(d, sigma).abs();
                        let fe = 1.3e-3f64.min(ERF_SLOPE * 0.7072 / sigma.abs());
                        e += sigma.abs() / 4.0 * (2.0 * fd * fe + fe * fe);
                        (v, e)
                    };
                    for k in 0..3 {
                        let a = col[k] * v * mult;
                        let ae = (col[k].abs() + terr[k]) * e * (mult + me) + terr[k] * v.abs() * (mult + me) + (col[k] * v).abs() * me;
                        let q = &mut p[k].d[(y * w + x) as usize];
                        if known {
                            q.v += a;
                            q.e += ae + 2.0 * ULP * q.v.abs();
                        } else {
                            q.e += a.abs() + ae;
                        }
                    }
                };
                for y in y0..=y1 {
                    for x in x0..=x1 {
                        let known = sure(x, cx) && sure(y, cy);
                        plot(x, y, known);
                    }
                }
                if corner {
                    plot(0, 0, false);
                }
            }
        }
    }
}

/// Largest derivative of the error of the approximated error function.
const ERF_SLOPE: f64 = 0.0175;

type P = (f64, f64);
fn dist(a: P, b: P) -> f64 {
    (a.0 - b.0).hypot(a.1 - b.1)
}

/// Centripetal Catmull-Rom interpolation, 16 points per segment.
fn curve(points: &[(i32, i32)]) -> Vec<P> {
    let p: Vec<P> = points.iter().map(|q| (q.0 as f64, q.1 as f64)).collect();
    if p.len() == 1 {
        return p;
    }
    let n = p.len();
    let refl = |a: P, b: P| (2.0 * a.0 - b.0, 2.0 * a.1 - b.1);
    let mut e = vec![refl(p[0], p[1])];
    e.extend(&p);
    e.push(refl(p[n - 1], p[n - 2]));
    let lerp = |a: P, b: P, t: f64| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
    let mut out = vec![];
    for s in 0..n - 1 {
        let q = &e[s..s + 4];
        out.push(q[1]);
        let mut t = [0.0; 4];
        for k in 0..3 {
            t[k + 1] = t[k] + dist(q[k], q[k + 1]).sqrt();
        }
        for i in 1..16 {
            let x = t[1] + i as f64 / 16.0 * (t[2] - t[1]);
            let a: Vec<P> = (0..3).map(|k| lerp(q[k], q[k + 1], (x - t[k]) / (t[k + 1] - t[k]))).collect();
            let b: Vec<P> = (0..2).map(|k| lerp(a[k], a[k + 1], (x - t[k]) / (t[k + 2] - t[k]))).collect();
            out.push(lerp(b[0], b[1], (x - t[1]) / (t[2] - t[1])));
        }
    }
    out.push(p[n - 1]);
    out
}

/// Points one apart along a polyline, with weights.
fn spaced(p: &[P]) -> Vec<(f64, f64, f64)> {
    let mut out = vec![(p[0].0, p[0].1, 1.0)];
    if p.len() == 1 {
        return out;
    }
    // distance from the last point put out
    let mut acc = 0.0;
    for s in p.windows(2) {
        let l = dist(s[0], s[1]);
        let mut at = 1.0 - acc;
        while at <= l {
            let t = at / l;
            out.push((s[0].0 + (s[1].0 - s[0].0) * t, s[0].1 + (s[1].1 - s[0].1) * t, 1.0));
            at += 1.0;
        }
        acc = l - (at - 1.0);
    }
    let l = p[p.len() - 1];
    out.push((l.0, l.1, acc));
    out
}
