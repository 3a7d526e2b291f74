//! ICC profiles generated for enumerated colour encodings, evaluated by an independent reader.
use crate::color::*;
use crate::core::*;
use jxl::api::{JxlColorEncoding as E, JxlColorProfile as P, JxlPrimaries as Pr, JxlTransferFunction as T, JxlWhitePoint as W};
use jxl::headers::color_encoding::RenderingIntent as Ri;

fn md5(data: &[u8]) -> [u8; 16] {
    let mut s: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_le_bytes());
    let rot = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    for ch in m.chunks(64) {
        let w: Vec<u32> = ch.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        let [mut a, mut b, mut c, mut d] = s;
        for i in 0..64usize {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let k = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
            let t = a.wrapping_add(f).wrapping_add(k).wrapping_add(w[g]).rotate_left(rot[i / 16][i % 4]);
            (a, d, c, b) = (d, c, b, b.wrapping_add(t));
        }
        for (x, y) in s.iter_mut().zip([a, b, c, d]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
    }
    o
}

type R<X> = Result<X, String>;
fn u32be(b: &[u8], p: usize) -> R<u32> {
    b.get(p..p + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).ok_or(format!("cut off at {p}"))
}
fn u16be(b: &[u8], p: usize) -> R<u16> {
    b.get(p..p + 2).map(|x| u16::from_be_bytes(x.try_into().unwrap())).ok_or(format!("cut off at {p}"))
}
fn s15(b: &[u8], p: usize) -> R<f64> {
    Ok(u32be(b, p)? as i32 as f64 / 65536.0)
}

/// A curve and the number of bytes it takes.
#[derive(Debug, Clone)]
enum Curve {
    Para(u16, Vec<f64>),
    Table(Vec<u16>),
}
fn curve(b: &[u8]) -> R<(Curve, usize)> {
    if u32be(b, 4)? != 0 {
        return Err("reserved bytes of a curve".into());
    }
    match &b[..4] {
        b"para" => {
            let k = u16be(b, 8)?;
            if u16be(b, 10)? != 0 {
                return Err("reserved bytes of a curve".into());
            }
            let n = *[1, 3, 4, 5, 7].get(k as usize).ok_or(format!("curve type {k}"))?;
            let v = (0..n).map(|i| s15(b, 12 + 4 * i)).collect::<R<Vec<_>>>()?;
            Ok((Curve::Para(k, v), 12 + 4 * n))
        }
        b"curv" => {
            let n = u32be(b, 8)? as usize;
            if n > 4096 {
                return Err(format!("table of {n}"));
            }
            Ok((Curve::Table((0..n).map(|i| u16be(b, 12 + 2 * i)).collect::<R<_>>()?), 12 + 2 * n))
        }
        x => Err(format!("curve of type {x:?}")),
    }
}
impl Curve {
    fn eval(&self, x: f64) -> f64 {
        match self {
            Curve::Para(k, p) => {
                let g = p[0];
                let pw = |a: f64, b: f64| (a * x + b).max(0.0).powf(g);
                match k {
                    0 => x.powf(g),
                    1 => if x >= -p[2] / p[1] { pw(p[1], p[2]) } else { 0.0 },
                    2 => if x >= -p[2] / p[1] { pw(p[1], p[2]) + p[3] } else { p[3] },
                    3 => if x >= p[4] { pw(p[1], p[2]) } else { p[3] * x },
                    _ => if x >= p[4] { pw(p[1], p[2]) + p[5] } else { p[3] * x + p[6] },
                }
            }
            Curve::Table(t) => match t.len() {
                0 => x,
                1 => x.powf(t[0] as f64 / 256.0),
                n => {
                    let p = x * (n - 1) as f64;
                    let i = (p as usize).min(n - 2);
                    let f = p - i as f64;
                    (t[i] as f64 * (1.0 - f) + t[i + 1] as f64 * f) / 65535.0
                }
            },
        }
    }
}

fn pq_eotf(x: f64) -> f64 {
    let xp = x.powf(32.0 / 2523.0);
    ((xp - 3424.0 / 4096.0).max(0.0) / (2413.0 / 128.0 - 2392.0 / 128.0 * xp)).powf(16384.0 / 2610.0)
}
fn pq_inv(y: f64) -> f64 {
    let xp = y.max(0.0).powf(2610.0 / 16384.0);
    ((3424.0 / 4096.0 + xp * 2413.0 / 128.0) / (1.0 + xp * 2392.0 / 128.0)).powf(2523.0 / 32.0)
}
fn hlg_inv(x: f64) -> f64 {
    let (a, c) = (0.17883277, 0.5599107295);
    if x <= 0.5 { x * x / 3.0 } else { (((x - c) / a).exp() + 1.0 - 4.0 * a) / 12.0 }
}
/// Encoded to linear.
fn eotf(t: &T, x: f64) -> f64 {
    match t {
        T::Linear => x,
        T::SRGB => if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) },
        T::BT709 => if x < 0.081 { x / 4.5 } else { ((x + 0.099) / 1.099).powf(1.0 / 0.45) },
        T::DCI => x.powf(2.6),
        T::Gamma(g) => x.powf(1.0 / *g as f64),
        T::PQ => pq_eotf(x),
        T::HLG => hlg_inv(x),
    }
}

/// Tone mapping of an HDR signal to the Lab values an SDR profile gives (0..255 each).
fn tone_mapped(t: &T, lum: [f64; 3], to_d50: &M, x: [f64; 3]) -> [f64; 3] {
    let mut l = x.map(|x| eotf(t, x));
    let y = |l: &[f64; 3]| (0..3).map(|c| l[c] * lum[c]).sum::<f64>();
    match t {
        T::PQ => {
            // BT.2408: 10000 nits to 250 nits
            let nits = 10000.0 * y(&l);
            let max = pq_inv(0.025);
            let ks = 1.5 * max - 0.5;
            let e1 = pq_inv(nits / 10000.0).min(1.0);
            let e2 = if e1 < ks {
                e1
            } else {
                let t = (e1 - ks) / (1.0 - ks);
                (2.0 * t.powi(3) - 3.0 * t * t + 1.0) * ks + (t.powi(3) - 2.0 * t * t + t) * (1.0 - ks) + (-2.0 * t.powi(3) + 3.0 * t * t) * max
            };
            let new = (pq_eotf(e2) * 10000.0).clamp(0.0, 250.0);
            l = if nits <= 1e-6 { [new / 250.0; 3] } else { l.map(|v| v * new / nits * 40.0) };
        }
        _ => {
            let e = 1.2 * 1.111f64.powf((80.0f64 / 1000.0).log2()) - 1.0;
            let m = y(&l);
            l = l.map(|v| if m > 0.0 { v * m.powf(e) } else { 0.0 });
        }
    }
    // desaturation of what is out of gamut
    let g = y(&l);
    let (mut sat, mut lumi) = (0.0f64, 0.0f64);
    for v in l {
        let d = v - g;
        let i = if d == 0.0 { 1.0 } else { 1.0 / d };
        if d < 0.0 {
            sat = sat.max(v * i);
        }
        lumi = lumi.max(if d <= 0.0 { sat } else { v * i - i });
    }
    let mix = (0.3 * (sat - lumi) + lumi).clamp(0.0, 1.0);
    l = l.map(|v| v + mix * (g - v));
    let m = l[0].max(l[1]).max(l[2]).max(1.0);
    l = l.map(|v| v / m);
    let v = apply(to_d50, l);
    let f = |x: f64| if x <= (6.0f64 / 29.0).powi(3) { x * 841.0 / 108.0 + 4.0 / 29.0 } else { x.cbrt() };
    let (fx, fy, fz) = (f(v[0] / 0.9642), f(v[1]), f(v[2] / 0.8252));
    [
        255.0 * (1.16 * fy - 0.16).clamp(0.0, 1.0),
        128.0 + (500.0 * (fx - fy)).clamp(-128.0, 127.0),
        128.0 + (200.0 * (fy - fz)).clamp(-128.0, 127.0),
    ]
}

fn xyz_tag(b: &[u8]) -> R<[f64; 3]> {
    if b.len() != 20 || &b[..8] != b"XYZ \0\0\0\0" {
        return Err("XYZ tag".into());
    }
    Ok([s15(b, 8)?, s15(b, 12)?, s15(b, 16)?])
}

fn mluc(b: &[u8]) -> R<String> {
    if b.get(..8) != Some(b"mluc\0\0\0\0") || u32be(b, 12)? != 12 || u32be(b, 8)? == 0 {
        return Err("text tag".into());
    }
    let (n, o) = (u32be(b, 20)? as usize, u32be(b, 24)? as usize);
    let t = b.get(o..o + n).ok_or("text outside of its tag")?;
    if n % 2 != 0 || o != 28 || o + n != b.len() {
        return Err("text layout".into());
    }
    String::from_utf16(&t.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect::<Vec<_>>()).map_err(|e| e.to_string())
}

fn near(what: &str, a: f64, b: f64, tol: f64) -> R<()> {
    if (a - b).abs() <= tol { Ok(()) } else { Err(format!("{what}: {a} instead of {b} (tolerance {tol:e})")) }
}

fn chroma(src: &mut Src, lo: f32, hi: f32) -> f32 {
    ((lo + (hi - lo) * src.unit() as f32) * 1e6).round() * 1e-6
}

fn white(src: &mut Src) -> W {
    match src.below(5) {
        0 | 1 => W::D65,
        2 => W::E,
        3 => W::DCI,
        _ => W::Chromaticity { wx: chroma(src, 0.2, 0.5), wy: chroma(src, 0.2, 0.5) },
    }
}
fn prim(src: &mut Src) -> Pr {
    match src.below(5) {
        0 => Pr::SRGB,
        1 => Pr::BT2100,
        2 => Pr::P3,
        _ => Pr::Chromaticities {
            rx: chroma(src, 0.55, 0.75),
            ry: chroma(src, 0.25, 0.37),
            gx: chroma(src, 0.1, 0.35),
            gy: chroma(src, 0.55, 0.8),
            bx: chroma(src, 0.1, 0.2),
            by: chroma(src, -0.08, 0.1),
        },
    }
}
fn tf(src: &mut Src) -> T {
    match src.below(7) {
        0 => T::BT709,
        1 => T::Linear,
        2 => T::SRGB,
        3 => T::PQ,
        4 => T::DCI,
        5 => T::HLG,
        _ => T::Gamma((src.urange(1221, 10_000_000) as f64 * 1e-7) as f32),
    }
}
fn intent(src: &mut Src) -> Ri {
    *src.pick(&[Ri::Perceptual, Ri::Relative, Ri::Saturation, Ri::Absolute])
}
fn encoding(src: &mut Src) -> E {
    match src.below(8) {
        0 => E::XYB { rendering_intent: Ri::Perceptual },
        1 | 2 => E::GrayscaleColorSpace { white_point: white(src), transfer_function: tf(src), rendering_intent: intent(src) },
        _ => E::RgbColorSpace { white_point: white(src), primaries: prim(src), transfer_function: tf(src), rendering_intent: intent(src) },
    }
}
fn wxy(w: &W) -> (f64, f64) {
    match w {
        W::D65 => D65,
        W::E => (1.0 / 3.0, 1.0 / 3.0),
        W::DCI => (0.314, 0.351),
        W::Chromaticity { wx, wy } => (*wx as f64, *wy as f64),
    }
}
fn pxy(p: &Pr) -> [(f64, f64); 3] {
    match p {
        Pr::SRGB => [(0.64, 0.33), (0.3, 0.6), (0.15, 0.06)],
        Pr::BT2100 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
        Pr::P3 => [(0.680, 0.320), (0.265, 0.690), (0.150, 0.060)],
        Pr::Chromaticities { rx, ry, gx, gy, bx, by } => [(*rx, *ry), (*gx, *gy), (*bx, *by)].map(|p| (p.0 as f64, p.1 as f64)),
    }
}

/// What the profile of `e` has to say.
fn check(e: &E, icc: &[u8], src: &mut Src) -> R<()> {
    let n = icc.len();
    if n < 132 || u32be(icc, 0)? as usize != n || n % 4 != 0 {
        return Err(format!("size field {} of {n} bytes", u32be(icc, 0)?));
    }
    let (gray, xyb) = (matches!(e, E::GrayscaleColorSpace { .. }), matches!(e, E::XYB { .. }));
    let (ri, t, w, p) = match e {
        E::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => (rendering_intent, Some(transfer_function), white_point, Some(primaries)),
        E::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => (rendering_intent, Some(transfer_function), white_point, None),
        E::XYB { rendering_intent } => (rendering_intent, None, &W::D65, None),
    };
    let hdr = matches!(t, Some(T::PQ | T::HLG))
        && match (w, p) {
            (W::D65, Some(Pr::SRGB | Pr::BT2100 | Pr::P3)) | (W::DCI, Some(Pr::P3)) => true,
            _ => false,
        };
    let field = |what: &str, p: usize, v: &[u8]| if &icc[p..p + v.len()] == v { Ok(()) } else { Err(format!("{what}: {:?} instead of {v:?}", &icc[p..p + v.len()])) };
    field("version", 8, &[4, 0x40, 0, 0])?;
    field("class", 12, if xyb { b"scnr" } else { b"mntr" })?;
    field("colour space", 16, if gray { b"GRAY" } else { b"RGB " })?;
    field("connection space", 20, if hdr { b"Lab " } else { b"XYZ " })?;
    field("signature", 36, b"acsp")?;
    field("flags", 44, &[0; 20])?;
    field("intent", 64, &(*ri as u32).to_be_bytes())?;
    field("illuminant", 68, &[0, 0, 0xf6, 0xd6, 0, 1, 0, 0, 0, 0, 0xd3, 0x2d])?;
    field("reserved", 100, &[0; 28])?;
    for (what, p, lo, hi) in [("month", 26, 1, 12), ("day", 28, 1, 31), ("hour", 30, 0, 23), ("minute", 32, 0, 59), ("second", 34, 0, 59)] {
        let v = u16be(icc, p)?;
        if v < lo || v > hi {
            return Err(format!("{what} {v}"));
        }
    }
    let mut z = icc.to_vec();
    z[44..48].fill(0);
    z[64..68].fill(0);
    z[84..100].fill(0);
    field("profile ID", 84, &md5(&z))?;
    // tags
    let count = u32be(icc, 128)? as usize;
    let mut tags: Vec<([u8; 4], &[u8], usize)> = vec![];
    for i in 0..count {
        let at = 132 + 12 * i;
        let sig: [u8; 4] = icc.get(at..at + 4).ok_or("tag table cut off")?.try_into().unwrap();
        let (o, s) = (u32be(icc, at + 4)? as usize, u32be(icc, at + 8)? as usize);
        if o % 4 != 0 || o < 132 + 12 * count || o + s > n || s < 8 {
            return Err(format!("tag {} at {o}, {s} bytes", String::from_utf8_lossy(&sig)));
        }
        if tags.iter().any(|x| x.0 == sig) {
            return Err(format!("tag {} twice", String::from_utf8_lossy(&sig)));
        }
        for x in &tags {
            if !(x.2 == o && x.1.len() == s || o + s <= x.2 || x.2 + x.1.len() <= o) {
                return Err("tags overlap".into());
            }
        }
        tags.push((sig, &icc[o..o + s], o));
    }
    let tag = |s: &[u8; 4]| tags.iter().find(|t| &t.0 == s).map(|t| t.1);
    let need = |s: &[u8; 4]| tag(s).ok_or(format!("no tag {}", String::from_utf8_lossy(s)));
    mluc(need(b"cprt")?)?;
    let desc = mluc(need(b"desc")?)?;
    let wn = match w {
        W::D65 => "D65",
        W::E => "EER",
        W::DCI => "DCI",
        _ => "",
    };
    let tn = match t {
        Some(T::BT709) => "709",
        Some(T::Linear) => "Lin",
        Some(T::SRGB) => "SRG",
        Some(T::PQ) => "PeQ",
        Some(T::DCI) => "DCI",
        Some(T::HLG) => "HLG",
        _ => "",
    };
    let rn = ["Per", "Rel", "Sat", "Abs"][*ri as usize];
    let want = match (w, p, t, ri) {
        (W::D65, Some(Pr::SRGB), Some(T::SRGB), Ri::Perceptual) => "sRGB".into(),
        (W::D65, Some(Pr::P3), Some(T::SRGB), Ri::Perceptual) => "DisplayP3".into(),
        (W::D65, Some(Pr::BT2100), Some(T::PQ), Ri::Relative) => "Rec2100PQ".into(),
        (W::D65, Some(Pr::BT2100), Some(T::HLG), Ri::Relative) => "Rec2100HLG".into(),
        (W::Chromaticity { .. }, ..) | (_, Some(Pr::Chromaticities { .. }), ..) | (_, _, Some(T::Gamma(_)), _) => String::new(),
        (_, Some(p), ..) => format!("RGB_{wn}_{}_{rn}_{tn}", match p { Pr::SRGB => "SRG", Pr::BT2100 => "202", _ => "DCI" }),
        _ if gray => format!("Gra_{wn}_{rn}_{tn}"),
        _ => "XYB_Per".into(),
    };
    if desc != want && !(want.is_empty() && desc.starts_with(if gray { "Gra_" } else { "RGB_" }) && desc.contains(rn)) {
        return Err(format!("description {desc:?} instead of {want:?}"));
    }
    // white point
    let wp = xyz_tag(need(b"wtpt")?)?;
    let q = 0.6 / 65536.0;
    let wxyz = xyz_of(wxy(w));
    for c in 0..3 {
        if gray {
            near("white point", wp[c], wxyz[c], q + 1e-6 * wxyz[c].abs())?;
        } else {
            near("white point", wp[c], [0.9642, 1.0, 0.8249][c], 5e-5)?;
        }
    }
    if gray != tag(b"chad").is_none() {
        return Err("adaptation tag".into());
    }
    let ad = adapt_d50(wxy(w));
    if let Some(b) = tag(b"chad") {
        if b.len() != 44 || &b[..8] != b"sf32\0\0\0\0" {
            return Err("chad tag".into());
        }
        let m = ad.iter().flatten().fold(0f64, |a, x| a.max(x.abs()));
        for i in 0..9 {
            near("adaptation matrix", s15(b, 8 + 4 * i)?, ad[i / 3][i % 3], q + 2e-6 * m)?;
        }
    }
    // cicp
    let cp = match (w, p) {
        (W::D65, Some(Pr::SRGB)) => 1,
        (W::D65, Some(Pr::BT2100)) => 9,
        (W::D65, Some(Pr::P3)) => 12,
        (W::DCI, Some(Pr::P3)) => 11,
        _ => 0,
    };
    let ct = match t {
        Some(T::BT709) => 1,
        Some(T::Linear) => 8,
        Some(T::SRGB) => 13,
        Some(T::PQ) => 16,
        Some(T::DCI) => 17,
        Some(T::HLG) => 18,
        _ => 0,
    };
    match tag(b"cicp") {
        None if cp == 0 || ct == 0 => {}
        Some(b) if cp != 0 && ct != 0 && b == [b'c', b'i', b'c', b'p', 0, 0, 0, 0, cp, ct, 0, 1] => {}
        x => return Err(format!("cicp {x:?} instead of {cp} {ct}")),
    }
    let to_d50 = p.map(|p| mul(&ad, &rgb_to_xyz(pxy(p), wxy(w))));
    if let Some(m) = &to_d50 {
        let mx = m.iter().flatten().fold(1f64, |a, x| a.max(x.abs()));
        // the decoder's sRGB primaries are those of its reference implementation, not exact
        let tol = q + 3e-6 * mx + if matches!(p, Some(Pr::SRGB)) { 3e-4 * mx } else { 0.0 };
        for (j, s) in [b"rXYZ", b"gXYZ", b"bXYZ"].into_iter().enumerate() {
            let v = xyz_tag(need(s)?)?;
            for i in 0..3 {
                near("primaries", v[i], m[i][j], tol)?;
            }
        }
    }
    if hdr || xyb {
        let b = need(b"B2A0")?;
        if b.len() < 32 || &b[..10] != b"mBA \0\0\0\0\x03\x03" {
            return Err("B2A0".into());
        }
        let mut at = u32be(b, 12)? as usize;
        for _ in 0..3 {
            let (c, l) = curve(b.get(at..).ok_or("B2A0 curve")?)?;
            near("B2A0 curve", c.eval(0.3), 0.3, 1e-4)?;
            at += l;
        }
        for i in 1..5 {
            if u32be(b, 12 + 4 * i)? != 0 {
                return Err("B2A0 has more than curves".into());
            }
        }
    } else {
        let t = t.unwrap();
        let names: &[&[u8; 4]] = if gray { &[b"kTRC"] } else { &[b"rTRC", b"gTRC", b"bTRC"] };
        for s in names {
            let b = need(s)?;
            let (c, l) = curve(b)?;
            if l != b.len() {
                return Err(format!("curve of {l} bytes in a tag of {} ({c:?})", b.len()));
            }
            let steps = if let Curve::Table(t) = &c { (t.len() - 1).max(1) } else { 64 };
            for i in 0..=steps {
                let x = i as f64 / steps as f64;
                // parameters have 16 fractional bits
                let tol = match t {
                    T::Gamma(g) => 1e-5 + 1e-5 * (*g as f64),
                    _ => 4e-5,
                };
                near(&format!("curve at {x}"), c.eval(x), eotf(t, x).clamp(0.0, 1.0), tol)?;
            }
        }
    }
    if hdr {
        let b = need(b"A2B0")?;
        let t = t.unwrap();
        if &b[..11] != b"mft1\0\0\0\0\x03\x03\x09" || b.len() < 48 + 768 + 2187 + 768 {
            return Err("A2B0".into());
        }
        for i in 0..9 {
            near("A2B0 matrix", s15(b, 12 + 4 * i)?, if i % 4 == 0 { 1.0 } else { 0.0 }, 0.0)?;
        }
        for i in 0..768 {
            if b[48 + i] != i as u8 || b[48 + 768 + 2187 + i] != i as u8 {
                return Err("A2B0 tables".into());
            }
        }
        let lum = rgb_to_xyz(pxy(p.unwrap()), wxy(w))[1];
        // a random part of the table, and its corners
        for k in 0..60 {
            let i = match k {
                0 => 0,
                1 => 728,
                _ => src.usize(728),
            };
            let x = [(i / 81) as f64 / 8.0, (i / 9 % 9) as f64 / 8.0, (i % 9) as f64 / 8.0];
            let m = tone_mapped(t, lum, &to_d50.unwrap(), x);
            for c in 0..3 {
                near(&format!("A2B0 entry {i}.{c}"), b[48 + 768 + 3 * i + c] as f64, m[c], 1.2)?;
            }
        }
    } else if tag(b"A2B0").is_some() != xyb {
        return Err("A2B0 for a profile that needs none".into());
    }
    if xyb {
        let b = need(b"A2B0")?;
        if b.len() < 32 || &b[..10] != b"mAB \0\0\0\0\x03\x03" {
            return Err("A2B0".into());
        }
        let off: Vec<usize> = (0..5).map(|i| u32be(b, 12 + 4 * i).map(|x| x as usize)).collect::<R<_>>()?;
        let curves = |mut at: usize| -> R<Vec<Curve>> {
            (0..3)
                .map(|_| {
                    let (c, l) = curve(b.get(at..).ok_or("A2B0 curve")?)?;
                    at += l.next_multiple_of(4);
                    Ok(c)
                })
                .collect()
        };
        let (bc, mc, ac) = (curves(off[0])?, curves(off[2])?, curves(off[4])?);
        let cl = off[3];
        if b.get(cl..cl + 20).map(|x| &x[..3]) != Some(&[2, 2, 2]) || b[cl + 16] != 2 {
            return Err("A2B0 table".into());
        }
        for _ in 0..20 {
            // a colour of sRGB as it is coded
            let l: [f64; 3] = std::array::from_fn(|_| src.below(1001) as f64 / 1000.0);
            let om: M = std::array::from_fn(|i| std::array::from_fn(|j| OPSIN[3 * i + j]));
            let bias = 0.0037930732552754493f64;
            let g = apply(&inv(&om), l).map(|v| (v + bias).max(0.0).cbrt() - bias.cbrt());
            let xyb = [(g[0] - g[1]) / 2.0, (g[0] + g[1]) / 2.0, g[2]];
            let dev = [(xyb[0] + 0.015386134) * 22.995788804, xyb[1] * 1.183000077, (xyb[2] - xyb[1] + 0.27770459) * 1.502141333];
            let a: [f64; 3] = std::array::from_fn(|c| ac[c].eval(dev[c]));
            let mut v = [0.0; 3];
            for k in 0..8usize {
                let mut wgt = 1.0;
                for c in 0..3 {
                    wgt *= if k >> (2 - c) & 1 == 1 { a[c] } else { 1.0 - a[c] };
                }
                for c in 0..3 {
                    v[c] += wgt * u16be(b, cl + 20 + 6 * k + 2 * c)? as f64 / 65535.0;
                }
            }
            let m: [f64; 3] = std::array::from_fn(|c| mc[c].eval(v[c]));
            for c in 0..3 {
                let mut y = s15(b, off[1] + 36 + 4 * c)?;
                for j in 0..3 {
                    y += m[j] * s15(b, off[1] + 12 * c + 4 * j)?;
                }
                let y = bc[c].eval(y.max(0.0));
                let want = apply(&mul(&adapt_d50(D65), &rgb_to_xyz(SRGB, D65)), l)[c] * 32768.0 / 65535.0;
                near(&format!("XYB profile for {l:?}, output {c}"), y, want, 5e-4)?;
            }
        }
    }
    Ok(())
}

fn xyz_of(w: (f64, f64)) -> [f64; 3] {
    [w.0 / w.1, 1.0, (1.0 - w.0 - w.1) / w.1]
}

fn same(a: &E, b: &E) -> bool {
    match (a, b) {
        (E::RgbColorSpace { white_point: w, primaries: p, transfer_function: t, .. }, E::RgbColorSpace { white_point: w2, primaries: p2, transfer_function: t2, .. }) => w == w2 && p == p2 && t == t2,
        (E::GrayscaleColorSpace { white_point: w, transfer_function: t, .. }, E::GrayscaleColorSpace { white_point: w2, transfer_function: t2, .. }) => w == w2 && t == t2,
        _ => false,
    }
}

pub fn c17(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let e = encoding(src);
    let other = match src.below(3) {
        0 => e.clone(),
        1 => encoding(src),
        _ => {
            let (w, t, r) = (white(src), tf(src), intent(src));
            let mut o = e.clone();
            match &mut o {
                E::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent } => match src.below(4) {
                    0 => *white_point = w,
                    1 => *primaries = prim(src),
                    2 => *transfer_function = t,
                    _ => *rendering_intent = r,
                },
                E::GrayscaleColorSpace { white_point, transfer_function, rendering_intent } => match src.below(3) {
                    0 => *white_point = w,
                    1 => *transfer_function = t,
                    _ => *rendering_intent = r,
                },
                _ => {}
            }
            o
        }
    };
    ctx.sample(format!("{e:?}"));
    ctx.nontrivial(hash_bytes(format!("{e:?}").as_bytes()));
    ctx.label(match &e {
        E::XYB { .. } => "XYB",
        E::GrayscaleColorSpace { .. } => "gray",
        _ => "RGB",
    });
    let p = P::Simple(e.clone());
    let bad = |m: String| fail("c17", format!("{e:?}: {m}"));
    let Some(icc) = p.try_as_icc() else { return bad("no profile".into()) };
    if let Err(m) = check(&e, &icc, src) {
        ctx.artifact("icc", &icc);
        return fail(&format!("c17:{}", m.split([':', ' ']).next().unwrap_or("")), format!("{e:?}: {m}"));
    }
    if icc != p.as_icc() || icc != p.try_as_icc().unwrap() {
        return bad("generated twice, profiles differ".into());
    }
    // relations between encodings
    let q = P::Simple(other.clone());
    if p.same_color_encoding(&q) != same(&e, &other) || q.same_color_encoding(&p) != same(&e, &other) {
        return bad(format!("same_color_encoding with {other:?}"));
    }
    let i = P::Icc(icc.to_vec());
    if i.same_color_encoding(&p) || !i.same_color_encoding(&i) || i.same_color_encoding(&P::Icc(q.as_icc().to_vec())) != (icc == q.as_icc()) {
        return bad("same_color_encoding of ICC profiles".into());
    }
    let gray = matches!(e, E::GrayscaleColorSpace { .. });
    if p.channels() != if gray { 1 } else { 3 } || i.channels() != p.channels() || p.is_cmyk() || i.is_cmyk() {
        return bad("number of channels".into());
    }
    let want = match &e {
        E::XYB { .. } => false,
        E::GrayscaleColorSpace { white_point, .. } => *white_point == W::D65,
        _ => true,
    };
    if p.can_output_to() != want || i.can_output_to() {
        return bad("can_output_to".into());
    }
    if i.with_linear_tf().is_some() || i.transfer_function().is_some() {
        return bad("transfer function of an ICC profile".into());
    }
    let Some(P::Simple(l)) = p.with_linear_tf() else { return bad("no linear version".into()) };
    let mut m = e.clone();
    let ok = match &mut m {
        E::RgbColorSpace { transfer_function, .. } | E::GrayscaleColorSpace { transfer_function, .. } => {
            let ok = p.transfer_function() == Some(transfer_function);
            *transfer_function = T::Linear;
            ok && l == m
        }
        E::XYB { .. } => p.transfer_function().is_none() && l == E::linear_srgb(false),
    };
    if !ok {
        return bad(format!("linear version {l:?}"));
    }
    // the checksum, of any data
    if src.chance(1, 4) {
        let mut r = src.rng();
        let d: Vec<u8> = (0..src.usize(200)).map(|_| r.next() as u8).collect();
        if jxl::api::compute_md5(&d) != md5(&d) {
            return bad(format!("md5 of {d:?}"));
        }
    }
    Ok(())
}
