//! What headers say: image information, colour profiles, frames and their positions.
use crate::core::*;
use crate::drv::*;
use crate::enc::bits::*;
use crate::enc::frame::{Piece, Sections};
use crate::enc::headers::*;
use crate::enc::icc;
use crate::{imgs, synth};
use jxl::api::{JxlColorEncoding as E, JxlColorProfile as P, JxlPrimaries, JxlTransferFunction as T, JxlWhitePoint};

fn text(src: &mut Src) -> Vec<u8> {
    let n = match src.below(4) {
        0..2 => 0,
        2 => src.usize(20),
        _ => *src.pick(&[15, 16, 47, 48, 49, 300, 1071]),
    };
    let mut r = src.rng();
    let uni = r.below(4) == 0;
    let mut s = String::new();
    while s.len() < n {
        let c = if uni && r.below(3) == 0 { *['é', '€', '𝄞', 'ÿ'].get(r.below(4) as usize).unwrap() } else { (b' ' + r.below(95) as u8) as char };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s.into_bytes()
}

fn depth(src: &mut Src) -> Depth {
    if src.chance(1, 3) {
        loop {
            let (b, e) = (src.urange(5, 32) as u32, src.urange(2, 8) as u32);
            let b = *src.pick(&[b, 16, 24, 32]);
            if b > e + 2 && b <= e + 24 {
                return Depth::flt(b, e);
            }
        }
    }
    let b = src.urange(1, 31) as u32;
    Depth::int(*src.pick(&[b, 8, 10, 12]))
}

fn half(src: &mut Src, lo: f32, hi: f32) -> f32 {
    let v = lo + (hi - lo) * src.unit() as f32;
    f16_to_f32(f16_bits(v)).clamp(lo, hi)
}

fn chroma(src: &mut Src) -> (i32, i32) {
    let mut c = || {
        let k = src.below(8);
        match k {
            0 => src.range(-(1 << 21) + 1, (1 << 21) - 1) as i32,
            1 => *src.pick(&[262143, 262144, -262144, 524288, -524289, 1048576, 0, -1]),
            _ => src.range(1, 999_999) as i32,
        }
    };
    (c(), c())
}

fn color(src: &mut Src) -> Color {
    let mut c = if src.chance(1, 3) { Color::gray() } else { Color::srgb() };
    if src.chance(1, 3) {
        return c;
    }
    c.white = *src.pick(&[1u32, 2, 10, 11]);
    c.prim = if c.space == 1 { 1 } else { *src.pick(&[1u32, 2, 9, 11]) };
    if c.white == 2 {
        c.white_xy = chroma(src);
    }
    if c.prim == 2 {
        c.prim_xy = [chroma(src), chroma(src), chroma(src)];
    }
    c.tf = match src.below(8) {
        0 => Tf::Gamma(*src.pick(&[10_000_000u32, 4_545_455, 1221, 5_000_000])),
        1 => Tf::Gamma(src.range(1221, 10_000_000) as u32),
        k => Tf::Enum([1, 8, 13, 16, 17, 18][k as usize - 2]),
    };
    c.intent = src.below(4) as u32;
    c
}

fn size(src: &mut Src, big: bool) -> (u32, u32) {
    let max = if big { (1u64 << 30) - 1 } else { 3000 };
    let mut side = |src: &mut Src| match src.below(6) {
        0 => 8 * src.urange(1, 32) as u32,
        1 => src.urange(1, 256) as u32,
        2 => *src.pick(&[1u32, 512, 513, 8192, 8193, 262144, 262145, 1 << 30].map(|v| v.min(max as u32 + 1))),
        _ => 1 + src.log_u(max) as u32,
    };
    let h = side(src);
    let w = if src.bool() {
        // a ratio that has a code
        let (n, d) = *src.pick(&[(1u64, 1), (12, 10), (4, 3), (3, 2), (16, 9), (5, 4), (2, 1)]);
        (h as u64 * n / d).clamp(1, 1 << 30) as u32
    } else {
        side(src)
    };
    (w, h)
}

fn image(src: &mut Src, big: bool) -> ImgHdr {
    let (w, h) = size(src, big);
    let mut img = ImgHdr::new(w, h);
    img.xyb = src.bool();
    if src.chance(1, 2) {
        img.orientation = src.urange(1, 8) as u32;
    }
    if src.chance(1, 4) {
        img.intrinsic = Some(size(src, true));
    }
    if src.chance(1, 4) {
        let mut s = || match src.below(3) {
            0 => 8 * src.urange(1, 512) as u32,
            1 => src.urange(1, 4096) as u32,
            _ => *src.pick(&[16, 64, 65, 128, 320, 321, 1344, 1345, 4096]),
        };
        let (w, h) = (s(), s());
        img.preview = Some(if src.chance(1, 3) { ((h * 4 / 3).clamp(1, 4096), h) } else { (w, h) });
    }
    if src.chance(1, 2) {
        let num = 1 + src.log_u((1 << 30) - 1) as u32;
        let den = 1 + src.log_u(1023) as u32;
        let loops = src.log_u(u32::MAX as u64) as u32;
        img.anim = Some(Anim {
            num: *src.pick(&[num, 100, 1000, 1024, 1025]),
            den: *src.pick(&[den, 1, 1001, 256, 257]),
            loops: *src.pick(&[loops, 0, 7, 8, 65535, 65536]),
            timecodes: src.bool(),
        });
    }
    if src.chance(2, 3) {
        img.depth = depth(src);
    }
    img.m16 = src.bool();
    let n = if src.chance(1, 20) { src.urange(1, 256) } else { src.log_u(20) as usize };
    for _ in 0..n {
        let mut e = Ec::alpha();
        if src.chance(2, 3) {
            e.ty = *src.pick(&[0u32, 1, 2, 3, 4, 5, 6, 15, 16]);
            e.depth = depth(src);
            e.dim_shift = src.below(4) as u32;
            e.name = text(src);
            e.alpha_assoc = e.ty == 0 && src.bool();
            e.spot = [half(src, -2.0, 2.0), half(src, 0.0, 1.0), 0.5, half(src, 0.0, 1.0)];
            e.cfa = 1 + src.log_u(256) as u32;
        }
        img.ecs.push(e);
    }
    img.color = color(src);
    if src.chance(1, 2) {
        let i = half(src, 0.01, 10000.0);
        let relative = src.bool();
        img.tone = Tone { intensity: i, min_nits: half(src, 0.0, i.min(1.0)), relative, linear_below: half(src, 0.0, if relative { 1.0 } else { 500.0 }) };
    }
    if img.xyb && src.chance(1, 4) {
        let mut v = || half(src, -2.0, 11.0);
        img.opsin = Some(Opsin { matrix: std::array::from_fn(|_| v()), biases: std::array::from_fn(|_| v()), quant_biases: std::array::from_fn(|_| v()) });
    }
    for (i, n) in [15, 55, 210].into_iter().enumerate() {
        if src.chance(1, 8) {
            img.up_weights[i] = Some((0..n).map(|_| half(src, -1.0, 1.0)).collect());
        }
    }
    img
}

fn blend(src: &mut Src, n: usize) -> Blend {
    let mode = if src.bool() { 0 } else { src.below(5) as u32 };
    let a = n > 0 && (mode == 2 || mode == 3);
    Blend { mode, alpha: if a { src.usize(n.min(11)) as u32 } else { 0 }, clamp: (a || mode == 4) && src.bool(), source: src.below(4) as u32 }
}

/// The header of a visible frame.
fn frame(src: &mut Src, img: &ImgHdr, last: bool) -> FrameHdr {
    let mut f = FrameHdr::new(img);
    let huge = img.w as u64 * img.h as u64 > 1 << 24 || img.w.max(img.h) > 1 << 18;
    if !huge && img.w as u64 * img.h as u64 <= 1 << 24 && src.chance(1, 8) {
        // (a frame that can be coded as all default)
        (f.modular, f.filter) = (false, Filter::default_());
        f.is_last = last;
        if last {
            return f;
        }
    }
    f.ty = if src.chance(1, 4) { 3 } else { 0 };
    f.modular = src.bool();
    f.flags = if src.bool() { 0 } else { *src.pick(&[1u64, 2, 0x10, 0x80, 0x93, 0x11]) };
    if !img.xyb && src.chance(1, 4) {
        f.ycbcr = true;
        f.jpeg_up = std::array::from_fn(|_| src.below(4) as u32);
    }
    f.upsampling = *src.pick(&[1u32, 1, 1, 2, 4, 8]);
    f.ec_up = img
        .ecs
        .iter()
        .map(|e| {
            let mut u = *src.pick(&[1u32, 2, 4, 8]);
            if f.upsampling > 1 {
                u = u.max(f.upsampling).max(1 << e.dim_shift);
                if f.flags & 2 != 0 {
                    u = f.upsampling;
                }
            }
            u
        })
        .collect();
    if f.upsampling > 1 && img.ecs.iter().zip(&f.ec_up).any(|(e, &u)| u >> e.dim_shift == 0) {
        f.flags &= !2;
        f.ec_up = img.ecs.iter().map(|e| f.upsampling.max(1 << e.dim_shift)).collect();
    }
    f.group_shift = if f.modular { src.below(4) as u32 } else { 1 };
    if !f.modular && img.xyb {
        f.x_qm = src.below(8) as u32;
        f.b_qm = src.below(8) as u32;
    }
    f.passes = synth::gen_passes(src);
    let (sw, sh) = f.size(img);
    if src.bool() || huge || sw.div_ceil(128) as u64 * sh.div_ceil(128) as u64 * f.passes.num as u64 > 2000 {
        let mut at = |src: &mut Src| {
            let v = src.log_u(1 << 29) as i32;
            let v = *src.pick(&[v, 0, 5, 127, 128, 1152, 9344, 9345]);
            if src.bool() { -v } else { v }
        };
        let mut side = |src: &mut Src| {
            let v = 1 + src.log_u(3000) as u32;
            *src.pick(&[v, 255, 256, 2303, 2304])
        };
        f.crop = Some((at(src), at(src), side(src), side(src)));
    }
    f.blend = blend(src, img.ecs.len());
    f.ec_blend = img.ecs.iter().map(|_| blend(src, img.ecs.len())).collect();
    if let Some(a) = img.anim {
        let d = src.log_u(u32::MAX as u64) as u32;
        f.duration = *src.pick(&[d, 0, 1, 255, 256]);
        if !last {
            f.duration = f.duration.max(1);
        }
        f.timecode = if a.timecodes { src.below(1 << 32) as u32 } else { 0 };
    }
    f.is_last = last;
    f.save_as = if last { 0 } else { src.below(4) as u32 };
    f.save_before_ct = src.bool();
    f.name = text(src);
    if src.chance(1, 2) {
        f.filter = Filter::default_();
    }
    f
}

struct Coded {
    img: ImgHdr,
    frames: Vec<FrameHdr>,
    bytes: Vec<u8>,
    offs: Vec<usize>,
    icc: Option<Vec<u8>>,
    desc: String,
}

/// A file with sections of noise.
fn coded(src: &mut Src, ctx: &mut Ctx, want_icc: bool) -> Coded {
    let big = src.bool();
    let mut img = image(src, big);
    let mut desc = format!("{}x{} o{} {:?} xyb{} ec{} {:?}", img.w, img.h, img.orientation, img.depth, img.xyb, img.ecs.len(), img.color);
    let icc = if want_icc {
        img.color = Color { want_icc: true, ..if img.color.space == 1 { Color::gray() } else { Color::srgb() } };
        let max = if ctx.tier == Tier::Thorough && src.chance(1, 300) { 1 << 21 } else { 20000 };
        Some(icc::profile(src, max))
    } else {
        None
    };
    let mut bw = BitWriter::new();
    if src.chance(1, 2) {
        bw.alt = Some(Rng2(src.rng()));
    }
    img.write(&mut bw);
    if let Some(p) = &icc {
        desc += &format!(" icc {} bytes: ", p.len());
        bw.alt = None;
        desc += &icc::write(&mut bw, src, p);
    }
    let mut bytes = bw.finish();
    let mut frames = vec![];
    let mut offs = vec![];
    if let Some((w, h)) = img.preview {
        let mut p = ImgHdr { w, h, preview: None, ..img.clone() };
        p.ecs = img.ecs.clone();
        let mut f = FrameHdr::new(&p);
        f.name = text(src);
        bytes.extend(body(src, &p, &f));
    }
    let n = if img.anim.is_some() { src.urange(1, 6) } else { 1 };
    for i in 0..n {
        offs.push(bytes.len());
        let f = frame(src, &img, i + 1 == n);
        desc += &format!("\n frame {f:?}");
        bytes.extend(body(src, &img, &f));
        frames.push(f);
    }
    offs.push(bytes.len());
    Coded { img, frames, bytes, offs, icc, desc }
}

fn body(src: &mut Src, img: &ImgHdr, f: &FrameHdr) -> Vec<u8> {
    let mut sec = Sections::new(img, f);
    let mut r = src.rng();
    let mean = *src.pick(&[0u64, 1, 30, 2000]);
    let mut put = |v: &mut Vec<Piece>, big: bool| {
        let n = if big { 20000 } else { r.below(mean + 1) };
        let mut b = BitWriter::new();
        for _ in 0..n {
            b.write(8, r.below(256));
        }
        v.push(Piece::Bits(b));
    };
    let big = mean == 2000;
    put(&mut sec.lf_global, big);
    let many = sec.pass.len() > 300;
    sec.lf.iter_mut().for_each(|v| put(v, false));
    put(&mut sec.hf_global, false);
    sec.pass.iter_mut().step_by(if many { 50 } else { 1 }).for_each(|v| put(v, false));
    sec.assemble(src, img, f, vec![]).0
}

fn near(a: f32, micro: i32) -> bool {
    (a as f64 - micro as f64 * 1e-6).abs() <= 2e-7 * (micro as f64 * 1e-6).abs()
}

fn white_ok(w: &JxlWhitePoint, c: &Color) -> bool {
    match w {
        JxlWhitePoint::D65 => c.white == 1,
        JxlWhitePoint::E => c.white == 10,
        JxlWhitePoint::DCI => c.white == 11,
        JxlWhitePoint::Chromaticity { wx, wy } => c.white == 2 && near(*wx, c.white_xy.0) && near(*wy, c.white_xy.1),
    }
}

fn tf_ok(t: &T, c: &Color) -> bool {
    match (t, c.tf) {
        (T::Gamma(g), Tf::Gamma(k)) => (*g as f64 - k as f64 * 1e-7).abs() <= 3e-7 * *g as f64,
        (T::BT709, Tf::Enum(1)) | (T::Linear, Tf::Enum(8)) | (T::SRGB, Tf::Enum(13)) => true,
        (T::PQ, Tf::Enum(16)) | (T::DCI, Tf::Enum(17)) | (T::HLG, Tf::Enum(18)) => true,
        _ => false,
    }
}

fn profile_ok(p: &P, c: &Color) -> bool {
    match p {
        P::Simple(E::RgbColorSpace { white_point, primaries, transfer_function, rendering_intent }) => {
            let prim = match primaries {
                JxlPrimaries::SRGB => c.prim == 1,
                JxlPrimaries::BT2100 => c.prim == 9,
                JxlPrimaries::P3 => c.prim == 11,
                JxlPrimaries::Chromaticities { rx, ry, gx, gy, bx, by } => {
                    c.prim == 2 && [(rx, ry), (gx, gy), (bx, by)].iter().zip(&c.prim_xy).all(|((x, y), p)| near(**x, p.0) && near(**y, p.1))
                }
            };
            c.space == 0 && prim && white_ok(white_point, c) && tf_ok(transfer_function, c) && *rendering_intent as u32 == c.intent
        }
        P::Simple(E::GrayscaleColorSpace { white_point, transfer_function, rendering_intent }) => {
            c.space == 1 && white_ok(white_point, c) && tf_ok(transfer_function, c) && *rendering_intent as u32 == c.intent
        }
        _ => false,
    }
}

/// A file with all kinds of headers and sections of noise, which may break rules.
pub fn noise(src: &mut Src, ctx: &mut Ctx, wild: bool) -> (Vec<u8>, String) {
    let icc = src.bool();
    if wild {
        imgs::set_wild(src);
    }
    let c = coded(src, ctx, icc);
    imgs::unset_wild();
    ctx.label(if icc { "source:headers and ICC" } else { "source:headers" });
    (c.bytes, c.desc)
}

/// Headers are reported as coded.
pub fn c15(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let c = coded(src, ctx, false);
    check(src, ctx, c, "c15")
}

/// Embedded ICC profiles are recovered.
pub fn c16(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let c = coded(src, ctx, true);
    check(src, ctx, c, "c16")
}

fn check(src: &mut Src, ctx: &mut Ctx, c: Coded, sig: &str) -> PropResult {
    let (img, desc) = (&c.img, &c.desc);
    ctx.artifact("jxl", &c.bytes);
    ctx.nontrivial(hash_bytes(&c.bytes));
    ctx.label(if img.anim.is_some() { "animation" } else { "still" });
    ctx.sample(desc.clone());
    let mut cfg = Cfg { limit: None, scan_only: true, ..Cfg::default() };
    // samples are not asked for
    cfg.fmt = FmtSel::Default;
    if src.bool() {
        cfg.feed = feed(src, c.bytes.len());
    }
    cfg.no_pixels = true;
    let d = decode(&c.bytes, &cfg);
    let bad = |m: String| fail(sig, format!("{desc}: {m}"));
    let Some(i) = &d.info else { return bad(format!("no image information: {:?}", d.end)) };
    if d.end != End::Complete {
        return bad(format!("ended with {:?} after {} of {} frames", d.end, d.frames.len(), c.frames.len()));
    }
    let size = if img.orientation > 4 { (img.h, img.w) } else { (img.w, img.h) };
    macro_rules! eq {
        ($name:expr, $got:expr, $want:expr) => {
            let (g, w) = ($got, $want);
            if g != w {
                return bad(format!("{} is {g:?} instead of {w:?}", $name));
            }
        };
    }
    eq!("size", i.size, (size.0 as usize, size.1 as usize));
    eq!("orientation", i.orientation, img.orientation);
    eq!("bits", i.bits, img.depth.bits);
    eq!("exponent bits", i.exp, img.depth.float.then_some(img.depth.exp));
    eq!("extra channels", &i.ecs, &img.ecs.iter().map(|e| (e.ty, e.alpha_assoc)).collect::<Vec<_>>());
    eq!("animation", i.anim, img.anim.map(|a| (a.num, a.den, a.loops, a.timecodes)));
    eq!("use of the original profile", i.uses_original_profile, !img.xyb);
    let t = img.tone;
    eq!("tone mapping", i.tone, (t.intensity, t.min_nits, t.relative, t.linear_below));
    eq!("preview", i.preview, img.preview.map(|p| (p.0 as usize, p.1 as usize)));
    eq!("gray", i.gray, img.is_gray());
    match &c.icc {
        Some(p) => {
            if let Some(g) = &i.emb_icc {
                if g != p {
                    let at = g.iter().zip(p).position(|(a, b)| a != b).unwrap_or(g.len().min(p.len()));
                    return bad(format!("ICC profile of {} bytes instead of {}, differs at {at}: {:?} instead of {:?}", g.len(), p.len(), &g[at..g.len().min(at + 40)], &p[at - at.min(50)..p.len().min(at + 40)]));
                }
            } else {
                return bad("no ICC profile".into());
            }
        }
        None => {
            if !profile_ok(&i.profiles.0, &img.color) {
                return bad(format!("profile {:?}", i.profiles));
            }
        }
    }
    // without conversions, the output has the embedded profile; XYB is converted to it if possible
    if !img.xyb || c.icc.is_none() && !img.is_gray() {
        if i.profiles.0 != i.profiles.1 {
            return bad(format!("output profile {:?}", i.profiles));
        }
    } else if c.icc.is_some() {
        let want = Color { tf: Tf::Enum(8), ..if img.is_gray() { Color::gray() } else { Color::srgb() } };
        if !profile_ok(&i.profiles.1, &want) {
            return bad(format!("output profile {:?} for XYB with an ICC profile", i.profiles));
        }
    }
    eq!("number of frames", d.frames.len(), c.frames.len());
    eq!("number of frames scanned", d.scanned.len(), c.frames.len());
    eq!("file length", d.file_length, Some(c.bytes.len() as u64));
    let needed = first_needed(&c.frames, img);
    for (k, f) in c.frames.iter().enumerate() {
        let (g, s) = (&d.frames[k], &d.scanned[k]);
        eq!(format!("name of frame {k}"), g.name.as_bytes(), &f.name[..]);
        eq!(format!("scanned name of frame {k}"), s.name.as_bytes(), &f.name[..]);
        let ms = |a: &Anim| f.duration as f64 * 1000.0 * a.den as f64 / a.num as f64;
        let close = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
        match (&img.anim, g.duration) {
            (Some(a), Some(v)) if close(v, ms(a)) => {}
            (None, None) => {}
            (_, v) => return bad(format!("duration of frame {k} is {v:?}")),
        }
        if !close(s.duration_ms, img.anim.as_ref().map_or(0.0, ms)) {
            return bad(format!("scanned duration of frame {k} is {}", s.duration_ms));
        }
        eq!(format!("ticks of frame {k}"), s.duration_ticks, f.duration);
        eq!(format!("index of frame {k}"), s.index, k);
        eq!(format!("offset of frame {k}"), s.file_offset, c.offs[k] as u64);
        eq!(format!("is_last of frame {k}"), s.is_last, f.is_last);
        eq!(format!("size of frame {k}"), g.size, (size.0 as usize, size.1 as usize));
        // where decoding has to start
        let t = &s.seek_target;
        let Some(j) = k.checked_sub(t.visible_frames_to_skip) else { return bad(format!("frame {k} skips {} frames", t.visible_frames_to_skip)) };
        eq!(format!("start of decoding for frame {k}"), t.decode_start_file_offset, c.offs[j] as u64);
        eq!(format!("is_keyframe of frame {k}"), s.is_keyframe, j == k);
        let need = needed[k];
        if j > need {
            return bad(format!("decoding for frame {k} starts at frame {j}, but it depends on frame {need}"));
        }
    }
    Ok(())
}

/// For each frame, the first frame that it is made of.
fn first_needed(f: &[FrameHdr], img: &ImgHdr) -> Vec<usize> {
    let mut slots = [None; 4];
    let mut out = vec![];
    for (k, x) in f.iter().enumerate() {
        let full = x.full_frame(img);
        let mut first = k;
        for b in std::iter::once(&x.blend).chain(&x.ec_blend) {
            if !(full && b.mode == 0) {
                first = first.min(slots[b.source as usize].unwrap_or(k));
            }
        }
        out.push(first);
        if x.can_be_referenced() {
            slots[x.save_as as usize] = Some(first);
        }
    }
    out
}

fn feed(src: &mut Src, len: usize) -> Feed {
    match src.below(3) {
        0 if len < 2500 => Feed::Fixed(1),
        1 => Feed::Fixed(src.urange(2, 200).max(len / 500)),
        _ => Feed::Random(src.below(1 << 32), 1 + src.usize(len)),
    }
}
