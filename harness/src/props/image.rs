//! Synthesized images against the reference model.
use crate::core::*;
use crate::drv::*;
use crate::fsynth::*;
use crate::synth::*;

/// How output samples compare with expected values.
pub fn check_plane(what: &str, sig: &str, p: &Plane, c: usize, exp: &[V], slack: f64) -> PropResult {
    if p.w * p.h != exp.len() {
        return fail(&format!("{sig}:size"), format!("{what}: {}x{} samples, expected {}", p.w, p.h, exp.len()));
    }
    let stat = std::env::var_os("VERIF_ERR").is_some();
    let (mut worst, mut emax, mut vmax) = (0f64, 0f64, 0f64);
    for (i, x) in exp.iter().enumerate() {
        let (px, py) = (i % p.w, i / p.w);
        let g = p.get(px, py, c);
        if !x.v.is_finite() || !x.e.is_finite() {
            continue;
        }
        let e = x.e + slack * (1.0 + x.v.abs());
        if stat && matches!(p.num, Num::F32(_)) {
            worst = worst.max((g - x.v).abs() / e);
            emax = emax.max(x.e);
            vmax = vmax.max(x.v.abs());
        }
        let (lo, hi) = match p.num {
            Num::F32(_) => (x.v - e, x.v + e),
            Num::F16(_) => {
                let h = x.v.abs() / 2048.0 + 3e-8;
                let m = |v: f64| if v.abs() > 65504.0 { f64::INFINITY.copysign(v) } else { v };
                let _ = m;
                (x.v - e - h, x.v + e + h)
            }
            Num::U8(b) | Num::U16(b, _) => {
                let mx = ((1u32 << b) - 1) as f64;
                // 8-bit output is dithered unless the samples are integers of that depth
                let (a, b) = ((x.v - e).clamp(0.0, 1.0) * mx, (x.v + e).clamp(0.0, 1.0) * mx);
                // 8-bit output is dithered
                let d = if matches!(p.num, Num::U8(_)) { 0.4923 } else { 0.0 };
                ((a - d + 0.5).floor().max(0.0), (b + d + 0.5).floor().min(mx))
            }
        };
        if !(g >= lo && g <= hi) {
            if std::env::var_os("VERIF_DIFF").is_some() {
                eprintln!("DIFF {what} ({px},{py}) {g} expected {} [{lo}, {hi}]", x.v);
                continue;
            }
            return fail(
                &format!("{sig}:sample"),
                format!("{what}: sample ({px},{py}) of {}x{} is {g}, expected {} (in [{lo}, {hi}])", p.w, p.h, x.v),
            );
        }
    }
    if stat {
        eprintln!("ERR {what} worst {worst:.4} tolerance {emax:.2e} max {vmax:.3}");
    }
    Ok(())
}

/// Output formats in which integer samples come back unchanged.
pub fn exact_fmt(src: &mut Src, s: &Synth) -> FmtSel {
    let f32s = std::env::var("VERIF_F32").is_ok();
    let num = |src: &mut Src, d: &crate::enc::headers::Depth| {
        if f32s {
            return Num::F32(false);
        }
        if d.float || d.bits > 16 || src.chance(1, 3) {
            Num::F32(src.bool())
        } else if d.bits <= 8 {
            if src.chance(1, 4) { Num::U16(d.bits as u8, src.bool()) } else { Num::U8(d.bits as u8) }
        } else {
            Num::U16(d.bits as u8, src.bool())
        }
    };
    let color = if s.img.is_gray() { jxl::api::JxlColorType::Grayscale } else { jxl::api::JxlColorType::Rgb };
    let c = num(src, &s.img.depth);
    let ec = s.img.ecs.iter().map(|e| Some(num(src, &e.depth))).collect();
    FmtSel::Exact(Fmt { color, color_fmt: Some(c), ec })
}

pub fn check_outs(sig: &str, s: &Synth, d: &Decoded, slack: f64) -> PropResult {
    if d.end != End::Complete {
        return fail(&format!("{sig}:end"), format!("decoding a valid image ends with {:?}", d.end));
    }
    if let Some(c) = &d.canary {
        return fail(&format!("{sig}:canary"), c.clone());
    }
    if d.frames.len() != s.outs.len() {
        return fail(&format!("{sig}:frames"), format!("{} frames, expected {}", d.frames.len(), s.outs.len()));
    }
    let (w, h) = (s.img.w as usize, s.img.h as usize);
    let nc = s.img.color_channels();
    for (i, (f, o)) in d.frames.iter().zip(&s.outs).enumerate() {
        if f.name.as_bytes() != &o.name[..] {
            return fail(&format!("{sig}:name"), format!("frame {i}: name {:?}, expected {:?}", f.name, o.name));
        }
        if let Some(a) = s.img.anim {
            let ms = o.ticks as f64 * 1000.0 * a.den as f64 / a.num as f64;
            if !f.duration.is_some_and(|d| (d - ms).abs() <= 1e-6 * ms) {
                return fail(&format!("{sig}:duration"), format!("frame {i}: duration {:?}, expected {ms}", f.duration));
            }
        }
        for (c, p) in o.planes.iter().enumerate() {
            let (e, ow, oh) = orient(p, w, h, s.img.orientation);
            let (k, ch) = if c < nc { (0, c) } else { (1 + c - nc, 0) };
            let pl = &f.planes[k];
            if (pl.w, pl.h) != (ow, oh) {
                return fail(&format!("{sig}:geometry"), format!("frame {i} channel {c}: {}x{}, expected {ow}x{oh}", pl.w, pl.h));
            }
            check_plane(&format!("frame {i} channel {c} ({:?})", pl.num), sig, pl, ch, &e, slack)?;
        }
    }
    Ok(())
}

pub fn c02(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let s = synth(src, &SynthOpt { frames: 1, ..Default::default() });
    run_synth("c02", src, ctx, &s)
}

pub fn c19(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let s = synth(src, &SynthOpt { frames: 6, max_side: 300, max_px: 7000, ..Default::default() });
    run_synth("c19", src, ctx, &s)
}

fn run_synth(sig: &str, src: &mut Src, ctx: &mut Ctx, s: &Synth) -> PropResult {
    ctx.artifact("jxl", &s.bytes);
    ctx.sample(s.desc.clone());
    let fmt = exact_fmt(src, s);
    let cfg = Cfg { fmt, spot: false, run: if src.chance(1, 4) { gen_run(src) } else { Run::None }, simd: src.below(4) as u32, ..Default::default() };
    ctx.label(format!("frames:{}", s.frames.len().min(4)));
    ctx.label(if s.frames.iter().any(|f| f.passes.num > 1) { "passes:several" } else { "passes:one" });
    ctx.nontrivial(hash_bytes(&s.bytes));
    let d = decode(&s.bytes, &cfg);
    if s.wide && d.end == End::Complete {
        ctx.label("wide");
        return Ok(());
    }
    check_outs(sig, s, &d, 2e-7)
}

fn feature(sig: &str, want: Want, src: &mut Src, ctx: &mut Ctx) -> PropResult {
    use crate::enc::headers::*;
    let s = fsynth(src, want);
    ctx.artifact("jxl", &s.bytes);
    ctx.sample(s.desc.clone());
    let fmt = if src.chance(3, 4) || std::env::var("VERIF_F32").is_ok() {
        let color = if s.img.is_gray() { jxl::api::JxlColorType::Grayscale } else { jxl::api::JxlColorType::Rgb };
        FmtSel::Exact(Fmt { color, color_fmt: Some(Num::F32(false)), ec: s.img.ecs.iter().map(|_| Some(Num::F32(false))).collect() })
    } else {
        exact_fmt(src, &s)
    };
    let cfg = Cfg { fmt, spot: false, run: if src.chance(1, 4) { gen_run(src) } else { Run::None }, simd: src.below(4) as u32, ..Default::default() };
    let used = |f: &FrameHdr| match want {
        Want::Patches => f.flags & F_PATCHES != 0,
        Want::Splines => f.flags & F_SPLINES != 0,
        Want::Noise => f.flags & F_NOISE != 0,
        Want::Upsampling => f.upsampling > 1 || f.ec_up.iter().any(|&u| u > 1),
        Want::Filters => f.filter != Filter::none(),
        Want::YCbCr => f.ycbcr,
        Want::Xyb => s.img.xyb,
        Want::VarDct | Want::Flat => !f.modular,
    };
    if s.frames.iter().any(used) {
        ctx.nontrivial(hash_bytes(&s.bytes));
    }
    for l in &s.labels {
        ctx.label(l.clone());
    }
    let d = decode(&s.bytes, &cfg);
    if s.wide && d.end == End::Complete {
        ctx.label("wide");
        return Ok(());
    }
    if s.img.xyb && want != Want::Xyb {
        ctx.label("xyb");
    }
    check_outs(sig, &s, &d, 2e-7)
}

pub fn c18(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c18", Want::Xyb, src, ctx)
}
pub fn c20(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c20", Want::Patches, src, ctx)
}
pub fn c21(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c21", Want::Upsampling, src, ctx)
}
pub fn c22(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c22", Want::Filters, src, ctx)
}
pub fn c23(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c23", Want::VarDct, src, ctx)
}
pub fn c24(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c24", Want::Noise, src, ctx)
}
pub fn c25(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c25", Want::Splines, src, ctx)
}
pub fn c30(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    feature("c30", Want::YCbCr, src, ctx)
}
