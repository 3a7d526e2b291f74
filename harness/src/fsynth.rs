//! Synthesized images whose frames use coding features, with the reference model applied.
use crate::color;
use crate::core::Src;
use crate::enc::bits::*;
use crate::enc::frame::*;
use crate::enc::headers::*;
use crate::enc::modular::{Chan, WIDE};
use crate::feat::*;
use crate::spline::*;
use crate::synth::*;
use crate::vardct::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    Patches,
    Upsampling,
    Filters,
    Noise,
    Splines,
    YCbCr,
    Xyb,
    VarDct,
    /// Samples of one value.
    Flat,
}

pub fn gen_filter(src: &mut Src, modular: bool) -> Filter {
    let mut f = Filter::none();
    let k = src.weighted(&[2, 3, 3, 1]);
    if k == 3 {
        return Filter::default_();
    }
    f.gab = k != 1;
    f.epf_iters = if k != 0 { src.urange(1, 3) as u32 } else { 0 };
    let r = |src: &mut Src, lo: f64, hi: f64| (lo + (hi - lo) * src.unit()) as f32;
    if f.gab && src.bool() {
        let mut w = [[0.0; 2]; 3];
        for c in &mut w {
            *c = [r(src, -0.05, 0.3), r(src, -0.05, 0.2)];
        }
        f.gab_w = Some(w);
    }
    if f.epf_iters > 0 {
        if src.bool() {
            f.weights = Some([r(src, 0.5, 60.0), r(src, 0.1, 10.0), r(src, 0.1, 10.0)]);
        }
        if src.bool() {
            f.sigma = Some([r(src, 0.2, 1.0), r(src, 0.3, 3.0), r(src, 0.5, 8.0), r(src, 0.3, 1.5)]);
        }
        if modular {
            f.sigma_modular = 2f64.powf(-3.0 + 11.0 * src.unit()) as f32;
        } else if src.bool() {
            f.sharp_lut = Some(std::array::from_fn(|_| r(src, 0.0, 2.0)));
        }
    }
    f
}

pub fn gen_patch_blend(src: &mut Src, img: &ImgHdr) -> Blend {
    let n = img.ecs.len() as u64;
    let has = img.ecs.iter().any(|e| e.ty == 0);
    let mode = if has { *src.pick(&[0u32, 1, 1, 2, 2, 3, 4, 5, 6, 7]) } else { *src.pick(&[0u32, 1, 1, 2, 3]) };
    let alphas: Vec<u32> = (0..n as u32).filter(|&i| img.ecs[i as usize].ty == 0).collect();
    let alpha = if mode >= 4 && n > 1 {
        if src.chance(1, 6) { src.below(n) as u32 } else { *src.pick(&alphas) }
    } else {
        0
    };
    Blend { mode, alpha, clamp: mode >= 3 && src.bool(), source: 0 }
}

fn gen_patches(src: &mut Src, img: &ImgHdr, fh: &FrameHdr, canvas: &Canvas) -> Vec<Patch> {
    let slots: Vec<u32> = (0..4).filter(|&i| canvas.pre[i as usize] && canvas.slots[i as usize].is_some()).collect();
    let (w, h) = fh.size(img);
    // positions are limited to coded samples
    let (mh, mv) = fh.maxshift();
    let (pw, ph) = if fh.modular { (w, h) } else { (w.div_ceil(8 << mh) * (8 << mh), h.div_ceil(8 << mv) * (8 << mv)) };
    let n = src.urange(0, 4);
    let mut out = vec![];
    for _ in 0..n {
        let slot = *src.pick(&slots);
        let s = canvas.slots[slot as usize].as_ref().unwrap();
        let (mw, mhh) = ((s.w as u32).min(pw), (s.h as u32).min(ph));
        let dim = |src: &mut Src, m: u32| {
            if src.chance(1, 5) { m } else { src.urange(1, m.min(40) as usize) as u32 }
        };
        let (w, h) = (dim(src, mw), dim(src, mhh));
        let x0 = src.below((s.w as u32 - w + 1) as u64) as u32;
        let y0 = src.below((s.h as u32 - h + 1) as u64) as u32;
        let m = src.urange(1, 4);
        let at = (0..m)
            .map(|_| PatchPos {
                x: src.below((pw - w + 1) as u64) as u32,
                y: src.below((ph - h + 1) as u64) as u32,
                blend: (0..=img.ecs.len()).map(|_| gen_patch_blend(src, img)).collect(),
            })
            .collect();
        out.push(Patch { slot, x0, y0, w, h, at });
    }
    out
}

pub fn gen_splines(src: &mut Src, w: u32, h: u32, limit: usize) -> Option<Splines> {
    if limit < 1 {
        return None;
    }
    let (w, h) = (w as i64, h as i64);
    let n = src.urange(1, 3.min(limit));
    let mut left = limit;
    let mut list = vec![];
    for i in 0..n {
        let k = src.urange(0, 5.min(left));
        left -= k;
        let mut points: Vec<(i32, i32)> = vec![];
        let far = src.chance(1, 6);
        while points.len() < k + 1 {
            let m = if far { 60 } else { 4 };
            let p = (src.range(-m, w + m) as i32, src.range(-m, h + m) as i32);
            let p = if points.is_empty() && i == 0 { (p.0.max(0), p.1.max(0)) } else { p };
            let p = if points.last() == Some(&p) { (p.0 + 1, p.1) } else { p };
            points.push(p);
        }
        let dct = std::array::from_fn(|c| {
            let mut d = vec![0; 32];
            if c == 3 {
                d[0] = src.range(1, 14) as i32 * if src.chance(1, 12) { -1 } else { 1 };
                if src.chance(1, 3) {
                    d[src.urange(1, 31)] = src.range(-3, 3) as i32;
                }
            } else {
                let a = [400, 30, 30][c];
                d[0] = src.range(-a, a) as i32;
                for _ in 0..src.below(4) {
                    d[src.urange(1, 31)] = src.range(-a / 3, a / 3) as i32;
                }
            }
            d
        });
        list.push(Spline { points, dct });
    }
    let adjust = if src.bool() { 0 } else { src.range(-8, 16) as i32 };
    Some(Splines { adjust, list })
}

/// Values of the channels of a modular frame, before anything else.
pub fn decoded_planes(img: &ImgHdr, f: &Feats, ch: &[Chan]) -> Vec<Pl> {
    let nc = ch.len() - img.ecs.len();
    let pl = |c: &Chan, d: Vec<V>| Pl { w: c.w, h: c.h, d };
    let mut out = vec![];
    if img.xyb {
        let [sx, sy, sb] = f.lf_factors();
        let m = |v: i64, s: f64| V::new(v as f64 * s);
        let (y, x, b) = (&ch[0], &ch[1], &ch[2]);
        out.push(pl(x, x.data.iter().map(|&v| m(v as i64, sx)).collect()));
        out.push(pl(y, y.data.iter().map(|&v| m(v as i64, sy)).collect()));
        out.push(pl(b, b.data.iter().zip(&y.data).map(|(&v, &u)| m(v as i64 + u as i64, sb)).collect()));
    } else {
        let vals = planes_of_n(img, nc, &ch[..nc]);
        for c in 0..3 {
            let k = c.min(nc - 1);
            out.push(pl(&ch[k], vals[k].clone()));
        }
    }
    for (c, e) in ch[nc..].iter().zip(&img.ecs) {
        let d = c.data.iter().map(|&v| if e.depth.float { V::exact(sample_value(&e.depth, v)) } else { V::new(sample_value(&e.depth, v)) }).collect();
        out.push(pl(c, d));
    }
    out
}

fn planes_of_n(img: &ImgHdr, nc: usize, ch: &[Chan]) -> Vec<Vec<V>> {
    let d = &img.depth;
    ch[..nc].iter().map(|c| c.data.iter().map(|&v| if d.float { V::exact(sample_value(d, v)) } else { V::new(sample_value(d, v)) }).collect()).collect()
}

/// The number the noise generator gets of each frame.
#[derive(Default)]
pub struct Counter {
    vis: u32,
    non: u32,
}
impl Counter {
    pub fn next(&mut self, fh: &FrameHdr) -> (u32, u32) {
        if fh.visible() {
            self.vis += 1;
            self.non = 0;
        } else {
            self.non += 1;
        }
        (self.vis, self.non)
    }
}

pub fn gen_xyb_img(src: &mut Src, img: &mut ImgHdr) {
    img.xyb = true;
    if img.depth.float || img.depth.bits > 16 {
        img.depth = Depth::int(8);
    }
    let c = &mut img.color;
    c.tf = *src.pick(&[Tf::Enum(8), Tf::Enum(8), Tf::Enum(13), Tf::Enum(13), Tf::Enum(1), Tf::Enum(16), Tf::Enum(17), Tf::Enum(18), Tf::Gamma(4545455), Tf::Gamma(8000000)]);
    // a grayscale XYB image is only output in its own encoding for a D65 white point
    c.white = if c.space == 1 { 1 } else { *src.pick(&[1u32, 1, 1, 2, 10, 11]) };
    if c.white == 2 {
        c.white_xy = (src.range(280000, 380000) as i32, src.range(290000, 390000) as i32);
    }
    if c.space == 0 {
        c.prim = *src.pick(&[1u32, 1, 2, 9, 11]);
        if c.prim == 2 {
            let mut p = |x: i64, y: i64| (src.range(x - 30000, x + 30000) as i32, src.range(y - 30000, y + 30000) as i32);
            c.prim_xy = [p(650000, 320000), p(250000, 650000), p(140000, 50000)];
        }
    }
    if src.chance(1, 3) {
        img.tone.intensity = *src.pick(&[80.0f32, 100.0, 203.0, 254.0, 1000.0, 4000.0, 10000.0]);
    }
    if src.chance(1, 3) {
        let mut m = color::OPSIN.map(|v| v as f32);
        for v in &mut m {
            *v += (src.unit() as f32 - 0.5) * 0.3;
        }
        let b = std::array::from_fn(|_| -(src.unit() * 0.02) as f32);
        img.opsin = Some(Opsin { matrix: m, biases: b, quant_biases: [0.9; 4] });
    }
}

fn full_of(img: &ImgHdr, level: u32) -> (u32, u32) {
    (img.w.div_ceil(1 << (3 * level)), img.h.div_ceil(1 << (3 * level)))
}

pub fn fsynth(src: &mut Src, want: Want) -> Synth {
    LAYOUT.with(|l| l.borrow_mut().clear());
    WIDE.set(false);
    let big = src.chance(1, if want == Want::Noise { 3 } else { 4 });
    let flat = want == Want::Flat;
    let vd_big = want == Want::VarDct && src.chance(1, 6) || flat && src.chance(2, 3);
    let o = SynthOpt {
        max_side: if vd_big { 700 } else if big { 400 } else { 110 },
        max_px: if vd_big { 80000 } else if big && want == Want::Noise { 30000 } else if big { 12000 } else { 5000 },
        frames: 3,
        floats: src.chance(1, 12),
        big_groups: false,
        no_pre: true,
        ..Default::default()
    };
    let mut img = gen_img(src, &o);
    img.ecs.truncate(3);
    FLAT.set(flat.then(|| src.unit()));
    if flat {
        img.color = Color::srgb();
        img.ecs.truncate(src.usize(2));
    }
    if want == Want::Patches && img.ecs.is_empty() && src.bool() {
        img.ecs.push(Ec::alpha());
    }
    for e in &mut img.ecs {
        e.dim_shift = if want == Want::Upsampling { e.dim_shift } else { 0 };
    }
    if want == Want::Xyb || src.chance(if want == Want::VarDct { 5 } else { 1 }, 8) {
        gen_xyb_img(src, &mut img);
    } else if want == Want::VarDct {
        img.color = Color::srgb();
    }
    let shape = if vd_big { src.below(6) } else { 9 };
    // (previews of an LF group do not look at others that are missing)
    if shape == 1 || flat && vd_big {
        // room for the largest transforms
        img.w = src.urange(120, 300) as u32;
        img.h = src.urange(120, 300) as u32;
    }
    if shape == 2 && WILD.get() {
        // whole groups, so that nothing more fits into their buffers
        img.w = src.urange(250, 300) as u32;
        img.h = src.urange(250, 300) as u32;
    }
    if shape == 0 && !flat {
        // several LF groups
        img.w = src.urange(2040, 2100) as u32;
        img.h = src.urange(1, 20) as u32;
        if src.bool() {
            (img.w, img.h) = (img.h, img.w);
        }
    }
    if !vd_big && src.chance(1, 12) {
        // several groups in a row or column, also of upsampled frames
        img.w = src.urange(200, if want == Want::Upsampling { 2300 } else { 900 }) as u32;
        img.h = src.urange(1, 14) as u32;
        if src.bool() {
            (img.w, img.h) = (img.h, img.w);
        }
    }
    if shape == 9 && src.chance(1, 40) {
        // groups around a group
        img.w = src.urange(120, 400) as u32;
        img.h = src.urange(120, (60000 / img.w as usize).min(400)) as u32;
    }
    if want == Want::YCbCr {
        img.xyb = false;
        img.color = Color::srgb();
    }
    let nf = if flat { 1 } else { src.weighted(&[0, 5, 3, 2]).max(1) + (want == Want::Patches) as usize };
    if src.chance(1, 2) {
        img.anim = Some(Anim { num: 100, den: 1, loops: 0, timecodes: false });
    }
    if !flat && src.chance(1, 3) {
        for i in 0..3 {
            if src.bool() {
                let n = [15, 55, 210][i];
                // weights that sum to about one
                img.up_weights[i] = Some((0..n).map(|_| (src.unit() * 0.14 - 0.03) as f32).collect());
            }
        }
    }
    let exact = !src.chance(1, 4);
    let mut desc = format!("{want:?} {}x{} {:?} o{} gray{} xyb{} {:?} {:?} {} ec{:?}", img.w, img.h, img.depth, img.orientation, img.is_gray(), img.xyb, img.color, img.opsin, img.tone.intensity, img.ecs.iter().map(|e| (e.ty, e.depth.bits, e.dim_shift)).collect::<Vec<_>>());
    let mut canvas = Canvas::default();
    let mut counter = Counter::default();
    let (mut frames, mut outs, mut data) = (vec![], vec![], vec![]);
    let mut lfs: [Option<Vec<Pl>>; 5] = Default::default();
    let mut labels: Vec<String> = vec![];
    // numbers of the frames, and the level of LF frames
    let mut plan: Vec<(usize, u32)> = vec![];
    for i in 0..nf {
        if (img.xyb || !img.is_gray()) && (want == Want::VarDct && src.chance(1, 4) || flat && src.bool() || src.chance(1, 30)) {
            if src.chance(1, 3) {
                plan.push((i, src.urange(2, 4) as u32));
            }
            plan.push((i, 1));
        }
        plan.push((i, 0));
    }
    for (i, level) in plan {
        let last = i + 1 == nf && level == 0;
        let mut fh = gen_frame(src, &img, &o, last, &canvas);
        if level > 0 {
            fh = FrameHdr { name: fh.name.clone(), is_last: false, group_shift: fh.group_shift, ty: 1, lf_level: level, passes: fh.passes.clone(), ..FrameHdr::new(&img) };
        }
        if flat && level == 0 {
            (fh.crop, fh.ty, fh.blend) = (None, 0, Blend::replace());
            fh.ec_blend.fill(Blend::replace());
        }
        let has = |src: &mut Src, f: Want| match f {
            Want::VarDct if flat => true,
            Want::Patches | Want::Splines | Want::Noise if flat => false,
            Want::Filters | Want::YCbCr | Want::Upsampling if flat => src.chance(1, 3),
            f => if f == want { src.chance(4, 5) || last } else { src.chance(1, 9) },
        };
        if want == Want::Patches && i == 0 && level == 0 {
            // something to copy from
            fh = FrameHdr { name: fh.name.clone(), is_last: false, group_shift: fh.group_shift, crop: fh.crop, ty: 2, save_as: src.below(4) as u32, save_before_ct: true, ..FrameHdr::new(&img) };
        }
        if (img.xyb || !img.is_gray()) && has(src, Want::VarDct) {
            fh.modular = false;
            fh.group_shift = 1;
            if img.xyb && src.bool() {
                fh.x_qm = src.below(8) as u32;
                fh.b_qm = src.below(8) as u32;
            }
            if src.bool() {
                fh.flags |= F_SKIP_LF_SMOOTH;
            }
        }
        if !fh.modular && lfs[level as usize].is_some() && (fh.full_size(&img) == full_of(&img, level) && (flat || src.chance(4, 5)) || wild(src, 3)) {
            fh.flags |= F_LF_FRAME;
        }
        let use_lf = fh.flags & F_LF_FRAME != 0;
        if !img.xyb && !img.is_gray() && !img.depth.float && (has(src, Want::YCbCr) || !fh.modular && src.chance(1, 3)) {
            fh.ycbcr = true;
            if src.chance(2, 3) && !use_lf && level == 0 {
                for c in 0..3 {
                    fh.jpeg_up[c] = src.below(4) as u32;
                }
            }
            if !fh.modular && (0..3).any(|c| fh.chan_shift(c) != (0, 0)) {
                fh.flags |= F_SKIP_LF_SMOOTH;
            }
        }
        if wild(src, 12) {
            fh.flags ^= *src.pick(&[F_SKIP_LF_SMOOTH, F_LF_FRAME]);
        }
        if has(src, Want::Upsampling) && !use_lf && level == 0 {
            fh.upsampling = *src.pick(&[1u32, 2, 2, 4, 8]);
            for u in &mut fh.ec_up {
                *u = if src.bool() { fh.upsampling } else { (fh.upsampling << src.below(4)).min(8) };
            }
        }
        for (u, e) in fh.ec_up.iter_mut().zip(&img.ecs) {
            // the written factor is multiplied by that of the channel when upsampling
            let d = e.dim_shift;
            if fh.upsampling > 1 {
                while (*u >> d) << d != *u || (*u >> d) == 0 {
                    *u *= 2;
                }
            }
        }
        if fh.ec_up.iter().any(|&u| u > 8) {
            fh.upsampling = 1;
            fh.ec_up.fill(1);
        }
        let can_patch = (0..4).any(|i| canvas.pre[i] && canvas.slots[i].is_some());
        if fh.ty != 1 && can_patch && has(src, Want::Patches) && (fh.upsampling == 1 || fh.ec_up.iter().all(|&u| u == fh.upsampling)) {
            fh.flags |= F_PATCHES;
        }
        let mut f = Feats::default();
        if has(src, Want::Splines) {
            let (w, h) = fh.size(&img);
            let (fw, fhh) = fh.full_size(&img);
            let lim = (fw as usize * fhh as usize / 2).min(40);
            f.splines = gen_splines(src, w, h, lim);
            if f.splines.is_some() {
                fh.flags |= F_SPLINES;
            }
        }
        if has(src, Want::Noise) {
            fh.flags |= F_NOISE;
            if !src.chance(1, 12) {
                let m = if src.bool() { 1024 } else { 200 };
                for v in &mut f.noise {
                    *v = src.below(m) as u32;
                }
            }
        }
        if has(src, Want::Filters) {
            fh.filter = gen_filter(src, fh.modular);
        }
        if fh.flags & F_PATCHES != 0 {
            f.patches = gen_patches(src, &img, &fh, &canvas);
        }
        if !fh.modular {
            if src.chance(1, 3) {
                let a = |src: &mut Src, v: f64| (v * (0.2 + 2.0 * src.unit())) as f32;
                f.lfq = Some([a(src, 0.03), a(src, 0.25), a(src, 0.5)]);
            }
        } else if img.xyb && src.chance(5, 6) {
            let mx = ((1u64 << img.depth.bits) - 1) as f64;
            let a = |v: f64| (v / mx * 128.0) as f32;
            let s = src.unit() + 0.3;
            f.lfq = Some([a(0.03 * s), a(0.8 * s), a(0.45 * s)]);
        } else if src.chance(1, 6) {
            f.lfq = Some([0.03, 0.25, 0.5]);
        }
        desc += &format!(
            "\n frame ty{}/{level} vardct{} q{}/{} crop{:?} gs{} {:?} {:?} ec{:?} dur{} save{} before{} flags{:x} ycbcr{}{:?} up{} {:?} {:?}\n {:?}",
            fh.ty, !fh.modular, fh.x_qm, fh.b_qm, fh.crop, fh.group_shift, fh.passes, fh.blend, fh.ec_blend, fh.duration, fh.save_as, fh.save_before_ct, fh.flags, fh.ycbcr, fh.jpeg_up, fh.upsampling, fh.ec_up, fh.filter, f
        );
        let pre = f.write(src, &img, &fh);
        let vis = counter.next(&fh);
        let (b, before) = if fh.modular {
            let (b, ch) = modular_frame_with(src, &img, &fh, exact, &mut desc, pre);
            (b, features(&img, &fh, &f, decoded_planes(&img, &f, &ch), &canvas, vis, None, (0.0, 1.0)))
        } else {
            let lf = lfs[level as usize].as_deref().filter(|_| use_lf);
            let v = vardct_frame(src, &img, &fh, &f, exact, &mut desc, pre, lf, fh.flags & (F_NOISE | F_SPLINES) != 0);
            labels.extend(v.labels);
            if use_lf {
                labels.push(format!("lf_frame:{level}"));
            }
            (v.bytes, features(&img, &fh, &f, v.planes, &canvas, vis, Some(&|x, y| v.sigma[y * v.bw + x]), v.cc))
        };
        if level > 0 {
            let (w, h) = fh.upsampled_size(&img);
            lfs[level as usize - 1] = Some(before[..3].iter().map(|d| Pl { w: w as usize, h: h as usize, d: d.clone() }).collect());
        }
        let mut after = before.clone();
        if img.xyb {
            color::from_xyb(&img, &mut after);
        } else if fh.ycbcr {
            ycbcr(&mut after);
        }
        if let Some(mut x) = canvas.add2(&img, &fh, &before, &after) {
            if img.is_gray() {
                x.planes.drain(1..3);
            }
            outs.push(x);
        }
        data.push(b);
        frames.push(fh);
    }
    FLAT.set(None);
    let (bytes, offs) = file(src, &img, &data);
    Synth { img, frames, outs, bytes, offs, desc, wide: WIDE.get(), labels }
}
