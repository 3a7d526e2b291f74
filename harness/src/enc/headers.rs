//! Writers of the image and frame headers (ISO/IEC 18181-1 field order).
use super::bits::*;
use U::{B, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Depth {
    pub float: bool,
    pub bits: u32,
    pub exp: u32,
}
impl Depth {
    pub fn int(bits: u32) -> Self {
        Depth { float: false, bits, exp: 0 }
    }
    pub fn flt(bits: u32, exp: u32) -> Self {
        Depth { float: true, bits, exp }
    }
    fn write(&self, bw: &mut BitWriter) {
        bw.bool(self.float);
        if self.float {
            bw.u2([V(32), V(16), V(24), B(6, 1)], self.bits);
            bw.write(4, self.exp as u64 - 1);
        } else {
            bw.u2([V(8), V(10), V(12), B(6, 1)], self.bits);
        }
    }
}

fn enum_field(bw: &mut BitWriter, v: u32) {
    bw.u2([V(0), V(1), B(4, 2), B(6, 18)], v);
}

fn name_field(bw: &mut BitWriter, s: &[u8]) {
    bw.u2([V(0), B(4, 0), B(5, 16), B(10, 48)], s.len() as u32);
    for &c in s {
        bw.write(8, c as u64);
    }
}

/// Writes an extensions field; with `alt` set, occasionally with unknown extensions to be skipped.
fn extensions(bw: &mut BitWriter) {
    if let Some(r) = &mut bw.alt
        && r.0.below(24) == 0
    {
        let sel = 1 + r.0.below(7);
        let sizes: Vec<u64> = (0..sel.count_ones()).map(|_| r.0.below(200)).collect();
        u64_field(bw, sel);
        for &s in &sizes {
            u64_field(bw, s);
        }
        for s in sizes {
            for _ in 0..s {
                bw.write(1, 1);
            }
        }
        return;
    }
    u64_field(bw, 0);
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ec {
    /// 0 alpha, 1 depth, 2 spot, 3 selection, 4 black, 5 cfa, 6 thermal, 15 unknown, 16 optional
    pub ty: u32,
    pub depth: Depth,
    pub dim_shift: u32,
    pub name: Vec<u8>,
    pub alpha_assoc: bool,
    pub spot: [f32; 4],
    pub cfa: u32,
}
impl Ec {
    pub fn alpha() -> Self {
        Ec { ty: 0, depth: Depth::int(8), dim_shift: 0, name: vec![], alpha_assoc: false, spot: [0.0; 4], cfa: 1 }
    }
    fn write(&self, bw: &mut BitWriter) {
        let d = self.ty == 0 && self.depth == Depth::int(8) && self.dim_shift == 0 && self.name.is_empty() && !self.alpha_assoc;
        let d = d && !bw.coin();
        bw.bool(d);
        if d {
            return;
        }
        enum_field(bw, self.ty);
        self.depth.write(bw);
        bw.u2([V(0), V(3), V(4), B(3, 1)], self.dim_shift);
        name_field(bw, &self.name);
        if self.ty == 0 {
            bw.bool(self.alpha_assoc);
        }
        if self.ty == 2 {
            for s in self.spot {
                bw.f16(s);
            }
        }
        if self.ty == 5 {
            bw.u2([V(1), B(2, 0), B(4, 3), B(8, 19)], self.cfa);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Anim {
    pub num: u32,
    pub den: u32,
    pub loops: u32,
    pub timecodes: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tone {
    pub intensity: f32,
    pub min_nits: f32,
    pub relative: bool,
    pub linear_below: f32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tf {
    Gamma(u32),
    /// 1 BT709, 8 linear, 13 sRGB, 16 PQ, 17 DCI, 18 HLG
    Enum(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Color {
    pub want_icc: bool,
    /// 0 RGB, 1 Gray
    pub space: u32,
    /// 1 D65, 2 custom, 10 E, 11 DCI
    pub white: u32,
    pub white_xy: (i32, i32),
    /// 1 sRGB, 2 custom, 9 BT2100, 11 P3
    pub prim: u32,
    pub prim_xy: [(i32, i32); 3],
    pub tf: Tf,
    pub intent: u32,
}
impl Color {
    pub fn srgb() -> Self {
        Color { want_icc: false, space: 0, white: 1, white_xy: (0, 0), prim: 1, prim_xy: [(0, 0); 3], tf: Tf::Enum(13), intent: 1 }
    }
    pub fn gray() -> Self {
        Color { space: 1, ..Self::srgb() }
    }
    fn xy(bw: &mut BitWriter, p: (i32, i32)) {
        for v in [p.0, p.1] {
            bw.u2([B(19, 0), B(19, 524288), B(20, 1048576), B(21, 2097152)], pack_signed(v));
        }
    }
    pub fn write(&self, bw: &mut BitWriter) {
        let d = *self == Self::srgb() && !bw.coin();
        bw.bool(d);
        if d {
            return;
        }
        bw.bool(self.want_icc);
        enum_field(bw, self.space);
        if self.want_icc {
            return;
        }
        enum_field(bw, self.white);
        if self.white == 2 {
            Self::xy(bw, self.white_xy);
        }
        if self.space != 1 {
            enum_field(bw, self.prim);
            if self.prim == 2 {
                for p in self.prim_xy {
                    Self::xy(bw, p);
                }
            }
        }
        match self.tf {
            Tf::Gamma(g) => {
                bw.bool(true);
                bw.write(24, g as u64);
            }
            Tf::Enum(e) => {
                bw.bool(false);
                enum_field(bw, e);
            }
        }
        enum_field(bw, self.intent);
    }
}

fn ratio_x(y: u64, r: u32) -> u64 {
    match r {
        1 => y,
        2 => y * 12 / 10,
        3 => y * 4 / 3,
        4 => y * 3 / 2,
        5 => y * 16 / 9,
        6 => y * 5 / 4,
        _ => y * 2,
    }
}

pub fn write_size(bw: &mut BitWriter, w: u32, h: u32) {
    let ratios: Vec<u32> = (1..8).filter(|&r| ratio_x(h as u64, r) == w as u64).collect();
    let use_ratio = !ratios.is_empty() && !bw.coin();
    let small_ok = h % 8 == 0 && h <= 256 && (use_ratio || (w % 8 == 0 && w <= 256));
    let small = small_ok && !bw.coin();
    bw.bool(small);
    let dim = |bw: &mut BitWriter, v: u32| {
        if small {
            bw.write(5, (v / 8 - 1) as u64);
        } else {
            bw.u2([B(9, 0), B(13, 0), B(18, 0), B(30, 0)], v - 1);
        }
    };
    dim(bw, h);
    if use_ratio {
        let i = bw.alt.as_mut().map(|r| r.0.below(ratios.len() as u64) as usize).unwrap_or(0);
        bw.write(3, ratios[i] as u64);
    } else {
        bw.write(3, 0);
        dim(bw, w);
    }
}

pub fn write_preview_size(bw: &mut BitWriter, w: u32, h: u32) {
    let ratios: Vec<u32> = (1..8).filter(|&r| ratio_x(h as u64, r) == w as u64).collect();
    let use_ratio = !ratios.is_empty() && !bw.coin();
    let ok8 = |v: u32| v % 8 == 0 && v <= 8 * (511 + 33);
    let small = ok8(h) && (use_ratio || ok8(w)) && !bw.coin();
    bw.bool(small);
    let dim = |bw: &mut BitWriter, v: u32| {
        if small {
            bw.u2([V(16), V(32), B(5, 1), B(9, 33)], v / 8);
        } else {
            bw.u2([B(6, 0), B(8, 64), B(10, 320), B(12, 1344)], v - 1);
        }
    };
    dim(bw, h);
    if use_ratio {
        let i = bw.alt.as_mut().map(|r| r.0.below(ratios.len() as u64) as usize).unwrap_or(0);
        bw.write(3, ratios[i] as u64);
    } else {
        bw.write(3, 0);
        dim(bw, w);
    }
}

#[derive(Clone, Debug)]
pub struct Opsin {
    pub matrix: [f32; 9],
    pub biases: [f32; 3],
    pub quant_biases: [f32; 4],
}

#[derive(Clone, Debug)]
pub struct ImgHdr {
    pub w: u32,
    pub h: u32,
    pub orientation: u32,
    pub intrinsic: Option<(u32, u32)>,
    pub preview: Option<(u32, u32)>,
    pub anim: Option<Anim>,
    pub depth: Depth,
    pub m16: bool,
    pub ecs: Vec<Ec>,
    pub xyb: bool,
    pub color: Color,
    pub tone: Tone,
    pub opsin: Option<Opsin>,
    pub up_weights: [Option<Vec<f32>>; 3],
    pub icc: Option<Vec<u8>>,
}

pub const DEF_TONE: Tone = Tone { intensity: 255.0, min_nits: 0.0, relative: false, linear_below: 0.0 };

impl ImgHdr {
    pub fn new(w: u32, h: u32) -> Self {
        ImgHdr {
            w,
            h,
            orientation: 1,
            intrinsic: None,
            preview: None,
            anim: None,
            depth: Depth::int(8),
            m16: true,
            ecs: vec![],
            xyb: false,
            color: Color::srgb(),
            tone: DEF_TONE,
            opsin: None,
            up_weights: [None, None, None],
            icc: None,
        }
    }
    pub fn is_gray(&self) -> bool {
        self.color.space == 1
    }
    pub fn color_channels(&self) -> usize {
        if self.is_gray() { 1 } else { 3 }
    }
    /// Signature, size, metadata, transform data; does not write the ICC stream nor align.
    pub fn write(&self, bw: &mut BitWriter) {
        bw.write(16, 0x0aff);
        write_size(bw, self.w, self.h);
        let need_extra =
            self.orientation != 1 || self.intrinsic.is_some() || self.preview.is_some() || self.anim.is_some() || self.tone != DEF_TONE;
        let def = !need_extra && self.depth == Depth::int(8) && self.m16 && self.ecs.is_empty() && self.xyb && self.color == Color::srgb();
        let def = def && !bw.coin();
        bw.bool(def);
        if !def {
            let extra = need_extra || bw.coin();
            bw.bool(extra);
            if extra {
                bw.write(3, self.orientation as u64 - 1);
                bw.bool(self.intrinsic.is_some());
                if let Some((w, h)) = self.intrinsic {
                    write_size(bw, w, h);
                }
                bw.bool(self.preview.is_some());
                if let Some((w, h)) = self.preview {
                    write_preview_size(bw, w, h);
                }
                bw.bool(self.anim.is_some());
                if let Some(a) = self.anim {
                    bw.u2([V(100), V(1000), B(10, 1), B(30, 1)], a.num);
                    bw.u2([V(1), V(1001), B(8, 1), B(10, 1)], a.den);
                    bw.u2([V(0), B(3, 0), B(16, 0), B(32, 0)], a.loops);
                    bw.bool(a.timecodes);
                }
            }
            self.depth.write(bw);
            bw.bool(self.m16);
            bw.u2([V(0), V(1), B(4, 2), B(12, 1)], self.ecs.len() as u32);
            for e in &self.ecs {
                e.write(bw);
            }
            bw.bool(self.xyb);
            self.color.write(bw);
            if extra {
                let t = self.tone;
                let d = t == DEF_TONE && !bw.coin();
                bw.bool(d);
                if !d {
                    bw.f16(t.intensity);
                    bw.f16(t.min_nits);
                    bw.bool(t.relative);
                    bw.f16(t.linear_below);
                }
            }
            extensions(bw);
        }
        // transform data
        let def = self.opsin.is_none() && self.up_weights.iter().all(|x| x.is_none()) && !bw.coin();
        bw.bool(def);
        if !def {
            if self.xyb {
                bw.bool(self.opsin.is_none());
                if let Some(o) = &self.opsin {
                    for v in o.matrix.iter().chain(&o.biases).chain(&o.quant_biases) {
                        bw.f16(*v);
                    }
                }
            }
            let mask = self.up_weights.iter().enumerate().map(|(i, x)| (x.is_some() as u64) << i).sum();
            bw.write(3, mask);
            for w in self.up_weights.iter().flatten() {
                for v in w {
                    bw.f16(*v);
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Blend {
    /// 0 replace, 1 add, 2 blend, 3 alpha weighted add, 4 mul
    pub mode: u32,
    pub alpha: u32,
    pub clamp: bool,
    pub source: u32,
}
impl Blend {
    pub fn replace() -> Self {
        Blend { mode: 0, alpha: 0, clamp: false, source: 0 }
    }
    fn write(&self, bw: &mut BitWriter, num_ec: usize, full: bool) {
        bw.u2([V(0), V(1), V(2), B(2, 3)], self.mode);
        let a = num_ec > 0 && (self.mode == 2 || self.mode == 3);
        if a {
            bw.u2([V(0), V(1), V(2), B(3, 3)], self.alpha);
        }
        if a || self.mode == 4 {
            bw.bool(self.clamp);
        }
        if !(full && self.mode == 0) {
            bw.u2([V(0), V(1), V(2), V(3)], self.source);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Passes {
    pub num: u32,
    pub shift: Vec<u32>,
    /// (downsample, last pass)
    pub ds: Vec<(u32, u32)>,
}
impl Passes {
    pub fn one() -> Self {
        Passes { num: 1, shift: vec![], ds: vec![] }
    }
    /// (min_shift, max_shift) of the modular channels coded in a pass.
    pub fn bracket(&self, pass: usize) -> (i32, i32) {
        // Annex: pass p codes channels whose min shift lies in [minshift, maxshift)
        let mut maxs = 2;
        let mut mins = 3;
        for p in 0..=pass {
            for &(d, l) in &self.ds {
                if l as usize == p {
                    mins = floor_log2(d as u64) as i32;
                }
            }
            if p + 1 == self.num as usize {
                mins = 0;
            }
            if p != pass {
                maxs = mins - 1;
            }
        }
        (mins, maxs)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Filter {
    pub gab: bool,
    /// weight1, weight2 per channel
    pub gab_w: Option<[[f32; 2]; 3]>,
    pub epf_iters: u32,
    pub sharp_lut: Option<[f32; 8]>,
    /// channel scale
    pub weights: Option<[f32; 3]>,
    /// quant_mul, pass0_scale, pass2_scale, border_sad_mul
    pub sigma: Option<[f32; 4]>,
    pub sigma_modular: f32,
}
impl Filter {
    pub fn none() -> Self {
        Filter { gab: false, gab_w: None, epf_iters: 0, sharp_lut: None, weights: None, sigma: None, sigma_modular: 1.0 }
    }
    pub fn default_() -> Self {
        Filter { gab: true, gab_w: None, epf_iters: 2, sharp_lut: None, weights: None, sigma: None, sigma_modular: 1.0 }
    }
    fn write(&self, bw: &mut BitWriter, modular: bool) {
        let d = *self == Self::default_() && !bw.coin();
        bw.bool(d);
        if d {
            return;
        }
        bw.bool(self.gab);
        if self.gab {
            bw.bool(self.gab_w.is_some());
            if let Some(w) = self.gab_w {
                for c in w {
                    bw.f16(c[0]);
                    bw.f16(c[1]);
                }
            }
        }
        bw.write(2, self.epf_iters as u64);
        if self.epf_iters > 0 {
            if !modular {
                bw.bool(self.sharp_lut.is_some());
                if let Some(l) = self.sharp_lut {
                    for v in l {
                        bw.f16(v);
                    }
                }
            }
            bw.bool(self.weights.is_some());
            if let Some(w) = self.weights {
                for v in w {
                    bw.f16(v);
                }
                bw.f16(0.45);
                bw.f16(0.6);
            }
            bw.bool(self.sigma.is_some());
            if let Some(s) = self.sigma {
                if !modular {
                    bw.f16(s[0]);
                }
                for v in &s[1..] {
                    bw.f16(*v);
                }
            }
            if modular {
                bw.f16(self.sigma_modular);
            }
        }
        extensions(bw);
    }
}

pub const F_NOISE: u64 = 1;
pub const F_PATCHES: u64 = 2;
pub const F_SPLINES: u64 = 0x10;
pub const F_LF_FRAME: u64 = 0x20;
pub const F_SKIP_LF_SMOOTH: u64 = 0x80;

#[derive(Clone, Debug, PartialEq)]
pub struct FrameHdr {
    /// 0 regular, 1 LF, 2 reference only, 3 skip progressive
    pub ty: u32,
    pub modular: bool,
    pub flags: u64,
    pub ycbcr: bool,
    pub jpeg_up: [u32; 3],
    pub upsampling: u32,
    pub ec_up: Vec<u32>,
    pub group_shift: u32,
    pub x_qm: u32,
    pub b_qm: u32,
    pub passes: Passes,
    pub lf_level: u32,
    pub crop: Option<(i32, i32, u32, u32)>,
    pub blend: Blend,
    pub ec_blend: Vec<Blend>,
    pub duration: u32,
    pub timecode: u32,
    pub is_last: bool,
    pub save_as: u32,
    pub save_before_ct: bool,
    pub name: Vec<u8>,
    pub filter: Filter,
}

impl FrameHdr {
    pub fn new(img: &ImgHdr) -> Self {
        FrameHdr {
            ty: 0,
            modular: true,
            flags: 0,
            ycbcr: false,
            jpeg_up: [0; 3],
            upsampling: 1,
            ec_up: vec![1; img.ecs.len()],
            group_shift: 1,
            x_qm: 3,
            b_qm: 2,
            passes: Passes::one(),
            lf_level: 0,
            crop: None,
            blend: Blend::replace(),
            ec_blend: vec![Blend::replace(); img.ecs.len()],
            duration: 0,
            timecode: 0,
            is_last: true,
            save_as: 0,
            save_before_ct: false,
            name: vec![],
            filter: Filter::none(),
        }
    }
    pub fn normal(&self) -> bool {
        self.ty == 0 || self.ty == 3
    }
    pub fn full_frame(&self, img: &ImgHdr) -> bool {
        match self.crop {
            None => true,
            Some((x, y, w, h)) => {
                let (x, y) = if self.ty == 2 { (0, 0) } else { (x, y) };
                x <= 0 && y <= 0 && w as i64 + x as i64 >= img.w as i64 && h as i64 + y as i64 >= img.h as i64
            }
        }
    }
    /// Whether the frame may be saved to a reference slot.
    pub fn can_be_referenced(&self) -> bool {
        !self.is_last && self.ty != 1 && (self.duration == 0 || self.save_as != 0)
    }
    pub fn stores_before_ct_field(&self, img: &ImgHdr) -> bool {
        self.ty == 2 || (self.can_be_referenced() && self.blend.mode == 0 && self.full_frame(img) && self.normal())
    }
    pub fn effective_save_before_ct(&self, img: &ImgHdr) -> bool {
        if self.stores_before_ct_field(img) { self.save_before_ct } else { self.ty == 1 }
    }
    pub fn full_size(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = match self.crop {
            Some((_, _, w, h)) => (w, h),
            None => (img.w, img.h),
        };
        let d = 1 << (3 * self.lf_level);
        (w.div_ceil(d), h.div_ceil(d))
    }
    /// Size in coded samples.
    pub fn size(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.full_size(img);
        (w.div_ceil(self.upsampling), h.div_ceil(self.upsampling))
    }
    pub fn origin(&self) -> (i32, i32) {
        match self.crop {
            Some((x, y, _, _)) if self.ty != 2 => (x, y),
            _ => (0, 0),
        }
    }
    pub fn group_dim(&self) -> u32 {
        if self.modular { 128 << self.group_shift } else { 256 }
    }
    pub fn maxshift(&self) -> (u32, u32) {
        let h = self.jpeg_up.iter().map(|&x| (x == 1 || x == 2) as u32).max().unwrap();
        let v = self.jpeg_up.iter().map(|&x| (x == 1 || x == 3) as u32).max().unwrap();
        (h, v)
    }
    pub fn chan_shift(&self, c: usize) -> (u32, u32) {
        let (h, v) = self.maxshift();
        let x = self.jpeg_up[c];
        (h - (x == 1 || x == 2) as u32, v - (x == 1 || x == 3) as u32)
    }
    pub fn size_blocks(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.size(img);
        let (mh, mv) = self.maxshift();
        (w.div_ceil(8 << mh) << mh, h.div_ceil(8 << mv) << mv)
    }
    pub fn groups(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.size(img);
        (w.div_ceil(self.group_dim()), h.div_ceil(self.group_dim()))
    }
    pub fn lf_groups(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.size_blocks(img);
        (w.div_ceil(self.group_dim()), h.div_ceil(self.group_dim()))
    }
    /// Frame size after upsampling.
    pub fn upsampled_size(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.size(img);
        if self.upsampling == 1 {
            (w, h)
        } else {
            let f = self.full_size(img);
            let _ = (w, h);
            f
        }
    }
    pub fn lf_group_count(&self, img: &ImgHdr) -> (u32, u32) {
        let (w, h) = self.size_blocks(img);
        (w.div_ceil(self.group_dim()), h.div_ceil(self.group_dim()))
    }
    pub fn visible(&self) -> bool {
        self.normal() && (self.is_last || self.duration > 0)
    }
    pub fn needs_blending(&self) -> bool {
        self.normal() && (self.crop.is_some() || self.blend.mode != 0 || self.ec_blend.iter().any(|b| b.mode != 0))
    }

    pub fn write(&self, bw: &mut BitWriter, img: &ImgHdr) {
        // all_default: regular VarDCT frame, default filters; only representable for plain frames
        let plain = FrameHdr { modular: false, filter: Filter::default_(), x_qm: 3, b_qm: 2, group_shift: self.group_shift, ..FrameHdr::new(img) };
        let def = *self == plain && img.anim.is_none_or(|_| true) && !bw.coin();
        bw.bool(def);
        if def {
            return;
        }
        bw.write(2, self.ty as u64);
        bw.bool(self.modular);
        u64_field(bw, self.flags);
        if !img.xyb {
            bw.bool(self.ycbcr);
        } else {
            assert!(!self.ycbcr);
        }
        let lff = self.flags & F_LF_FRAME != 0;
        if self.ycbcr && !lff {
            for x in self.jpeg_up {
                bw.write(2, x as u64);
            }
        }
        if !lff {
            bw.u2([V(1), V(2), V(4), V(8)], self.upsampling);
            for (&e, ec) in self.ec_up.iter().zip(&img.ecs) {
                // multiplied by the factor of the channel when upsampling
                bw.u2([V(1), V(2), V(4), V(8)], if self.upsampling > 1 { e >> ec.dim_shift } else { e });
            }
        }
        if self.modular {
            bw.write(2, self.group_shift as u64);
        }
        if !self.modular && img.xyb {
            bw.write(3, self.x_qm as u64);
            bw.write(3, self.b_qm as u64);
        }
        if self.ty != 2 {
            let p = &self.passes;
            bw.u2([V(1), V(2), V(3), B(3, 4)], p.num);
            if p.num != 1 {
                bw.u2([V(0), V(1), V(2), B(1, 3)], p.ds.len() as u32);
                for &s in &p.shift {
                    bw.write(2, s as u64);
                }
                for d in &p.ds {
                    bw.u2([V(1), V(2), V(4), V(8)], d.0);
                }
                for d in &p.ds {
                    bw.u2([V(0), V(1), V(2), B(3, 0)], d.1);
                }
            }
        }
        if self.ty == 1 {
            bw.u2([V(1), V(2), V(3), V(4)], self.lf_level);
        }
        let dim = [B(8, 0), B(11, 256), B(14, 2304), B(30, 18688)];
        if self.ty != 1 {
            bw.bool(self.crop.is_some());
            if let Some((x, y, w, h)) = self.crop {
                if self.ty != 2 {
                    bw.u2(dim, pack_signed(x));
                    bw.u2(dim, pack_signed(y));
                }
                bw.u2(dim, w);
                bw.u2(dim, h);
            }
        }
        let full = self.full_frame(img);
        if self.normal() {
            self.blend.write(bw, img.ecs.len(), full);
            for b in &self.ec_blend {
                b.write(bw, img.ecs.len(), full);
            }
            if let Some(a) = img.anim {
                bw.u2([V(0), V(1), B(8, 0), B(32, 0)], self.duration);
                if a.timecodes {
                    bw.write(32, self.timecode as u64);
                }
            } else {
                assert!(self.duration == 0);
            }
            bw.bool(self.is_last);
        }
        if self.ty != 1 && !self.is_last {
            bw.write(2, self.save_as as u64);
        }
        if self.stores_before_ct_field(img) {
            bw.bool(self.save_before_ct);
        }
        name_field(bw, &self.name);
        self.filter.write(bw, self.modular);
        extensions(bw);
    }
}

/// Lehmer code of a permutation (perm[i] = value at position i), skipping the first `skip` entries.
pub fn lehmer(perm: &[u32], skip: usize) -> Vec<u32> {
    // a Fenwick tree counting the values not yet used
    let n = perm.len();
    let mut t: Vec<u32> = (0..=n).map(|i| (i & i.wrapping_neg()) as u32).collect();
    let mut out = vec![];
    for (i, &p) in perm.iter().enumerate() {
        let (mut k, mut j) = (0, p as usize);
        while j > 0 {
            k += t[j];
            j &= j - 1;
        }
        j = p as usize + 1;
        while j <= n {
            t[j] -= 1;
            j += j & j.wrapping_neg();
        }
        if i >= skip {
            out.push(k);
        } else {
            assert_eq!(k, 0);
        }
    }
    out
}

pub fn perm_ctx(v: u32) -> usize {
    (ceil_log2(v as u64 + 1)).min(7)
}

/// Tokens of a permutation.
pub fn perm_tokens(perm: &[u32], skip: usize) -> Vec<super::entropy::Tok> {
    use super::entropy::tok;
    let mut l = lehmer(perm, skip);
    while l.last() == Some(&0) {
        l.pop();
    }
    let mut t = vec![tok(perm_ctx(perm.len() as u32), l.len() as u32)];
    let mut prev = 0;
    for &v in &l {
        t.push(tok(perm_ctx(prev), v));
        prev = v;
    }
    t
}

/// Writes the TOC given section sizes in *bitstream order*; `perm[i]` is the bitstream position of section i... see `assemble`.
pub fn write_toc(bw: &mut BitWriter, sizes: &[u32], perm: Option<&[u32]>, seed: u64) {
    use super::entropy::{LzMode, build};
    bw.bool(perm.is_some());
    if let Some(p) = perm {
        let toks = perm_tokens(p, 0);
        let mut s = crate::core::Src::random(seed);
        let b = build(&mut s, 8, &[(&toks, 0)], true, LzMode::Maybe);
        b.code.write_header(bw);
        b.code.write_stream(bw, &b.streams[0]);
    }
    bw.align();
    for &s in sizes {
        bw.u2([B(10, 0), B(14, 1024), B(22, 17408), B(30, 4211712)], s);
    }
    bw.align();
}
