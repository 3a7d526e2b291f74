//! Synthesized lossless images and the reference model of how frames make up an image.
use crate::core::{Rng, Src};
use crate::enc::bits::*;
use crate::enc::frame::*;
use crate::enc::headers::*;
use crate::enc::modular::*;

#[derive(Clone, Debug)]
pub struct Out {
    pub name: Vec<u8>,
    pub ticks: u32,
    /// Channels (colour, then extra) at image size, before orientation.
    pub planes: Vec<Vec<V>>,
}

thread_local! {
    /// Whether expected values are computed.
    pub static MODEL: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
    /// Whether parts of the stream may be invalid.
    pub static WILD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Where in their ranges the samples of VarDCT frames are, if constant.
    pub static FLAT: std::cell::Cell<Option<f64>> = const { std::cell::Cell::new(None) };
}
pub fn wild(src: &mut Src, n: u64) -> bool {
    WILD.get() && src.chance(1, n)
}

/// A value and a bound of the error that single precision arithmetic can have made.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    pub e: f64,
}
pub const ULP: f64 = 1.0 / (1 << 23) as f64;
impl V {
    pub fn new(v: f64) -> V {
        V { v, e: v.abs() * ULP }
    }
    pub fn exact(v: f64) -> V {
        V { v, e: 0.0 }
    }
    fn r(v: f64, e: f64) -> V {
        if !(v.abs() < 1e18 && e < 1e18) {
            // may be out of range on the way
            return V { v: f64::NAN, e: f64::INFINITY };
        }
        V { v, e: e + v.abs() * ULP }
    }
    pub fn add(self, o: V) -> V {
        V::r(self.v + o.v, self.e + o.e)
    }
    pub fn sub(self, o: V) -> V {
        V::r(self.v - o.v, self.e + o.e)
    }
    pub fn mul(self, o: V) -> V {
        V::r(self.v * o.v, self.e * o.v.abs() + o.e * self.v.abs() + self.e * o.e)
    }
    /// Zero when the divisor is not positive.
    pub fn div0(self, o: V) -> V {
        if o.v.abs() <= o.e * 2.0 + 1e-30 {
            // unknown sign
            return V { v: 0.0, e: if o.e == 0.0 && o.v <= 0.0 { 0.0 } else { f64::INFINITY } };
        }
        if !self.v.is_finite() || !o.v.is_finite() {
            return V { v: f64::NAN, e: f64::INFINITY };
        }
        if o.v < 0.0 {
            return V::exact(0.0);
        }
        let q = self.v / o.v;
        V::r(q, 2.0 * ULP * q.abs() + (self.e + q.abs() * o.e) / (o.v - o.e))
    }
    pub fn clamp01(self) -> V {
        V { v: self.v.clamp(0.0, 1.0), e: self.e }
    }
}

pub struct Synth {
    pub img: ImgHdr,
    pub frames: Vec<FrameHdr>,
    pub outs: Vec<Out>,
    pub bytes: Vec<u8>,
    /// Offsets of frame starts, and the end.
    pub offs: Vec<usize>,
    pub desc: String,
    /// Has samples computed from values too large to be sure of.
    pub wide: bool,
    pub labels: Vec<String>,
}

#[derive(Clone, Copy, Debug)]
pub struct SynthOpt {
    pub max_side: usize,
    /// Largest number of samples of a frame.
    pub max_px: usize,
    pub frames: usize,
    pub orient: bool,
    pub ecs: bool,
    pub upsampling: bool,
    pub preview: bool,
    pub floats: bool,
    pub big_groups: bool,
    /// Slots saved before the colour transform cannot be backgrounds.
    pub no_pre: bool,
}
impl Default for SynthOpt {
    fn default() -> Self {
        SynthOpt { max_side: 300, max_px: 40000, frames: 1, orient: true, ecs: true, upsampling: false, preview: false, floats: true, big_groups: true, no_pre: false }
    }
}

fn name(src: &mut Src) -> Vec<u8> {
    if src.chance(3, 4) {
        return vec![];
    }
    let n = *src.pick(&[1usize, 5, 15, 16, 47, 48, 60]);
    let mut r = src.rng();
    (0..n).map(|_| b'a' + r.below(26) as u8).collect()
}

pub fn gen_size(src: &mut Src, o: &SynthOpt) -> (u32, u32) {
    let side = |src: &mut Src| -> usize {
        match src.weighted(&[3, 4, 3, 1]) {
            0 => src.urange(1, 9),
            1 => src.urange(1, 70.min(o.max_side)),
            2 => src.urange(1, o.max_side),
            _ => *src.pick(&[1usize, 7, 8, 16, 32, 33, 64, 127, 128, 129, 255, 256, 257]),
        }
        .min(o.max_side)
    };
    let (mut w, mut h) = if o.big_groups && src.chance(1, 25) {
        // several LF groups
        let a = src.urange(1000, 1200);
        let b = src.urange(1, 30);
        if src.bool() { (a, b) } else { (b, a) }
    } else {
        (side(src), side(src))
    };
    while w * h > o.max_px {
        if w > h { w = w / 2 + 1 } else { h = h / 2 + 1 }
    }
    (w as u32, h as u32)
}

pub fn gen_depth(src: &mut Src, floats: bool) -> Depth {
    match src.weighted(&[6, 2, 2, 4, 1, if floats { 2 } else { 0 }]) {
        0 => Depth::int(8),
        1 => Depth::int(*src.pick(&[10, 12])),
        2 => Depth::int(16),
        3 => Depth::int(src.urange(1, 16) as u32),
        4 => Depth::int(src.urange(17, 24) as u32),
        _ => match src.below(4) {
            0 | 1 => Depth::flt(16, 5),
            2 => Depth::flt(32, 8),
            _ => {
                let exp = src.urange(2, 8) as u32;
                let m = src.urange(2, 23) as u32;
                Depth::flt(1 + exp + m, exp)
            }
        },
    }
}

pub fn gen_img(src: &mut Src, o: &SynthOpt) -> ImgHdr {
    let (w, h) = gen_size(src, o);
    let mut img = ImgHdr::new(w, h);
    if o.orient && src.chance(1, 3) {
        img.orientation = src.urange(1, 8) as u32;
    }
    img.depth = gen_depth(src, o.floats);
    img.m16 = !img.depth.float && img.depth.bits <= 12 && src.bool();
    if src.chance(1, 4) {
        img.color = Color::gray();
    }
    if src.chance(1, 6) {
        img.color.tf = *src.pick(&[Tf::Enum(1), Tf::Enum(8), Tf::Enum(13), Tf::Enum(16), Tf::Enum(17), Tf::Enum(18), Tf::Gamma(4545455)]);
        img.color.intent = src.below(4) as u32;
        if img.color.space == 0 {
            img.color.prim = *src.pick(&[1u32, 9, 11]);
        }
        img.color.white = *src.pick(&[1u32, 10, 11]);
    }
    if o.ecs {
        while img.ecs.len() < 5 && src.chance(2, 5) {
            let mut e = Ec::alpha();
            e.ty = *src.pick(&[0u32, 0, 0, 1, 2, 3, 4, 5, 6, 16]);
            if src.chance(1, 2) {
                e.depth = gen_depth(src, o.floats);
            }
            e.name = name(src);
            if e.ty == 0 {
                e.alpha_assoc = src.chance(1, 3);
            }
            if e.ty == 2 {
                let mut c = || *src.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0, 1.5, -0.25]);
                e.spot = [c(), c(), c(), c()];
            }
            if src.chance(1, 4) {
                e.dim_shift = src.below(4) as u32;
            }
            img.ecs.push(e);
        }
    }
    img
}

pub fn gen_passes(src: &mut Src) -> Passes {
    if src.chance(3, 4) {
        return Passes::one();
    }
    let num = src.urange(2, 5) as u32;
    let nd = src.below(num as u64).min(4) as usize;
    let shift = (0..num - 1).map(|_| src.below(3) as u32).collect();
    let mut ds = vec![];
    let (mut d, mut l) = (8u32, 0u32);
    for k in 0..nd {
        // downsampling decreases, last passes increase
        if k > 0 {
            if d == 1 || l + 1 >= num {
                break;
            }
            d /= 2;
            l += 1;
        }
        while d > 1 && src.chance(1, 3) {
            d /= 2;
        }
        while l + 1 < num && src.chance(1, 4) {
            l += 1;
        }
        ds.push((d, l));
    }
    Passes { num, shift, ds }
}

/// A global tree for a frame.
pub fn gen_global_tree(src: &mut Src, img: &ImgHdr, fh: &FrameHdr, exact: bool) -> Option<Tree> {
    if src.chance(1, 6) {
        return None;
    }
    let (w, h) = fh.full_size(img);
    // the limit is on frame size times the number of channels
    let nc = 3 + img.ecs.len();
    let lim = 1024 + w as usize * h as usize * nc / 16 / 3;
    let geo = Geo::new(img, fh);
    Some(Tree::random(src, &TreeOpt { exact, max_nodes: lim.min(401), num_chans: nc, max_stream: geo.id_hf(fh.passes.num as usize - 1, geo.ng()) }))
}

/// A modular frame: bytes and decoded channels.
pub fn modular_frame(src: &mut Src, img: &ImgHdr, fh: &FrameHdr, exact: bool, desc: &mut String) -> (Vec<u8>, Vec<Chan>) {
    let mut pre = BitWriter::new();
    lf_quant(src, &mut pre);
    modular_frame_with(src, img, fh, exact, desc, pre)
}

/// The same, given what comes before the tree.
pub fn modular_frame_with(src: &mut Src, img: &ImgHdr, fh: &FrameHdr, exact: bool, desc: &mut String, pre: BitWriter) -> (Vec<u8>, Vec<Chan>) {
    let mut sec = Sections::new(img, fh);
    sec.lf_global.push(Piece::Bits(pre));
    let tree = gen_global_tree(src, img, fh, exact);
    let mut me = ModEnc::new(tree);
    let at = sec.lf_global.len();
    if std::env::var("VERIF_DUMP").is_ok() {
        eprintln!("tree {:?}", me.global);
    }
    let shapes = frame_shapes(img, fh);
    let ch = modular_part(src, &mut me, img, fh, &shapes, &ModOpt { exact, max_tr: 4 }, &mut sec);
    let has = me.global.is_some();
    if std::env::var("VERIF_DUMP").is_ok() && ch.iter().all(|c| c.data.len() < 200) {
        eprintln!("{:?}", ch);
    }
    let (tb, streams, d) = me.finish(src);
    *desc += &d;
    let mut b = BitWriter::new();
    b.bool(has);
    b.append(&tb);
    sec.lf_global.insert(at, Piece::Bits(b));
    let (bytes, _) = sec.assemble(src, img, fh, streams);
    (bytes, ch)
}

pub fn lf_quant(src: &mut Src, bw: &mut BitWriter) {
    if src.chance(3, 4) {
        bw.bool(true);
    } else {
        bw.bool(false);
        for v in [1.0 / 32.0, 1.0 / 4.0, 1.0 / 2.0] {
            bw.f16(v);
        }
    }
}

/// Values of the channels of a frame.
pub fn planes_of(img: &ImgHdr, ch: &[Chan]) -> Vec<Vec<V>> {
    let nc = img.color_channels();
    ch.iter()
        .enumerate()
        .map(|(i, c)| {
            let d = if i < nc { &img.depth } else { &img.ecs[i - nc].depth };
            c.data.iter().map(|&v| if d.float { V::exact(sample_value(d, v)) } else { V::new(sample_value(d, v)) }).collect()
        })
        .collect()
}

// ------------------------------------------------------------------ composition

#[derive(Clone)]
pub struct Slot {
    pub w: usize,
    pub h: usize,
    pub planes: Vec<Vec<V>>,
}

#[derive(Clone, Default)]
pub struct Canvas {
    pub slots: [Option<Slot>; 4],
    /// Slots saved before the colour transform.
    pub pre: [bool; 4],
}

fn cl(v: V, c: bool) -> V {
    if c { v.clamp01() } else { v }
}

/// Blends one sample of every channel: `old` below, `new` on top.
pub fn blend_sample(img: &ImgHdr, nc: usize, old: &[V], new: &[V], color: &Blend, ecs: &[Blend], out: &mut [V]) {
    let one = V::exact(1.0);
    let assoc = |a: usize| img.ecs[a].alpha_assoc;
    let union = |a: V, b: V| one.sub(one.sub(a).mul(one.sub(b)));
    let has_alpha = img.ecs.iter().any(|e| e.ty == 0);
    for c in 0..nc + ecs.len() {
        let (b, ec) = if c < nc { (color, None) } else { (&ecs[c - nc], Some(c - nc)) };
        let (o, n) = (old[c], new[c]);
        let a = b.alpha as usize;
        out[c] = match b.mode {
            0 => n,
            1 => o.add(n),
            2 if !has_alpha => n,
            2 => {
                let fa = cl(new[nc + a], b.clamp);
                let ba = old[nc + a];
                if ec == Some(a) {
                    union(fa, ba)
                } else if assoc(a) {
                    n.add(o.mul(one.sub(fa)))
                } else {
                    n.mul(fa).add(o.mul(ba).mul(one.sub(fa))).div0(union(fa, ba))
                }
            }
            3 if ec == Some(a) => o,
            3 if !has_alpha => o.add(n),
            3 => o.add(n.mul(cl(new[nc + a], b.clamp))),
            _ => o.mul(cl(n, b.clamp)),
        };
    }
    // blending the colour also blends its alpha channel
    if color.mode == 2 && has_alpha {
        let a = color.alpha as usize;
        out[nc + a] = union(cl(new[nc + a], color.clamp), old[nc + a]);
    }
}

impl Canvas {
    /// Adds a frame with the given channels (at frame size, in output colour space); returns what it shows.
    pub fn add(&mut self, img: &ImgHdr, fh: &FrameHdr, planes: &[Vec<V>]) -> Option<Out> {
        self.add2(img, fh, planes, planes)
    }
    /// The same, given also what the channels are before the colour transform.
    pub fn add2(&mut self, img: &ImgHdr, fh: &FrameHdr, before: &[Vec<V>], planes: &[Vec<V>]) -> Option<Out> {
        let (iw, ih) = (img.w as usize, img.h as usize);
        let (fw, fhh) = fh.upsampled_size(img);
        let (fw, fhh) = (fw as usize, fhh as usize);
        let nc = planes.len() - img.ecs.len();
        let raw = Slot { w: fw, h: fhh, planes: planes.to_vec() };
        let full = if fh.needs_blending() {
            let (x0, y0) = fh.origin();
            let zero = V::exact(0.0);
            let mut res: Vec<Vec<V>> = vec![vec![zero; iw * ih]; planes.len()];
            let blend_of = |c: usize| if c < nc { &fh.blend } else { &fh.ec_blend[c - nc] };
            for c in 0..planes.len() {
                if let Some(s) = &self.slots[blend_of(c).source as usize] {
                    for y in 0..ih {
                        res[c][y * iw..][..iw].copy_from_slice(&s.planes[c][y * s.w..][..iw]);
                    }
                }
            }
            let mut old = vec![zero; planes.len()];
            let mut new = old.clone();
            let mut out = old.clone();
            for y in 0..fhh {
                let cy = y as i64 + y0 as i64;
                if cy < 0 || cy >= ih as i64 {
                    continue;
                }
                for x in 0..fw {
                    let cx = x as i64 + x0 as i64;
                    if cx < 0 || cx >= iw as i64 {
                        continue;
                    }
                    let at = cy as usize * iw + cx as usize;
                    for c in 0..planes.len() {
                        old[c] = res[c][at];
                        new[c] = planes[c][y * fw + x];
                    }
                    blend_sample(img, nc, &old, &new, &fh.blend, &fh.ec_blend, &mut out);
                    if let Ok(p) = std::env::var("VERIF_PX") {
                        if p == format!("{cx},{cy}") {
                            eprintln!("blend at {cx},{cy}: old {old:?} new {new:?} out {out:?}");
                        }
                    }
                    for c in 0..planes.len() {
                        res[c][at] = out[c];
                    }
                }
            }
            Slot { w: iw, h: ih, planes: res }
        } else {
            raw.clone()
        };
        if fh.can_be_referenced() {
            let b = fh.effective_save_before_ct(img);
            self.pre[fh.save_as as usize] = b;
            self.slots[fh.save_as as usize] = Some(if b { Slot { planes: before.to_vec(), ..raw } } else { full.clone() });
        }
        fh.visible().then(|| Out { name: fh.name.clone(), ticks: fh.duration, planes: full.planes })
    }
}

/// Applies the orientation to a channel.
pub fn orient<T: Copy>(v: &[T], w: usize, h: usize, o: u32) -> (Vec<T>, usize, usize) {
    let (ow, oh) = if o >= 5 { (h, w) } else { (w, h) };
    let mut out = v.to_vec();
    for y in 0..oh {
        for x in 0..ow {
            let (sx, sy) = match o {
                1 => (x, y),
                2 => (w - 1 - x, y),
                3 => (w - 1 - x, h - 1 - y),
                4 => (x, h - 1 - y),
                5 => (y, x),
                6 => (y, h - 1 - x),
                7 => (w - 1 - y, h - 1 - x),
                _ => (w - 1 - y, x),
            };
            out[y * ow + x] = v[sy * w + sx];
        }
    }
    (out, ow, oh)
}

// ------------------------------------------------------------------ generation

fn gen_blend(src: &mut Src, img: &ImgHdr) -> Blend {
    let alphas: Vec<u32> = (0..img.ecs.len() as u32).filter(|&i| img.ecs[i as usize].ty == 0).collect();
    let mut mode = *src.pick(&[0u32, 0, 0, 1, 2, 2, 3, 4]);
    if alphas.is_empty() && (mode == 2 || mode == 3) {
        mode = 0;
    }
    let alpha = if alphas.is_empty() { 0 } else { *src.pick(&alphas) };
    Blend { mode, alpha: if mode == 2 || mode == 3 { alpha } else { 0 }, clamp: mode >= 2 && src.bool(), source: src.below(4) as u32 }
}

/// Fields of a frame in a sequence (not coding details).
pub fn gen_frame(src: &mut Src, img: &ImgHdr, o: &SynthOpt, last: bool, canvas: &Canvas) -> FrameHdr {
    let mut fh = FrameHdr::new(img);
    fh.is_last = last;
    fh.name = name(src);
    // mostly groups smaller than the frame, where there is a choice
    fh.group_shift = if img.w.max(img.h) > 128 && src.chance(2, 3) { 0 } else { src.below(4) as u32 };
    if o.frames > 1 {
        if !last && src.chance(1, 8) {
            fh.ty = 2;
        } else if !last && src.chance(1, 12) {
            fh.ty = 3;
        }
        if img.anim.is_some() && fh.normal() {
            fh.duration = *src.pick(&[0u32, 1, 1, 5, 255, 256, 70000]);
            if img.anim.unwrap().timecodes {
                fh.timecode = src.below(1 << 32) as u32;
            }
        }
        if src.chance(1, 2) {
            let (w, h) = (img.w as i64, img.h as i64);
            let k = src.below(4);
            let dim = |src: &mut Src, w: i64| -> (i64, i64) {
                match k {
                    0 => (src.range(-w, w), src.range(1, 2 * w)),
                    1 => (-src.range(0, 3), w + src.range(0, 6)),
                    _ => {
                        let x = src.range(0, w - 1);
                        (x, src.range(1, w - x))
                    }
                }
            };
            let (x, cw) = dim(src, w);
            let (y, ch) = dim(src, h);
            let (mut cw, mut ch) = (cw, ch);
            while (cw * ch) as usize > o.max_px.max((w * h) as usize) {
                if cw > ch { cw = cw / 2 + 1 } else { ch = ch / 2 + 1 }
            }
            fh.crop = Some((x as i32, y as i32, cw as u32, ch as u32));
        }
        if fh.normal() {
            fh.blend = gen_blend(src, img);
            for b in &mut fh.ec_blend {
                *b = gen_blend(src, img);
            }
            if src.chance(1, 3) {
                fh.blend.mode = 0;
                fh.blend.clamp = false;
                fh.blend.alpha = 0;
            }
            // only complete pictures can be backgrounds
            let ok: Vec<u32> = (0..4)
                .filter(|&i| canvas.slots[i as usize].as_ref().is_none_or(|s| s.w >= img.w as usize && s.h >= img.h as usize))
                .filter(|&i| !o.no_pre || !canvas.pre[i as usize])
                .collect();
            let full = fh.full_frame(img);
            let mut fix = |src: &mut Src, b: &mut Blend| {
                if full && b.mode == 0 {
                    b.source = 0;
                } else if !ok.contains(&b.source) {
                    if ok.is_empty() {
                        b.source = 0;
                        b.mode = 0;
                        b.clamp = false;
                        b.alpha = 0;
                    } else {
                        b.source = *src.pick(&ok);
                    }
                }
            };
            fix(src, &mut fh.blend);
            for b in fh.ec_blend.iter_mut() {
                fix(src, b);
            }
            if ok.is_empty() {
                fh.crop = None;
            }
            // slot 0 unusable although it is the source by default
            if full && !ok.contains(&0) && fh.needs_blending() && (fh.blend.mode == 0 || fh.ec_blend.iter().any(|b| b.mode == 0)) {
                fh.crop = None;
                for b in std::iter::once(&mut fh.blend).chain(&mut fh.ec_blend) {
                    *b = Blend { mode: 0, alpha: 0, clamp: false, source: 0 };
                }
            }
        }
        if !last {
            fh.save_as = src.below(4) as u32;
            if fh.stores_before_ct_field(img) {
                fh.save_before_ct = (fh.ty == 2 && !fh.full_frame(img)) || src.bool();
            }
        }
    }
    if fh.ty != 2 {
        fh.passes = gen_passes(src);
    }
    // groups: keep their number reasonable
    loop {
        let (gx, gy) = fh.groups(img);
        if gx * gy * fh.passes.num > 60 && fh.group_shift < 3 {
            fh.group_shift += 1;
        } else {
            break;
        }
    }
    fh
}

pub fn synth(src: &mut Src, o: &SynthOpt) -> Synth {
    LAYOUT.with(|l| l.borrow_mut().clear());
    WIDE.set(false);
    let mut img = gen_img(src, o);
    let nf = if o.frames > 1 { src.urange(1, o.frames) } else { 1 };
    if o.frames > 1 && src.chance(2, 3) {
        img.anim = Some(Anim {
            num: *src.pick(&[100u32, 1000, 1, 7, 24]),
            den: *src.pick(&[1u32, 1001, 3]),
            loops: *src.pick(&[0u32, 1, 7, 65535]),
            timecodes: src.chance(1, 4),
        });
    }
    let exact = !src.chance(1, 3);
    let mut desc = format!("{}x{} {:?} o{} gray{} ec{:?}", img.w, img.h, img.depth, img.orientation, img.is_gray(), img.ecs.iter().map(|e| (e.ty, e.depth.bits)).collect::<Vec<_>>());
    let mut canvas = Canvas::default();
    let mut frames = vec![];
    let mut outs = vec![];
    let mut data = vec![];
    for i in 0..nf {
        let fh = gen_frame(src, &img, o, i + 1 == nf, &canvas);
        desc += &format!("\n frame ty{} crop{:?} gs{} {:?} {:?} ec{:?} dur{} save{} before{}", fh.ty, fh.crop, fh.group_shift, fh.passes, fh.blend, fh.ec_blend, fh.duration, fh.save_as, fh.save_before_ct);
        let (b, ch) = modular_frame(src, &img, &fh, exact, &mut desc);
        let planes = planes_of(&img, &ch);
        if let Some(x) = canvas.add(&img, &fh, &planes) {
            outs.push(x);
        }
        data.push(b);
        frames.push(fh);
    }
    let (bytes, offs) = file(src, &img, &data);
    Synth { img, frames, outs, bytes, offs, desc, wide: WIDE.get(), labels: vec![] }
}

/// Codestream from image header and frames.
pub fn file(src: &mut Src, img: &ImgHdr, frames: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let mut bw = BitWriter::new();
    if src.chance(1, 3) {
        bw.alt = Some(Rng2(src.rng()));
    }
    img.write(&mut bw);
    let mut out = bw.finish();
    let mut offs = vec![];
    for f in frames {
        offs.push(out.len());
        out.extend_from_slice(f);
    }
    offs.push(out.len());
    (out, offs)
}

#[allow(dead_code)]
pub fn rng_of(src: &mut Src) -> Rng {
    src.rng()
}
