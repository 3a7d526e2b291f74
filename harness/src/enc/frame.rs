//! Assembly of frames out of sections, and the modular part of a frame.
use super::bits::*;
use super::headers::*;
use super::modular::*;
use crate::core::{Rng, Src};

/// Where the sections of a frame are, and what matters for the order in which it can be decoded.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// Of section i, relative to the start of the frame.
    pub at: Vec<(usize, usize)>,
    pub squeezes: usize,
    pub delta: bool,
}
thread_local! {
    /// Of the frames in the order of their assembly.
    pub static LAYOUT: std::cell::RefCell<Vec<Layout>> = const { std::cell::RefCell::new(vec![]) };
    static NEXT: std::cell::Cell<(usize, bool)> = const { std::cell::Cell::new((0, false)) };
}

pub enum Piece {
    Bits(BitWriter),
    Stream(usize),
}

/// The pieces of the sections of a frame.
#[derive(Default)]
pub struct Sections {
    pub lf_global: Vec<Piece>,
    pub lf: Vec<Vec<Piece>>,
    pub hf_global: Vec<Piece>,
    /// pass * groups + group
    pub pass: Vec<Vec<Piece>>,
}

impl Sections {
    pub fn new(img: &ImgHdr, fh: &FrameHdr) -> Self {
        let (gx, gy) = fh.groups(img);
        let (lx, ly) = fh.lf_group_count(img);
        let mut s = Sections::default();
        s.lf.resize_with((lx * ly) as usize, Vec::new);
        s.pass.resize_with((gx * gy * fh.passes.num) as usize, Vec::new);
        s
    }
    /// Writes frame header, TOC and sections. Returns (bytes, offsets of the sections in the frame, in bitstream order).
    pub fn assemble(self, src: &mut Src, img: &ImgHdr, fh: &FrameHdr, streams: Vec<BitWriter>) -> (Vec<u8>, Vec<usize>) {
        let mut hdr = BitWriter::new();
        if src.chance(1, 3) {
            hdr.alt = Some(Rng2(src.rng()));
        }
        fh.write(&mut hdr, img);
        let all: Vec<Vec<Piece>> =
            std::iter::once(self.lf_global).chain(self.lf).chain(std::iter::once(self.hf_global)).chain(self.pass).collect();
        let mut put = |bw: &mut BitWriter, v: &Vec<Piece>| {
            for p in v {
                match p {
                    Piece::Bits(b) => bw.append(b),
                    Piece::Stream(i) => bw.append(&streams[*i]),
                }
            }
        };
        let mut secs: Vec<Vec<u8>> = vec![];
        if all.len() == 4 {
            let mut bw = BitWriter::new();
            for v in &all {
                put(&mut bw, v);
            }
            secs.push(bw.finish());
        } else {
            for v in &all {
                let mut bw = BitWriter::new();
                put(&mut bw, v);
                secs.push(bw.finish());
            }
        }
        let n = secs.len();
        // Padding at the end of sections is allowed.
        if src.chance(1, 8) {
            let k = src.usize(n);
            let m = src.usize(20);
            let l = secs[k].len() + m;
            secs[k].resize(l, 0);
        }
        let (mut order, mut perm): (Vec<usize>, Option<Vec<u32>>) = ((0..n).collect(), None);
        if n > 1 && src.chance(1, 3) {
            let mut r = src.rng();
            let k = r.below(3);
            let mut p: Vec<u32> = (0..n as u32).collect();
            match k {
                0 => {
                    for i in (1..n).rev() {
                        let j = r.below(i as u64 + 1) as usize;
                        p.swap(i, j);
                    }
                }
                1 => {
                    for _ in 0..1 + r.below(4) {
                        let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
                        p.swap(a, b);
                    }
                }
                _ => p.reverse(),
            }
            // section i is at position p[i]
            for (i, &x) in p.iter().enumerate() {
                order[x as usize] = i;
            }
            perm = Some(p);
        }
        let sizes: Vec<u32> = order.iter().map(|&i| secs[i].len() as u32).collect();
        write_toc(&mut hdr, &sizes, perm.as_deref(), src.below(1 << 30));
        let mut out = hdr.finish();
        let mut offs = vec![];
        let (squeezes, delta) = NEXT.replace((0, false));
        let mut lay = Layout { at: vec![(0, 0); n], squeezes, delta };
        for i in order {
            offs.push(out.len());
            lay.at[i] = (out.len(), out.len() + secs[i].len());
            out.extend_from_slice(&secs[i]);
        }
        offs.push(out.len());
        LAYOUT.with(|l| {
            let mut l = l.borrow_mut();
            if l.len() > 60 {
                l.clear();
            }
            l.push(lay)
        });
        (out, offs)
    }
}

/// Number of groups and LF groups.
pub struct Geo {
    pub gx: usize,
    pub gy: usize,
    pub lx: usize,
    pub ly: usize,
    pub gd: usize,
}
impl Geo {
    pub fn new(img: &ImgHdr, fh: &FrameHdr) -> Self {
        let (gx, gy) = fh.groups(img);
        let (lx, ly) = fh.lf_group_count(img);
        Geo { gx: gx as usize, gy: gy as usize, lx: lx as usize, ly: ly as usize, gd: fh.group_dim() as usize }
    }
    pub fn ng(&self) -> usize {
        self.gx * self.gy
    }
    pub fn nl(&self) -> usize {
        self.lx * self.ly
    }
    pub fn id_lf(&self, g: usize) -> usize {
        1 + self.nl() + g
    }
    pub fn id_vardct_lf(&self, g: usize) -> usize {
        1 + g
    }
    pub fn id_hf_meta(&self, g: usize) -> usize {
        1 + 2 * self.nl() + g
    }
    pub fn id_qtable(&self, q: usize) -> usize {
        1 + 3 * self.nl() + q
    }
    pub fn id_hf(&self, pass: usize, g: usize) -> usize {
        1 + 3 * self.nl() + 17 + self.ng() * pass + g
    }
}

pub struct ModOpt {
    pub exact: bool,
    pub max_tr: usize,
}

/// Codes the channels of the (full) modular image of a frame, whose logical shapes are given. Adds
/// the streams to the sections; returns the channels as decoded.
pub fn modular_part(src: &mut Src, me: &mut ModEnc, img: &ImgHdr, fh: &FrameHdr, shapes: &[Shape], o: &ModOpt, sec: &mut Sections) -> Vec<Chan> {
    if shapes.is_empty() {
        return vec![];
    }
    let bits = img.depth.bits;
    let geo = Geo::new(img, fh);
    let gd = geo.gd;
    let mut r: Rng = src.rng();
    let mut hdr = random_hdr(src, shapes, me.global.is_some(), o.max_tr, true, bits);
    let (mut cur, mut before, mut n0);
    loop {
        (cur, before) = (shapes.to_vec(), vec![]);
        for t in &hdr.trs {
            before.push(cur.clone());
            meta_apply(&mut cur, t, &mut r);
        }
        n0 = cur.iter().take_while(|s| s.hs < 0 || (s.w <= gd && s.h <= gd)).count();
        // channels of which no group has a sample are not coded at all: too odd (and partly rejected)
        let odd = |s: &Shape| {
            let unit = if s.hs.min(s.vs) >= 3 { gd * 8 } else { gd };
            s.hs >= 0 && s.w * s.h > 0 && (unit >> s.hs == 0 || unit >> s.vs == 0)
        };
        if !cur[n0..].iter().any(odd) {
            break;
        }
        hdr.trs.pop();
    }
    me.desc += &format!(" {:?}", hdr.trs);
    // residuals that are coded in groups: every step may look at the next group
    let steps = cur.iter().filter(|s| s.hs >= 0 && s.hs.min(s.vs) < 3).map(|s| (s.hs + s.vs) as usize).max().unwrap_or(0);
    let squeezes = if hdr.trs.iter().any(|t| matches!(t, Tr::Squeeze(_))) { steps } else { 0 };
    let delta = hdr.trs.iter().any(|t| matches!(t, Tr::Palette { pred, .. } if *pred > 0));
    NEXT.set((squeezes, delta));
    let mut ch: Vec<Chan> = cur.iter().map(|s| Chan::new(s.w, s.h, s.hs, s.vs)).collect();
    for i in 0..n0 {
        ch[i].data = texture(&cur[i], &mut r);
    }
    let mut c0 = ch[..n0].to_vec();
    if c0.iter().all(|c| c.w * c.h == 0) {
        let mut b = BitWriter::new();
        hdr.write(&mut b);
        sec.lf_global.push(Piece::Bits(b));
    } else {
        let id = me.code(src, &mut c0, &hdr, &StreamOpt { id: 0, header: true, exact: o.exact });
        sec.lf_global.push(Piece::Stream(id));
        for (a, b) in ch.iter_mut().zip(c0) {
            *a = b;
        }
    }
    let mut section = |src: &mut Src, me: &mut ModEnc, ch: &mut Vec<Chan>, list: &[usize], unit: usize, gx: usize, g: usize, id: usize, out: &mut Vec<Piece>| {
        if list.is_empty() {
            return;
        }
        let (x, y) = (g % gx, g / gx);
        let rect: Vec<(usize, usize, usize, usize)> = list
            .iter()
            .map(|&i| {
                let (w, h) = (unit >> cur[i].hs, unit >> cur[i].vs);
                let (x0, y0) = (x * w, y * h);
                (x0, y0, cur[i].w.saturating_sub(x0).min(w), cur[i].h.saturating_sub(y0).min(h))
            })
            .collect();
        let sh: Vec<Shape> = list.iter().zip(&rect).map(|(&i, r)| Shape { w: r.2, h: r.3, ..cur[i].clone() }).collect();
        // channels without samples in the group take no part in its stream
        let keep: Vec<bool> = sh.iter().map(|s| s.w * s.h != 0).collect();
        let mut k = keep.iter();
        let list: Vec<usize> = list.iter().copied().filter(|_| *k.next().unwrap()).collect();
        let rect: Vec<_> = rect.into_iter().filter(|r| r.2 * r.3 != 0).collect();
        let sh: Vec<Shape> = sh.into_iter().filter(|s| s.w * s.h != 0).collect();
        if sh.is_empty() {
            return;
        }
        let (dec, s) = me.random_stream(src, &sh, bits, &StreamOpt { id, header: true, exact: o.exact });
        out.push(Piece::Stream(s));
        for ((&i, r), d) in list.iter().zip(&rect).zip(&dec) {
            ch[i].put(r.0, r.1, d);
        }
    };
    let shift = |i: &usize| cur[*i].hs.min(cur[*i].vs);
    let lf: Vec<usize> = (n0..cur.len()).filter(|i| shift(i) >= 3).collect();
    for g in 0..geo.nl() {
        section(src, me, &mut ch, &lf, gd * 8, geo.lx, g, geo.id_lf(g), &mut sec.lf[g]);
    }
    for p in 0..fh.passes.num as usize {
        let (lo, hi) = fh.passes.bracket(p);
        let list: Vec<usize> = (n0..cur.len()).filter(|i| (lo..=hi).contains(&shift(i))).collect();
        for g in 0..geo.ng() {
            section(src, me, &mut ch, &list, gd, geo.gx, g, geo.id_hf(p, g), &mut sec.pass[p * geo.ng() + g]);
        }
    }
    if std::env::var("VERIF_DUMP").is_ok() && ch.iter().all(|c| c.data.len() < 200) {
        eprintln!("coded {n0} {ch:?}");
    }
    for (t, b) in hdr.trs.iter().zip(&before).rev() {
        inverse(&mut ch, b, t, &hdr.wp, bits);
    }
    ch
}

/// Shapes of the modular channels of a frame.
pub fn frame_shapes(img: &ImgHdr, fh: &FrameHdr) -> Vec<Shape> {
    let mut v = vec![];
    let (w, h) = fh.size(img);
    if fh.modular {
        let n = if img.is_gray() && !img.xyb && !fh.ycbcr { 1 } else { 3 };
        for c in 0..n {
            let (hs, vs) = fh.chan_shift(c);
            v.push(Shape {
                w: w.div_ceil(1 << hs) as usize,
                h: h.div_ceil(1 << vs) as usize,
                hs: hs as i32,
                vs: vs as i32,
                tex: depth_tex(&img.depth),
            });
        }
    }
    let (uw, uh) = fh.upsampled_size(img);
    for (e, &up) in img.ecs.iter().zip(&fh.ec_up) {
        let s = floor_log2(up as u64) as i32 - floor_log2(fh.upsampling as u64) as i32;
        v.push(Shape { w: uw.div_ceil(up) as usize, h: uh.div_ceil(up) as usize, hs: s, vs: s, tex: depth_tex(&e.depth) });
    }
    v
}

pub fn depth_tex(d: &Depth) -> Tex {
    if d.float {
        // up to 1.0
        let bias = (1i64 << (d.exp - 1)) - 1;
        Tex::Range { lo: 0, hi: (bias << (d.bits - 1 - d.exp)) as i32 }
    } else {
        Tex::Range { lo: 0, hi: ((1i64 << d.bits) - 1).min(i32::MAX as i64) as i32 }
    }
}

/// The value a sample stands for.
pub fn sample_value(d: &Depth, v: i32) -> f64 {
    if !d.float {
        return v as f64 / ((1u64 << d.bits) - 1) as f64;
    }
    if d.bits < 32 && (v < 0 || v >> d.bits != 0) {
        // not a value of this format
        return f64::NAN;
    }
    let m = d.bits - 1 - d.exp;
    let u = v as u32;
    let sign = if u >> (d.bits - 1) & 1 == 1 { -1.0 } else { 1.0 };
    let e = (u >> m & ((1 << d.exp) - 1)) as i32;
    let f = (u & ((1u64 << m) - 1) as u32) as f64 / (1u64 << m) as f64;
    let bias = (1i32 << (d.exp - 1)) - 1;
    if e == (1 << d.exp) - 1 {
        return if f == 0.0 { sign * f64::INFINITY } else { f64::NAN };
    }
    if e == 0 { sign * f * 2f64.powi(1 - bias) } else { sign * (1.0 + f) * 2f64.powi(e - bias) }
}
