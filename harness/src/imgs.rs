//! Sources of images for the metamorphic checks: seed files and synthesized streams.
use crate::core::{Ctx, Src};
use crate::corpus;
use crate::enc::bits::WILD_RNG;
use crate::fsynth::{Want, fsynth};
use crate::synth::{MODEL, SynthOpt, WILD, synth};

#[derive(Clone, Debug)]
pub struct Img {
    pub desc: String,
    pub bytes: Vec<u8>,
    /// True if the stream is meant to be valid.
    pub valid: bool,
    /// Known to have no features that treat colour channels differently.
    pub lossless: bool,
    /// The spot colours of the extra channels, if known.
    pub spots: Option<Vec<Option<[f32; 4]>>>,
}

/// Seed files which are not meant to decode completely.
pub const INVALID: &[&str] = &["invalid_animated_ooo_jxlp.jxl", "fuzzer_smallbuffer_overflow.jxl", "ooo_jxlp_with_trailing_bytes.jxl", "zero_length_skippable_box.jxl"];

pub fn seed(src: &mut Src, max: usize) -> Img {
    let f = corpus::pick(src, max);
    Img { desc: f.name.clone(), bytes: f.data.clone(), valid: !INVALID.contains(&f.name.as_str()), lossless: false, spots: None }
}

/// Lets generators break rules of the format.
pub fn set_wild(src: &mut Src) {
    WILD.set(true);
    WILD_RNG.set((src.below(1 << 32), *src.pick(&[0u64, 3, 30, 300]), *src.pick(&[0u64, 0, 300, 3000])));
}

pub fn unset_wild() {
    WILD.set(false);
    WILD_RNG.set((0, 0, 0));
}

/// A synthesized image, with arithmetic that does not overflow unless `wild`, which also breaks rules
/// of the format.
pub fn made(src: &mut Src, ctx: &mut Ctx, frames: usize, wild: bool) -> Img {
    made_of(src, ctx, frames, wild, false)
}

pub fn made_of(src: &mut Src, ctx: &mut Ctx, frames: usize, wild: bool, lossless: bool) -> Img {
    MODEL.set(false);
    if wild {
        set_wild(src);
    }
    let (s, plain) = loop {
        let k = if lossless { 0 } else { src.below(12) as usize };
        let s = if k < 4 {
            synth(src, &SynthOpt { frames, max_side: 300, max_px: if frames > 1 { 7000 } else { 20000 }, ..Default::default() })
        } else {
            let w = [Want::VarDct, Want::VarDct, Want::Patches, Want::Upsampling, Want::Filters, Want::Noise, Want::Splines, Want::YCbCr, Want::Xyb];
            fsynth(src, w[(k - 4).min(8)])
        };
        if wild || !s.wide {
            break (s, k < 4);
        }
    };
    MODEL.set(true);
    unset_wild();
    ctx.label("source:made");
    for l in s.labels {
        ctx.label(l);
    }
    let spots = s.img.ecs.iter().map(|e| (e.ty == 2).then_some(e.spot)).collect();
    Img { desc: s.desc, bytes: s.bytes, valid: true, lossless: plain, spots: Some(spots) }
}

/// A valid image in which rounding errors are not amplified.
pub fn tame(src: &mut Src, ctx: &mut Ctx) -> Img {
    if src.chance(1, 4) {
        return made_of(src, ctx, 4, false, true);
    }
    loop {
        let i = seed(src, 20000);
        if i.valid {
            ctx.label("source:seed");
            return i;
        }
    }
}

/// A valid image.
pub fn image(src: &mut Src, ctx: &mut Ctx) -> Img {
    if src.chance(1, 3) {
        return made(src, ctx, 4, false);
    }
    loop {
        let i = seed(src, 20000);
        if i.valid {
            ctx.label("source:seed");
            return i;
        }
    }
}

/// Finds the naked codestream of a file made of boxes in order (or the file itself).
pub fn codestream(b: &[u8]) -> Option<Vec<u8>> {
    if b.starts_with(&[0xff, 0x0a]) {
        return Some(b.to_vec());
    }
    let mut out = vec![];
    let mut p = 0;
    let mut parts: Vec<(u32, Vec<u8>)> = vec![];
    while p + 8 <= b.len() {
        let mut len = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
        let ty = &b[p + 4..p + 8];
        let mut h = 8;
        if len == 1 {
            len = u64::from_be_bytes(b.get(p + 8..p + 16)?.try_into().unwrap()) as usize;
            h = 16;
        } else if len == 0 {
            len = b.len() - p;
        }
        if len < h || p + len > b.len() {
            return None;
        }
        let body = &b[p + h..p + len];
        match ty {
            b"jxlc" => out.extend_from_slice(body),
            b"jxlp" => {
                let ix = u32::from_be_bytes(body.get(..4)?.try_into().unwrap()) & 0x7fff_ffff;
                parts.push((ix, body[4..].to_vec()));
            }
            _ => {}
        }
        p += len;
    }
    parts.sort_by_key(|x| x.0);
    for x in parts {
        out.extend(x.1);
    }
    if out.starts_with(&[0xff, 0x0a]) { Some(out) } else { None }
}

pub const SIGNATURE_BOX: [u8; 12] = [0, 0, 0, 12, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a];
pub const FTYP_BOX: [u8; 20] = [0, 0, 0, 20, b'f', b't', b'y', b'p', b'j', b'x', b'l', b' ', 0, 0, 0, 0, b'j', b'x', b'l', b' '];

pub enum BoxLen {
    Short,
    Long,
    ToEnd,
}

pub fn put_box(out: &mut Vec<u8>, ty: &[u8; 4], body: &[u8], len: BoxLen) {
    match len {
        BoxLen::Short => {
            out.extend_from_slice(&((body.len() + 8) as u32).to_be_bytes());
            out.extend_from_slice(ty);
        }
        BoxLen::Long => {
            out.extend_from_slice(&1u32.to_be_bytes());
            out.extend_from_slice(ty);
            out.extend_from_slice(&((body.len() + 16) as u64).to_be_bytes());
        }
        BoxLen::ToEnd => {
            out.extend_from_slice(&0u32.to_be_bytes());
            out.extend_from_slice(ty);
        }
    }
    out.extend_from_slice(body);
}

pub struct Wrapped {
    pub bytes: Vec<u8>,
    pub desc: String,
    /// Offset in the file right after the last codestream byte.
    pub end: usize,
    /// Offset right after the last codestream box (which can be empty).
    pub last: usize,
    /// Number of codestream pieces.
    pub pieces: usize,
    pub ooo: bool,
}

fn junk_box(src: &mut Src, out: &mut Vec<u8>) {
    let ty: [u8; 4] = **src.pick(&[b"Exif", b"xml ", b"jumb", b"brob", b"jxli", b"jbrd", b"abcd", b"jxll"]);
    let n = *src.pick(&[0usize, 1, 4, 8, 17, 100, 1100]);
    let mut r = src.rng();
    let body: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
    let l = if src.chance(1, 4) { BoxLen::Long } else { BoxLen::Short };
    put_box(out, &ty, &body, l);
}

/// Puts a codestream into a container in one of the allowed ways.
///
/// `used` is the number of bytes of `cs` that belong to the image.
pub fn wrap(src: &mut Src, cs: &[u8], used: usize, allow_ooo: bool) -> Wrapped {
    let mut out = SIGNATURE_BOX.to_vec();
    let kind = src.weighted(&[2, 5]);
    let split = kind == 1;
    let ooo = split && allow_ooo && src.chance(1, 3);
    let mut ftyp = FTYP_BOX.to_vec();
    if ooo || src.chance(1, 4) {
        ftyp[15] = 1; // minor version
    }
    if src.chance(1, 6) {
        // an additional compatible brand
        ftyp[3] += 4;
        ftyp.extend_from_slice(b"abcd");
    }
    out.extend(ftyp);
    let mut desc = String::new();
    while src.chance(1, 3) {
        junk_box(src, &mut out);
        desc += "junk ";
    }
    let mut end = 0;
    let mut last = 0;
    let pieces;
    if !split {
        let l = src.below(3);
        desc += &format!("jxlc/{l}");
        put_box(&mut out, b"jxlc", cs, [BoxLen::Short, BoxLen::Long, BoxLen::ToEnd][l as usize].clone_());
        end = out.len() - (cs.len() - used);
        last = end;
        pieces = 1;
        if l != 2 {
            while src.chance(1, 4) {
                junk_box(src, &mut out);
                desc += " junk";
            }
        }
    } else {
        let n = src.urange(1, 6);
        let mut cuts: Vec<usize> = (0..n - 1)
            .map(|_| match src.below(4) {
                0 => src.usize(cs.len().min(16) + 1),
                1 => cs.len(),
                _ => src.usize(cs.len() + 1),
            })
            .collect();
        cuts.sort();
        let mut parts: Vec<(u32, &[u8])> = vec![];
        let mut p = 0;
        for (i, &c) in cuts.iter().chain(std::iter::once(&cs.len())).enumerate() {
            parts.push((i as u32 | if i == n - 1 { 1 << 31 } else { 0 }, &cs[p..c]));
            p = c;
        }
        desc += &format!("jxlp{:?}", cuts);
        if ooo && n > 1 && src.bool() {
            let i = src.usize(n - 1);
            parts.swap(i, i + 1);
        } else if ooo {
            for i in (1..n).rev() {
                let j = src.usize(i + 1);
                parts.swap(i, j);
            }
        }
        if ooo {
            desc += &format!(" order {:?}", parts.iter().map(|x| x.0 & 0xffff).collect::<Vec<_>>());
        }
        pieces = parts.len();
        let np = parts.len();
        for (k, (ix, d)) in parts.into_iter().enumerate() {
            let mut b = ix.to_be_bytes().to_vec();
            b.extend_from_slice(d);
            let l = if k == np - 1 && !ooo && src.chance(1, 4) {
                BoxLen::ToEnd
            } else if src.chance(1, 4) {
                BoxLen::Long
            } else {
                BoxLen::Short
            };
            let to_end = matches!(l, BoxLen::ToEnd);
            put_box(&mut out, b"jxlp", &b, l);
            let start = d.as_ptr() as usize - cs.as_ptr() as usize;
            if !d.is_empty() && start < used && start + d.len() >= used {
                end = out.len() - (start + d.len() - used);
                last = end;
            }
            if start == used {
                last = out.len() - d.len();
            }
            if to_end {
                desc += " toend";
            } else if src.chance(1, 3) {
                junk_box(src, &mut out);
                desc += " junk";
            }
        }
    }
    Wrapped { bytes: out, desc, end, last, pieces, ooo }
}

impl BoxLen {
    fn clone_(&self) -> BoxLen {
        match self {
            BoxLen::Short => BoxLen::Short,
            BoxLen::Long => BoxLen::Long,
            BoxLen::ToEnd => BoxLen::ToEnd,
        }
    }
}

/// An image with several frames where possible.
pub fn animation(src: &mut Src, ctx: &mut Ctx) -> Img {
    const MULTI: &[&str] = &["5_frames_numbered_jxli.jxl", "animation_spline.jxl", "cropped_traffic_light.jxl", "issue728_minimal.jxl", "multiple_layers_noise_spline.jxl", "blendmodes.jxl", "issue772_blendbug.jxl", "named_frame_test.jxl", "grayscale_patches_var_dct.jxl"];
    if src.chance(1, 3) {
        return made(src, ctx, 6, false);
    }
    ctx.label("source:seed");
    let n = *src.pick(MULTI);
    let f = corpus::files().iter().find(|f| f.name == n).unwrap();
    Img { desc: f.name.clone(), bytes: f.data.clone(), valid: true, lossless: false, spots: None }
}

/// An image with any orientation.
pub fn oriented(src: &mut Src, ctx: &mut Ctx) -> Img {
    if src.chance(1, 4) {
        return image(src, ctx);
    }
    ctx.label("source:seed");
    let o = src.usize(8);
    let f = corpus::files().iter().filter(|f| f.name.starts_with("orientation")).nth(o).unwrap();
    Img { desc: f.name.clone(), bytes: f.data.clone(), valid: true, lossless: false, spots: None }
}

/// The codestream with its orientation field replaced, if it has one.
pub fn set_orientation(cs: &[u8], o: u32) -> Option<(Vec<u8>, u32)> {
    let bit = |p: usize| (cs.get(p / 8).copied().unwrap_or(0) >> (p % 8)) as u32 & 1;
    let mut p = 16usize;
    let mut get = |n: usize| {
        let v = (0..n).fold(0, |a, i| a | bit(p + i) << i);
        p += n;
        v
    };
    let dim = |get: &mut dyn FnMut(usize) -> u32| {
        let n = [9, 13, 18, 30][get(2) as usize];
        get(n);
    };
    if get(1) == 1 {
        get(5);
        if get(3) == 0 {
            get(5);
        }
    } else {
        dim(&mut get);
        if get(3) == 0 {
            dim(&mut get);
        }
    }
    if get(1) == 1 || get(1) == 0 {
        return None;
    }
    let old = get(3) + 1;
    let at = p - 3;
    let mut v = cs.to_vec();
    for i in 0..3 {
        let b = ((o - 1) >> i & 1) as u8;
        v[(at + i) / 8] = v[(at + i) / 8] & !(1 << ((at + i) % 8)) | b << ((at + i) % 8);
    }
    Some((v, old))
}

/// Any image, also large or invalid ones.
pub fn any(src: &mut Src, ctx: &mut Ctx) -> (Img, bool) {
    if src.chance(1, 4) {
        let wild = src.chance(4, 5);
        return (made(src, ctx, 3, wild), wild);
    }
    ctx.label("source:seed");
    let max = if src.chance(3, 4) { 1500 } else { 20000 };
    (seed(src, max), false)
}
