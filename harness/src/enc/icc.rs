//! Encoder of ICC profiles (ISO/IEC 18181-1 annex on ICC): predicts a profile with randomly chosen
//! commands and codes the result.
use super::bits::*;
use super::entropy::{LzMode, build, tok};
use crate::core::{Rng, Src};

fn varint(v: &mut Vec<u8>, mut x: u64) {
    while x >= 128 {
        v.push((x & 127) as u8 | 128);
        x >>= 7;
    }
    v.push(x as u8);
}

const TAGS: [&[u8; 4]; 17] = [
    b"cprt", b"wtpt", b"bkpt", b"rXYZ", b"gXYZ", b"bXYZ", b"kXYZ", b"rTRC", b"gTRC", b"bTRC", b"kTRC", b"chad", b"desc", b"chrm", b"dmnd", b"dmdd",
    b"lumi",
];
const TYPES: [&[u8; 4]; 8] = [b"XYZ ", b"desc", b"text", b"mluc", b"para", b"curv", b"sf32", b"gbd "];

/// A profile: a header, usually with a list of tags and data of usual types. `random` bytes follow.
pub fn profile(src: &mut Src, max: usize) -> Vec<u8> {
    let mut r = src.rng();
    let mut v = vec![];
    let n = match src.below(8) {
        0 => return (0..src.usize(140)).map(|_| r.below(256) as u8).collect(),
        1 => 0,
        _ => src.usize(20),
    };
    let rate = *src.pick(&[0u64, 10, 100, 256]);
    let mut hdr = [0u8; 128];
    hdr[8] = 4;
    hdr[12..24].copy_from_slice(b"mntrRGB XYZ ");
    hdr[36..40].copy_from_slice(b"acsp");
    hdr[40..44].copy_from_slice(*src.pick(&[b"APPL", b"MSFT", b"SGI ", b"SUNW", b"\0\0\0\0", b"ADBE"]));
    (hdr[70], hdr[71], hdr[73], hdr[78], hdr[79]) = (246, 214, 1, 211, 45);
    for x in hdr.iter_mut() {
        if r.below(256) < rate {
            *x = r.below(256) as u8;
        }
    }
    if r.below(2) == 0 {
        hdr.copy_within(4..8, 80);
    }
    v.extend(hdr);
    // list of tags
    let mut body: Vec<u8> = vec![];
    let first = 132 + 12 * n;
    let mut list: Vec<([u8; 4], u32, u32)> = vec![];
    while list.len() < n {
        let at = (first + body.len()) as u32;
        let mut put = |body: &mut Vec<u8>, len: usize, r: &mut Rng| {
            let t = r.below(9) as usize;
            let b0 = body.len();
            if t < 8 {
                body.extend(TYPES[t]);
                body.extend([0; 4]);
            }
            // smooth or random bytes
            let kind = r.below(4);
            while body.len() < b0 + len {
                let i = body.len();
                body.push(match kind {
                    0 => r.below(256) as u8,
                    1 => (i * 3) as u8,
                    2 if i % 2 == 0 => ((i * i) >> 8) as u8,
                    2 => (i * i) as u8,
                    _ => 0,
                });
            }
            body.truncate(b0 + len);
        };
        match r.below(6) {
            0 if list.len() + 3 <= n => {
                let len = r.below(200) as usize;
                put(&mut body, len, &mut r);
                for t in [b"rTRC", b"gTRC", b"bTRC"] {
                    list.push((*t, at, len as u32));
                }
            }
            1 if list.len() + 3 <= n => {
                let len = if r.below(4) == 0 { r.below(50) as usize } else { 20 };
                for (i, t) in [b"rXYZ", b"gXYZ", b"bXYZ"].iter().enumerate() {
                    list.push((**t, at + (i * len) as u32, len as u32));
                    put(&mut body, len, &mut r);
                }
            }
            k => {
                let t = if k == 2 { [r.below(256) as u8, b'a', b'b', r.below(256) as u8] } else { *TAGS[r.below(17) as usize] };
                let len = if r.below(2) == 0 { 20 } else { r.log(300) };
                put(&mut body, len, &mut r);
                // an overlapping or shifted tag
                let (mut at, mut sz) = (at, len as u32);
                if r.below(6) == 0 {
                    at = r.below(first as u64 + body.len() as u64) as u32;
                    sz = r.below(first as u64 + body.len() as u64 - at as u64 + 1) as u32;
                }
                list.push((t, at, sz));
            }
        }
    }
    if src.chance(9, 10) {
        v.extend((n as u32).to_be_bytes());
        for (t, a, s) in list {
            v.extend(t);
            v.extend(a.to_be_bytes());
            v.extend(s.to_be_bytes());
        }
    }
    v.extend(body);
    if src.chance(1, 3) {
        let m = src.log_u(max as u64) as usize;
        let k = src.urange(1, 256) as u64;
        v.extend((0..m).map(|_| r.below(k) as u8));
    }
    if src.bool() {
        let l = v.len() as u32;
        v[..4].copy_from_slice(&l.to_be_bytes());
    }
    v
}

trait Log {
    fn log(&mut self, max: usize) -> usize;
}
impl Log for Rng {
    fn log(&mut self, max: usize) -> usize {
        let b = self.below(floor_log2(max as u64) as u64 + 1);
        (self.below(1 << b) as usize).min(max)
    }
}

fn predict_header(i: usize, size: u32, h: &[u8]) -> u8 {
    let sig = |i: usize| -> u8 {
        let h40 = h[40];
        match (h40, i) {
            (b'A', _) => b"APPL"[i],
            (b'M', _) => b"MSFT"[i],
            (b'S', 1) => 0,
            (b'S', _) if h[41] == b'G' => b"SGI "[i],
            (b'S', _) if h[41] == b'U' => b"SUNW"[i],
            _ => 0,
        }
    };
    match i {
        0..4 => (size >> (24 - 8 * i)) as u8,
        8 => 4,
        12..24 => b"mntrRGB XYZ "[i - 12],
        36..40 => b"acsp"[i - 36],
        41..44 => sig(i - 40),
        70 => 246,
        71 => 214,
        73 => 1,
        78 => 211,
        79 => 45,
        80..84 => h[i - 76],
        _ => 0,
    }
}

/// Reorders such that the decoder gives `b`: it fills a matrix of `w` rows, of which the last column
/// may lack elements at the bottom, row by row, and reads it column by column.
fn shuffle(b: &[u8], w: usize) -> Vec<u8> {
    (0..w).flat_map(|r| b[r.min(b.len())..].iter().step_by(w).copied()).collect()
}

/// The coded bytes of a profile, and a description of the commands.
pub fn predict(icc: &[u8], r: &mut Rng) -> (Vec<u8>, String) {
    let n = icc.len();
    let mut cmd: Vec<u8> = vec![];
    let mut data: Vec<u8> = vec![];
    let mut used = std::collections::BTreeSet::new();
    let mut hdr = icc[..n.min(128)].to_vec();
    hdr.resize(128, 0);
    for i in 0..n.min(128) {
        data.push(icc[i].wrapping_sub(predict_header(i, n as u32, &hdr)));
    }
    let mut pos = n.min(128);
    let be = |p: usize| u32::from_be_bytes(icc[p..p + 4].try_into().unwrap());
    if n > 128 {
        let tags = if n >= 132 { be(128) as usize } else { usize::MAX };
        // every start and end has to fit
        let ok = tags <= (n - 128) / 12 && 132 + 12 * tags <= n;
        if !ok || r.below(8) == 0 {
            varint(&mut cmd, 0);
            used.insert("no tags");
        } else {
            varint(&mut cmd, tags as u64 + 1);
            pos = 132;
            let (mut pstart, mut psize) = (tags as u32 * 12 + 128, 0u32);
            let mut i = 0;
            let stop = if r.below(8) == 0 { r.below(tags as u64 + 1) as usize } else { tags };
            while i < stop {
                let p = 132 + 12 * i;
                let t = &icc[p..p + 4];
                let (start, size) = (be(p + 4), be(p + 8));
                if start as u64 + size as u64 > n as u64 || size >= 1 << 30 || start >= 1 << 30 || start as u64 + 2 * size as u64 > u32::MAX as u64 {
                    break;
                }
                let is = |k: usize, t: &[u8; 4], a: u32| i + k < stop && &icc[p + 12 * k..p + 12 * k + 4] == t && be(p + 12 * k + 4) == a && be(p + 12 * k + 8) == size;
                let (mut code, mut k) = (1, 1);
                if t == b"rTRC" && is(1, b"gTRC", start) && is(2, b"bTRC", start) && r.below(8) > 0 {
                    (code, k) = (2, 3);
                    used.insert("TRC");
                } else if t == b"rXYZ" && is(1, b"gXYZ", start + size) && is(2, b"bXYZ", start + 2 * size) && r.below(8) > 0 {
                    (code, k) = (3, 3);
                    used.insert("XYZ");
                } else if let Some(j) = TAGS.iter().position(|x| &x[..] == t)
                    && r.below(16) > 0
                {
                    code = 4 + j as u8;
                    used.insert("known tag");
                }
                let sized = matches!(t, b"rXYZ" | b"gXYZ" | b"bXYZ" | b"kXYZ" | b"wtpt" | b"bkpt" | b"lumi");
                let expect = if sized { 20 } else { psize };
                let a = start != pstart + psize || r.below(16) == 0;
                let s = size != expect || r.below(16) == 0;
                cmd.push(code | (a as u8) << 6 | (s as u8) << 7);
                if code == 1 {
                    data.extend(t);
                    used.insert("tag");
                }
                if a {
                    varint(&mut cmd, start as u64);
                    used.insert("start");
                }
                if s {
                    varint(&mut cmd, size as u64);
                    used.insert("size");
                }
                (pstart, psize) = (start, size);
                i += k;
                pos = 132 + 12 * i;
            }
            if pos < n || r.below(2) == 0 {
                cmd.push(0);
            }
        }
    }
    while pos < n {
        let left = n - pos;
        if left >= 8 && icc[pos + 4..pos + 8] == [0; 4] && r.below(8) > 0 {
            if &icc[pos..pos + 4] == b"XYZ " && left >= 20 && r.below(4) > 0 {
                cmd.push(10);
                data.extend(&icc[pos + 8..pos + 20]);
                pos += 20;
                used.insert("xyz");
                continue;
            }
            if let Some(j) = TYPES.iter().position(|x| x[..] == icc[pos..pos + 4]) {
                cmd.push(16 + j as u8);
                pos += 8;
                used.insert("type");
                continue;
            }
        }
        // up to the next type, usually
        let next = (1..left).find(|&k| left - k >= 8 && TYPES.iter().any(|x| x[..] == icc[pos + k..pos + k + 4])).unwrap_or(left);
        let len = if r.below(4) == 0 { r.below(left as u64 + 1) as usize } else { next };
        match r.below(7) {
            0 => {
                cmd.push(1);
                varint(&mut cmd, len as u64);
                data.extend(&icc[pos..pos + len]);
                used.insert("insert");
            }
            k @ 1..=2 => {
                cmd.push(1 + k as u8);
                varint(&mut cmd, len as u64);
                data.extend(shuffle(&icc[pos..pos + len], 2 * k as usize));
                used.insert(if k == 1 { "shuffle2" } else { "shuffle4" });
            }
            _ => {
                let w = [1, 2, 4][r.below(3) as usize];
                let order = r.below(3) as usize;
                let stride = if r.below(2) == 0 { w } else { w + r.log(40) };
                if stride * 4 >= pos {
                    continue;
                }
                cmd.push(4);
                let explicit = stride != w || r.below(8) == 0;
                cmd.push((w - 1) as u8 | (order << 2) as u8 | (explicit as u8) << 4);
                if explicit {
                    varint(&mut cmd, stride as u64);
                    used.insert("stride");
                }
                varint(&mut cmd, len as u64);
                let mut res = vec![];
                for i in 0..len {
                    let (b, o) = (pos + i / w * w, i % w);
                    let at = |k: usize| (0..w).fold(0u32, |a, j| a << 8 | icc[b - k * stride + j] as u32);
                    let p = match order {
                        0 => at(1),
                        1 => at(1).wrapping_mul(2).wrapping_sub(at(2)),
                        _ => at(1).wrapping_mul(3).wrapping_sub(at(2).wrapping_mul(3)).wrapping_add(at(3)),
                    };
                    res.push(icc[pos + i].wrapping_sub((p >> (8 * (w - 1 - o))) as u8));
                }
                data.extend(if w == 1 { res } else { shuffle(&res, w) });
                used.insert(["order0", "order1", "order2"][order]);
                used.insert(["", "width1", "width2", "", "width4"][w]);
            }
        }
        pos += len;
    }
    let mut out = vec![];
    varint(&mut out, n as u64);
    varint(&mut out, cmd.len() as u64);
    out.extend(cmd);
    out.extend(data);
    (out, used.into_iter().collect::<Vec<_>>().join(" "))
}

fn context(i: usize, p: u8, pp: u8) -> usize {
    if i <= 128 {
        return 0;
    }
    let letter = |c: u8| c.is_ascii_alphabetic();
    let digit = |c: u8| c.is_ascii_digit() || c == b'.' || c == b',';
    let a = match p {
        c if letter(c) => 0,
        c if digit(c) => 1,
        0 => 2,
        1 => 3,
        2..16 => 4,
        255 => 6,
        241.. => 5,
        _ => 7,
    };
    let b = match pp {
        c if letter(c) => 0,
        c if digit(c) => 1,
        0..16 => 2,
        241.. => 3,
        _ => 4,
    };
    1 + a + 8 * b
}

/// Writes the ICC stream of an image header.
pub fn write(bw: &mut BitWriter, src: &mut Src, icc: &[u8]) -> String {
    let mut r = src.rng();
    let (bytes, mut desc) = predict(icc, &mut r);
    let at = |i: usize, k: usize| if i >= k { bytes[i - k] } else { 0 };
    let toks: Vec<_> = bytes.iter().enumerate().map(|(i, &b)| tok(context(i, at(i, 1), at(i, 2)), b as u32)).collect();
    let b = build(src, 41, &[(&toks, 0)], true, LzMode::Maybe);
    u64_field(bw, bytes.len() as u64);
    b.code.write_header(bw);
    b.code.write_stream(bw, &b.streams[0]);
    desc += &format!(" {}", b.code.desc);
    desc
}
