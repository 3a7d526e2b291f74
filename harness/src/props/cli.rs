//! The command line tool, run on generated files; its output is read back by independent parsers.
use super::meta::mutate;
use crate::core::*;
use crate::drv::*;
use crate::imgs;
use jxl::api::{JxlColorEncoding as E, JxlColorProfile, JxlColorType as T, JxlPrimaries as Pr, JxlTransferFunction as Tf, JxlWhitePoint as W};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

type R<X> = Result<X, String>;

// ------------------------------------------------------------------ inflate

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
}
impl Bits<'_> {
    fn bits(&mut self, n: u32) -> R<u32> {
        let mut v = 0;
        for i in 0..n {
            let b = self.d.get(self.pos / 8).ok_or("deflate data cut off")?;
            v |= ((b >> (self.pos % 8)) as u32 & 1) << i;
            self.pos += 1;
        }
        Ok(v)
    }
}
/// Canonical code: counts by length, symbols in order.
struct Huff(Vec<usize>, Vec<usize>);
impl Huff {
    fn new(len: &[u8]) -> Huff {
        let mut c = vec![0; 16];
        for &l in len {
            c[l as usize] += 1;
        }
        c[0] = 0;
        let mut s: Vec<usize> = (0..len.len()).filter(|&i| len[i] > 0).collect();
        s.sort_by_key(|&i| (len[i], i));
        Huff(c, s)
    }
    fn get(&self, b: &mut Bits) -> R<usize> {
        let (mut code, mut first, mut idx) = (0usize, 0usize, 0usize);
        for l in 1..16 {
            code |= b.bits(1)? as usize;
            let n = self.0[l];
            if code < first + n {
                return Ok(self.1[idx + code - first]);
            }
            idx += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        Err("bad deflate code".into())
    }
}
/// Data in the zlib format.
fn inflate(d: &[u8]) -> R<Vec<u8>> {
    if d.len() < 6 || d[0] & 15 != 8 || (d[0] as u32 * 256 + d[1] as u32) % 31 != 0 || d[1] & 32 != 0 {
        return Err("bad zlib header".into());
    }
    let mut b = Bits { d: &d[2..], pos: 0 };
    let mut o: Vec<u8> = vec![];
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                b.pos = b.pos.next_multiple_of(8);
                let n = b.bits(16)?;
                if n ^ b.bits(16)? != 0xffff {
                    return Err("bad stored block".into());
                }
                for _ in 0..n {
                    o.push(b.bits(8)? as u8);
                }
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    let l: Vec<u8> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
                    (Huff::new(&l), Huff::new(&[5; 30]))
                } else {
                    let (nl, nd, nc) = (b.bits(5)? as usize + 257, b.bits(5)? as usize + 1, b.bits(4)? as usize + 4);
                    let mut cl = [0u8; 19];
                    for &i in &[16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][..nc] {
                        cl[i] = b.bits(3)? as u8;
                    }
                    let h = Huff::new(&cl);
                    let mut l: Vec<u8> = vec![];
                    while l.len() < nl + nd {
                        let (v, n) = match h.get(&mut b)? {
                            16 => (*l.last().ok_or("repeat of nothing")?, 3 + b.bits(2)?),
                            17 => (0, 3 + b.bits(3)?),
                            18 => (0, 11 + b.bits(7)?),
                            s => (s as u8, 1),
                        };
                        l.extend(std::iter::repeat_n(v, n as usize));
                    }
                    if l.len() != nl + nd {
                        return Err("bad code lengths".into());
                    }
                    (Huff::new(&l[..nl]), Huff::new(&l[nl..]))
                };
                loop {
                    let s = lit.get(&mut b)?;
                    if s < 256 {
                        o.push(s as u8);
                        continue;
                    }
                    if s == 256 {
                        break;
                    }
                    let k = s - 257;
                    let len = match k {
                        0..8 => 3 + k,
                        28 => 258,
                        8..28 => {
                            let e = k / 4 - 1;
                            3 + ((4 + k % 4) << e) + b.bits(e as u32)? as usize
                        }
                        _ => return Err("bad length".into()),
                    };
                    let k = dist.get(&mut b)?;
                    let ds = if k < 4 {
                        1 + k
                    } else {
                        let e = k / 2 - 1;
                        1 + ((2 + k % 2) << e) + b.bits(e as u32)? as usize
                    };
                    if ds > o.len() {
                        return Err("distance too far".into());
                    }
                    for _ in 0..len {
                        o.push(o[o.len() - ds]);
                    }
                }
            }
            _ => return Err("bad block type".into()),
        }
        if last == 1 {
            break;
        }
    }
    let p = 2 + b.pos.div_ceil(8);
    let (mut x, mut y) = (1u32, 0u32);
    for &v in &o {
        x = (x + v as u32) % 65521;
        y = (y + x) % 65521;
    }
    if d.get(p..) != Some(&(y << 16 | x).to_be_bytes()[..]) {
        return Err("bad checksum of zlib data".into());
    }
    Ok(o)
}

// ------------------------------------------------------------------ readers

/// A file read back: samples of frames, interleaved.
#[derive(Default)]
struct File {
    w: usize,
    h: usize,
    nc: usize,
    /// Bits per sample.
    bits: u32,
    frames: Vec<Vec<f64>>,
    delays: Vec<(u16, u16)>,
    plays: Option<u32>,
    icc: Option<Vec<u8>>,
    chunks: BTreeMap<String, Vec<u8>>,
    chroma: Option<Vec<f32>>,
    names: Vec<String>,
}

fn u32be(b: &[u8], p: usize) -> R<usize> {
    b.get(p..p + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as usize).ok_or("cut off".into())
}

fn read_png(b: &[u8]) -> R<File> {
    if b.get(..8) != Some(b"\x89PNG\r\n\x1a\n") {
        return Err("no PNG signature".into());
    }
    let mut f = File::default();
    let mut p = 8;
    let mut seq = 0;
    let mut data: Vec<Vec<u8>> = vec![];
    let mut hdr: Option<Vec<u8>> = None;
    let mut plays = None;
    let mut rects = vec![];
    let mut done = false;
    while p < b.len() {
        let n = u32be(b, p)?;
        let ty = String::from_utf8_lossy(b.get(p + 4..p + 8).ok_or("cut off")?).to_string();
        let d = b.get(p + 8..p + 8 + n).ok_or(format!("chunk {ty} cut off"))?;
        let mut crc = !0u32;
        for &x in &b[p + 4..p + 8 + n] {
            crc ^= x as u32;
            for _ in 0..8 {
                crc = if crc & 1 == 1 { crc >> 1 ^ 0xedb88320 } else { crc >> 1 };
            }
        }
        if !crc as usize != u32be(b, p + 8 + n)? {
            return Err(format!("bad CRC of chunk {ty}"));
        }
        p += 12 + n;
        if done {
            return Err("data after IEND".into());
        }
        let mut number = |d: &[u8]| {
            if u32be(d, 0)? != seq {
                return Err(format!("sequence number {} instead of {seq}", u32be(d, 0)?));
            }
            seq += 1;
            Ok(())
        };
        match &ty[..] {
            "IHDR" => hdr = Some(d.to_vec()),
            "acTL" => plays = Some((u32be(d, 0)?, u32be(d, 4)? as u32)),
            "fcTL" => {
                number(d)?;
                rects.push((u32be(d, 4)?, u32be(d, 8)?, u32be(d, 12)?, u32be(d, 16)?));
                let h = |i: usize| u16::from_be_bytes([d[i], d[i + 1]]);
                f.delays.push((h(20), h(22)));
                if !data.is_empty() || f.delays.len() > 1 {
                    data.push(vec![]);
                }
            }
            "IDAT" => {
                if data.is_empty() {
                    data.push(vec![]);
                }
                if data.len() != 1 {
                    return Err("IDAT after other frames".into());
                }
                data[0].extend(d);
            }
            "fdAT" => {
                number(d)?;
                data.last_mut().ok_or("fdAT first")?.extend(&d[4..]);
            }
            "IEND" => done = true,
            "iCCP" => {
                let z = d.iter().position(|&x| x == 0).ok_or("bad iCCP")?;
                f.icc = Some(inflate(d.get(z + 2..).ok_or("bad iCCP")?)?);
            }
            _ => {
                f.chunks.insert(ty, d.to_vec());
            }
        }
    }
    if !done {
        return Err("no IEND".into());
    }
    let h = hdr.ok_or("no IHDR")?;
    (f.w, f.h, f.bits) = (u32be(&h, 0)?, u32be(&h, 4)?, h[8] as u32);
    f.nc = *[1, 0, 3, 0, 2, 0, 4].get(h[9] as usize).ok_or("bad colour type")?;
    if f.nc == 0 || ![8, 16].contains(&f.bits) || h[12] != 0 {
        return Err(format!("unexpected header {h:?}"));
    }
    if let Some((n, l)) = plays {
        f.plays = Some(l);
        if n != data.len() || n != f.delays.len() || rects.iter().any(|r| *r != (f.w, f.h, 0, 0)) {
            return Err(format!("{n} frames announced, {} found with {} headers", data.len(), f.delays.len()));
        }
    } else if data.len() != 1 || !f.delays.is_empty() {
        return Err("frames without announcement".into());
    }
    let bpp = f.nc * f.bits as usize / 8;
    let rb = bpp * f.w;
    for z in data {
        let raw = inflate(&z)?;
        if raw.len() != (rb + 1) * f.h {
            return Err(format!("{} bytes of image data instead of {}", raw.len(), (rb + 1) * f.h));
        }
        let mut prev = vec![0u8; rb];
        let mut out = vec![];
        for y in 0..f.h {
            let ft = raw[y * (rb + 1)];
            let mut row = raw[y * (rb + 1) + 1..][..rb].to_vec();
            for i in 0..rb {
                let a = if i >= bpp { row[i - bpp] as i32 } else { 0 };
                let u = prev[i] as i32;
                let c = if i >= bpp { prev[i - bpp] as i32 } else { 0 };
                let pr = match ft {
                    0 => 0,
                    1 => a,
                    2 => u,
                    3 => (a + u) / 2,
                    4 => {
                        let q = a + u - c;
                        let (da, du, dc) = ((q - a).abs(), (q - u).abs(), (q - c).abs());
                        if da <= du && da <= dc { a } else if du <= dc { u } else { c }
                    }
                    _ => return Err("bad filter".into()),
                };
                row[i] = row[i].wrapping_add(pr as u8);
            }
            match f.bits {
                8 => out.extend(row.iter().map(|&v| v as f64)),
                _ => out.extend(row.chunks(2).map(|v| u16::from_be_bytes([v[0], v[1]]) as f64)),
            }
            prev = row;
        }
        f.frames.push(out);
    }
    Ok(f)
}

fn read_pnm(b: &[u8]) -> R<File> {
    let mut f = File::default();
    let mut p = 0;
    let mut tok = || -> R<String> {
        let s = p;
        while b.get(p).is_some_and(|c| !c.is_ascii_whitespace()) {
            p += 1;
        }
        let t = String::from_utf8_lossy(&b[s..p]).to_string();
        p += 1;
        Ok(t)
    };
    f.nc = match &tok()?[..] {
        "P5" => 1,
        "P6" => 3,
        t => return Err(format!("bad type {t}")),
    };
    let mut num = || -> R<usize> { tok()?.parse().map_err(|e| format!("bad number: {e}")) };
    f.w = num()?;
    f.h = num()?;
    f.bits = match num()? {
        255 => 8,
        65535 => 16,
        m => return Err(format!("maximum {m}")),
    };
    let d = &b[p..];
    if d.len() != f.w * f.h * f.nc * f.bits as usize / 8 {
        return Err(format!("{} bytes of samples", d.len()));
    }
    f.frames.push(if f.bits == 8 { d.iter().map(|&x| x as f64).collect() } else { d.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]]) as f64).collect() });
    Ok(f)
}

fn read_npy(b: &[u8]) -> R<File> {
    let mut f = File { bits: 32, ..Default::default() };
    if b.get(..8) != Some(b"\x93NUMPY\x01\x00") {
        return Err("no NumPy signature".into());
    }
    let n = u16::from_le_bytes([b[8], b[9]]) as usize;
    let h = String::from_utf8_lossy(b.get(10..10 + n).ok_or("cut off")?).to_string();
    if (n + 10) % 16 != 0 || !h.ends_with('\n') || !h.contains("'descr': '<f4'") || !h.contains("'fortran_order': False") {
        return Err(format!("bad header {h:?}"));
    }
    let s = h.split("'shape': (").nth(1).and_then(|s| s.split(')').next()).ok_or("no shape")?;
    let v: Vec<usize> = s.split(',').map(|x| x.trim().parse().map_err(|_| format!("bad shape {s}"))).collect::<R<_>>()?;
    let [nf, y, x, c] = v[..] else { return Err(format!("bad shape {s}")) };
    (f.w, f.h, f.nc) = (x, y, c);
    let d = &b[10 + n..];
    if d.len() != nf * x * y * c * 4 {
        return Err(format!("{} bytes of samples for shape {s}", d.len()));
    }
    let v: Vec<f64> = d.chunks(4).map(|x| f32::from_le_bytes(x.try_into().unwrap()) as f64).collect();
    f.frames = v.chunks(x * y * c).map(|x| x.to_vec()).collect();
    Ok(f)
}

fn read_exr(b: &[u8]) -> R<File> {
    let mut f = File::default();
    let u32le = |p: usize| -> R<usize> { b.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).ok_or("cut off".into()) };
    if u32le(0)? != 20000630 || u32le(4)? & 0xff != 2 || u32le(4)? & 0x1800 != 0 {
        return Err(format!("no OpenEXR signature but {:?}", &b[..b.len().min(16)]));
    }
    let mut p = 8;
    let text = |p: &mut usize| -> R<String> {
        let n = b.get(*p..).and_then(|s| s.iter().position(|&c| c == 0)).ok_or("cut off")?;
        let s = String::from_utf8_lossy(&b[*p..*p + n]).to_string();
        *p += n + 1;
        Ok(s)
    };
    let mut attr = BTreeMap::new();
    loop {
        let name = text(&mut p)?;
        if name.is_empty() {
            break;
        }
        let ty = text(&mut p)?;
        let n = u32le(p)?;
        attr.insert(name, (ty, b.get(p + 4..p + 4 + n).ok_or("cut off")?.to_vec()));
        p += 4 + n;
    }
    let get = |n: &str| attr.get(n).map(|a| &a.1[..]).ok_or(format!("no attribute {n}"));
    let i32s = |d: &[u8]| d.chunks(4).map(|x| i32::from_le_bytes(x.try_into().unwrap())).collect::<Vec<_>>();
    let w = i32s(get("dataWindow")?);
    if w[0] != 0 || w[1] != 0 || i32s(get("displayWindow")?) != w {
        return Err(format!("windows {w:?}"));
    }
    (f.w, f.h) = (w[2] as usize + 1, w[3] as usize + 1);
    let c = get("channels")?;
    let mut q = 0;
    let mut size = 0;
    while c[q] != 0 {
        let n = c[q..].iter().position(|&x| x == 0).ok_or("bad channel list")?;
        f.names.push(String::from_utf8_lossy(&c[q..q + n]).to_string());
        let v = i32s(&c[q + n + 1..q + n + 17]);
        size = match v[0] {
            1 => 2,
            2 => 4,
            t => return Err(format!("sample type {t}")),
        };
        if (v[2], v[3]) != (1, 1) || (f.bits != 0 && f.bits != size * 8) {
            return Err(format!("channel {v:?}"));
        }
        f.bits = size * 8;
        q += n + 17;
    }
    let size = size as usize;
    f.nc = f.names.len();
    if !f.names.is_sorted() {
        return Err(format!("channels {:?} are not sorted", f.names));
    }
    let comp = get("compression")?[0];
    let lines = match comp {
        0..=2 => 1,
        3 => 16,
        c => return Err(format!("compression {c}")),
    };
    if let Ok(c) = get("chromaticities") {
        f.chroma = Some(c.chunks(4).map(|x| f32::from_le_bytes(x.try_into().unwrap())).collect());
    }
    // lines, or tiles of one level
    let tile = if u32le(4)? & 0x200 != 0 {
        let t = get("tiles")?;
        if t.len() != 9 || t[8] & 15 != 0 {
            return Err(format!("tiles {t:?}"));
        }
        let t = i32s(&t[..8]);
        Some((t[0] as usize, t[1] as usize))
    } else {
        None
    };
    let (tw, th) = tile.unwrap_or((f.w, lines));
    let mut seen = vec![false; f.w.div_ceil(tw) * f.h.div_ceil(th)];
    let mut out = vec![f64::NAN; f.w * f.h * f.nc];
    for i in 0..seen.len() {
        let mut o = u32le(p + 8 * i)?;
        let (x0, y) = if tile.is_some() {
            let v = (u32le(o)? * tw, u32le(o + 4)? * th);
            if u32le(o + 8)? != 0 || u32le(o + 12)? != 0 {
                return Err("tile of another level".into());
            }
            o += 12;
            v
        } else {
            (0, u32le(o)?)
        };
        let n = u32le(o + 4)?;
        let d = b.get(o + 8..o + 8 + n).ok_or("block cut off")?;
        if y % th != 0 || y >= f.h || x0 >= f.w {
            return Err(format!("block at ({x0}, {y})"));
        }
        if std::mem::replace(&mut seen[y / th * f.w.div_ceil(tw) + x0 / tw], true) {
            return Err(format!("second block at ({x0}, {y})"));
        }
        let (rows, cols) = (th.min(f.h - y), tw.min(f.w - x0));
        let want = rows * cols * f.nc * size;
        let raw = if n == want {
            d.to_vec()
        } else {
            let mut t = if comp == 1 {
                let mut t = vec![];
                let mut k = 0;
                while k < d.len() {
                    let c = d[k] as i8 as i32;
                    if c < 0 {
                        t.extend(d.get(k + 1..k + 1 + -c as usize).ok_or("bad run")?);
                        k += 1 + -c as usize;
                    } else {
                        t.extend(std::iter::repeat_n(*d.get(k + 1).ok_or("bad run")?, c as usize + 1));
                        k += 2;
                    }
                }
                t
            } else {
                inflate(d)?
            };
            if t.len() != want {
                return Err(format!("block of {} bytes instead of {want}", t.len()));
            }
            for k in 1..t.len() {
                t[k] = t[k].wrapping_add(t[k - 1]).wrapping_sub(128);
            }
            let half = t.len().div_ceil(2);
            (0..t.len()).map(|k| if k % 2 == 0 { t[k / 2] } else { t[half + k / 2] }).collect()
        };
        let num = if size == 2 { Num::F16(false) } else { Num::F32(false) };
        let mut k = 0;
        for r in 0..rows {
            for c in 0..f.nc {
                for x in x0..x0 + cols {
                    out[((y + r) * f.w + x) * f.nc + c] = num.get(&raw[k..]);
                    k += size;
                }
            }
        }
    }
    f.frames.push(out);
    Ok(f)
}

// ------------------------------------------------------------------ the tool

/// A directory of its own for a run, removed at the end.
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("verif-cli-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Exit code (None: killed by a signal) and standard output.
fn run(dir: &Path, args: &[String], threads: u64) -> (Option<i32>, String, String) {
    let bin = std::env::var("VERIF_CLI").unwrap_or("/verif/build/cli/release/jxl_cli".into());
    let o = Command::new(bin).args(args).current_dir(dir).env_clear().env("RAYON_NUM_THREADS", threads.to_string()).stdin(Stdio::null()).output().expect("cannot run the command line tool");
    (o.status.code(), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
}

const U8: Num = Num::U8(8);
const U16: Num = Num::U16(16, false);
const F16: Num = Num::F16(false);
const F32: Num = Num::F32(false);

/// Linear light of an encoded value between 0 and 1.
fn linear(t: &Tf, v: f64) -> Option<f64> {
    Some(match t {
        Tf::Linear => v,
        Tf::SRGB => {
            if v <= 0.04045 {
                v / 12.92
            } else {
                ((v + 0.055) / 1.055).powf(2.4)
            }
        }
        Tf::BT709 => {
            if v < 0.081 {
                v / 4.5
            } else {
                ((v + 0.099) / 1.099).powf(1.0 / 0.45)
            }
        }
        Tf::DCI => v.powf(2.6),
        Tf::Gamma(g) => v.powf(1.0 / *g as f64),
        _ => return None,
    })
}

pub fn c26(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = if src.chance(2, 3) { imgs::made_of(src, ctx, 3, false, true) } else { imgs::image(src, ctx) };
    let mut data = img.bytes.clone();
    let mut desc = img.desc.clone();
    let damaged = src.chance(1, 8);
    if damaged {
        desc += &mutate(src, &mut data);
    }
    ctx.artifact("jxl", &data);
    let dir = Dir::new();
    std::fs::write(dir.0.join("in.jxl"), &data).unwrap();
    let ext = *src.pick(&["png", "png", "png", "apng", "ppm", "pgm", "npy", "npy", "exr", "exr"]);
    let dt = if src.chance(1, 3) { Some(*src.pick(&[("u8", U8), ("u16", U16), ("f16", F16), ("f32", F32), ("F32", F32)])) } else { None };
    let depth = if src.chance(1, 4) { Some(*src.pick(&[1usize, 8, 9, 16, 17, 32])) } else { None };
    let interval = if src.chance(1, 6) { Some(src.urange(1, data.len().max(2)).max(data.len() / 30)) } else { None };
    let (high, icc, info) = (src.chance(1, 4), src.chance(1, 3), src.chance(1, 6));
    let preview = src.chance(1, 12);
    let threads = 1 + src.below(3);
    let mut args: Vec<String> = vec!["in.jxl".into(), format!("out.{ext}")];
    if let Some(d) = dt {
        args.push(format!("--data-type={}", d.0));
    }
    if let Some(d) = depth {
        args.push(format!("--override-bitdepth={d}"));
    }
    if let Some(n) = interval {
        args.push(format!("--render-interval={n}"));
    }
    if high {
        args.push("--high-precision".into());
    }
    if icc {
        args.extend(["--icc-out=out.icc".into(), "--original-icc-out=orig.icc".into()]);
    }
    if preview {
        args.push("--preview".into());
    }
    let speed = src.chance(1, 10) && data.len() < 20_000;
    let full = src.chance(1, 12);
    if speed {
        args.push("--speedtest".into());
    }
    if src.chance(1, 8) {
        args.push("--allow-partial-files".into());
    }
    let what = format!("{desc} {args:?}");
    ctx.sample(what.clone());
    ctx.nontrivial(hash_bytes(format!("{args:?} {}", hash_bytes(&data)).as_bytes()));
    ctx.label(format!("to {ext}"));

    // What the library gives for the same request.
    let accepted: &[Num] = match ext {
        "npy" => &[F32],
        "exr" => &[F16, F32],
        _ => &[U8, U16],
    };
    let fold = !["ppm", "pgm", "npy"].contains(&ext);
    let cfg = Cfg { spot: ext != "npy", skip_preview: !preview, high_precision: high, ..Default::default() };
    let mut chosen = None;
    let mut hook = |i: &Info| {
        let want = depth.unwrap_or(i.bits as usize);
        let n = match dt {
            Some((_, n)) if accepted.contains(&n) => n,
            _ => *accepted.iter().find(|n| n.bytes() * 8 >= want).unwrap_or(accepted.last().unwrap()),
        };
        let alpha = i.ecs.iter().position(|e| e.0 == 0).filter(|_| fold);
        let f = Fmt {
            color: match (i.gray, alpha.is_some()) {
                (true, false) => T::Grayscale,
                (true, true) => T::GrayscaleAlpha,
                (false, false) => T::Rgb,
                (false, true) => T::Rgba,
            },
            color_fmt: Some(n),
            ec: (0..i.ecs.len()).map(|k| if Some(k) == alpha { None } else { Some(n) }).collect(),
        };
        chosen = Some(f.clone());
        Some(FmtSel::Exact(f))
    };
    let d = decode_with(&data, &cfg, &mut hook);
    let (code, out, errs) = run(&dir.0, &args, threads);
    let panicked = match code {
        Some(0 | 1) => false,
        _ => true,
    };
    let first_err = errs.lines().find(|l| l.contains("panicked") || l.contains("Error")).unwrap_or("").to_string() + " " + errs.lines().nth(1).unwrap_or("");
    if panicked {
        return fail("c26:crash", format!("{what}: exit code {code:?}: {first_err} {}", errs.chars().take(300).collect::<String>()));
    }
    if info && !damaged {
        let (c, t, _) = run(&dir.0, &["in.jxl".into(), "--info".into()], 1);
        let i = d.info.as_ref().unwrap();
        let mut want = vec![format!("Image size: {}x{}", i.size.0, i.size.1), format!("Extra channels: {}", i.ecs.len())];
        want.push(i.preview.map_or("Preview: none".into(), |p| format!("Preview size: {}x{}", p.0, p.1)));
        if let Some(a) = i.anim {
            want.push(format!("Animation: {} loops, {}/{} tps", a.2, a.0, a.1));
        }
        if c != Some(0) || want.iter().any(|w| !t.lines().any(|l| l == w)) {
            return fail("c26:info", format!("{what}: --info exits with {c:?} and prints {t:?}, expected {want:?}"));
        }
    }
    if damaged {
        if code == Some(0) && d.end != End::Complete && !args.iter().any(|a| a.contains("partial")) {
            return fail("c26:accepted", format!("{what}: the tool succeeds, the library ends with {:?}", d.end));
        }
        ctx.label("damaged");
        return Ok(());
    }
    if d.end != End::Complete {
        return fail("c26:setup", format!("{what}: the library ends with {:?}", d.end));
    }
    let (i, fmt) = (d.info.as_ref().unwrap(), chosen.unwrap());
    let n = fmt.color_fmt.unwrap();
    let frames: Vec<&FrameOut> = if preview { d.preview.iter().collect() } else { d.frames.iter().collect() };
    // What the formats cannot hold is an error.
    let delay = |f: &FrameOut| {
        let (mut a, mut b) = (f.duration.unwrap_or(0.0).round() as u64, 1000u64);
        let (mut x, mut y) = (a, b);
        while y != 0 {
            (x, y) = (y, x % y);
        }
        a /= x;
        b /= x;
        (a <= 65535).then_some((a as f64, b as f64))
    };
    let png = ext.ends_with("png");
    let refuse = if preview && i.preview.is_none() {
        Some("no preview")
    } else if ext == "pgm" && fmt.color != T::Grayscale || ext == "ppm" && fmt.color != T::Rgb {
        Some("wrong colour type")
    } else if ext == "exr" && !matches!(&i.profiles.1, JxlColorProfile::Simple(E::RgbColorSpace { .. } | E::GrayscaleColorSpace { .. })) {
        Some("no linear colour space")
    } else if png && frames.len() > 1 && frames.iter().any(|f| delay(f).is_none()) {
        Some("delay too long")
    } else {
        None
    };
    if (code == Some(0)) == refuse.is_some() {
        return fail("c26:exit", format!("{what}: exit code {code:?} ({first_err}), expected {}", refuse.unwrap_or("success")));
    }
    if let Some(r) = refuse {
        ctx.label(r);
        return Ok(());
    }
    if speed && !out.contains("Decoded") {
        return fail("c26:speed", format!("{what}: prints {out:?}"));
    }
    // A file that cannot be written to the end is not a success.
    if full && std::path::Path::new("/dev/full").exists() {
        let mut a = args.clone();
        a[1] = format!("full.{ext}");
        let _ = std::os::unix::fs::symlink("/dev/full", dir.0.join(&a[1]));
        let (c, _, e) = run(&dir.0, &a, threads);
        ctx.label("disk full");
        if c != Some(1) {
            return fail("c26:full", format!("{what}: exit code {c:?} when the output cannot be written {}", e.chars().take(300).collect::<String>()));
        }
    }
    let read = |p: &str| -> R<File> {
        let b = std::fs::read(dir.0.join(p)).map_err(|e| format!("{p}: {e}"))?;
        if p.ends_with("png") {
            read_png(&b)
        } else if p.ends_with("npy") {
            read_npy(&b)
        } else if p.ends_with("exr") {
            read_exr(&b)
        } else {
            read_pnm(&b)
        }
        .map_err(|e| format!("{p}: {e}"))
    };
    let f = match read(&args[1]) {
        Ok(f) => f,
        Err(e) => return fail("c26:file", format!("{what}: {e}")),
    };
    if icc {
        for (file, p) in [("out.icc", &i.profiles.1), ("orig.icc", &i.profiles.0)] {
            let got = std::fs::read(dir.0.join(file)).unwrap_or_default();
            // the output of EXR files is made linear
            let p = match p {
                JxlColorProfile::Simple(e) if ext == "exr" && file == "out.icc" => JxlColorProfile::Simple(e.with_linear_tf()),
                p => p.clone(),
            };
            if p.try_as_icc().is_some_and(|b| *b != got) {
                return fail("c26:icc", format!("{what}: {file} is not the profile"));
            }
        }
    }
    // Samples
    let spp = fmt.color.samples_per_pixel();
    let ecs = if ext == "npy" { fmt.ec.iter().flatten().count() } else { 0 };
    let nf = if png || ext == "npy" { frames.len() } else { 1 };
    let (w, h) = (frames[0].planes[0].w, frames[0].planes[0].h);
    if (f.w, f.h, f.nc, f.bits as usize, f.frames.len()) != (w, h, spp + ecs, n.bytes() * 8, nf) {
        return fail("c26:shape", format!("{what}: {}x{} {} channels {} bits {} frames, expected {w}x{h} {} {} {nf}", f.w, f.h, f.nc, f.bits, f.frames.len(), spp + ecs, n.bytes() * 8));
    }
    let tf = match &i.profiles.1 {
        JxlColorProfile::Simple(E::RgbColorSpace { transfer_function, .. } | E::GrayscaleColorSpace { transfer_function, .. }) => Some(transfer_function.clone()),
        _ => None,
    };
    let chan: Vec<usize> = if ext == "exr" {
        let names = [&["Y"][..], &["Y", "A"], &["R", "G", "B"], &["R", "G", "B", "A"]][spp - 1];
        match names.iter().map(|n| f.names.iter().position(|m| m == n)).collect::<Option<Vec<_>>>() {
            Some(v) => v,
            None => return fail("c26:channels", format!("{what}: channels {:?}", f.names)),
        }
    } else {
        (0..spp).collect()
    };
    for (k, (got, fr)) in f.frames.iter().zip(&frames).enumerate() {
        for y in 0..h {
            for x in 0..w {
                for c in 0..f.nc {
                    let e = if c < spp { fr.planes[0].get(x, y, c) } else { fr.planes[1 + c - spp].get(x, y, 0) };
                    let g = got[(y * w + x) * f.nc + if c < spp { chan[c] } else { c }];
                    let mut e = e;
                    let mut tol = 0.0;
                    if ext == "exr" && !(fmt.color.has_alpha() && c == spp - 1) {
                        let px: Vec<f64> = (0..if fmt.color.has_alpha() { spp - 1 } else { spp }).map(|c| fr.planes[0].get(x, y, c)).collect();
                        match px.iter().all(|v| (0.0..=1.0).contains(v)).then(|| linear(tf.as_ref().unwrap(), e)).flatten() {
                            Some(l) => {
                                e = l;
                                tol = 4e-3;
                            }
                            None => continue,
                        }
                    }
                    if !((g - e).abs() <= tol || g == e || g.is_nan() && e.is_nan()) {
                        return fail("c26:samples", format!("{what}: frame {k} channel {c} at ({x}, {y}): {g}, expected {e}"));
                    }
                }
            }
        }
    }
    // Animation
    if png {
        if nf > 1 {
            ctx.label("animated");
            let loops = i.anim.map_or(0, |a| a.2);
            if f.plays != Some(loops) {
                return fail("c26:loops", format!("{what}: {:?} plays, expected {loops}", f.plays));
            }
            for (k, (g, fr)) in f.delays.iter().zip(&frames).enumerate() {
                let (a, b) = delay(fr).unwrap();
                if g.1 == 0 || (g.0 as f64 / g.1 as f64 - a / b).abs() > 1e-9 {
                    return fail("c26:delay", format!("{what}: frame {k} lasts {g:?} s, expected {a}/{b}"));
                }
            }
        } else if f.plays.is_some() {
            return fail("c26:loops", format!("{what}: still image stored as an animation"));
        }
        if let Some(m) = png_profile(&f, &i.profiles.1) {
            return fail("c26:profile", format!("{what}: {m}"));
        }
        // Partial renders
        if interval.is_some() && nf == 1 && !preview {
            let mut k = 0;
            let mut last = None;
            while dir.0.join(format!("out.partial{k:05}.png")).exists() {
                match read(&format!("out.partial{k:05}.png")) {
                    Ok(p) if (p.w, p.h, p.nc, p.bits, p.frames.len()) == (f.w, f.h, f.nc, f.bits, 1) => last = Some(p),
                    Ok(p) => return fail("c26:partial", format!("{what}: partial render {k} has {}x{} {} channels {} bits", p.w, p.h, p.nc, p.bits)),
                    Err(e) => return fail("c26:partial", format!("{what}: {e}")),
                }
                k += 1;
            }
            if k > 0 {
                ctx.label("partial renders");
            }
            if last.is_some_and(|l| l.frames != f.frames) {
                return fail("c26:partial", format!("{what}: the last of {k} partial renders is not the image"));
            }
        }
    }
    if ext == "exr"
        && let JxlColorProfile::Simple(e) = &i.profiles.1
    {
        let (white, prim) = match e {
            E::RgbColorSpace { white_point, primaries, .. } => (white_point.to_xy_coords(), primaries.to_xy_coords()),
            E::GrayscaleColorSpace { white_point, .. } => (white_point.to_xy_coords(), Pr::SRGB.to_xy_coords()),
            _ => unreachable!(),
        };
        let want: Vec<f32> = prim.iter().chain([&white]).flat_map(|p| [p.0, p.1]).collect();
        if !f.chroma.as_ref().is_some_and(|c| c.len() == 8 && c.iter().zip(&want).all(|(a, b)| (a - b).abs() < 1e-4)) {
            return fail("c26:chromaticities", format!("{what}: {:?}, expected {want:?}", f.chroma));
        }
    }
    Ok(())
}

/// What is wrong with the colour information of a PNG file.
fn png_profile(f: &File, p: &JxlColorProfile) -> Option<String> {
    let icc = p.try_as_icc().map(|b| b.to_vec());
    let c = |n: &str| f.chunks.get(n);
    if let JxlColorProfile::Simple(E::RgbColorSpace { white_point: W::D65, primaries: Pr::SRGB, transfer_function: Tf::SRGB, rendering_intent }) = p {
        let want = *rendering_intent as u8;
        if c("sRGB").map(|v| &v[..]) != Some(&[want]) {
            return Some(format!("sRGB chunk {:?}, expected intent {want}", c("sRGB")));
        }
        if f.icc.is_some() || c("cICP").is_some() {
            return Some("other profiles next to sRGB".into());
        }
        if c("gAMA").is_some_and(|g| g[..] != 45455u32.to_be_bytes()) {
            return Some("gamma of sRGB".into());
        }
        let xy: Vec<u8> = [31270u32, 32900, 64000, 33000, 30000, 60000, 15000, 6000].iter().flat_map(|v| v.to_be_bytes()).collect();
        if c("cHRM").is_some_and(|g| *g != xy) {
            return Some("chromaticities of sRGB".into());
        }
        return None;
    }
    if c("sRGB").is_some() || f.icc != icc {
        return Some(format!("ICC profile of {:?} bytes, expected {:?}", f.icc.as_ref().map(|x| x.len()), icc.map(|x| x.len())));
    }
    if let JxlColorProfile::Simple(E::RgbColorSpace { white_point, primaries, transfer_function, .. }) = p {
        let prim = match (white_point, primaries) {
            (W::D65, Pr::SRGB) => 1,
            (W::D65, Pr::BT2100) => 9,
            (W::DCI, Pr::P3) => 11,
            (W::D65, Pr::P3) => 12,
            _ => 0,
        };
        let tf = match transfer_function {
            Tf::BT709 => 1,
            Tf::Linear => 8,
            Tf::SRGB => 13,
            Tf::PQ => 16,
            Tf::DCI => 17,
            Tf::HLG => 18,
            Tf::Gamma(_) => 0,
        };
        let want = (prim > 0 && tf > 0).then_some(vec![prim, tf, 0, 1]);
        if c("cICP").is_some() && c("cICP") != want.as_ref() {
            return Some(format!("cICP {:?}, expected {want:?}", c("cICP")));
        }
    } else if c("cICP").is_some() {
        return Some("unexpected cICP".into());
    }
    None
}
