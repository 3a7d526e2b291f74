//! Drives the decoder's public API under many configurations and collects everything observable.
use crate::core::{Rng, Src};
use jxl::api::*;
use std::io::{BufReader, Cursor, IoSliceMut};
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ configuration

#[derive(Clone, Debug, PartialEq)]
pub enum Feed {
    /// Everything in one slice.
    Whole,
    /// Fixed chunk sizes.
    Fixed(usize),
    /// Random chunk sizes up to max, from a seed.
    Random(u64, usize),
    /// Cut points (sorted byte offsets).
    Cuts(Vec<usize>),
    /// std BufReader over a Cursor with this capacity.
    BufReader(usize),
    /// A reader relying on the trait's default `skip`, chunked.
    DefaultSkip(u64, usize),
    /// A reader with low `available_bytes` estimates.
    LowEstimate(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Run {
    None,
    Sequential,
    Reverse,
    Shuffle(u64),
    Threads(u64, usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    U8(u8),
    U16(u8, bool),
    F16(bool),
    F32(bool),
}
impl Num {
    pub fn bytes(&self) -> usize {
        match self {
            Num::U8(_) => 1,
            Num::U16(..) | Num::F16(_) => 2,
            Num::F32(_) => 4,
        }
    }
    pub fn api(&self) -> JxlDataFormat {
        let e = |be: bool| if be { Endianness::BigEndian } else { Endianness::LittleEndian };
        match *self {
            Num::U8(b) => JxlDataFormat::U8 { bit_depth: b },
            Num::U16(b, be) => JxlDataFormat::U16 { endianness: e(be), bit_depth: b },
            Num::F16(be) => JxlDataFormat::F16 { endianness: e(be) },
            Num::F32(be) => JxlDataFormat::F32 { endianness: e(be) },
        }
    }
    /// Sample value: integers as raw numbers, floats as values.
    pub fn get(&self, b: &[u8]) -> f64 {
        match *self {
            Num::U8(_) => b[0] as f64,
            Num::U16(_, be) => {
                let a = [b[0], b[1]];
                (if be { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) }) as f64
            }
            Num::F16(be) => {
                let a = [b[0], b[1]];
                let h = if be { u16::from_be_bytes(a) } else { u16::from_le_bytes(a) };
                crate::enc::bits::f16_to_f32(h) as f64
            }
            Num::F32(be) => {
                let a = [b[0], b[1], b[2], b[3]];
                (if be { f32::from_be_bytes(a) } else { f32::from_le_bytes(a) }) as f64
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fmt {
    pub color: JxlColorType,
    pub color_fmt: Option<Num>,
    pub ec: Vec<Option<Num>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FmtSel {
    /// What the decoder proposes.
    Default,
    /// f32 planar: colour (gray or RGB by the proposed format) and every extra channel separately.
    F32All,
    Exact(Fmt),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub adjust_orientation: bool,
    pub spot: bool,
    pub intensity: Option<f32>,
    pub skip_preview: bool,
    pub limit: Option<usize>,
    pub high_precision: bool,
    pub premul: bool,
    pub scan_only: bool,
    pub simd: u32,
    pub fmt: FmtSel,
    pub feed: Feed,
    pub run: Run,
    /// Seed and denominator: after an incomplete step, flush with probability 1/den.
    pub flush: Option<(u64, u64)>,
    /// Extra bytes at the end of every row / before and after the buffer, filled with a canary.
    pub row_pad: usize,
    /// Initial content of the buffers.
    pub fill: u8,
    /// Frames (by visible index) that are skipped with `skip_frame`.
    pub skip: Vec<usize>,
    /// Stop after this many frames.
    pub max_frames: usize,
    /// Skip all frames, and do not allocate buffers.
    pub no_pixels: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            adjust_orientation: true,
            spot: true,
            intensity: None,
            skip_preview: true,
            limit: Some(1 << 26),
            high_precision: false,
            premul: false,
            scan_only: false,
            simd: 9,
            fmt: FmtSel::F32All,
            feed: Feed::Whole,
            run: Run::None,
            flush: None,
            row_pad: 0,
            fill: 0x5a,
            skip: vec![],
            max_frames: usize::MAX,
            no_pixels: false,
        }
    }
}
impl Cfg {
    pub fn options(&self) -> JxlDecoderOptions {
        let mut o = JxlDecoderOptions::default();
        o.adjust_orientation = self.adjust_orientation;
        o.render_spot_colors = self.spot;
        o.desired_intensity_target = self.intensity;
        o.skip_preview = self.skip_preview;
        o.sample_limit = self.limit;
        o.high_precision = self.high_precision;
        o.premultiply_output = self.premul;
        o.scan_frames_only = self.scan_only;
        o
    }
}

// ------------------------------------------------------------------ runners

pub static TASKS: AtomicU64 = AtomicU64::new(0);

struct Runner {
    kind: Run,
    rng: Rng,
}
impl JxlParallelRunner for Runner {
    fn run(&mut self, num: usize, fun: &JxlParallelRunnerFun<'_>) -> jxl::error::Result<()> {
        TASKS.fetch_add(num as u64, Ordering::Relaxed);
        match &self.kind {
            Run::None | Run::Sequential => {
                for i in 0..num {
                    fun(i)?;
                }
                Ok(())
            }
            Run::Reverse => {
                for i in (0..num).rev() {
                    fun(i)?;
                }
                Ok(())
            }
            Run::Shuffle(_) => {
                let mut v: Vec<usize> = (0..num).collect();
                for i in (1..num).rev() {
                    let j = self.rng.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
                for i in v {
                    fun(i)?;
                }
                Ok(())
            }
            Run::Threads(_, n) => {
                let mut v: Vec<usize> = (0..num).collect();
                for i in (1..num).rev() {
                    let j = self.rng.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
                let next = std::sync::atomic::AtomicUsize::new(0);
                let err = std::sync::Mutex::new(None);
                let panicked = std::sync::Mutex::new(None);
                let seeds: Vec<u64> = (0..*n).map(|_| self.rng.next()).collect();
                std::thread::scope(|s| {
                    for sd in seeds {
                        let (next, err, panicked, v) = (&next, &err, &panicked, &v);
                        s.spawn(move || {
                            let mut r = Rng::new(sd);
                            loop {
                                let k = next.fetch_add(1, Ordering::Relaxed);
                                if k >= v.len() {
                                    break;
                                }
                                for _ in 0..r.below(4) {
                                    std::thread::yield_now();
                                }
                                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fun(v[k])));
                                match res {
                                    Ok(Ok(())) => {}
                                    Ok(Err(e)) => {
                                        err.lock().unwrap().get_or_insert(e);
                                    }
                                    Err(p) => {
                                        panicked.lock().unwrap().get_or_insert(p);
                                    }
                                }
                            }
                        });
                    }
                });
                if let Some(p) = panicked.into_inner().unwrap() {
                    std::panic::resume_unwind(p);
                }
                match err.into_inner().unwrap() {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ inputs

/// Input honouring the documented contract, with the trait's default `skip`.
struct PlainIn<'a> {
    data: &'a [u8],
    pos: usize,
    limit: usize,
    low: Option<Rng>,
}
impl JxlBitstreamInput for PlainIn<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        let n = self.limit - self.pos;
        Ok(match &mut self.low {
            Some(r) if n > 0 => 1 + r.below(n as u64) as usize,
            _ => n,
        })
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        let mut tot = 0;
        for b in bufs {
            let n = b.len().min(self.limit - self.pos);
            b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            tot += n;
        }
        Ok(tot)
    }
}

enum In<'a> {
    Slice { data: &'a [u8], pos: usize, limit: usize },
    Plain(PlainIn<'a>),
    Buf(BufReader<Cursor<&'a [u8]>>),
}
impl JxlBitstreamInput for In<'_> {
    fn available_bytes(&mut self) -> Result<usize, std::io::Error> {
        match self {
            In::Slice { pos, limit, .. } => Ok(*limit - *pos),
            In::Plain(p) => p.available_bytes(),
            In::Buf(b) => b.available_bytes(),
        }
    }
    fn read(&mut self, bufs: &mut [IoSliceMut]) -> Result<usize, std::io::Error> {
        match self {
            In::Slice { data, pos, limit } => {
                let mut s = &data[*pos..*limit];
                let n = JxlBitstreamInput::read(&mut s, bufs)?;
                *pos += n;
                Ok(n)
            }
            In::Plain(p) => p.read(bufs),
            In::Buf(b) => JxlBitstreamInput::read(b, bufs),
        }
    }
    fn skip(&mut self, bytes: usize) -> Result<usize, std::io::Error> {
        match self {
            In::Slice { data, pos, limit } => {
                let mut s = &data[*pos..*limit];
                let n = s.skip(bytes)?;
                *pos += n;
                Ok(n)
            }
            In::Plain(p) => p.skip(bytes),
            In::Buf(b) => b.skip(bytes),
        }
    }
}

pub struct Feeder<'a> {
    data: &'a [u8],
    inp: In<'a>,
    feed: Feed,
    rng: Rng,
    pub rounds: u64,
}
impl<'a> Feeder<'a> {
    pub fn new(data: &'a [u8], feed: &Feed) -> Self {
        Self::at(data, feed, 0)
    }
    pub fn at(data: &'a [u8], feed: &Feed, start: usize) -> Self {
        let mut f = Feeder {
            data,
            inp: match feed {
                Feed::BufReader(cap) => {
                    let mut c = Cursor::new(data);
                    c.set_position(start as u64);
                    In::Buf(BufReader::with_capacity(*cap, c))
                }
                Feed::DefaultSkip(..) | Feed::LowEstimate(_) => In::Plain(PlainIn { data, pos: start, limit: start, low: None }),
                _ => In::Slice { data, pos: start, limit: start },
            },
            feed: feed.clone(),
            rng: Rng::new(match feed {
                Feed::Random(s, _) | Feed::DefaultSkip(s, _) | Feed::LowEstimate(s) => *s,
                _ => 0,
            }),
            rounds: 0,
        };
        if let (Feed::LowEstimate(s), In::Plain(p)) = (&f.feed, &mut f.inp) {
            p.low = Some(Rng::new(*s ^ 77));
        }
        f.more();
        f
    }
    /// Makes more data visible. Returns false if everything was already visible.
    pub fn more(&mut self) -> bool {
        self.rounds += 1;
        let len = self.data.len();
        let limit = match &mut self.inp {
            In::Slice { limit, .. } => limit,
            In::Plain(p) => &mut p.limit,
            In::Buf(_) => return false,
        };
        if *limit >= len {
            return false;
        }
        *limit = match &self.feed {
            Feed::Whole | Feed::BufReader(_) | Feed::LowEstimate(_) => len,
            Feed::Fixed(n) => (*limit + n).min(len),
            Feed::Random(_, m) | Feed::DefaultSkip(_, m) => {
                let m = *m;
                // mixture of tiny and large chunks
                let n = match self.rng.below(4) {
                    0 => 1 + self.rng.below(4),
                    1 => 1 + self.rng.below(m.min(64) as u64),
                    _ => 1 + self.rng.below(m as u64),
                } as usize;
                (*limit + n).min(len)
            }
            Feed::Cuts(c) => c.iter().copied().find(|&x| x > *limit).unwrap_or(len).min(len),
        };
        true
    }
    /// How much data is visible.
    pub fn limit(&self) -> usize {
        match &self.inp {
            In::Slice { limit, .. } => *limit,
            In::Plain(p) => p.limit,
            In::Buf(_) => self.data.len(),
        }
    }
    pub fn consumed(&mut self) -> usize {
        match &mut self.inp {
            In::Slice { pos, .. } => *pos,
            In::Plain(p) => p.pos,
            In::Buf(b) => std::io::Seek::stream_position(b).unwrap() as usize,
        }
    }
}

// ------------------------------------------------------------------ results

#[derive(Clone, Debug, PartialEq)]
pub struct Plane {
    pub num: Num,
    pub spp: usize,
    pub w: usize,
    pub h: usize,
    pub data: Vec<u8>,
}
impl Plane {
    pub fn get(&self, x: usize, y: usize, c: usize) -> f64 {
        let b = self.num.bytes();
        self.num.get(&self.data[((y * self.w + x) * self.spp + c) * b..])
    }
    pub fn channel(&self, c: usize) -> Vec<f64> {
        let mut v = Vec::with_capacity(self.w * self.h);
        for y in 0..self.h {
            for x in 0..self.w {
                v.push(self.get(x, y, c));
            }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FrameOut {
    pub name: String,
    pub duration: Option<f64>,
    pub size: (usize, usize),
    /// Colour first (if requested), then the requested extra channels.
    pub planes: Vec<Plane>,
    pub skipped: bool,
    /// If a flush happened before completion: how many returned true.
    pub flushes: u32,
    pub flush_true: u32,
    pub flush_snapshots: Vec<Vec<Plane>>,
    /// How much data was visible at each of them.
    pub flush_at: Vec<usize>,
}

/// The embedded profile and that of the output.
#[derive(Clone, PartialEq)]
pub struct Profiles(pub JxlColorProfile, pub JxlColorProfile);
impl std::fmt::Debug for Profiles {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut p = |p: &JxlColorProfile| match p {
            JxlColorProfile::Simple(e) => write!(f, "{e:?} "),
            JxlColorProfile::Icc(v) => write!(f, "ICC of {} bytes ", v.len()),
        };
        p(&self.0)?;
        p(&self.1)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Info {
    pub size: (usize, usize),
    pub orientation: u32,
    pub bits: u32,
    pub exp: Option<u32>,
    pub ecs: Vec<(u32, bool)>,
    pub anim: Option<(u32, u32, u32, bool)>,
    pub uses_original_profile: bool,
    pub tone: (f32, f32, bool, f32),
    pub preview: Option<(usize, usize)>,
    pub embedded: String,
    pub output: String,
    pub out_icc: Option<Vec<u8>>,
    pub emb_icc: Option<Vec<u8>>,
    pub fmt: String,
    pub gray: bool,
    pub profiles: Profiles,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Complete,
    NeedMore,
    Error(String),
    /// Stopped because max_frames was reached.
    Stopped,
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub info: Option<Info>,
    pub frames: Vec<FrameOut>,
    /// The frame under decoding when decoding ended early.
    pub partial: Option<FrameOut>,
    pub end: End,
    pub file_length: Option<u64>,
    pub scanned: Vec<VisibleFrameInfo>,
    pub consumed: usize,
    pub rounds: u64,
    /// The preview frame, when asked for.
    pub preview: Option<FrameOut>,
    pub preview_done: bool,
    /// Description of a violated buffer contract, if any.
    pub canary: Option<String>,
}

pub fn err_name(e: &jxl::error::Error) -> String {
    format!("{e:?}")
}

/// Buffer set for one frame, with canaries.
pub struct Bufs {
    fmt: Fmt,
    store: Vec<Vec<u64>>,
    geo: Vec<(usize, usize, usize, usize, usize, Num, usize)>, // offset, rows, row bytes, stride, total, num, spp
    w: usize,
    h: usize,
}
const CAN: u8 = 0xC7;
impl Bufs {
    pub fn new(fmt: &Fmt, w: usize, h: usize, pad: usize, fill: u8) -> Self {
        let mut store = vec![];
        let mut geo = vec![];
        let mut add = |n: Num, spp: usize| {
            let row = w * spp * n.bytes();
            let pad = pad.next_multiple_of(n.bytes());
            let stride = row + pad;
            let off = if pad > 0 { 64 + n.bytes() } else { 64 };
            let total = off + stride * h + 64;
            let mut s = vec![0u64; total.div_ceil(8)];
            let b = bytes_mut(&mut s);
            b.fill(CAN);
            for y in 0..h {
                b[off + y * stride..off + y * stride + row].fill(fill);
            }
            store.push(s);
            geo.push((off, h, row, stride, total, n, spp));
        };
        if let Some(n) = fmt.color_fmt {
            add(n, fmt.color.samples_per_pixel());
        }
        for e in fmt.ec.iter().flatten() {
            add(*e, 1);
        }
        Bufs { fmt: fmt.clone(), store, geo, w, h }
    }
    pub fn with<T>(&mut self, f: impl FnOnce(&mut [JxlOutputBuffer<'_>]) -> T) -> T {
        let mut v: Vec<JxlOutputBuffer> = vec![];
        for (s, &(off, rows, row, stride, ..)) in self.store.iter_mut().zip(&self.geo) {
            let b = bytes_mut(s);
            v.push(JxlOutputBuffer::new_with_stride(&mut b[off..], rows, row, stride));
        }
        f(&mut v)
    }
    pub fn planes(&self) -> Vec<Plane> {
        let mut out = vec![];
        for (s, &(off, rows, row, stride, _, n, spp)) in self.store.iter().zip(&self.geo) {
            let b = bytes(s);
            let mut data = Vec::with_capacity(rows * row);
            for y in 0..rows {
                data.extend_from_slice(&b[off + y * stride..off + y * stride + row]);
            }
            out.push(Plane { num: n, spp, w: self.w, h: self.h, data });
        }
        out
    }
    pub fn check(&self) -> Option<String> {
        for (i, (s, &(off, rows, row, stride, total, ..))) in self.store.iter().zip(&self.geo).enumerate() {
            let b = bytes(s);
            for (k, &x) in b[..total].iter().enumerate() {
                let inside = k >= off && (k - off) / stride.max(1) < rows && (k - off) % stride.max(1) < row;
                if !inside && x != CAN {
                    return Some(format!("buffer {i}: byte {k} outside the rows was overwritten (offset {off}, {rows} rows of {row} bytes, stride {stride})"));
                }
            }
        }
        None
    }
    pub fn fmt(&self) -> &Fmt {
        &self.fmt
    }
}
fn bytes_mut(v: &mut [u64]) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 8) }
}
fn bytes(v: &[u64]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 8) }
}

fn num_of(f: &JxlDataFormat) -> Num {
    match *f {
        JxlDataFormat::U8 { bit_depth } => Num::U8(bit_depth),
        JxlDataFormat::U16 { endianness, bit_depth } => Num::U16(bit_depth, endianness == Endianness::BigEndian),
        JxlDataFormat::F16 { endianness } => Num::F16(endianness == Endianness::BigEndian),
        JxlDataFormat::F32 { endianness } => Num::F32(endianness == Endianness::BigEndian),
    }
}

pub fn info_of(d: &JxlDecoder<states::WithImageInfo>) -> Info {
    let b = d.basic_info();
    Info {
        size: b.size,
        orientation: b.orientation as u32,
        bits: b.bit_depth.bits_per_sample(),
        exp: match &b.bit_depth {
            JxlBitDepth::Float { exponent_bits_per_sample, .. } => Some(*exponent_bits_per_sample),
            _ => None,
        },
        ecs: b.extra_channels.iter().map(|e| (e.ec_type as u32, e.alpha_associated)).collect(),
        anim: b.animation.as_ref().map(|a| (a.tps_numerator, a.tps_denominator, a.num_loops, a.have_timecodes)),
        uses_original_profile: b.uses_original_profile,
        tone: (
            b.tone_mapping.intensity_target,
            b.tone_mapping.min_nits,
            b.tone_mapping.relative_to_max_display,
            b.tone_mapping.linear_below,
        ),
        preview: b.preview_size,
        embedded: format!("{}", d.embedded_color_profile()),
        output: format!("{}", d.output_color_profile()),
        emb_icc: match d.embedded_color_profile() {
            JxlColorProfile::Icc(v) => Some(v.clone()),
            _ => None,
        },
        out_icc: match d.output_color_profile() {
            JxlColorProfile::Icc(v) => Some(v.clone()),
            _ => None,
        },
        fmt: format!("{:?}", d.current_pixel_format()),
        gray: d.current_pixel_format().color_type.is_grayscale(),
        profiles: Profiles(d.embedded_color_profile().clone(), d.output_color_profile().clone()),
    }
}

pub fn resolve_fmt(sel: &FmtSel, d: &JxlDecoder<states::WithImageInfo>) -> Fmt {
    let cur = d.current_pixel_format();
    match sel {
        FmtSel::Exact(f) => f.clone(),
        FmtSel::Default => Fmt {
            color: cur.color_type,
            color_fmt: cur.color_data_format.as_ref().map(num_of),
            ec: cur.extra_channel_format.iter().map(|e| e.as_ref().map(num_of)).collect(),
        },
        FmtSel::F32All => Fmt {
            color: if cur.color_type.is_grayscale() { JxlColorType::Grayscale } else { JxlColorType::Rgb },
            color_fmt: Some(Num::F32(false)),
            ec: vec![Some(Num::F32(false)); d.basic_info().extra_channels.len()],
        },
    }
}

pub fn api_fmt(f: &Fmt) -> JxlPixelFormat {
    JxlPixelFormat {
        color_type: f.color,
        color_data_format: f.color_fmt.map(|n| n.api()),
        extra_channel_format: f.ec.iter().map(|e| e.map(|n| n.api())).collect(),
    }
}

pub fn set_simd(level: u32) {
    jxl_simd::verif::set_max_level(level as _);
}

/// Decodes `data`; `fmt_hook` may change the format once the image info is known.
pub fn decode_with(data: &[u8], cfg: &Cfg, fmt_hook: &mut dyn FnMut(&Info) -> Option<FmtSel>) -> Decoded {
    set_simd(cfg.simd);
    let mut feeder = Feeder::new(data, &cfg.feed);
    let mut out = Decoded {
        info: None,
        frames: vec![],
        partial: None,
        end: End::Complete,
        file_length: None,
        scanned: vec![],
        consumed: 0,
        rounds: 0,
        canary: None,
        preview: None,
        preview_done: false,
    };
    out.end = drive(&mut feeder, cfg, fmt_hook, &mut out);
    // what flush_pixels says is promised for valid streams only
    if matches!(out.end, End::Error(_)) && out.canary.as_ref().is_some_and(|c| c.starts_with("flush_pixels")) {
        out.canary = None;
    }
    out.consumed = feeder.consumed();
    out.rounds = feeder.rounds;
    out
}

pub fn decode(data: &[u8], cfg: &Cfg) -> Decoded {
    if std::env::var("VERIF_CFG").is_ok() {
        eprintln!("CFG {cfg:?}");
    }
    decode_with(data, cfg, &mut |_| None)
}

fn make_runner(run: &Run) -> Option<Runner> {
    match run {
        Run::None => None,
        Run::Shuffle(s) | Run::Threads(s, _) => Some(Runner { kind: run.clone(), rng: Rng::new(*s) }),
        _ => Some(Runner { kind: run.clone(), rng: Rng::new(0) }),
    }
}

fn drive(feeder: &mut Feeder, cfg: &Cfg, fmt_hook: &mut dyn FnMut(&Info) -> Option<FmtSel>, out: &mut Decoded) -> End {
    let mut runner = make_runner(&cfg.run);
    macro_rules! runner {
        () => {
            runner.as_mut().map(|r| r as &mut dyn JxlParallelRunner)
        };
    }
    let mut dec = JxlDecoder::<states::Initialized>::new(cfg.options());
    // An extra call after all input is visible must not be needed, but NeedsMoreInput may be
    // returned while unread bytes remain when the visible limit was raised in between.
    let mut d = loop {
        match dec.process(&mut feeder.inp, runner!()) {
            Ok(ProcessingResult::Complete { result }) => break result,
            Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                dec = fallback;
                if !feeder.more() {
                    return End::NeedMore;
                }
            }
            Err(e) => return End::Error(err_name(&e)),
        }
    };
    let info0 = info_of(&d);
    let sel = fmt_hook(&info0).unwrap_or_else(|| cfg.fmt.clone());
    let fmt = resolve_fmt(&sel, &d);
    if sel != FmtSel::Default {
        d.set_pixel_format(api_fmt(&fmt));
    }
    out.info = Some(Info { gray: info0.gray, ..info_of(&d) });
    let (w, h) = info0.size;
    frames(d, feeder, cfg, &fmt, (w, h), &mut runner, out, 0)
}

#[allow(clippy::too_many_arguments)]
fn frames(
    mut d: JxlDecoder<states::WithImageInfo>,
    feeder: &mut Feeder,
    cfg: &Cfg,
    fmt: &Fmt,
    (w, h): (usize, usize),
    runner: &mut Option<Runner>,
    out: &mut Decoded,
    start_index: usize,
) -> End {
    macro_rules! runner {
        () => {
            runner.as_mut().map(|r| r as &mut dyn JxlParallelRunner)
        };
    }
    let mut flush_rng = Rng::new(cfg.flush.map(|f| f.0).unwrap_or(0));
    let mut index = start_index;
    loop {
        out.scanned = d.scanned_frames().to_vec();
        if !d.has_more_frames() {
            out.file_length = d.file_length();
            return End::Complete;
        }
        if out.frames.len() >= cfg.max_frames {
            return End::Stopped;
        }
        let preview = if index == 0 && !cfg.skip_preview && !out.preview_done { d.basic_info().preview_size } else { None };
        let (w, h) = if cfg.no_pixels { (1, 1) } else { preview.unwrap_or((w, h)) };
        let mut bufs = Bufs::new(fmt, w, h, cfg.row_pad, cfg.fill);
        let mut fl = (0u32, 0u32);
        let mut snaps: Vec<Vec<Plane>> = vec![];
        let mut at: Vec<usize> = vec![];
        let mut want_flush = |rng: &mut Rng| cfg.flush.is_some_and(|(_, den)| rng.below(den) == 0);
        let mut fd = loop {
            let r = d.process(&mut feeder.inp, runner!());
            match r {
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                    d = fallback;
                    if want_flush(&mut flush_rng) {
                        match bufs.with(|b| d.flush_pixels(b, runner!())) {
                            Ok(x) => {
                                fl.0 += 1;
                                fl.1 += x as u32;
                            }
                            Err(e) => return End::Error(format!("flush: {}", err_name(&e))),
                        }
                    }
                    if !feeder.more() {
                        out.scanned = d.scanned_frames().to_vec();
                        return End::NeedMore;
                    }
                }
                Err(e) => return End::Error(err_name(&e)),
            }
        };
        let fh = fd.frame_header();
        let mk = |planes: Vec<Plane>, fl: (u32, u32), (snaps, at): (Vec<Vec<Plane>>, Vec<usize>), skipped: bool| FrameOut {
            name: fh.name.clone(),
            duration: fh.duration,
            size: fh.size,
            planes,
            skipped,
            flushes: fl.0,
            flush_true: fl.1,
            flush_snapshots: snaps,
            flush_at: at,
        };
        let skip = cfg.no_pixels || cfg.skip.contains(&index);
        d = loop {
            let r = if skip { fd.skip_frame(&mut feeder.inp) } else { bufs.with(|b| fd.process(&mut feeder.inp, b, runner!())) };
            match r {
                Ok(ProcessingResult::Complete { result }) => break result,
                Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                    fd = fallback;
                    if !skip && want_flush(&mut flush_rng) {
                        let before = bufs.planes();
                        match bufs.with(|b| fd.flush_pixels(b, runner!())) {
                            Ok(x) => {
                                fl.0 += 1;
                                fl.1 += x as u32;
                                if !x && out.canary.is_none() && diff_planes(&before, &bufs.planes()).is_some() {
                                    out.canary = Some("flush_pixels returned false but changed the buffers".into());
                                }
                                if snaps.len() < 12 {
                                    snaps.push(bufs.planes());
                                    at.push(feeder.limit());
                                }
                            }
                            Err(e) => return End::Error(format!("flush: {}", err_name(&e))),
                        }
                    }
                    if !feeder.more() {
                        if out.canary.is_none() {
                            out.canary = bufs.check();
                        }
                        out.partial = Some(mk(bufs.planes(), fl, (snaps, at), skip));
                        return End::NeedMore;
                    }
                }
                Err(e) => {
                    if out.canary.is_none() {
                        out.canary = bufs.check();
                    }
                    return End::Error(err_name(&e));
                }
            }
        };
        if out.canary.is_none() {
            out.canary = bufs.check();
        }
        let fo = mk(if skip || cfg.scan_only { vec![] } else { bufs.planes() }, fl, (snaps, at), skip);
        if preview.is_some() {
            out.preview_done = true;
            out.preview = Some(fo);
        } else {
            out.frames.push(fo);
            index += 1;
        }
    }
}

/// Decodes completely, then seeks to each of `targets` (visible frame indices) in order with the same decoder,
/// decoding `count` frames each time. Returns (first pass, per-target results).
pub fn decode_seek(data: &[u8], cfg: &Cfg, targets: &[(usize, usize)]) -> (Decoded, Vec<Decoded>) {
    decode_seek_at(data, data.len(), cfg, targets, None)
}

/// With `infos`, the positions come from there. Only the first `head` bytes are given before seeking.
pub fn decode_seek_at(data: &[u8], head: usize, cfg: &Cfg, targets: &[(usize, usize)], infos: Option<Vec<VisibleFrameInfo>>) -> (Decoded, Vec<Decoded>) {
    set_simd(cfg.simd);
    let mut feeder = Feeder::new(&data[..head], &cfg.feed);
    let empty = || Decoded {
        info: None,
        frames: vec![],
        partial: None,
        end: End::Complete,
        file_length: None,
        scanned: vec![],
        consumed: 0,
        rounds: 0,
        canary: None,
        preview: None,
        preview_done: false,
    };
    let mut first = empty();
    let mut runner = make_runner(&cfg.run);
    let mut dec = JxlDecoder::<states::Initialized>::new(cfg.options());
    let mut d = loop {
        match dec.process(&mut feeder.inp, None) {
            Ok(ProcessingResult::Complete { result }) => break result,
            Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                dec = fallback;
                if !feeder.more() {
                    first.end = End::NeedMore;
                    return (first, vec![]);
                }
            }
            Err(e) => {
                first.end = End::Error(err_name(&e));
                return (first, vec![]);
            }
        }
    };
    let fmt = resolve_fmt(&cfg.fmt, &d);
    if cfg.fmt != FmtSel::Default {
        d.set_pixel_format(api_fmt(&fmt));
    }
    let (w, h) = d.basic_info().size;
    first.info = Some(info_of(&d));
    // Like `frames`, but keeping the decoder.
    let mut go = |mut d: JxlDecoder<states::WithImageInfo>, feeder: &mut Feeder, out: &mut Decoded, n: usize| -> Option<JxlDecoder<states::WithImageInfo>> {
        loop {
            out.scanned = d.scanned_frames().to_vec();
            if !d.has_more_frames() || out.frames.len() >= n {
                out.file_length = d.file_length();
                out.end = if d.has_more_frames() { End::Stopped } else { End::Complete };
                return Some(d);
            }
            let mut bufs = Bufs::new(&fmt, w, h, cfg.row_pad, cfg.fill);
            let mut fd = loop {
                match d.process(&mut feeder.inp, runner.as_mut().map(|r| r as &mut dyn JxlParallelRunner)) {
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                        d = fallback;
                        if !feeder.more() {
                            out.end = End::NeedMore;
                            return Some(d);
                        }
                    }
                    Err(e) => {
                        out.end = End::Error(err_name(&e));
                        return None;
                    }
                }
            };
            let fh = fd.frame_header();
            d = loop {
                let r = bufs.with(|b| fd.process(&mut feeder.inp, b, runner.as_mut().map(|r| r as &mut dyn JxlParallelRunner)));
                match r {
                    Ok(ProcessingResult::Complete { result }) => break result,
                    Ok(ProcessingResult::NeedsMoreInput { fallback, .. }) => {
                        fd = fallback;
                        if !feeder.more() {
                            out.end = End::NeedMore;
                            return None;
                        }
                    }
                    Err(e) => {
                        out.end = End::Error(err_name(&e));
                        return None;
                    }
                }
            };
            out.frames.push(FrameOut {
                name: fh.name,
                duration: fh.duration,
                size: fh.size,
                planes: if cfg.scan_only { vec![] } else { bufs.planes() },
                skipped: false,
                flushes: 0,
                flush_true: 0,
                flush_snapshots: vec![],
                flush_at: vec![],
            });
        }
    };
    let Some(mut d) = go(d, &mut feeder, &mut first, cfg.max_frames) else {
        return (first, vec![]);
    };
    let infos = infos.unwrap_or_else(|| first.scanned.clone());
    let mut res = vec![];
    for &(t, n) in targets {
        let mut o = empty();
        if t >= infos.len() {
            break;
        }
        let tgt = infos[t].seek_target;
        d.start_new_frame(tgt);
        let mut f = Feeder::at(data, &cfg.feed, (tgt.decode_start_file_offset as usize).min(data.len()));
        let r = go(d, &mut f, &mut o, n);
        o.consumed = f.consumed();
        res.push(o);
        match r {
            Some(x) => d = x,
            None => break,
        }
    }
    (first, res)
}

// ------------------------------------------------------------------ comparison helpers

pub fn diff_frames(a: &[FrameOut], b: &[FrameOut]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} frames against {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if (&x.name, x.duration, x.size) != (&y.name, y.duration, y.size) {
            return Some(format!("frame {i}: header {:?} against {:?}", (&x.name, x.duration, x.size), (&y.name, y.duration, y.size)));
        }
        if x.skipped || y.skipped {
            continue;
        }
        if let Some(d) = diff_planes(&x.planes, &y.planes) {
            return Some(format!("frame {i}: {d}"));
        }
    }
    None
}

pub fn diff_planes(a: &[Plane], b: &[Plane]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} planes against {}", a.len(), b.len()));
    }
    for (k, (p, q)) in a.iter().zip(b).enumerate() {
        if p.data != q.data {
            if (p.w, p.h, p.spp, p.num.bytes()) != (q.w, q.h, q.spp, q.num.bytes()) {
                return Some(format!("plane {k}: different geometry"));
            }
            let i = p.data.iter().zip(&q.data).position(|(x, y)| x != y).unwrap();
            let n = p.data.iter().zip(&q.data).filter(|(x, y)| x != y).count();
            let s = i / p.num.bytes();
            let (c, px) = (s % p.spp, s / p.spp);
            let (x, y) = (px % p.w, px / p.w);
            return Some(format!(
                "plane {k} channel {c} at ({x},{y}) of {}x{}: {} against {} ({n} bytes differ)",
                p.w,
                p.h,
                p.get(x, y, c),
                q.get(x, y, c)
            ));
        }
    }
    None
}

/// Picks a random feeding plan.
pub fn gen_feed(src: &mut Src, len: usize) -> Feed {
    match src.below(9) {
        0 => Feed::Fixed(src.urange(1, 16)),
        1 => Feed::Fixed(src.urange(1, 600)),
        2 | 3 => Feed::Random(src.below(1 << 32), src.urange(1, len.max(2))),
        4 => Feed::Random(src.below(1 << 32), 64),
        5 => {
            let n = src.urange(1, 4);
            let mut c: Vec<usize> = (0..n).map(|_| src.urange(0, len)).collect();
            c.sort();
            Feed::Cuts(c)
        }
        6 => Feed::BufReader(src.urange(1, 5000)),
        7 => Feed::DefaultSkip(src.below(1 << 32), src.urange(1, len.max(2))),
        _ => Feed::LowEstimate(src.below(1 << 32)),
    }
}

pub fn gen_run(src: &mut Src) -> Run {
    match src.below(5) {
        0 => Run::None,
        1 => Run::Sequential,
        2 => Run::Reverse,
        3 => Run::Shuffle(src.below(1 << 32)),
        _ => Run::Threads(src.below(1 << 32), src.urange(2, 8)),
    }
}
