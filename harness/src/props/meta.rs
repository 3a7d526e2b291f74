//! Metamorphic checks of the decoding process: the same image decoded in different ways.
use crate::core::*;
use crate::drv::*;
use crate::imgs;
use crate::fsynth::{Want, fsynth};
use crate::enc::frame::{Geo, LAYOUT};
use crate::synth::{MODEL, SynthOpt, V, synth};

fn gen_opts(src: &mut Src) -> Cfg {
    Cfg {
        adjust_orientation: !src.chance(1, 3),
        spot: !src.chance(1, 3),
        intensity: if src.chance(1, 8) { Some(src.urange(50, 5000) as f32) } else { None },
        skip_preview: !src.chance(1, 4),
        high_precision: src.chance(1, 4),
        premul: src.chance(1, 4),
        fmt: if src.chance(1, 3) { FmtSel::Default } else { FmtSel::F32All },
        ..Default::default()
    }
}

fn diff_info(a: &Option<Info>, b: &Option<Info>) -> Option<String> {
    if a == b { None } else { Some(format!("image info differs: {a:?} against {b:?}")) }
}

/// Compares two runs that must have the same outcome.
fn same(sig: &str, what: &str, a: &Decoded, b: &Decoded) -> PropResult {
    if let Some(c) = a.canary.as_ref().or(b.canary.as_ref()) {
        return fail(&format!("{sig}:canary"), format!("{what}: {c}"));
    }
    if let Some(d) = diff_info(&a.info, &b.info) {
        return fail(&format!("{sig}:info"), format!("{what}: {d}"));
    }
    let kind = |e: &End| match e {
        End::Error(_) => "error".to_string(),
        e => format!("{e:?}"),
    };
    if kind(&a.end) != kind(&b.end) {
        return fail(&format!("{sig}:end"), format!("{what}: ends with {:?} against {:?}", a.end, b.end));
    }
    if let Some(d) = diff_frames(&a.frames, &b.frames) {
        return fail(&format!("{sig}:pixels"), format!("{what}: {d}"));
    }
    if let Some(d) = diff_frames(a.preview.as_slice(), b.preview.as_slice()) {
        return fail(&format!("{sig}:preview"), format!("{what}: preview {d}"));
    }
    if a.file_length != b.file_length {
        return fail(&format!("{sig}:file_length"), format!("{what}: file length {:?} against {:?}", a.file_length, b.file_length));
    }
    Ok(())
}

pub fn c03(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::image(src, ctx);
    ctx.artifact("jxl", &img.bytes);
    let cfg = gen_opts(src);
    let a = decode(&img.bytes, &cfg);
    if a.end != End::Complete {
        return fail("c03:reference", format!("{}: whole-slice decode ends with {:?}", img.desc, a.end));
    }
    let feed = gen_feed(src, img.bytes.len());
    let run = if src.chance(1, 3) { gen_run(src) } else { Run::None };
    let mut c2 = cfg.clone();
    c2.feed = feed.clone();
    c2.run = run;
    ctx.label(format!("feed:{}", format!("{feed:?}").split('(').next().unwrap()));
    let b = decode(&img.bytes, &c2);
    ctx.sample(format!("{} fed by {feed:?}", img.desc));
    if b.rounds > 2 || matches!(feed, Feed::BufReader(_) | Feed::LowEstimate(_)) {
        ctx.nontrivial(hash_bytes(format!("{} {feed:?}", img.desc).as_bytes()));
    }
    same("c03", &format!("{} fed by {feed:?}", img.desc), &a, &b)
}

pub fn c05(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::image(src, ctx);
    ctx.artifact("jxl", &img.bytes);
    let cfg = gen_opts(src);
    let a = decode(&img.bytes, &cfg);
    let mut c2 = cfg.clone();
    c2.run = match gen_run(src) {
        Run::None => Run::Threads(src.below(1 << 32), src.urange(2, 8)),
        r => r,
    };
    ctx.label(format!("run:{}", format!("{:?}", c2.run).split('(').next().unwrap()));
    let t0 = TASKS.load(std::sync::atomic::Ordering::Relaxed);
    let b = decode(&img.bytes, &c2);
    let tasks = TASKS.load(std::sync::atomic::Ordering::Relaxed) - t0;
    if tasks > 1 {
        ctx.nontrivial(hash_bytes(format!("{} {:?}", img.desc, c2.run).as_bytes()));
    }
    ctx.sample(format!("{} with {:?}, {tasks} tasks", img.desc, c2.run));
    same("c05", &format!("{} with {:?}", img.desc, c2.run), &a, &b)
}

pub fn c06(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::tame(src, ctx);
    ctx.artifact("jxl", &img.bytes);
    let mut cfg = gen_opts(src);
    cfg.fmt = FmtSel::F32All;
    cfg.simd = 0;
    let a = decode(&img.bytes, &cfg);
    let mut c2 = cfg.clone();
    c2.simd = 1 + src.below(3) as u32;
    let b = decode(&img.bytes, &c2);
    ctx.nontrivial(hash_bytes(format!("{} {:?}", img.desc, c2.simd).as_bytes()));
    ctx.label(format!("simd:{}", c2.simd));
    ctx.sample(format!("{} scalar against level {}", img.desc, c2.simd));
    let what = format!("{} scalar against level {}", img.desc, c2.simd);
    close("c06", &what, &a, &b, 1e-4, ctx)
}

/// Compares two runs whose samples may differ by rounding only.
fn close(sig: &str, what: &str, a: &Decoded, b: &Decoded, tol: f64, ctx: &mut Ctx) -> PropResult {
    let mut b2 = b.clone();
    let mut mr = 0.0f64;
    let lists: [(&[FrameOut], &mut [FrameOut]); 2] = [(&a.frames, &mut b2.frames), (a.preview.as_slice(), b2.preview.as_mut_slice())];
    for (fa, fb) in lists {
        for (i, (x, y)) in fa.iter().zip(fb.iter_mut()).enumerate() {
            if x.planes.len() != y.planes.len() {
                continue;
            }
            for (k, (p, q)) in x.planes.iter().zip(&y.planes).enumerate() {
                if (p.w, p.h, p.spp) != (q.w, q.h, q.spp) {
                    continue;
                }
                for c in 0..p.spp {
                    for (j, (u, v)) in p.channel(c).iter().zip(q.channel(c)).enumerate() {
                        if u.is_finite() && v.is_finite() {
                            let d = (u - v).abs() / (1.0 + u.abs());
                            mr = mr.max(d);
                            if d > tol {
                                return fail(&format!("{sig}:pixels"), format!("{what}: frame {i} plane {k} channel {c} at ({}, {}): {u} against {v}", j % p.w, j / p.w));
                            }
                        } else if u.is_nan() != v.is_nan() || (!u.is_nan() && u != &v) {
                            return fail(&format!("{sig}:pixels"), format!("{what}: frame {i} plane {k} channel {c} at ({}, {}): {u} against {v}", j % p.w, j / p.w));
                        }
                    }
                }
            }
            // the samples are equivalent: compare the rest only
            y.planes = x.planes.clone();
        }
    }
    if std::env::var_os("VERIF_STAT").is_some() {
        ctx.label(format!("diff {} {:.0}", what, if mr == 0.0 { -99.0 } else { mr.log10().floor() }));
    }
    same(sig, what, a, &b2)
}

pub fn c04(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::image(src, ctx);
    let Some(cs) = imgs::codestream(&img.bytes) else {
        return fail("c04:setup", format!("{}: no codestream", img.desc));
    };
    let cfg = gen_opts(src);
    let a = decode(&cs, &cfg);
    if a.end != End::Complete {
        return fail("c04:reference", format!("{}: ends with {:?}", img.desc, a.end));
    }
    // The decoder must not touch what follows the image.
    let used = a.file_length.unwrap_or(0) as usize;
    if used > cs.len() {
        return fail("c04:file_length", format!("{}: file length {used} of {}", img.desc, cs.len()));
    }
    let mut cs = cs[..used].to_vec();
    if src.chance(1, 4) {
        // bytes after the image, still in the codestream
        let n = src.urange(1, 300);
        let mut r = src.rng();
        cs.extend((0..n).map(|_| r.next() as u8));
        ctx.label("bytes after the image");
    }
    let w = imgs::wrap(src, &cs, used, true);
    ctx.artifact("jxl", &w.bytes);
    let mut c2 = cfg.clone();
    c2.feed = if src.chance(1, 3) { Feed::Whole } else { gen_feed(src, w.bytes.len()) };
    let b = decode(&w.bytes, &c2);
    ctx.label(if w.ooo { "out of order" } else if w.pieces > 1 { "split" } else { "single" });
    ctx.sample(format!("{} as {} fed by {:?}", img.desc, w.desc, c2.feed));
    ctx.nontrivial(hash_bytes(&w.bytes));
    let what = format!("{} as {} fed by {:?}", img.desc, w.desc, c2.feed);
    if w.ooo && matches!(&b.end, End::Error(e) if e.contains("InvalidBox")) {
        // Frames may not start in a reordered box.
        ctx.label("rejected: frame starts in a reordered box");
        return Ok(());
    }
    let mut b2 = b.clone();
    b2.file_length = a.file_length;
    same(if w.ooo { "c04:ooo" } else { "c04" }, &what, &a, &b2)?;
    if !w.ooo && !b.file_length.is_some_and(|l| l >= w.end as u64 && l <= w.last as u64) {
        return fail("c04:container length", format!("{what}: file length {:?}, codestream ends at {} of {}", b.file_length, w.end, w.bytes.len()));
    }
    Ok(())
}

/// Seeking, scanning and skipping give what sequential decoding gives.
pub fn c10(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::animation(src, ctx);
    let mut bytes = img.bytes.clone();
    let mut desc = img.desc.clone();
    let mut ooo = false;
    if src.chance(1, 2)
        && let Some(cs) = imgs::codestream(&bytes)
    {
        let w = imgs::wrap(src, &cs, cs.len(), true);
        bytes = w.bytes;
        desc += &format!(" as {}", w.desc);
        ooo = w.ooo;
    }
    ctx.artifact("jxl", &bytes);
    let cfg = Cfg { intensity: None, skip_preview: true, ..gen_opts(src) };
    let feed = if src.chance(1, 2) { Feed::Whole } else { gen_feed(src, bytes.len()) };
    let a = decode(&bytes, &cfg);
    // Frames may not start in boxes that are out of order.
    if ooo && matches!(&a.end, End::Error(e) if e.contains("InvalidBox")) {
        ctx.label("order of boxes refused");
        return Ok(());
    }
    if ooo {
        ctx.label("order of boxes accepted");
    }
    if a.end != End::Complete {
        return fail("c10:reference", format!("{desc}: ends with {:?}", a.end));
    }
    let n = a.frames.len();
    if a.scanned.len() != n {
        return fail("c10:frame list", format!("{desc}: {} frames are listed, {n} were produced", a.scanned.len()));
    }
    if n > 1 {
        ctx.nontrivial(hash_bytes(format!("{} {:?}", hash_bytes(&bytes), src.rec).as_bytes()));
    }
    ctx.label(format!("frames:{}", n.min(6)));
    for (i, (f, s)) in a.frames.iter().zip(&a.scanned).enumerate() {
        if s.index != i || s.name != f.name || f.duration.is_some_and(|d| (d - s.duration_ms).abs() > 1e-6 * d.abs()) || s.is_last != (i + 1 == n) {
            return fail("c10:frame info", format!("{desc}: frame {i}: listed as {s:?}, header {:?} {:?}", f.name, f.duration));
        }
    }
    let mode = src.below(3);
    match mode {
        0 => {
            // scan only
            let c2 = Cfg { scan_only: true, feed: feed.clone(), ..cfg.clone() };
            let b = decode(&bytes, &c2);
            ctx.label("scan");
            if b.end != End::Complete || b.file_length != a.file_length {
                return fail("c10:scan end", format!("{desc} fed by {feed:?}: scanning ends with {:?}, length {:?} against {:?}", b.end, b.file_length, a.file_length));
            }
            if format!("{:?}", a.scanned) != format!("{:?}", b.scanned) {
                return fail("c10:scan list", format!("{desc} fed by {feed:?}: scanned {:?} against {:?}", b.scanned, a.scanned));
            }
            Ok(())
        }
        1 => {
            let skip: Vec<usize> = (0..n).filter(|_| src.bool()).collect();
            ctx.label("skip");
            let c2 = Cfg { skip: skip.clone(), feed: feed.clone(), ..cfg.clone() };
            let b = decode(&bytes, &c2);
            let what = format!("{desc} fed by {feed:?} skipping {skip:?}");
            ctx.sample(what.clone());
            same("c10:skip", &what, &a, &b)
        }
        _ => {
            let k = src.urange(1, 4);
            let targets: Vec<(usize, usize)> = (0..k).map(|_| (src.usize(n), src.urange(1, 3))).collect();
            ctx.label("seek");
            let scan = src.chance(1, 3);
            let c2 = Cfg { feed: feed.clone(), max_frames: if src.chance(1, 3) { src.urange(1, n) } else { usize::MAX }, ..cfg.clone() };
            let what = format!("{desc} fed by {feed:?} seeking to {targets:?} after {} frames{}", c2.max_frames.min(n), if scan { " by scanned positions" } else { "" });
            ctx.sample(what.clone());
            let head = if src.chance(1, 4) { src.usize(bytes.len() + 1) } else { bytes.len() };
            let (first, res) = if scan {
                // Positions from a scan, used in a decoder that has only read the header.
                let sc = decode(&bytes, &Cfg { scan_only: true, ..cfg.clone() });
                decode_seek_at(&bytes, head, &Cfg { max_frames: if head < bytes.len() { c2.max_frames } else { 0 }, ..c2.clone() }, &targets, Some(sc.scanned))
            } else {
                decode_seek_at(&bytes, head, &c2, &targets, None)
            };
            if head < bytes.len() {
                ctx.label("cut off before seeking");
            }
            if let End::Error(e) = &first.end {
                return fail("c10:first pass", format!("{what}: {e}"));
            }
            for (o, (t, cnt)) in res.iter().zip(&targets) {
                // Frames after the target are promised only as far as they need nothing from before
                // the position of the target.
                let start = |i: usize| a.scanned[i].seek_target.decode_start_file_offset;
                let last = (*t + 1..(*t + *cnt).min(n)).find(|i| start(*i) < start(*t)).unwrap_or((*t + *cnt).min(n));
                let want = &a.frames[*t..last];
                let mut o = o.clone();
                let cut = last < (*t + *cnt).min(n);
                if cut {
                    o.frames.truncate(last - *t);
                }
                let ok_end = matches!(o.end, End::Stopped | End::Complete) || (cut && matches!(o.end, End::Error(_)) && o.frames.len() == last - *t);
                if !ok_end {
                    return fail("c10:seek end", format!("{what}: after seeking to {t}: {:?}", o.end));
                }
                if let Some(d) = diff_frames(want, &o.frames) {
                    return fail("c10:seek pixels", format!("{what}: after seeking to frame {t}: {d}"));
                }
            }
            Ok(())
        }
    }
}

/// Flushing in the middle does not change the final result.
pub fn c11(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    if src.chance(1, 4) {
        return flat(src, ctx);
    }
    let img = if src.bool() { imgs::image(src, ctx) } else { imgs::made(src, ctx, 4, false) };
    ctx.artifact("jxl", &img.bytes);
    let cfg = gen_opts(src);
    let a = decode(&img.bytes, &cfg);
    if a.end != End::Complete {
        return fail("c11:reference", format!("{}: ends with {:?}", img.desc, a.end));
    }
    let feed = match src.below(3) {
        0 => {
            let n = src.urange(1, 6);
            let mut c: Vec<usize> = (0..n).map(|_| src.urange(0, img.bytes.len())).collect();
            c.sort();
            Feed::Cuts(c)
        }
        1 => Feed::Random(src.below(1 << 32), img.bytes.len().max(2)),
        _ => Feed::Fixed((img.bytes.len() / src.urange(2, 12)).max(1)),
    };
    let mut c2 = cfg.clone();
    c2.feed = feed.clone();
    c2.flush = Some((src.below(1 << 32), src.urange(1, 3) as u64));
    c2.run = if src.bool() { gen_run(src) } else { Run::None };
    c2.row_pad = src.usize(3) * 16;
    let b = decode(&img.bytes, &c2);
    let fl: u32 = b.frames.iter().map(|f| f.flushes).sum();
    let ft: u32 = b.frames.iter().map(|f| f.flush_true).sum();
    let what = format!("{} fed by {feed:?} with {fl} flushes ({ft} drew)", img.desc);
    ctx.sample(what.clone());
    ctx.label(if ft > 0 { "flush drew" } else if fl > 0 { "flush drew nothing" } else { "no flush happened" });
    if ft > 0 {
        ctx.nontrivial(hash_bytes(format!("{} {:?}", img.desc, src.rec).as_bytes()));
    }
    same("c11", &what, &a, &b)
}

/// Previews of a frame of one colour have that colour.
fn flat(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let s = fsynth(src, Want::Flat);
    ctx.artifact("jxl", &s.bytes);
    let mut cfg = gen_opts(src);
    cfg.fmt = if src.chance(2, 3) {
        FmtSel::Default
    } else {
        FmtSel::F32All
    };
    let a = decode(&s.bytes, &cfg);
    if a.end != End::Complete || a.frames.len() != 1 {
        return fail("c11:reference", format!("{}: ends with {:?} after {} frames", s.desc, a.end, a.frames.len()));
    }
    let p = &a.frames[0].planes[0];
    let color: Vec<f64> = (0..p.spp).map(|c| p.get(0, 0, c)).collect();
    let close = |p: &Plane, x: usize, y: usize, e: f64| (0..p.spp).all(|c| (p.get(x, y, c) - color[c]).abs() <= e * color[c].abs().max(1.0));
    let all = |p: &Plane, f: &dyn Fn(&Plane, usize, usize) -> bool| (0..p.h).flat_map(|y| (0..p.w).map(move |x| (x, y))).find(|&(x, y)| !f(p, x, y));
    if all(p, &|p, x, y| close(p, x, y, 2e-5)).is_some() {
        ctx.label("not flat");
        return Ok(());
    }
    let last = s.offs[s.offs.len() - 1];
    let mut cuts: Vec<usize> = (0..src.urange(3, 20)).map(|_| src.urange(s.offs[0], last)).collect();
    cuts.sort();
    cfg.feed = Feed::Cuts(cuts);
    cfg.flush = Some((0, 1));
    cfg.run = if src.bool() { gen_run(src) } else { Run::None };
    let what = format!("{} fed by {:?}", s.desc, cfg.feed);
    ctx.sample(what.clone());
    let b = decode(&s.bytes, &cfg);
    same("c11", &what, &a, &b)?;
    let untouched = |p: &Plane, x: usize, y: usize| (0..p.spp).all(|c| p.get(x, y, c) > 1e15);
    let mut drew = false;
    for (k, f) in b.frames[0].flush_snapshots.iter().enumerate() {
        if let Some((x, y)) = all(&f[0], &|p, x, y| close(p, x, y, 2e-3) || untouched(p, x, y)) {
            let v: Vec<f64> = (0..f[0].spp).map(|c| f[0].get(x, y, c)).collect();
            return fail("c11:preview", format!("{what}: after flush {k}, the pixel at {x},{y} is {v:?}, but the frame has only {color:?}"));
        }
        drew |= all(&f[0], &untouched).is_some();
    }
    ctx.label(if drew { "flat preview" } else { "no preview" });
    if drew {
        ctx.nontrivial(hash_bytes(&s.bytes));
    }
    Ok(())
}

/// Partial renderings show the final samples of the parts whose data has arrived.
pub fn c27(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    MODEL.set(false);
    let mut tries = 20;
    let s = loop {
        let s = if src.bool() {
            // often long, of many groups
            let (max_side, max_px) = *src.pick(&[(300, 30000), (2000, 30000), (600, 100000)]);
            synth(src, &SynthOpt { frames: 3, max_side, max_px, ..Default::default() })
        } else {
            let w = [Want::VarDct, Want::VarDct, Want::VarDct, Want::Filters, Want::Upsampling, Want::YCbCr, Want::Xyb, Want::Noise, Want::Patches];
            let w = *src.pick(&w);
            fsynth(src, w)
        };
        let lay = LAYOUT.with(|l| l.borrow().clone());
        let partial = lay.iter().zip(&s.frames).any(|(l, fh)| {
            let g = Geo::new(&s.img, fh);
            fh.visible() && g.gx.max(g.gy) > 2 + l.squeezes
        });
        if !s.wide && (partial || tries == 0) {
            break s;
        }
        tries -= 1;
    };
    MODEL.set(true);
    let lay = LAYOUT.with(|l| l.borrow().clone());
    let lens: Vec<usize> = s.offs.windows(2).map(|w| w[1] - w[0]).collect();
    if lay.len() != lens.len() || lay.iter().zip(&lens).any(|(l, n)| l.at.iter().map(|x| x.1).max() != Some(*n)) {
        return fail("c27:harness", format!("{}: unknown layout", s.desc));
    }
    ctx.artifact("jxl", &s.bytes);
    let many: Vec<usize> = (0..lens.len()).filter(|&i| lay[i].at.len() > 1 && s.frames[i].visible()).collect();
    if many.is_empty() {
        ctx.label("no frame of several sections");
        return Ok(());
    }
    let mut cuts: Vec<usize> = vec![];
    for _ in 0..src.urange(1, 8) {
        let f = *src.pick(&many);
        // mostly after the global data
        let g = Geo::new(&s.img, &s.frames[f]);
        let min = lay[f].at[..2 + g.nl()].iter().map(|x| x.1).max().unwrap();
        let mut late: Vec<usize> = lay[f].at.iter().map(|x| x.1).filter(|&x| x >= min).collect();
        late.sort();
        let e = s.offs[f] + if src.chance(1, 8) { src.pick(&lay[f].at).1 } else { late[src.usize(late.len()).max(src.usize(late.len()))] };
        cuts.push(match src.below(6) {
            0 => s.offs[f] + src.usize(lens[f]),
            1 => e + 1,
            2 => e + src.usize(1000),
            _ => e,
        });
    }
    cuts.sort();
    let mut cfg = gen_opts(src);
    cfg.fmt = if src.chance(1, 3) { FmtSel::Default } else { FmtSel::F32All };
    cfg.feed = Feed::Cuts(cuts);
    cfg.flush = Some((src.below(1 << 32), *src.pick(&[1, 1, 2])));
    cfg.run = if src.bool() { gen_run(src) } else { Run::None };
    let what = format!("{} of {lay:?} from {:?} fed by {:?}", s.desc, s.offs, cfg.feed);
    ctx.sample(what.clone());
    let d = decode(&s.bytes, &cfg);
    if d.end != End::Complete {
        return fail("c27:end", format!("{what}: ends with {:?}", d.end));
    }
    let vis: Vec<usize> = (0..lens.len()).filter(|&i| s.frames[i].visible()).collect();
    if vis.len() != d.frames.len() {
        return fail("c27:frames", format!("{what}: {} frames", d.frames.len()));
    }
    let (iw, ih) = (s.img.w as usize, s.img.h as usize);
    for (k, f) in d.frames.iter().enumerate() {
        let (fh, l) = (&s.frames[vis[k]], &lay[vis[k]]);
        let g = Geo::new(&s.img, fh);
        if l.at.len() == 1 {
            continue;
        }
        // how far away the data is that the samples of a group depend on
        let r = 1 + l.squeezes;
        for (snap, &at) in f.flush_snapshots.iter().zip(&f.flush_at) {
            let have = |i: usize| s.offs[vis[k]] + l.at[i].1 <= at;
            let globals = 2 + g.nl();
            if at < s.offs[vis[k]] || !(0..globals).all(have) {
                ctx.label("not all global data");
                continue;
            }
            let has: Vec<bool> = (0..g.ng()).map(|i| (0..fh.passes.num as usize).all(|p| have(globals + p * g.ng() + i))).collect();
            let shown: Vec<bool> = (0..g.ng())
                .map(|i| {
                    let (x, y) = (i % g.gx, i / g.gx);
                    (0..g.ng()).all(|j| {
                        let (u, v) = (j % g.gx, j / g.gx);
                        let near = u.abs_diff(x) <= r && v.abs_diff(y) <= r;
                        // squeezes continue from the samples before
                        has[j] || !near && !(l.delta && v <= y + r) && !(l.squeezes > 0 && u <= x + r && v <= y + r)
                    })
                })
                .collect();
            let n = shown.iter().filter(|x| **x).count();
            if n == 0 {
                ctx.label("no group");
                continue;
            }
            ctx.label(if n == g.ng() { "all groups" } else { "some groups" });
            let gd = g.gd * fh.upsampling as usize;
            let (x0, y0) = fh.crop.map(|c| (c.0 as i64, c.1 as i64)).unwrap_or((0, 0));
            let (fw, fhh) = fh.upsampled_size(&s.img);
            let o = s.img.orientation;
            let mut seen = 0;
            for (pl, (a, b)) in snap.iter().zip(&f.planes).enumerate() {
                for y in 0..b.h {
                    for x in 0..b.w {
                        let (sx, sy) = orient(o, x, y, iw, ih);
                        let (sx, sy) = (sx as i64 - x0, sy as i64 - y0);
                        if sx < 0 || sy < 0 || sx >= fw as i64 || sy >= fhh as i64 {
                            continue;
                        }
                        let i = sy as usize / gd * g.gx + sx as usize / gd;
                        if !shown[i] {
                            continue;
                        }
                        seen += 1;
                        for c in 0..b.spp {
                            let (p, q) = (a.get(x, y, c), b.get(x, y, c));
                            // drawn in other pieces, sums may be rounded differently
                            let same = p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan() || (p - q).abs() <= 1e-5 * q.abs().max(1.0);
                            if !same {
                                let h: Vec<(usize, f64)> = f.flush_at.iter().zip(&f.flush_snapshots).map(|(at, s)| (*at, s[pl].get(x, y, c))).collect();
                                return fail("c27:sample", format!("{what}: {cfg:?} plane {pl} {h:?} frame {k} with {at} bytes shows {p} at {x},{y} channel {c} in group {i}, finally {q}"));
                            }
                        }
                    }
                }
            }
            if seen > 0 && n < g.ng() {
                ctx.nontrivial(hash_bytes(format!("{} {at} {k}", s.desc).as_bytes()));
            }
        }
    }
    Ok(())
}

/// A truncated file is reported as incomplete, and what was complete before is unchanged.
pub fn c13(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::image(src, ctx);
    let cfg = gen_opts(src);
    let a = decode(&img.bytes, &cfg);
    if a.end != End::Complete {
        return fail("c13:reference", format!("{}: ends with {:?}", img.desc, a.end));
    }
    let len = a.file_length.unwrap_or(0) as usize;
    if len == 0 || len > img.bytes.len() {
        return fail("c13:file_length", format!("{}: file length {:?} of {}", img.desc, a.file_length, img.bytes.len()));
    }
    let cut = if src.chance(1, 4) { len - 1 - src.usize(len.min(4)).min(len - 1) } else { src.usize(len) };
    let data = &img.bytes[..cut];
    ctx.artifact("jxl", data);
    let mut c2 = cfg.clone();
    c2.scan_only = src.chance(1, 5);
    c2.feed = if src.bool() { Feed::Whole } else { gen_feed(src, cut.max(1)) };
    c2.flush = if src.chance(1, 3) { Some((src.below(1 << 32), 1)) } else { None };
    let b = decode(data, &c2);
    let what = format!("{} cut to {cut} of {len} fed by {:?}", img.desc, c2.feed);
    ctx.sample(what.clone());
    ctx.nontrivial(hash_bytes(format!("{} {cut}", img.desc).as_bytes()));
    ctx.label(if b.info.is_none() { "before image info" } else { "after image info" });
    if b.end != End::NeedMore {
        return fail("c13:end", format!("{what}: ends with {:?}", b.end));
    }
    if let Some(c) = &b.canary {
        return fail("c13:canary", format!("{what}: {c}"));
    }
    if b.info.is_some() && b.info != a.info {
        return fail("c13:info", format!("{what}: {:?}", diff_info(&a.info, &b.info)));
    }
    if b.frames.len() > a.frames.len() {
        return fail("c13:frames", format!("{what}: more frames than in the complete file"));
    }
    if !c2.scan_only
        && let Some(d) = diff_frames(&a.frames[..b.frames.len()], &b.frames)
    {
        return fail("c13:pixels", format!("{what}: {d}"));
    }
    if img.bytes.len() > len {
        // nothing after the reported length is needed
        let e = decode(&img.bytes[..len], &cfg);
        same("c13:exact", &format!("{} cut to exactly {len}", img.desc), &a, &e)?;
    }
    Ok(())
}

/// Position in the stored image of the output position (x, y).
fn orient(o: u32, x: usize, y: usize, w: usize, h: usize) -> (usize, usize) {
    // (w, h): stored size
    match o {
        1 => (x, y),
        2 => (w - 1 - x, y),
        3 => (w - 1 - x, h - 1 - y),
        4 => (x, h - 1 - y),
        5 => (y, x),
        6 => (y, h - 1 - x),
        7 => (w - 1 - y, h - 1 - x),
        _ => (w - 1 - y, x),
    }
}

pub fn c09(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    // The same image, with and without an orientation.
    let (desc, plain, bytes, o) = loop {
        let img = imgs::oriented(src, ctx);
        let Some(cs) = imgs::codestream(&img.bytes) else { continue };
        let o = 1 + src.below(8) as u32;
        let (Some((p, _)), Some((q, _))) = (imgs::set_orientation(&cs, 1), imgs::set_orientation(&cs, o)) else {
            ctx.label("no orientation field");
            if src.rec.len() > 1000 {
                return Ok(());
            }
            continue;
        };
        break (img.desc, p, q, o);
    };
    ctx.artifact("jxl", &bytes);
    let mut cfg = gen_opts(src);
    cfg.fmt = FmtSel::F32All;
    cfg.skip_preview = true;
    cfg.adjust_orientation = true;
    let a = decode(&plain, &cfg);
    let (Some(ia), End::Complete) = (&a.info, &a.end) else {
        return fail("c09:reference", format!("{desc}: ends with {:?}", a.end));
    };
    let mut c2 = cfg.clone();
    c2.feed = if src.bool() { Feed::Whole } else { gen_feed(src, bytes.len()) };
    c2.run = if src.bool() { gen_run(src) } else { Run::None };
    c2.row_pad = src.usize(2) * 8;
    if src.chance(1, 3) {
        c2.flush = Some((src.below(1 << 32), 1));
    }
    let b = decode(&bytes, &c2);
    let Some(ib) = &b.info else {
        return fail("c09:end", format!("{desc}: {:?}", b.end));
    };
    ctx.label(format!("orientation {o}"));
    ctx.sample(format!("{} orientation {o}", desc));
    if o != 1 {
        ctx.nontrivial(hash_bytes(format!("{} {:?}", desc, src.rec).as_bytes()));
    }
    let swap = |s: (usize, usize)| if o >= 5 { (s.1, s.0) } else { s };
    if ib.size != swap(ia.size) || ib.orientation != o {
        return fail("c09:size", format!("{} orientation {o}: stored {:?}, adjusted {:?} orientation {}", desc, ia.size, ib.size, ib.orientation));
    }
    if b.end != End::Complete || b.frames.len() != a.frames.len() {
        return fail("c09:end", format!("{}: {:?}, {} frames against {}", desc, b.end, b.frames.len(), a.frames.len()));
    }
    if let Some(c) = &b.canary {
        return fail("c09:canary", format!("{}: {c}", desc));
    }
    let (w, h) = ia.size;
    for (i, (f, g)) in a.frames.iter().zip(&b.frames).enumerate() {
        for (k, (p, q)) in f.planes.iter().zip(&g.planes).enumerate() {
            let px = p.spp * p.num.bytes();
            for y in 0..q.h {
                for x in 0..q.w {
                    let (sx, sy) = orient(o, x, y, w, h);
                    let u = &p.data[(sy * p.w + sx) * px..][..px];
                    let v = &q.data[(y * q.w + x) * px..][..px];
                    if u != v {
                        return fail("c09:pixels", format!("{} orientation {o} frame {i} plane {k} output ({x},{y}): stored ({sx},{sy}) is {:?}, got {:?}", desc, p.get(sx, sy, 0), q.get(x, y, 0)));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every byte of the rows is written, nothing else is, whatever the layout.
pub fn c08(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let img = imgs::image(src, ctx);
    ctx.artifact("jxl", &img.bytes);
    let mut cfg = gen_opts(src);
    cfg.fmt = FmtSel::F32All;
    let seed = src.below(1 << 32);
    let mut hook = |i: &Info| Some(random_fmt(&mut Rng::new(seed), i));
    cfg.fill = 0;
    let a = decode_with(&img.bytes, &cfg, &mut hook);
    if a.end != End::Complete {
        return fail("c08:reference", format!("{}: ends with {:?}", img.desc, a.end));
    }
    let mut c2 = cfg.clone();
    c2.fill = 0xff;
    c2.row_pad = src.urange(1, 40);
    c2.run = if src.bool() { gen_run(src) } else { Run::None };
    c2.feed = if src.bool() { gen_feed(src, img.bytes.len()) } else { Feed::Whole };
    let b = decode_with(&img.bytes, &c2, &mut hook);
    ctx.nontrivial(hash_bytes(format!("{} {:?}", img.desc, src.rec).as_bytes()));
    let what = format!("{} padding {} {:?}", img.desc, c2.row_pad, b.info.as_ref().map(|i| &i.fmt));
    ctx.sample(what.clone());
    same("c08", &what, &a, &b)
}

/// A random supported output format.
pub fn random_fmt(r: &mut Rng, i: &Info) -> FmtSel {
    fn num(r: &mut Rng) -> Num {
        match r.below(5) {
            0 => Num::U8(8),
            1 => Num::U16(16, r.below(2) == 1),
            2 => Num::F16(r.below(2) == 1),
            3 => Num::F32(r.below(2) == 1),
            _ => {
                if r.below(2) == 1 {
                    Num::U8(1 + r.below(8) as u8)
                } else {
                    Num::U16(1 + r.below(16) as u8, r.below(2) == 1)
                }
            }
        }
    }
    use jxl::api::JxlColorType::*;
    let alpha = i.ecs.iter().position(|e| e.0 == 0);
    let with = if alpha.is_some() { r.below(2) == 1 } else { r.below(5) == 0 };
    let color = match (i.gray && r.below(4) != 0, with) {
        (true, false) => Grayscale,
        (true, true) => GrayscaleAlpha,
        (false, false) => [Rgb, Bgr][r.below(2) as usize],
        (false, true) => [Rgba, Bgra][r.below(2) as usize],
    };
    let color_fmt = if r.below(10) == 0 && !i.ecs.is_empty() { None } else { Some(num(r)) };
    let interleaved = matches!(color, GrayscaleAlpha | Rgba | Bgra);
    let mut ec: Vec<Option<Num>> = (0..i.ecs.len())
        .map(|k| if interleaved && Some(k) == alpha { None } else if r.below(3) == 0 { None } else { Some(num(r)) })
        .collect();
    if color_fmt.is_none() && ec.iter().all(|e| e.is_none()) {
        // at least one output
        ec[0] = Some(num(r));
    }
    FmtSel::Exact(Fmt { color, color_fmt, ec })
}

/// The output formats and options only transform the samples.
pub fn c07(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    use jxl::api::JxlColorType as T;
    let img = if src.chance(2, 3) { imgs::made_of(src, ctx, 3, false, true) } else { imgs::image(src, ctx) };
    ctx.artifact("jxl", &img.bytes);
    let mut cfg = gen_opts(src);
    (cfg.spot, cfg.premul, cfg.skip_preview, cfg.flush) = (false, false, true, None);
    let f = |color, num, i: &Info| FmtSel::Exact(Fmt { color, color_fmt: Some(num), ec: vec![Some(Num::F32(false)); i.ecs.len()] });
    let a = decode_with(&img.bytes, &cfg, &mut |i| Some(f(T::Rgb, Num::F32(false), i)));
    let seed = src.below(1 << 32);
    let mut c2 = cfg.clone();
    c2.premul = src.chance(1, 2);
    c2.spot = img.spots.is_some() && src.chance(1, 2);
    let mut chosen = None;
    let b = decode_with(&img.bytes, &c2, &mut |i| {
        let s = random_fmt(&mut Rng::new(seed), i);
        if let FmtSel::Exact(f) = &s {
            chosen = Some(f.clone());
        }
        Some(s)
    });
    let (Some(fmt), Some(ia), Some(ib)) = (chosen, &a.info, &b.info) else {
        return fail("c07:setup", format!("{}: no info", img.desc));
    };
    let what = format!("{} {fmt:?} spot {} premultiplied {}", img.desc, c2.spot, c2.premul);
    ctx.sample(what.clone());
    ctx.nontrivial(hash_bytes(format!("{what} {}", hash_bytes(&img.bytes)).as_bytes()));
    if (a.end != End::Complete || b.end != End::Complete) && !(a.end == b.end && a.frames.len() == b.frames.len()) {
        return fail("c07:end", format!("{what}: ends with {:?} against {:?}", a.end, b.end));
    }
    if a.frames.len() != b.frames.len() {
        return fail("c07:frames", format!("{what}: {} frames against {}", b.frames.len(), a.frames.len()));
    }
    // Where the samples are given in another colour space, the colours come from the widest integer format.
    let ints = ia.profiles.1 != ib.profiles.1;
    let a2 = if ints { Some(decode_with(&img.bytes, &cfg, &mut |i| Some(f(T::Rgb, Num::U16(16, false), i)))) } else { None };
    ctx.label(format!("{:?} {}", fmt.color, match fmt.color_fmt {
        None => "none".into(),
        Some(n) => format!("{n:?}").split('(').next().unwrap().to_string(),
    }));
    if ints {
        ctx.label("other colour space");
    }
    let alpha = ia.ecs.iter().position(|e| e.0 == 0);
    let premul = c2.premul && fmt.color.has_alpha() && alpha.is_some_and(|k| !ia.ecs[k].1);
    if premul {
        ctx.label("premultiplied");
    }
    let spots: Vec<(usize, [f32; 4])> = match &img.spots {
        Some(s) if c2.spot => s.iter().enumerate().filter_map(|(i, s)| s.map(|s| (i, s))).collect(),
        _ => vec![],
    };
    if !spots.is_empty() {
        ctx.label("spot colours");
    }
    let order: &[usize] = match fmt.color {
        T::Grayscale => &[0],
        T::GrayscaleAlpha => &[0, 3],
        T::Rgb => &[0, 1, 2],
        T::Rgba => &[0, 1, 2, 3],
        T::Bgr => &[2, 1, 0],
        T::Bgra => &[2, 1, 0, 3],
    };
    let clamp = match &ib.profiles.1 {
        p => match p.transfer_function() {
            Some(jxl::api::JxlTransferFunction::PQ) => (0.0, 1.0),
            Some(jxl::api::JxlTransferFunction::HLG) => (-0.074, 1.1),
            _ => (-1e9, 1e9),
        },
    };
    // filters, noise and splines may have different parameters for the channels
    let plain = ia.uses_original_profile && img.lossless;
    for (fi, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        let err = |sig: &str, plane: String, x: usize, y: usize, m: String| fail(&format!("c07:{sig}"), format!("{what}: frame {fi} {plane} at ({x}, {y}): {m}"));
        let check = |p: &Plane, c: usize, px: usize, py: usize, v: V| -> Option<String> {
            if !v.v.is_finite() || !v.e.is_finite() {
                return None;
            }
            let o = p.get(px, py, c);
            let (e, tol) = match p.num {
                Num::F32(_) => (v.v, v.e),
                Num::F16(_) => {
                    if v.v.abs() > 65000.0 || v.v < clamp.0 || v.v > clamp.1 {
                        return None;
                    }
                    (v.v, v.e + (v.v.abs() / 2048.0).max(1.0 / (1 << 25) as f64))
                }
                Num::U8(b) => {
                    let m = ((1u32 << b) - 1) as f64;
                    (v.v.clamp(0.0, 1.0) * m, 0.9923 + 1e-4 + v.e * m)
                }
                Num::U16(b, _) => {
                    let m = ((1u32 << b) - 1) as f64;
                    (v.v.clamp(0.0, 1.0) * m, 0.5 + m * 3e-7 + v.e * m)
                }
            };
            ((o - e).abs() > tol || o.is_nan()).then(|| format!("{o}, expected {e} ± {tol}"))
        };
        let (w, h) = (x.planes[0].w, x.planes[0].h);
        for p in x.planes.iter().chain(&y.planes) {
            if (p.w, p.h) != (w, h) {
                return err("size", "".into(), 0, 0, format!("{}x{} against {w}x{h}", p.w, p.h));
            }
        }
        let mut k = 0;
        if fmt.color_fmt.is_some() {
            let p = &y.planes[0];
            k = 1;
            let src = a2.as_ref().map(|d| &d.frames[fi].planes[0]);
            for py in 0..h {
                for px in 0..w {
                    let mut col = [V::exact(0.0); 3];
                    for c in 0..3 {
                        col[c] = match src {
                            None => V::exact(x.planes[0].get(px, py, c)),
                            Some(s) => {
                                let v = s.get(px, py, c);
                                let e = if (premul || !spots.is_empty()) && (v == 0.0 || v == 65535.0) { f64::INFINITY } else { 0.51 };
                                V { v: v / 65535.0, e: e / 65535.0 }
                            }
                        };
                    }
                    if ia.gray && plain && !(0..3).all(|c| col[c].v == col[0].v || col[c].v.is_nan()) {
                        return err("gray", "colour".into(), px, py, format!("{col:?}"));
                    }
                    for (i, s) in &spots {
                        let mix = V::exact(s[3] as f64).mul(V::exact(x.planes[1 + i].get(px, py, 0)));
                        for c in 0..3 {
                            col[c] = mix.mul(V::exact(s[c] as f64)).add(V::exact(1.0).sub(mix).mul(col[c]));
                        }
                    }
                    let al = alpha.map(|k| V::exact(x.planes[1 + k].get(px, py, 0)));
                    for (j, &c) in order.iter().enumerate() {
                        let m = match (c, al) {
                            (3, None) => {
                                let (o, one) = (p.get(px, py, j), match p.num {
                                    Num::F16(_) | Num::F32(_) => 1.0,
                                    Num::U8(b) | Num::U16(b, _) => ((1u32 << b) - 1) as f64,
                                });
                                (o != one).then(|| format!("opaque alpha is {o}"))
                            }
                            (3, Some(a)) => check(p, j, px, py, a),
                            (c, Some(a)) if premul => check(p, j, px, py, col[c].mul(a)),
                            (c, _) => check(p, j, px, py, col[c]),
                        };
                        if let Some(m) = m {
                            return err("colour", format!("sample {j} of {:?}", fmt.color), px, py, m);
                        }
                    }
                }
            }
        }
        for (i, e) in fmt.ec.iter().enumerate() {
            if e.is_none() {
                continue;
            }
            let p = &y.planes[k];
            k += 1;
            for py in 0..h {
                for px in 0..w {
                    if let Some(m) = check(p, 0, px, py, V::exact(x.planes[1 + i].get(px, py, 0))) {
                        return err("extra", format!("extra channel {i}"), px, py, m);
                    }
                }
            }
        }
    }
    Ok(())
}

/// Damages a file.
pub fn mutate(src: &mut Src, data: &mut Vec<u8>) -> String {
    let mut d = String::new();
    let n = 1 + src.weighted(&[6, 3, 2, 1, 1]);
    for _ in 0..n {
        if data.is_empty() {
            break;
        }
        // Positions near the start (headers) are more interesting.
        let pos = |src: &mut Src, len: usize| if src.bool() { src.usize(len.min(64)) } else { src.usize(len) };
        match src.below(9) {
            0 => {
                let p = pos(src, data.len());
                let b = src.below(8);
                data[p] ^= 1 << b;
                d += &format!("flip {p}.{b} ");
            }
            1 => {
                let p = pos(src, data.len());
                let v = *src.pick(&[0u8, 0xff, 0x80, 0x7f, 1]);
                data[p] = v;
                d += &format!("set {p}={v} ");
            }
            2 => {
                let p = pos(src, data.len());
                let v = src.below(256) as u8;
                data[p] = v;
                d += &format!("set {p}={v} ");
            }
            3 => {
                let p = src.usize(data.len());
                data.truncate(p);
                d += &format!("cut {p} ");
            }
            4 => {
                let p = pos(src, data.len());
                let k = src.urange(1, 16).min(data.len() - p);
                data.drain(p..p + k);
                d += &format!("delete {p}+{k} ");
            }
            5 => {
                let p = pos(src, data.len());
                let k = src.urange(1, 16);
                let mut r = src.rng();
                let ins: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
                data.splice(p..p, ins);
                d += &format!("insert {p}+{k} ");
            }
            6 => {
                let p = pos(src, data.len());
                let k = src.urange(1, 32);
                let q = src.usize(data.len());
                let piece: Vec<u8> = data[q..(q + k).min(data.len())].to_vec();
                for (i, b) in piece.into_iter().enumerate() {
                    if p + i < data.len() {
                        data[p + i] = b;
                    }
                }
                d += &format!("copy {q}->{p}+{k} ");
            }
            7 => {
                // a multi-bit field
                let p = pos(src, data.len()) * 8 + src.usize(8);
                let k = src.urange(2, 30);
                let mut r = src.rng();
                for i in p..(p + k).min(data.len() * 8) {
                    data[i / 8] = data[i / 8] & !(1 << (i % 8)) | ((r.next() & 1) as u8) << (i % 8);
                }
                d += &format!("bits {p}+{k} ");
            }
            _ => {
                let o = imgs::seed(src, 4000).bytes;
                let p = src.usize(data.len());
                let q = src.usize(o.len());
                data.truncate(p);
                data.extend_from_slice(&o[q..]);
                d += &format!("splice at {p} ");
            }
        }
    }
    d
}

fn robust_case(src: &mut Src, ctx: &mut Ctx) -> (Vec<u8>, String) {
    let mut keep = (1, 12);
    let (mut data, mut desc) = if src.chance(1, 25) {
        let n = src.usize(200);
        let mut r = src.rng();
        let mut v: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
        match src.below(3) {
            0 => {
                v.splice(0..0, [0xff, 0x0a]);
            }
            1 => {
                let mut h = imgs::SIGNATURE_BOX.to_vec();
                h.extend(imgs::FTYP_BOX);
                v.splice(0..0, h);
            }
            _ => {}
        }
        ctx.label("source:random bytes");
        (v, "random bytes".to_string())
    } else if src.chance(1, 16) {
        let wild = src.chance(2, 3);
        if wild {
            keep = (3, 4);
        }
        super::hdr::noise(src, ctx, wild)
    } else {
        let (img, wild) = imgs::any(src, ctx);
        if wild {
            // breaks rules as it is
            ctx.label("wild");
            keep = (3, 4);
        }
        (img.bytes, img.desc)
    };
    if src.chance(1, 5)
        && let Some(cs) = imgs::codestream(&data)
    {
        let w = imgs::wrap(src, &cs, cs.len(), true);
        data = w.bytes;
        desc += " wrapped";
    }
    if !src.chance(keep.0, keep.1) {
        desc += &format!(": {}", mutate(src, &mut data));
    }
    (data, desc)
}

/// Any bytes: the decoder answers cleanly.
pub fn c01(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let (data, desc) = robust_case(src, ctx);
    ctx.artifact("jxl", &data);
    let mut cfg = gen_opts(src);
    cfg.limit = Some(1 << 21);
    cfg.feed = if src.bool() { Feed::Whole } else { gen_feed(src, data.len().max(2)) };
    if let Feed::Fixed(n) = &mut cfg.feed {
        *n = (*n).max(data.len() / 300);
    }
    if let Feed::Random(_, n) | Feed::DefaultSkip(_, n) = &mut cfg.feed {
        *n = (*n).max(data.len() / 300);
    }
    cfg.run = if src.chance(1, 3) { gen_run(src) } else { Run::None };
    cfg.flush = if src.chance(1, 3) { Some((src.below(1 << 32), src.urange(1, 4) as u64)) } else { None };
    cfg.row_pad = src.usize(2) * 24;
    cfg.scan_only = src.chance(1, 10);
    let seed = src.below(1 << 32);
    let rf = src.chance(1, 3);
    cfg.skip = if src.chance(1, 6) { vec![src.usize(3)] } else { vec![] };
    cfg.max_frames = 200;
    ctx.sample(format!("{desc}: fed by {:?}", cfg.feed));
    let d = decode_with(&data, &cfg, &mut |i: &Info| if rf { Some(random_fmt(&mut Rng::new(seed), i)) } else { None });
    let stage = if d.info.is_none() { "before image info" } else if d.frames.is_empty() && d.partial.is_none() { "after image info" } else { "in frames" };
    let end = match &d.end {
        End::Error(_) => "error",
        End::NeedMore => "incomplete",
        End::Complete => "complete",
        End::Stopped => "stopped",
    };
    ctx.label(format!("{end} {stage}"));
    if d.info.is_some() {
        ctx.nontrivial(hash_bytes(&data));
    }
    if let Some(c) = d.canary {
        return fail("c01:canary", format!("{desc}: {c}"));
    }
    Ok(())
}

/// The sample limit bounds memory and never changes what is accepted.
pub fn c12(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let (data, desc) = robust_case(src, ctx);
    ctx.artifact("jxl", &data);
    let mut cfg = gen_opts(src);
    let limit = 1usize << src.urange(10, 21);
    cfg.limit = Some(limit);
    cfg.fmt = FmtSel::F32All;
    cfg.max_frames = 20;
    let base = crate::alloc::reset();
    let a = decode(&data, &cfg);
    let peak = crate::alloc::peak_since(base);
    let own: usize = a.frames.iter().map(|f| f.planes.iter().map(|p| p.data.len()).sum::<usize>()).sum();
    let one: usize = a.info.as_ref().map_or(0, |i| i.size.0 * i.size.1 * 4 * (3 + i.ecs.len()));
    let peak = peak.saturating_sub(own + 2 * one);
    let ratio = peak as f64 / limit as f64;
    if std::env::var_os("VERIF_STAT").is_some() {
        ctx.label(format!("peak 2^{:02}", (peak as f64).log2().floor()));
        for k in [40, 100, 200] {
            ctx.label(format!("over {k:03}: {:03} MiB", (peak as i64 - (k * limit + 16 * data.len()) as i64).max(0) >> 20));
        }
    }
    let _ = ratio;
    ctx.sample(format!("{desc}: limit {limit}, peak {peak} bytes, {:?}", a.end));
    if a.info.is_some() {
        ctx.nontrivial(hash_bytes(&data));
    }
    let bound = (24 << 20) + 200 * limit + 64 * data.len();
    if peak > bound {
        // ICC profiles have their own fixed limits (2^28 bytes, 2^24 coded), and memory of splines is
        // a recorded finding: is it all of it?
        let within = |splines| {
            let other = crate::alloc::peak_without(splines, || {
                decode(&data, &cfg);
            });
            other.saturating_sub(own + one) <= bound
        };
        if peak <= bound + (320 << 20) && within(false) {
            return Ok(());
        }
        let sig = if within(true) { "c12:memory of splines" } else { "c12:memory of images" };
        return fail(sig, format!("{desc}: limit {limit} and {} bytes of input, but {peak} bytes allocated at peak", data.len()));
    }
    if let Some(i) = &a.info
        && let n = i.size.0.max(1) * i.size.1.max(1) * (3 + i.ecs.len())
        && n > limit
    {
        return fail("c12:limit", format!("{desc}: an image of {:?} with {} extra channels accepted with limit {limit}", i.size, i.ecs.len()));
    }
    // A larger limit gives the same result.
    if a.end == End::Complete && src.bool() {
        let b = decode(&data, &Cfg { limit: Some(limit * 4), ..cfg.clone() });
        same("c12", &desc, &a, &b)?;
    }
    Ok(())
}
