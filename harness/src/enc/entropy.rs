//! Entropy encoder: hybrid integers, context clustering, LZ77, prefix codes and ANS.
use super::bits::*;
use crate::core::{Rng, Src};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub ctx: u32,
    pub val: u32,
}

pub fn tok(ctx: usize, val: u32) -> Tok {
    Tok { ctx: ctx as u32, val }
}

#[derive(Clone, Copy, Debug)]
pub enum Item {
    Lit(Tok),
    /// ctx, length, distance symbol
    Copy(u32, u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hybrid {
    pub split: u32,
    pub msb: u32,
    pub lsb: u32,
}

impl Hybrid {
    pub fn encode(&self, v: u32) -> (u32, usize, u32) {
        if v < 1u32.checked_shl(self.split).unwrap_or(u32::MAX) {
            return (v, 0, 0);
        }
        let n = floor_log2(v as u64) as u32;
        let m = v - (1 << n);
        let t = (1 << self.split)
            + ((n - self.split) << (self.msb + self.lsb))
            + ((m >> (n - self.msb)) << self.lsb)
            + (m & ((1 << self.lsb) - 1));
        let nb = n - self.msb - self.lsb;
        let bits = ((v as u64 >> self.lsb) & ((1u64 << nb) - 1)) as u32;
        (t, nb as usize, bits)
    }
    pub fn write(&self, bw: &mut BitWriter, log_alpha: usize) {
        bw.write(ceil_log2(log_alpha as u64 + 1), self.split as u64);
        if self.split as usize != log_alpha {
            bw.write(ceil_log2(self.split as u64 + 1), self.msb as u64);
            bw.write(ceil_log2((self.split - self.msb) as u64 + 1), self.lsb as u64);
        }
    }
    fn random(r: &mut Rng, log_alpha: usize) -> Self {
        let split = r.below(log_alpha.min(8) as u64 + 1) as u32;
        if split as usize == log_alpha {
            return Hybrid { split, msb: 0, lsb: 0 };
        }
        let msb = r.below(split as u64 + 1) as u32;
        let lsb = r.below((split - msb) as u64 + 1) as u32;
        Hybrid { split, msb, lsb }
    }
}

#[derive(Clone, Debug)]
pub struct Lz {
    pub min_symbol: u32,
    pub min_length: u32,
    pub len_cfg: Hybrid,
    pub rle_only: bool,
}

#[derive(Clone, Debug)]
enum Hist {
    Huff { lens: Vec<u8>, codes: Vec<u16>, used: Vec<usize>, simple: bool, alpha: usize },
    Ans { kind: AnsKind, dist: Vec<u32>, slots: Vec<Vec<u32>> },
}

#[derive(Clone, Debug)]
enum AnsKind {
    Single(usize),
    Two(usize, usize),
    Flat(usize),
    Complex { shift: i32, alpha: usize, omit: usize, rle: bool },
}

#[derive(Clone, Debug)]
pub struct Code {
    pub num_ctx: usize,
    pub lz: Option<Lz>,
    pub allow_lz: bool,
    pub ctx_map: Vec<u8>,
    pub prefix: bool,
    pub log_alpha: usize,
    pub cfgs: Vec<Hybrid>,
    hists: Vec<Hist>,
    map_bits: BitW,
    pub desc: String,
}

#[derive(Clone)]
struct BitW(BitWriter);
impl std::fmt::Debug for BitW {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bits")
    }
}

pub const SPECIAL: [(i8, u8); 120] = [
    (0, 1), (1, 0), (1, 1), (-1, 1), (0, 2), (2, 0), (1, 2), (-1, 2), (2, 1), (-2, 1), (2, 2), (-2, 2), (0, 3), (3, 0), (1, 3), (-1, 3), (3, 1),
    (-3, 1), (2, 3), (-2, 3), (3, 2), (-3, 2), (0, 4), (4, 0), (1, 4), (-1, 4), (4, 1), (-4, 1), (3, 3), (-3, 3), (2, 4), (-2, 4), (4, 2),
    (-4, 2), (0, 5), (3, 4), (-3, 4), (4, 3), (-4, 3), (5, 0), (1, 5), (-1, 5), (5, 1), (-5, 1), (2, 5), (-2, 5), (5, 2), (-5, 2), (4, 4),
    (-4, 4), (3, 5), (-3, 5), (5, 3), (-5, 3), (0, 6), (6, 0), (1, 6), (-1, 6), (6, 1), (-6, 1), (2, 6), (-2, 6), (6, 2), (-6, 2), (4, 5),
    (-4, 5), (5, 4), (-5, 4), (3, 6), (-3, 6), (6, 3), (-6, 3), (0, 7), (7, 0), (1, 7), (-1, 7), (5, 5), (-5, 5), (7, 1), (-7, 1), (4, 6),
    (-4, 6), (6, 4), (-6, 4), (2, 7), (-2, 7), (7, 2), (-7, 2), (3, 7), (-3, 7), (7, 3), (-7, 3), (5, 6), (-5, 6), (6, 5), (-6, 5), (8, 0),
    (4, 7), (-4, 7), (7, 4), (-7, 4), (8, 1), (8, 2), (6, 6), (-6, 6), (8, 3), (5, 7), (-5, 7), (7, 5), (-7, 5), (8, 4), (6, 7), (-6, 7),
    (7, 6), (-7, 6), (8, 5), (7, 7), (-7, 7), (8, 6), (8, 7),
];

fn sym_distance(sym: u32, width: u32) -> i64 {
    if width == 0 {
        sym as i64 + 1
    } else if sym >= 120 {
        sym as i64 - 120 + 1
    } else {
        let (o, d) = SPECIAL[sym as usize];
        ((width as i64) * d as i64 + o as i64).max(1)
    }
}

/// Replaces parts of the value sequence by copies.
pub fn lz77ify(toks: &[Tok], lz: &Lz, width: u32, r: &mut Rng) -> Vec<Item> {
    let n = toks.len();
    let mut out = vec![];
    let mut last: std::collections::HashMap<(u32, u32), usize> = Default::default();
    let mut i = 0;
    let agg = r.below(4) + 1; // how eager
    while i < n {
        let mut done = false;
        if i > 0 && (lz.rle_only || r.below(5) < agg) {
            let mut cands: Vec<(u32, i64)> = vec![];
            if lz.rle_only {
                // "distance symbol 1" means one pixel back when the width is known
                if width > 0 {
                    cands.push((1, 1));
                }
            } else {
                let mut push = |sym: u32| {
                    let d = sym_distance(sym, width).min((1 << 20) as i64).min(i as i64);
                    if d >= 1 && d <= i as i64 {
                        cands.push((sym, d));
                    }
                };
                push(if width > 0 { 1 } else { 0 });
                push(0);
                push(r.below(120) as u32);
                push(r.below(300) as u32);
                if i + 1 < n
                    && let Some(&p) = last.get(&(toks[i].val, toks[i + 1].val))
                {
                    let d = (i - p) as u32;
                    if width == 0 {
                        push(d - 1);
                    } else {
                        push(d - 1 + 120);
                    }
                }
            }
            let mut best = (0u32, 0usize);
            for (sym, d) in cands {
                let mut l = 0;
                while i + l < n && toks[i + l - d as usize].val == toks[i + l].val {
                    l += 1;
                }
                if l > best.1 {
                    best = (sym, l);
                }
            }
            if best.1 >= lz.min_length as usize {
                let mut len = best.1;
                if r.below(4) == 0 {
                    len = lz.min_length as usize + r.below((best.1 - lz.min_length as usize) as u64 + 1) as usize;
                }
                out.push(Item::Copy(toks[i].ctx, len as u32, best.0));
                i += len;
                done = true;
            }
        }
        if !done {
            if i + 1 < n {
                last.insert((toks[i].val, toks[i + 1].val), i);
            }
            out.push(Item::Lit(toks[i]));
            i += 1;
        }
    }
    out
}

fn limited_huffman(counts: &[u64], limit: u8) -> Vec<u8> {
    // counts has at least 2 nonzero entries
    let mut c: Vec<u64> = counts.to_vec();
    loop {
        let mut heap: std::collections::BinaryHeap<std::cmp::Reverse<(u64, usize)>> = Default::default();
        let mut parent: Vec<usize> = vec![usize::MAX; c.len()];
        for (i, &x) in c.iter().enumerate() {
            if x > 0 {
                heap.push(std::cmp::Reverse((x, i)));
            }
        }
        while heap.len() > 1 {
            let a = heap.pop().unwrap().0;
            let b = heap.pop().unwrap().0;
            let id = parent.len();
            parent.push(usize::MAX);
            parent[a.1] = id;
            parent[b.1] = id;
            heap.push(std::cmp::Reverse((a.0 + b.0, id)));
        }
        let mut lens = vec![0u8; c.len()];
        let mut maxl = 0;
        for i in 0..c.len() {
            if c[i] > 0 {
                let mut l = 0u32;
                let mut p = i;
                while parent[p] != usize::MAX {
                    p = parent[p];
                    l += 1;
                }
                lens[i] = l.min(255) as u8;
                maxl = maxl.max(l);
            }
        }
        if maxl <= limit as u32 {
            return lens;
        }
        for x in c.iter_mut() {
            if *x > 0 {
                *x = *x / 2 + 1;
            }
        }
    }
}

fn canonical(lens: &[u8]) -> Vec<u16> {
    let mut codes = vec![0u16; lens.len()];
    let mut code = 0u32;
    for l in 1..=15u8 {
        for (s, &x) in lens.iter().enumerate() {
            if x == l {
                // reverse bits
                let mut rv = 0u32;
                for b in 0..l {
                    if code >> b & 1 != 0 {
                        rv |= 1 << (l - 1 - b);
                    }
                }
                codes[s] = rv as u16;
                code += 1;
            }
        }
        code <<= 1;
    }
    codes
}

fn alias_slots(dist: &[u32], log_alpha: usize) -> Vec<Vec<u32>> {
    let size = 1usize << log_alpha;
    let mut d = dist.to_vec();
    d.resize(size, 0);
    let log_bucket = 12 - log_alpha;
    let bucket = 1u32 << log_bucket;
    let mut slots: Vec<Vec<u32>> = d.iter().map(|&x| vec![u32::MAX; x as usize]).collect();
    if let Some(s) = d.iter().position(|&x| x == 4096) {
        for i in 0..4096 {
            slots[s][i] = i as u32;
        }
        return slots;
    }
    let alpha = d.iter().rposition(|&x| x > 0).unwrap() + 1;
    let mut cutoff = d.clone();
    let mut sym: Vec<usize> = (0..size).map(|i| if i < alpha { i } else { 0 }).collect();
    let mut off = vec![0u32; size];
    let mut under = vec![];
    let mut over = vec![];
    for i in 0..size {
        if d[i] < bucket {
            under.push(i);
        } else if d[i] > bucket {
            over.push(i);
        }
    }
    while let Some(o) = over.pop() {
        let u = under.pop().unwrap();
        let by = bucket - cutoff[u];
        cutoff[o] -= by;
        sym[u] = o;
        off[u] = cutoff[o];
        if cutoff[o] < bucket {
            under.push(o);
        } else if cutoff[o] > bucket {
            over.push(o);
        }
    }
    for idx in 0..4096u32 {
        let i = (idx >> log_bucket) as usize;
        let pos = idx & (bucket - 1);
        let (s, o) = if cutoff[i] == bucket || pos < cutoff[i] { (i, pos) } else { (sym[i], off[i] + pos - cutoff[i]) };
        slots[s][o as usize] = idx;
    }
    for s in &slots {
        assert!(s.iter().all(|&x| x != u32::MAX));
    }
    slots
}

fn ans_u8(bw: &mut BitWriter, v: usize) {
    if v == 0 {
        bw.write(1, 0);
    } else {
        bw.write(1, 1);
        let n = floor_log2(v as u64);
        bw.write(3, n as u64);
        bw.write(n, (v - (1 << n)) as u64);
    }
}

const LOGCODE: [(u64, usize); 14] = [
    (17, 5), (11, 4), (15, 4), (3, 4), (9, 4), (7, 4), (4, 3), (2, 3), (5, 3), (6, 3), (0, 3), (33, 6), (1, 7), (65, 7),
];

fn bitcount_for(shift: i32, zeros: i32) -> i32 {
    (shift - ((12 - zeros) >> 1)).clamp(0, zeros)
}

fn build_ans(counts: &[u64], log_alpha: usize, r: &mut Rng) -> Hist {
    let size = 1usize << log_alpha;
    let used: Vec<usize> = (0..counts.len()).filter(|&i| counts[i] > 0).collect();
    let done = |kind: AnsKind, dist: Vec<u32>| {
        assert_eq!(dist.iter().sum::<u32>(), 4096);
        let slots = alias_slots(&dist, log_alpha);
        Hist::Ans { kind, dist, slots }
    };
    if used.is_empty() {
        let s = if r.below(3) == 0 { r.below(size as u64) as usize } else { 0 };
        let mut d = vec![0; s + 1];
        d[s] = 4096;
        return done(AnsKind::Single(s), d);
    }
    let max = *used.last().unwrap();
    if used.len() == 1 && r.below(8) != 0 {
        let s = used[0];
        if r.below(6) == 0 {
            // two-symbol form with an impossible first symbol
            let o = if s == 0 { 1 } else { 0 };
            let mut d = vec![0; max.max(o) + 1];
            d[s] = 4096;
            return done(AnsKind::Two(o, s), d);
        }
        let mut d = vec![0; s + 1];
        d[s] = 4096;
        return done(AnsKind::Single(s), d);
    }
    if r.below(8) == 0 && max < 256 {
        // flat
        let alpha = (max + 1 + r.below(4) as usize).min(size).max(1);
        let mut d = vec![4096 / alpha as u32; alpha];
        for x in d.iter_mut().take(4096 % alpha) {
            *x += 1;
        }
        return done(AnsKind::Flat(alpha), d);
    }
    // normalise
    let tot: u64 = used.iter().map(|&i| counts[i]).sum();
    let mut d = vec![0u32; max + 1];
    for &i in &used {
        d[i] = ((counts[i] as u128 * 4096 / tot as u128) as u32).max(1);
    }
    // occasionally give probability to unused symbols
    if r.below(4) == 0 {
        for _ in 0..3 {
            let i = r.below(size as u64) as usize;
            if i >= d.len() {
                d.resize(i + 1, 0);
            }
            if d[i] == 0 {
                d[i] = 1 + r.below(40) as u32;
            }
        }
    }
    // fix the sum on the largest
    let fix = |d: &mut Vec<u32>| {
        loop {
            let s: i64 = d.iter().map(|&x| x as i64).sum();
            let (mi, &mv) = d.iter().enumerate().max_by_key(|x| (x.1, std::cmp::Reverse(x.0))).unwrap();
            let want = mv as i64 + 4096 - s;
            if want >= 1 {
                d[mi] = want as u32;
                break;
            }
            for x in d.iter_mut() {
                if *x > 1 {
                    *x = (*x / 2).max(1);
                }
            }
        }
    };
    fix(&mut d);
    let nz: Vec<usize> = (0..d.len()).filter(|&i| d[i] > 0).collect();
    if nz.len() == 1 {
        return done(AnsKind::Single(nz[0]), d);
    }
    if nz.len() == 2 && r.below(4) != 0 && nz[1] < 256 {
        let (a, b) = if r.below(2) == 0 { (nz[0], nz[1]) } else { (nz[1], nz[0]) };
        return done(AnsKind::Two(a, b), d);
    }
    // complex: quantise to the chosen precision
    let shift = r.below(14) as i32;
    let omit0 = {
        // position of the first largest logcount
        let mut best = (0, 0);
        for (i, &x) in d.iter().enumerate() {
            if x > 0 {
                let lc = floor_log2(x as u64) + 1;
                if lc > best.0 {
                    best = (lc, i);
                }
            }
        }
        best.1
    };
    let mut acc = 0;
    for (i, x) in d.iter_mut().enumerate() {
        if *x == 0 || i == omit0 {
            continue;
        }
        if *x > 1 {
            let zeros = floor_log2(*x as u64) as i32;
            let bc = bitcount_for(shift, zeros);
            *x = *x >> (zeros - bc) << (zeros - bc);
        }
        acc += *x;
    }
    d[omit0] = 4096 - acc;
    let alpha = (d.len().max(3) + if r.below(4) == 0 { r.below(5) as usize } else { 0 }).min(size);
    done(AnsKind::Complex { shift, alpha, omit: omit0, rle: r.below(3) != 0 }, d)
}

/// Requires knowing logcounts before the omitted one was enlarged: recomputed so that `omit` stays the first maximum.
fn write_ans_hist(bw: &mut BitWriter, kind: &AnsKind, dist: &[u32]) {
    match *kind {
        AnsKind::Single(s) => {
            bw.write(2, 1);
            ans_u8(bw, s);
        }
        AnsKind::Two(a, b) => {
            bw.write(2, 3);
            ans_u8(bw, a);
            ans_u8(bw, b);
            bw.write(12, dist[a] as u64);
        }
        AnsKind::Flat(a) => {
            bw.write(2, 2);
            ans_u8(bw, a - 1);
        }
        AnsKind::Complex { shift, alpha, omit, rle } => {
            bw.write(2, 0);
            let len = floor_log2(shift as u64 + 1);
            for _ in 0..len {
                bw.write(1, 1);
            }
            if len < 3 {
                bw.write(1, 0);
            }
            bw.write(len, shift as u64 + 1 - (1 << len));
            ans_u8(bw, alpha - 3);
            let mut d = dist.to_vec();
            d.resize(alpha, 0);
            let lc = |x: u32| if x == 0 { 0 } else { floor_log2(x as u64) + 1 };
            // logcount announced for the omitted symbol: first strict maximum
            let before = (0..omit).map(|i| lc(d[i])).max().unwrap_or(0);
            let after = (omit + 1..alpha).map(|i| lc(d[i])).max().unwrap_or(0);
            let olc = (before + 1).max(after).max(1).max(lc(d[omit]).min(12));
            assert!(olc <= 12);
            // plan
            let mut plan: Vec<(usize, Option<usize>)> = vec![]; // (index, rle length)
            let mut i = 0;
            while i < alpha {
                if rle && i != omit && i != omit + 1 {
                    let prev = if i == 0 { 0 } else { d[i - 1] };
                    let mut run = 0;
                    while i + run < alpha && i + run != omit && d[i + run] == prev && run < 255 + 4 {
                        run += 1;
                    }
                    if run >= 4 {
                        plan.push((i, Some(run)));
                        i += run;
                        continue;
                    }
                }
                plan.push((i, None));
                i += 1;
            }
            for &(i, run) in &plan {
                let code = match run {
                    Some(_) => 13,
                    None => {
                        if i == omit {
                            olc
                        } else {
                            lc(d[i])
                        }
                    }
                };
                let (c, n) = LOGCODE[code];
                bw.write(n, c);
                if let Some(run) = run {
                    ans_u8(bw, run - 4);
                }
            }
            for &(i, run) in &plan {
                if run.is_some() || i == omit || d[i] <= 1 {
                    continue;
                }
                let zeros = floor_log2(d[i] as u64) as i32;
                let bc = bitcount_for(shift, zeros);
                bw.write(bc as usize, ((d[i] - (1 << zeros)) >> (zeros - bc)) as u64);
            }
        }
    }
}

fn build_huff(counts: &[u64], r: &mut Rng, max_alpha: usize) -> Hist {
    let mut c = counts.to_vec();
    while c.last() == Some(&0) {
        c.pop();
    }
    if c.is_empty() {
        c.push(0);
    }
    // extra unused symbols with codes
    if r.below(5) == 0 {
        for _ in 0..1 + r.below(6) {
            let i = r.below((c.len() as u64 + 8).min(max_alpha as u64)) as usize;
            if i >= c.len() {
                c.resize(i + 1, 0);
            }
            c[i] += 1;
        }
    }
    let used: Vec<usize> = (0..c.len()).filter(|&i| c[i] > 0).collect();
    let mut alpha = c.len();
    if r.below(6) == 0 {
        alpha = (alpha + r.below(6) as usize).min(max_alpha);
    }
    c.resize(alpha, 0);
    if used.len() <= 1 {
        let used = if used.is_empty() { vec![0] } else { used };
        return Hist::Huff { lens: vec![0; alpha], codes: vec![0; alpha], used, simple: true, alpha };
    }
    if used.len() <= 4 && r.below(4) != 0 {
        // simple code; symbol order random where it matters
        let mut u = used.clone();
        for i in (1..u.len()).rev() {
            u.swap(i, r.below(i as u64 + 1) as usize);
        }
        let mut lens = vec![0u8; alpha];
        let mut tree_select = false;
        match u.len() {
            2 => {
                lens[u[0]] = 1;
                lens[u[1]] = 1;
            }
            3 => {
                lens[u[0]] = 1;
                lens[u[1]] = 2;
                lens[u[2]] = 2;
            }
            _ => {
                tree_select = r.below(2) == 1;
                if tree_select {
                    lens[u[0]] = 1;
                    lens[u[1]] = 2;
                    lens[u[2]] = 3;
                    lens[u[3]] = 3;
                } else {
                    for &s in &u {
                        lens[s] = 2;
                    }
                }
            }
        }
        let _ = tree_select;
        let codes = canonical(&lens);
        return Hist::Huff { lens, codes, used: u, simple: true, alpha };
    }
    // perturb counts for unusual shapes (long codes)
    match r.below(4) {
        0 => {
            for x in c.iter_mut().filter(|x| **x > 0) {
                *x = 1u64 << r.below(20);
            }
        }
        1 => {
            for x in c.iter_mut().filter(|x| **x > 0) {
                *x = 1;
            }
        }
        _ => {}
    }
    let lens = limited_huffman(&c, 15);
    let codes = canonical(&lens);
    Hist::Huff { lens, codes, used, simple: false, alpha }
}

fn write_huff(bw: &mut BitWriter, h: &Hist, r: &mut Rng) {
    let Hist::Huff { lens, used, simple, alpha, .. } = h else { unreachable!() };
    if *alpha == 1 {
        return;
    }
    if *simple {
        bw.write(2, 1);
        bw.write(2, used.len() as u64 - 1);
        let mb = ceil_log2(*alpha as u64);
        for &s in used {
            bw.write(mb, s as u64);
        }
        if used.len() == 4 {
            bw.write(1, (lens[used[0]] == 1) as u64);
        }
        return;
    }
    // code length symbols
    let last = lens.iter().rposition(|&x| x > 0).unwrap();
    let mut syms: Vec<(u8, u8)> = vec![]; // symbol, extra
    let mut i = 0;
    let mut prev = 8u8;
    let use_rle = r.below(4) != 0;
    while i <= last {
        let l = lens[i];
        let mut run = 1;
        while i + run <= last && lens[i + run] == l {
            run += 1;
        }
        if use_rle && l == 0 && run >= 3 {
            // chunks with a single repeat symbol (3..10) followed by chained ones
            let mut left = run;
            let take = left.min(10);
            syms.push((17, take as u8 - 3));
            left -= take;
            i += take;
            // a following 17 would be a chained repeat; emit explicit zeros to break the chain or chain properly
            if left > 0 {
                // chained: total = (old-2)*8 + e + 3 ; delta = total - old
                let old = take;
                let base = (old - 2) * 8 + 3 - old;
                if left >= base && left <= base + 7 {
                    syms.push((17, (left - base) as u8));
                    i += left;
                } else {
                    // break with an explicit zero length
                    syms.push((0, 0));
                    i += 1;
                }
            }
            continue;
        }
        if use_rle && l != 0 && l == prev && run >= 3 && syms.last().map(|s| s.0) != Some(16) {
            let take = run.min(6);
            syms.push((16, take as u8 - 3));
            i += take;
            continue;
        }
        syms.push((l, 0));
        if l != 0 {
            prev = l;
        }
        i += 1;
    }
    let mut cc = vec![0u64; 18];
    for &(s, _) in &syms {
        cc[s as usize] += 1;
    }
    let used_cc: Vec<usize> = (0..18).filter(|&i| cc[i] > 0).collect();
    let cl = if used_cc.len() == 1 {
        let mut v = vec![0u8; 18];
        v[used_cc[0]] = 1 + r.below(5) as u8;
        v
    } else {
        limited_huffman(&cc, 5)
    };
    const ORDER: [usize; 18] = [1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15];
    let skip = if cl[1] == 0 && cl[2] == 0 {
        if cl[3] == 0 && r.below(2) == 0 { 3 } else { 2 }
    } else {
        0
    };
    bw.write(2, skip as u64);
    const CLC: [(u64, usize); 6] = [(0, 2), (7, 4), (3, 3), (2, 2), (1, 2), (15, 4)];
    let mut space = 32i32;
    for &o in &ORDER[skip..] {
        if space <= 0 {
            break;
        }
        let v = cl[o];
        let (c, n) = CLC[v as usize];
        bw.write(n, c);
        if v > 0 {
            space -= 32 >> v;
        }
    }
    let ccodes = canonical(&cl);
    let single = used_cc.len() == 1;
    for &(s, e) in &syms {
        if !single {
            bw.write(cl[s as usize] as usize, ccodes[s as usize] as u64);
        }
        if s == 16 {
            bw.write(2, e as u64);
        } else if s == 17 {
            bw.write(3, e as u64);
        }
    }
}

fn varint16(bw: &mut BitWriter, v: usize) {
    if v == 0 {
        bw.write(1, 0);
    } else {
        bw.write(1, 1);
        let n = floor_log2(v as u64);
        bw.write(4, n as u64);
        bw.write(n, (v - (1 << n)) as u64);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LzMode {
    Never,
    Maybe,
    Rle,
}

pub struct Built {
    pub code: Code,
    pub streams: Vec<Vec<Item>>,
}

/// The bits of a context map (which has no unused clusters).
pub fn ctx_map_bits(ctx_map: &[u8], nclusters: usize, r: &mut Rng) -> BitWriter {
    let mut mb = BitWriter::new();
    if ctx_map.len() > 1 {
        let maxc = nclusters - 1;
        if maxc < 8 && r.below(2) == 0 {
            let nb = if maxc == 0 { r.below(2) as usize } else { (floor_log2(maxc as u64) + 1).max(1) };
            mb.write(1, 1);
            mb.write(2, nb as u64);
            for &x in ctx_map {
                mb.write(nb, x as u64);
            }
        } else {
            mb.write(1, 0);
            let mtf = r.below(2) == 1;
            mb.write(1, mtf as u64);
            let vals: Vec<u32> = if mtf {
                let mut t: Vec<u8> = (0..=255).collect();
                ctx_map
                    .iter()
                    .map(|&x| {
                        let p = t.iter().position(|&y| y == x).unwrap();
                        t.remove(p);
                        t.insert(0, x);
                        p as u32
                    })
                    .collect()
            } else {
                ctx_map.iter().map(|&x| x as u32).collect()
            };
            let toks: Vec<Tok> = vals.iter().map(|&v| tok(0, v)).collect();
            let mut s2 = Src::random(r.next());
            let b = build(&mut s2, 1, &[(&toks, 0)], ctx_map.len() > 2, LzMode::Maybe);
            b.code.write_header(&mut mb);
            b.code.write_stream(&mut mb, &b.streams[0]);
        }
    }
    mb
}

/// Builds a code for a set of token streams. `widths[i]` is the LZ77 distance multiplier of stream i.
pub fn build(src: &mut Src, num_ctx: usize, streams: &[(&[Tok], u32)], allow_lz: bool, mode: LzMode) -> Built {
    let rate = WILD_RNG.get().1;
    let changed: Vec<Vec<Tok>>;
    let mut list: Vec<(&[Tok], u32)> = streams.to_vec();
    if rate > 0 && !matches!(mode, LzMode::Rle) && wild_hit(3).is_some() {
        changed = streams
            .iter()
            .map(|s| {
                let mut t = s.0.to_vec();
                for t in &mut t {
                    if let Some(x) = wild_hit(rate) {
                        t.val = wild_value(t.val, x);
                    }
                }
                t
            })
            .collect();
        list = changed.iter().zip(streams).map(|(t, s)| (&t[..], s.1)).collect();
    }
    let streams = &list[..];
    let style = src.below(1 << 20);
    let mut r = Rng::new(style);
    let simple = style == 0;
    let lz_mode = if !allow_lz {
        LzMode::Never
    } else {
        match mode {
            LzMode::Never => LzMode::Never,
            LzMode::Rle => LzMode::Rle,
            LzMode::Maybe => {
                if src.chance(1, 4) {
                    LzMode::Maybe
                } else {
                    LzMode::Never
                }
            }
        }
    };
    let mut prefix = if lz_mode == LzMode::Rle { true } else { src.bool() };
    let use_lz = lz_mode != LzMode::Never;
    let tot_ctx = num_ctx + use_lz as usize;
    // clustering
    let cluster_kind = if simple { 0 } else { src.below(4) };
    let mut ctx_map: Vec<u8> = match cluster_kind {
        0 => vec![0; tot_ctx],
        1 => (0..tot_ctx).map(|i| i.min(255) as u8).collect(),
        _ => {
            let k = 1 + r.below(if cluster_kind == 2 { 8 } else { 24 }.min(tot_ctx as u64));
            (0..tot_ctx).map(|_| r.below(k) as u8).collect()
        }
    };
    if lz_mode == LzMode::Rle {
        // the distance context needs a cluster of its own
        let k = ctx_map[..num_ctx].iter().max().map(|x| *x as usize + 1).unwrap_or(0).min(200);
        for x in ctx_map.iter_mut() {
            *x = (*x).min(199);
        }
        ctx_map[num_ctx] = k as u8;
    }
    // compact so that there are no holes
    {
        let mut remap: std::collections::BTreeMap<u8, u8> = Default::default();
        for &x in &ctx_map {
            let n = remap.len() as u8;
            remap.entry(x).or_insert(n);
        }
        for x in ctx_map.iter_mut() {
            *x = remap[x];
        }
    }
    let nclusters = ctx_map.iter().map(|x| *x as usize + 1).max().unwrap_or(1);
    let max_val = streams.iter().flat_map(|s| s.0.iter().map(|t| t.val)).max().unwrap_or(0);
    // hybrid configs
    let mut log_alpha = if prefix { 15 } else { 5 + src.below(4) as usize };
    let mut cfgs: Vec<Hybrid>;
    let mut lz = None;
    let mut items: Vec<Vec<Item>>;
    let mut attempt = 0;
    let counts: Vec<Vec<u64>>;
    loop {
        attempt += 1;
        if use_lz && !prefix && log_alpha < 8 && attempt > 1 {
            log_alpha = 8;
        }
        let limit = if prefix { (1usize << 15) - 1 } else { 1 << log_alpha };
        cfgs = (0..nclusters)
            .map(|_| {
                if attempt > 4 || simple {
                    Hybrid { split: 0, msb: 0, lsb: 0 }
                } else if r.below(3) == 0 {
                    Hybrid { split: 4, msb: 2, lsb: 0 }
                } else {
                    Hybrid::random(&mut r, log_alpha)
                }
            })
            .collect();
        if r.below(4) == 0 && attempt <= 4 && !simple {
            cfgs.fill(Hybrid { split: 4, msb: 2, lsb: 0 });
        }
        if lz_mode == LzMode::Rle {
            cfgs[ctx_map[num_ctx] as usize] = Hybrid { split: 0, msb: 0, lsb: 0 };
        }
        if attempt > 6 {
            if !prefix && log_alpha < 8 {
                log_alpha += 1;
            } else {
                prefix = true;
                log_alpha = 15;
            }
        }
        lz = None;
        if use_lz {
            let max_tok = cfgs.iter().map(|c| c.encode(max_val).0).max().unwrap_or(0);
            // encode() is monotone enough: the maximum token belongs to the maximum value's octave
            let min_symbol = match r.below(3) {
                0 => 224,
                1 if prefix => *[512, 4096].get(r.below(2) as usize).unwrap(),
                _ => (max_tok + 64 + r.below(20) as u32).max(8),
            };
            let len_cfg = if r.below(2) == 0 { Hybrid { split: 0, msb: 0, lsb: 0 } } else { Hybrid::random(&mut r, 8) };
            let min_length = match r.below(4) {
                0 => 3,
                1 => 4,
                2 => 5 + r.below(4) as u32,
                _ => {
                    let m = if r.below(8) == 0 { 256 } else { 8 };
                    9 + r.below(m) as u32
                }
            };
            lz = Some(Lz { min_symbol, min_length, len_cfg, rle_only: lz_mode == LzMode::Rle });
        }
        let mut rr = Rng::new(style ^ 0x55);
        items = streams
            .iter()
            .map(|(t, w)| match &lz {
                Some(l) => lz77ify(t, l, *w, &mut rr),
                None => t.iter().map(|&x| Item::Lit(x)).collect(),
            })
            .collect();
        // gather
        let mut cts: Vec<Vec<u64>> = vec![vec![]; nclusters];
        let mut ok = true;
        let mut add = |cl: usize, t: u32| {
            if t as usize >= limit {
                return false;
            }
            let v = &mut cts[cl];
            if v.len() <= t as usize {
                v.resize(t as usize + 1, 0);
            }
            v[t as usize] += 1;
            true
        };
        'o: for st in &items {
            for it in st {
                match *it {
                    Item::Lit(t) => {
                        let cl = ctx_map[t.ctx as usize] as usize;
                        let tk = cfgs[cl].encode(t.val).0;
                        if let Some(l) = &lz
                            && tk >= l.min_symbol
                        {
                            ok = false;
                            break 'o;
                        }
                        ok &= add(cl, tk);
                    }
                    Item::Copy(ctx, len, dist) => {
                        let l = lz.as_ref().unwrap();
                        let cl = ctx_map[ctx as usize] as usize;
                        ok &= add(cl, l.min_symbol + l.len_cfg.encode(len - l.min_length).0);
                        let dc = ctx_map[num_ctx] as usize;
                        let dt = cfgs[dc].encode(dist).0;
                        if dt >= l.min_symbol && false {
                            ok = false;
                        }
                        ok &= add(dc, dt);
                    }
                }
                if !ok {
                    break 'o;
                }
            }
        }
        if ok {
            counts = cts;
            break;
        }
        assert!(attempt < 60, "cannot find an entropy configuration (max {max_val})");
    }
    let mut hists: Vec<Hist> = vec![];
    for (k, c) in counts.iter().enumerate() {
        if prefix {
            if lz_mode == LzMode::Rle && k == ctx_map[num_ctx] as usize {
                // exactly the single symbol 1
                hists.push(Hist::Huff { lens: vec![0; 2], codes: vec![0; 2], used: vec![1], simple: true, alpha: 2 });
            } else {
                hists.push(build_huff(c, &mut r, (1 << 15) - 1));
            }
        } else {
            hists.push(build_ans(c, log_alpha, &mut r));
        }
    }
    // context map bits
    let mb = ctx_map_bits(&ctx_map, nclusters, &mut r);
    let desc = format!(
        "{}{} clusters={} cfg0={:?}",
        if prefix { "prefix" } else { "ans" },
        match &lz {
            None => String::new(),
            Some(l) if l.rle_only => "+rle".into(),
            Some(l) => format!("+lz77(min_sym {}, min_len {})", l.min_symbol, l.min_length),
        },
        nclusters,
        cfgs[0]
    );
    Built {
        code: Code { num_ctx, lz, allow_lz, ctx_map, prefix, log_alpha, cfgs, hists, map_bits: BitW(mb), desc },
        streams: items,
    }
}

impl Code {
    pub fn write_header(&self, bw: &mut BitWriter) {
        // LZ77 parameters are only present where LZ77 is allowed
        if self.allow_lz {
            bw.bool(self.lz.is_some());
            if let Some(l) = &self.lz {
                u2s(bw, [U::V(224), U::V(512), U::V(4096), U::B(15, 8)], l.min_symbol, 0);
                u2s(bw, [U::V(3), U::V(4), U::B(2, 5), U::B(8, 9)], l.min_length, 0);
                l.len_cfg.write(bw, 8);
            }
        } else {
            bw.bool(false);
        }
        bw.append(&self.map_bits.0);
        bw.bool(self.prefix);
        if !self.prefix {
            bw.write(2, self.log_alpha as u64 - 5);
        }
        for c in &self.cfgs {
            c.write(bw, self.log_alpha);
        }
        if self.prefix {
            for h in &self.hists {
                let Hist::Huff { alpha, .. } = h else { unreachable!() };
                varint16(bw, alpha - 1);
            }
            let mut r = Rng::new(hash_desc(&self.desc));
            for h in &self.hists {
                write_huff(bw, h, &mut r);
            }
        } else {
            for h in &self.hists {
                let Hist::Ans { kind, dist, .. } = h else { unreachable!() };
                write_ans_hist(bw, kind, dist);
            }
        }
    }

    pub fn write_stream(&self, bw: &mut BitWriter, items: &[Item]) {
        // expand to (cluster, token, nbits, bits)
        let mut seq: Vec<(usize, u32, usize, u32)> = vec![];
        for it in items {
            match *it {
                Item::Lit(t) => {
                    let cl = self.ctx_map[t.ctx as usize] as usize;
                    let (k, n, b) = self.cfgs[cl].encode(t.val);
                    seq.push((cl, k, n, b));
                }
                Item::Copy(ctx, len, dist) => {
                    let l = self.lz.as_ref().unwrap();
                    let cl = self.ctx_map[ctx as usize] as usize;
                    let (k, n, b) = l.len_cfg.encode(len - l.min_length);
                    seq.push((cl, l.min_symbol + k, n, b));
                    let dc = self.ctx_map[self.num_ctx] as usize;
                    let (k, n, b) = self.cfgs[dc].encode(dist);
                    seq.push((dc, k, n, b));
                }
            }
        }
        if self.prefix {
            for (cl, k, n, b) in seq {
                let Hist::Huff { lens, codes, .. } = &self.hists[cl] else { unreachable!() };
                bw.write(lens[k as usize] as usize, codes[k as usize] as u64);
                bw.write(n, b as u64);
            }
        } else {
            let mut state = 0x130000u32;
            let mut refill: Vec<Option<u16>> = vec![None; seq.len()];
            for (i, (cl, k, _, _)) in seq.iter().enumerate().rev() {
                let Hist::Ans { dist, slots, .. } = &self.hists[*cl] else { unreachable!() };
                let f = dist[*k as usize];
                assert!(f > 0);
                if (state as u64) >= (f as u64) << 20 {
                    refill[i] = Some(state as u16);
                    state >>= 16;
                }
                state = ((state / f) << 12) + slots[*k as usize][(state % f) as usize];
            }
            bw.write(32, state as u64);
            for (i, (_, _, n, b)) in seq.iter().enumerate() {
                if let Some(x) = refill[i] {
                    bw.write(16, x as u64);
                }
                bw.write(*n, *b as u64);
            }
        }
    }
}

fn hash_desc(s: &str) -> u64 {
    crate::core::hash_bytes(s.as_bytes())
}
