//! C14: entropy coded streams decode to exactly the symbols that were encoded.
use crate::core::*;
use crate::enc::bits::*;
use crate::enc::entropy::*;
use jxl::bit_reader::BitReader;
use jxl::entropy_coding::decode::{Histograms, SymbolReader};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a case is a set of symbol streams (values, contexts, optional image width) encoded by an independent entropy encoder with random code parameters; non-trivial if at least 32 symbols were encoded and the stream uses more than one distinct value; distinct by the hash of the encoded bytes",
        quick: 24000,
        thorough: 1_500_000,
        f: run,
        hang_s: 60,
        hang_is_violation: false,
        assumptions: &["the encoder in /verif/harness/src/enc/entropy.rs follows ISO/IEC 18181-1 entropy coding"],
    }
}

pub fn gen_vals(src: &mut Src, n: usize) -> Vec<u32> {
    let kind = src.weighted(&[3, 3, 2, 2, 2, 1]);
    let mut r = src.rng();
    let mut v: Vec<u32> = Vec::with_capacity(n);
    let maxbits = match kind {
        0 => 3,
        1 => 6,
        2 => 12,
        3 => 20,
        4 => 31,
        _ => 1,
    };
    let rep = r.below(8);
    while v.len() < n {
        if rep > 3 && v.len() > 2 && r.below(8) < rep - 2 {
            // repeat a previous part
            let d = 1 + r.below((v.len() as u64).min(400)) as usize;
            let m = if r.below(10) == 0 { 500 } else { 20 };
            let l = 3 + r.below(m) as usize;
            for _ in 0..l {
                let x = v[v.len() - d];
                v.push(x);
            }
        } else {
            let b = r.below(maxbits + 1);
            let x = if b == 0 { 0 } else { r.below(1 << b) as u32 };
            v.push(x);
        }
    }
    v.truncate(n);
    if kind == 4 && n > 0 && r.below(3) == 0 {
        let i = r.below(n as u64) as usize;
        v[i] = u32::MAX - r.below(3) as u32;
    }
    v
}

/// The unsigned number that stands for a signed one.
fn pack(v: i32) -> u32 {
    if v >= 0 { (v as u32) << 1 } else { ((!(v as u32)) << 1) | 1 }
}

fn run(src: &mut Src, ctx: &mut Ctx) -> PropResult {
    let nctx = match src.below(4) {
        0 => 1,
        1 => src.urange(1, 8),
        2 => src.urange(1, 40),
        _ => src.urange(1, 600),
    };
    let nstreams = src.urange(1, 3);
    let mut streams: Vec<(Vec<Tok>, u32)> = vec![];
    for _ in 0..nstreams {
        let n = if src.chance(1, 40) { src.urange(1_000_000, 1_200_000) } else { src.log_u(3000) as usize };
        let vals = gen_vals(src, n);
        let mut r = src.rng();
        let sticky = r.below(3);
        let mut c = 0;
        let toks: Vec<Tok> = vals
            .into_iter()
            .map(|v| {
                if sticky == 0 || r.below(4) == 0 {
                    c = r.below(nctx as u64) as usize;
                }
                tok(c, v)
            })
            .collect();
        let width = if src.bool() { src.log_u(5000) as u32 } else { 0 };
        streams.push((toks, width));
    }
    let refs: Vec<(&[Tok], u32)> = streams.iter().map(|(t, w)| (&t[..], *w)).collect();
    let allow = src.chance(5, 6);
    let b = build(src, nctx, &refs, allow, LzMode::Maybe);
    let mut bw = BitWriter::new();
    b.code.write_header(&mut bw);
    let mut pos = vec![bw.bit_len()];
    for s in &b.streams {
        b.code.write_stream(&mut bw, s);
        pos.push(bw.bit_len());
    }
    let tot = streams.iter().map(|s| s.0.len()).sum::<usize>();
    // trailing garbage so that the reader cannot rely on the end of data
    for _ in 0..40 {
        bw.write(8, 0xa5);
    }
    let bytes = bw.finish();
    ctx.artifact("stream.bin", &bytes);
    ctx.label(if b.code.prefix { "prefix" } else { "ans" });
    if b.code.lz.is_some() {
        ctx.label("lz77");
        let copies = b.streams.iter().flatten().filter(|i| matches!(i, Item::Copy(..))).count();
        if copies > 0 {
            ctx.label("lz77 with copies");
        }
    }
    ctx.sample(format!("{} streams, {} symbols, {} contexts, {}", nstreams, tot, nctx, b.code.desc));
    if tot >= 32 && refs.iter().any(|s| s.0.iter().any(|t| t.val != s.0[0].val)) {
        ctx.nontrivial(hash_bytes(&bytes));
    }
    let mut br = BitReader::new(&bytes);
    let h = match Histograms::decode(nctx, &mut br, allow) {
        Ok(h) => h,
        Err(e) => return fail("header", format!("a valid code header is rejected: {e:?} ({})", b.code.desc)),
    };
    if br.total_bits_read() != pos[0] {
        return fail("header length", format!("header consumed {} bits instead of {}", br.total_bits_read(), pos[0]));
    }
    for (i, (toks, width)) in streams.iter().enumerate() {
        let mut rd = match SymbolReader::new(&h, &mut br, if *width == 0 { None } else { Some(*width as usize) }) {
            Ok(r) => r,
            Err(e) => return fail("reader", format!("reader: {e:?}")),
        };
        let fast = h.can_use_config_420_fast_path();
        if fast {
            ctx.label("fast path configuration");
        }
        let how = src.below(4);
        let mut rr = src.rng();
        let mut rewound = 0u32;
        for (k, t) in toks.iter().enumerate() {
            // unpredictable mixture of all the ways to read a symbol
            let mut v;
            loop {
                let cp = if how == 3 && rr.below(8) == 0 { Some((rd.checkpoint::<1>(), br.clone())) } else { None };
                let m = if how == 0 { 0 } else { rr.below(5) };
                let cl = h.map_context_to_cluster(t.ctx as usize);
                v = match m {
                    0 => rd.read_unsigned(&h, &mut br, t.ctx as usize),
                    1 => rd.read_unsigned_clustered(&h, &mut br, cl),
                    2 if fast => rd.read_unsigned_clustered_config_420(&h, &mut br, cl),
                    3 | 2 => pack(rd.read_signed(&h, &mut br, t.ctx as usize)),
                    _ => pack(rd.read_signed_clustered(&h, &mut br, cl)),
                };
                if let Some((cp, b)) = cp {
                    rd.restore::<1>(cp);
                    br = b;
                    rewound += 1;
                    continue;
                }
                break;
            }
            if v != t.val {
                return fail(
                    "symbol",
                    format!("stream {i} symbol {k} of {} (context {}): decoded {v}, encoded {} [{}]", toks.len(), t.ctx, t.val, b.code.desc),
                );
            }
        }
        if br.total_bits_read() != pos[i + 1] {
            return fail("stream length", format!("stream {i} consumed up to bit {} instead of {}", br.total_bits_read(), pos[i + 1]));
        }
        if rewound > 0 {
            ctx.label("rewound reader");
        }
        if let Err(e) = rd.check_final_state(&h, &mut br) {
            return fail("final state", format!("final state check of a valid stream fails: {e:?}"));
        }
    }
    Ok(())
}
