#![allow(clippy::all)]
#[allow(dead_code)]
mod core;
#[allow(dead_code)]
mod alloc;
#[allow(dead_code)]
mod enc;
#[allow(dead_code)]
mod corpus;
#[allow(dead_code)]
mod drv;
mod imgs;
#[allow(dead_code)]
mod color;
mod feat;
mod fsynth;
mod spline;
mod synth;
mod vardct;
mod props;

use crate::core::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| {
        // <verif>/build/target/release/harness
        let e = std::env::current_exe().unwrap();
        e.ancestors().nth(4).unwrap().to_string_lossy().into_owned()
    });
    let all = props::all();
    let find = |id: &str| {
        all.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = find(&args[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
            let n = args.get(3).and_then(|s| s.parse().ok());
            let jobs = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            run(p, &RunCfg { tier, seed, verif, jobs, n_override: n })
        }
        Some("worker") => {
            let p = find(&args[2]);
            let g = |i: usize| args[i].parse::<u64>().unwrap();
            worker(p, tier_of(&args[3]), g(4), g(5), g(6), g(7), &verif);
            0
        }
        Some("one") => one(find(&args[2]), tier_of(&args[3])),
        Some("shrink") => shrink_child(find(&args[2]), tier_of(&args[3]), &verif),
        Some("replay") => replay(&all, &args[2], &verif),
        Some("decode") => {
            let data = std::fs::read(&args[2]).unwrap();
            let t = std::time::Instant::now();
            let feed = args.get(3).and_then(|s| s.parse().ok()).map_or(drv::Feed::Whole, drv::Feed::Fixed);
            let d = drv::decode(&data, &drv::Cfg { limit: Some(1 << 30), feed, ..Default::default() });
            println!("{:?} {} frames, end {:?}, {:?}, len {:?} of {} {:.3}s", d.info, d.frames.len(), d.end, d.frames.last().map(|f| (f.size, f.planes.len())), d.file_length, data.len(), t.elapsed().as_secs_f64());
            0
        }
        Some("row") => {
            let data = std::fs::read(&args[2]).unwrap();
            for adj in [false, true] {
                let d = drv::decode(&data, &drv::Cfg { adjust_orientation: adj, ..Default::default() });
                let p = &d.frames[0].planes[0];
                println!("{:?} {:?}", d.info.as_ref().map(|i| (i.size, i.orientation)), (p.w, p.h));
                for y in (0..p.h).step_by((p.h / 20).max(1)) {
                    println!("{}", (0..p.w).step_by((p.w / 40).max(1)).map(|x| format!("{:1.0}", p.get(x, y, 0) * 9.0)).collect::<String>());
                }
            }
            0
        }
        Some("px") => {
            let data = std::fs::read(&args[2]).unwrap();
            let y = args.get(3).map_or(0, |s| s.parse().unwrap());
            let simd = args.get(4).map_or(3, |s| s.parse().unwrap());
            let d = drv::decode(&data, &drv::Cfg { simd, ..Default::default() });
            for (i, f) in d.frames.iter().enumerate() {
                for (k, p) in f.planes.iter().enumerate() {
                    for c in 0..p.spp {
                        println!("frame {i} plane {k} ch {c}: {:?}", (0..p.w.min(40)).map(|x| p.get(x, y, c) as f32 * 255.0).collect::<Vec<_>>());
                    }
                }
            }
            0
        }
        Some("synth") => {
            // synth SEED FRAMES MAX_SIDE OUT: writes a synthesized file and prints what it is
            let seed: u64 = args[2].parse().unwrap();
            let mut src = core::Src::random(seed);
            let o = synth::SynthOpt { frames: args[3].parse().unwrap(), max_side: args[4].parse().unwrap(), ..Default::default() };
            let s = synth::synth(&mut src, &o);
            std::fs::write(&args[5], &s.bytes).unwrap();
            println!("{}", s.desc);
            0
        }
        Some("list") => {
            for p in &all {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: harness run ID [n] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
