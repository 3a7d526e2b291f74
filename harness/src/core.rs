//! Choice-sequence based property runner: generation, isolation, shrinking, replay, evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::AssertUnwindSafe;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::mpsc;
use std::time::{Duration, Instant};

use serde_json::{Value, json};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_add(0x9E3779B97F4A7C15))
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (b.len() as u64)
}

/// Source of choices. Every choice is recorded so that a case can be replayed and shrunk.
pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, pos: 0, rec: vec![], rng: Rng::new(seed) }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Src { replay: Some(v), pos: 0, rec: vec![], rng: Rng::new(0) }
    }
    /// Uniform in [0, n). 0 is the "simplest" choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // map so that 0 => false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// In [0, 1].
    pub fn unit(&mut self) -> f64 {
        self.below(1001) as f64 / 1000.0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index according to weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// A derived PRNG for bulk data, costing a single choice.
    pub fn rng(&mut self) -> Rng {
        Rng::new(self.below(1 << 32).wrapping_mul(0x2545F4914F6CDD1D))
    }
    /// Value with magnitude distributed log-uniformly in [0, max].
    pub fn log_u(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = if b == 64 { u64::MAX } else { (1u64 << b) - 1 }.min(max);
        if lo > hi {
            return max;
        }
        lo + self.below(hi - lo + 1)
    }
}

// ---------------------------------------------------------------- properties

#[derive(Debug, Clone)]
pub struct Failure {
    /// Stable identification of what fails (used for known findings).
    pub sig: String,
    pub msg: String,
    pub artifacts: Vec<(String, Vec<u8>)>,
}

pub type PropResult = Result<(), Failure>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.to_string(), msg: msg.into(), artifacts: vec![] })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub index: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: Option<u64>,
    pub sample: Option<String>,
    pub artifacts: Vec<(String, Vec<u8>)>,
}

impl Ctx {
    pub fn new(tier: Tier, index: u64) -> Self {
        Ctx { tier, index, labels: Default::default(), nontrivial: None, sample: None, artifacts: vec![] }
    }
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_insert(0) += 1;
    }
    /// Marks this case as non-trivial, with `key` identifying it for distinctness.
    pub fn nontrivial(&mut self, key: u64) {
        self.nontrivial = Some(key);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.sample.is_none() {
            self.sample = Some(s.into());
        }
    }
    pub fn artifact(&mut self, name: &str, data: &[u8]) {
        self.artifacts.retain(|a| a.0 != name);
        self.artifacts.push((name.to_string(), data.to_vec()));
    }
}

pub type PropFn = fn(&mut Src, &mut Ctx) -> PropResult;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: PropFn,
    /// A case that runs longer than this many seconds is hung.
    pub hang_s: u64,
    /// If true a hang is a violation of the property, otherwise it is an error of the check.
    pub hang_is_violation: bool,
    /// If true abnormal termination of the process running the case (signal) is a violation.
    pub assumptions: &'static [&'static str],
}

// ---------------------------------------------------------------- panic capture

static LAST_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let mut msg = msg;
        if msg.len() > 2000 {
            let mut e = 2000;
            while !msg.is_char_boundary(e) {
                e -= 1;
            }
            msg.truncate(e);
        }
        if let Ok(mut l) = LAST_PANIC.lock() {
            l.push(format!("{msg} at {loc}"));
        }
        if std::env::var_os("VERIF_BT").is_some() {
            eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Signature of a panic: the message stripped of digits and the file name without line.
fn panic_sig(p: &str) -> String {
    let (m, loc) = p.rsplit_once(" at ").unwrap_or((p, ""));
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let file = file.rsplit("/repo/").next().unwrap_or(file);
    let m: String = m.chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
    format!("panic:{file}:{m}")
}

pub fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> PropResult {
    take_panics();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (p.f)(src, ctx)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(mut f)) => {
            f.artifacts.extend(ctx.artifacts.drain(..));
            Err(f)
        }
        Err(_) => {
            let ps = take_panics();
            let first = ps.first().cloned().unwrap_or_else(|| "panic (no message)".into());
            Err(Failure {
                sig: panic_sig(&first),
                msg: format!("panic: {}", ps.join(" | ")),
                artifacts: ctx.artifacts.drain(..).collect(),
            })
        }
    }
}

fn case_seed(p: &Prop, seed: u64, index: u64) -> u64 {
    mix(mix(seed, hash_bytes(p.id.as_bytes())), index)
}

pub fn set_mem_limit(bytes: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

const WORKER_MEM: u64 = 3 << 30;

// ---------------------------------------------------------------- worker side

fn regress_cases(verif: &str, id: &str) -> Vec<Vec<u64>> {
    let mut v = vec![];
    let dir = format!("{verif}/regress/{id}");
    let mut names: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    names.sort();
    for n in names {
        if let Ok(s) = std::fs::read_to_string(&n)
            && let Ok(j) = serde_json::from_str::<Value>(&s)
        {
            v.push(choices_of(&j));
        }
    }
    v
}

fn choices_of(j: &Value) -> Vec<u64> {
    j["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}

pub fn known_sigs(verif: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.json"))
        && let Ok(j) = serde_json::from_str::<Value>(&s)
        && let Some(a) = j["findings"].as_array()
    {
        for f in a {
            if f["property"].as_str() == Some(id) {
                v.push((f["sig"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()));
            }
        }
    }
    v
}

/// Runs cases with indices start, start+stride, ... < n; prints JSON events on stdout.
pub fn worker(p: &Prop, tier: Tier, seed: u64, start: u64, stride: u64, n: u64, verif: &str) {
    set_mem_limit(WORKER_MEM);
    install_panic_hook();
    let known = known_sigs(verif, p.id);
    let out = std::io::stdout();
    let mut labels: BTreeMap<String, u64> = Default::default();
    let mut keys: Vec<u64> = vec![];
    let mut evals = 0u64;
    let mut samples: Vec<String> = vec![];
    let regress = regress_cases(verif, p.id);
    let t0 = Instant::now();
    let soft_cap = if tier == Tier::Quick { 240 } else { 3000 };
    let mut i = start;
    let mut k = 0u64;
    // Regression cases first, split among the workers, then the generated ones.
    let mut todo: Vec<(u64, Option<Vec<u64>>)> = vec![];
    for (ri, r) in regress.into_iter().enumerate() {
        if ri as u64 % stride == start {
            todo.push((1 << 40 | ri as u64, Some(r)));
        }
    }
    todo.reverse();
    let mut slowest = (0.0f64, 0u64);
    loop {
        let (idx, choices) = match todo.pop() {
            Some(x) => x,
            None => {
                if i >= n {
                    break;
                }
                let x = (i, None);
                i += stride;
                x
            }
        };
        if t0.elapsed().as_secs() > soft_cap {
            break;
        }
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {idx}");
            let _ = o.flush();
        }
        let tc = Instant::now();
        let mut src = match choices {
            Some(c) => Src::replay(c),
            None => Src::random(case_seed(p, seed, idx)),
        };
        let mut ctx = Ctx::new(tier, idx);
        let r = run_case(p, &mut src, &mut ctx);
        let el = tc.elapsed().as_secs_f64();
        if el > 2.0 && std::env::var_os("VERIF_STDERR").is_some() {
            eprintln!("slow case {idx}: {el:.1} s {:?}", ctx.sample);
        }
        if el > slowest.0 {
            slowest = (el, idx);
        }
        evals += 1;
        k += 1;
        for (l, c) in ctx.labels {
            *labels.entry(l).or_insert(0) += c;
        }
        if let Some(key) = ctx.nontrivial {
            keys.push(key);
        }
        if let Some(s) = ctx.sample
            && (samples.len() < 2 || (samples.len() < 6 && k % 37 == 0))
        {
            samples.push(s);
        }
        if let Err(f) = r {
            let is_known = known.iter().any(|(s, _)| !s.is_empty() && f.sig.contains(s.as_str()));
            let ev = json!({"idx": idx, "sig": f.sig, "msg": f.msg, "choices": src.rec, "known": is_known});
            // Development aid: keep one example of every distinct failure and go on.
            if let Ok(dir) = std::env::var("VERIF_KEEP") {
                let key: String = f.sig.chars().filter(|c| c.is_ascii_alphanumeric()).take(90).collect();
                let all = std::env::var_os("VERIF_KEEP_ALL").map_or(String::new(), |_| format!("-{seed}-{idx}"));
                let path = format!("{dir}/{}-{key}{all}.json", p.id);
                if !std::path::Path::new(&path).exists() {
                    std::fs::write(&path, serde_json::to_string(&json!({"message": f.msg, "sig": f.sig, "choices": src.rec})).unwrap()).ok();
                }
                continue;
            }
            let mut o = out.lock();
            let _ = writeln!(o, "F {ev}");
            let _ = o.flush();
            if !is_known {
                break;
            }
        }
    }
    keys.sort_unstable();
    keys.dedup();
    let ev = json!({"evals": evals, "labels": labels, "keys": keys, "samples": samples, "slowest": [slowest.0, slowest.1]});
    let mut o = out.lock();
    let _ = writeln!(o, "E {ev}");
    let _ = o.flush();
}

/// Runs one choice sequence read from stdin as a JSON object in this process. Exit 0 pass, 1 fail.
pub fn one(p: &Prop, tier: Tier) -> i32 {
    set_mem_limit(WORKER_MEM);
    install_panic_hook();
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let j: Value = serde_json::from_str(&s).unwrap();
    let mut src = match j["seed_index"].as_u64() {
        Some(ix) => Src::random(case_seed(p, j["seed"].as_u64().unwrap_or(1), ix)),
        None => Src::replay(choices_of(&j)),
    };
    let mut ctx = Ctx::new(tier, j["idx"].as_u64().unwrap_or(0));
    match run_case(p, &mut src, &mut ctx) {
        Ok(()) => {
            if let Some(s) = ctx.sample {
                println!("sample: {s}");
            }
            0
        }
        Err(f) => {
            let mut arts = vec![];
            if let Ok(prefix) = std::env::var("VERIF_ART") {
                for (name, data) in &f.artifacts {
                    let ap = format!("{prefix}.{name}");
                    std::fs::write(&ap, data).ok();
                    arts.push(ap);
                }
            }
            println!("{}", json!({"sig": f.sig, "msg": f.msg, "choices": src.rec, "sample": ctx.sample, "artifacts": arts}));
            1
        }
    }
}

/// Shrinks the choice sequence read from stdin; prints every improvement as a JSON line.
pub fn shrink_child(p: &Prop, tier: Tier, verif: &str) -> i32 {
    set_mem_limit(WORKER_MEM);
    install_panic_hook();
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let j: Value = serde_json::from_str(&s).unwrap();
    let init = choices_of(&j);
    let known = known_sigs(verif, p.id);
    let mut best: Option<Vec<u64>> = None;
    let better = |a: &[u64], b: &[u64]| -> bool { (a.len(), a) < (b.len(), b) };
    let mut eval = |c: &[u64]| -> Option<(Vec<u64>, String, String)> {
        let mut src = Src::replay(c.to_vec());
        let mut ctx = Ctx::new(tier, 0);
        match run_case(p, &mut src, &mut ctx) {
            Ok(()) => None,
            Err(f) => {
                if known.iter().any(|(s, _)| !s.is_empty() && f.sig.contains(s.as_str())) {
                    return None;
                }
                let mut used = src.rec;
                while used.last() == Some(&0) {
                    used.pop();
                }
                if best.as_ref().is_none_or(|b| better(&used, b)) {
                    println!("{}", json!({"sig": f.sig, "msg": f.msg, "choices": used}));
                    best = Some(used.clone());
                }
                Some((used, f.sig, f.msg))
            }
        }
    };
    if eval(&init).is_some() {
        shrink(init, Duration::from_secs(40), &mut eval);
    }
    0
}

fn shrink_sub(p: &Prop, tier: Tier, init: &[u64]) -> Option<(Vec<u64>, String, String)> {
    let mut ch = Command::new(self_exe())
        .args(["shrink", p.id, if tier == Tier::Quick { "quick" } else { "thorough" }])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    ch.stdin.take()?.write_all(json!({"choices": init}).to_string().as_bytes()).ok();
    let stdout = ch.stdout.take()?;
    let last = std::sync::Arc::new(Mutex::new(None));
    let l2 = last.clone();
    std::thread::spawn(move || {
        for line in BufReader::new(stdout).lines() {
            let Ok(line) = line else { break };
            if let Ok(j) = serde_json::from_str::<Value>(&line) {
                *l2.lock().unwrap() =
                    Some((choices_of(&j), j["sig"].as_str().unwrap_or("").to_string(), j["msg"].as_str().unwrap_or("").to_string()));
            }
        }
    });
    let t0 = Instant::now();
    while ch.try_wait().ok()?.is_none() {
        if t0.elapsed().as_secs() > 50 {
            ch.kill().ok();
            ch.wait().ok();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    std::thread::sleep(Duration::from_millis(50));
    let r = last.lock().unwrap().clone();
    r
}

// ---------------------------------------------------------------- parent side

enum Ev {
    Start(usize, u64),
    Fail(usize, Value),
    End(usize, Value),
    Exit(usize, Option<i32>, Option<i32>),
}

fn self_exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

#[derive(Debug, Clone)]
enum Verdict {
    Pass,
    Fail { sig: String, msg: String, choices: Vec<u64> },
    Crash(String),
    Hang,
}

/// Runs one case in a subprocess.
fn eval_sub(p: &Prop, tier: Tier, input: &Value, timeout: u64) -> Verdict {
    let mut ch = Command::new(self_exe())
        .args(["one", p.id, if tier == Tier::Quick { "quick" } else { "thorough" }])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    ch.stdin.take().unwrap().write_all(input.to_string().as_bytes()).ok();
    let stdout = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        std::io::Read::read_to_string(&mut BufReader::new(stdout), &mut s).ok();
        tx.send(s).ok();
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let out = rx.recv_timeout(Duration::from_secs(5)).unwrap_or_default();
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                return Verdict::Crash(format!("killed by signal {sig}"));
            }
            return match st.code() {
                Some(0) => Verdict::Pass,
                Some(1) => {
                    let line = out.lines().last().unwrap_or("{}");
                    let j: Value = serde_json::from_str(line).unwrap_or(json!({}));
                    Verdict::Fail {
                        sig: j["sig"].as_str().unwrap_or("").into(),
                        msg: j["msg"].as_str().unwrap_or("").into(),
                        choices: choices_of(&j),
                    }
                }
                c => Verdict::Crash(format!("exit code {c:?}")),
            };
        }
        if t0.elapsed().as_secs() > timeout {
            ch.kill().ok();
            ch.wait().ok();
            return Verdict::Hang;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// Shrinks a failing choice sequence. `eval` returns Some((choices actually used, sig, msg)) when it still fails.
fn shrink(
    init: Vec<u64>,
    budget: Duration,
    eval: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String, String)>,
) -> (Vec<u64>, Option<(String, String)>, u64) {
    let t0 = Instant::now();
    let mut best = init;
    let mut info = None;
    let mut evals = 0u64;
    let better = |a: &[u64], b: &[u64]| -> bool { (a.len(), a) < (b.len(), b) };
    macro_rules! try_ {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            evals += 1;
            if let Some((used, sig, msg)) = eval(&cand) {
                if better(&used, &best) {
                    best = used;
                    info = Some((sig, msg));
                    true
                } else if better(&cand, &best) {
                    best = cand;
                    info = Some((sig, msg));
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    loop {
        let mut progress = false;
        // delete blocks
        for bs in [32usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + bs <= best.len() {
                if t0.elapsed() > budget {
                    return (best, info, evals);
                }
                let mut c = best.clone();
                c.drain(i..i + bs);
                if try_!(c) {
                    progress = true;
                } else {
                    i += bs.max(1);
                }
            }
        }
        // zero blocks
        for bs in [16usize, 4, 1] {
            let mut i = 0;
            while i + bs <= best.len() {
                if t0.elapsed() > budget {
                    return (best, info, evals);
                }
                if best[i..i + bs].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + bs].fill(0);
                    if try_!(c) {
                        progress = true;
                    }
                }
                i += bs;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                if t0.elapsed() > budget {
                    return (best, info, evals);
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_!(c) {
                    progress = true;
                    if i >= best.len() || best[i] > mid {
                        break;
                    }
                    hi = best[i];
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if !progress {
            return (best, info, evals);
        }
    }
}

pub struct RunCfg {
    pub tier: Tier,
    pub seed: u64,
    pub verif: String,
    pub jobs: u64,
    pub n_override: Option<u64>,
}

fn write_replay(p: &Prop, cfg: &RunCfg, choices: &[u64], sig: &str, msg: &str, how: &str) -> String {
    let dir = format!("{}/replays", cfg.verif);
    std::fs::create_dir_all(&dir).ok();
    let mut hb = vec![];
    for c in choices {
        hb.extend_from_slice(&c.to_le_bytes());
    }
    let path = format!("{dir}/{}-{:016x}.json", p.id, hash_bytes(&hb));
    // Re-run in a subprocess to collect the artifacts.
    let mut arts: Vec<String> = vec![];
    let mut sample = None;
    if how == "failure"
        && let Ok(mut ch) = Command::new(self_exe())
            .args(["one", p.id, if cfg.tier == Tier::Quick { "quick" } else { "thorough" }])
            .env("VERIF_ART", &path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
    {
        ch.stdin.take().unwrap().write_all(json!({"choices": choices}).to_string().as_bytes()).ok();
        let pid = ch.id() as i32;
        let hang = p.hang_s;
        let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let d2 = done.clone();
        std::thread::spawn(move || {
            let t0 = Instant::now();
            while t0.elapsed().as_secs() < hang {
                std::thread::sleep(Duration::from_millis(100));
                if d2.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
            }
            unsafe {
                libc::kill(pid, libc::SIGKILL);
            }
        });
        if let Ok(out) = ch.wait_with_output() {
            let t = String::from_utf8_lossy(&out.stdout).into_owned();
            let j: Value = serde_json::from_str(t.lines().last().unwrap_or("{}")).unwrap_or(json!({}));
            arts = j["artifacts"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
            sample = j["sample"].as_str().map(String::from);
        }
        done.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    let j = json!({
        "property": p.id,
        "kind": how,
        "sig": sig,
        "message": msg,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "choices": choices,
        "case": sample,
        "artifacts": arts,
        "how_to_replay": "harness replay <this file>",
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
    path
}

pub fn run(p: &Prop, cfg: &RunCfg) -> i32 {
    let t0 = Instant::now();
    let n = cfg.n_override.unwrap_or(if cfg.tier == Tier::Quick { p.quick } else { p.thorough });
    let jobs = cfg.jobs.min(n.max(1));
    let tier_s = if cfg.tier == Tier::Quick { "quick" } else { "thorough" };
    let (tx, rx) = mpsc::channel::<Ev>();
    let mut pids = vec![];
    for w in 0..jobs {
        let mut ch = Command::new(self_exe())
            .args(["worker", p.id, tier_s, &cfg.seed.to_string(), &w.to_string(), &jobs.to_string(), &n.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("VERIF_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("spawn worker");
        pids.push(ch.id() as i32);
        let stdout = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let w = w as usize;
            for line in BufReader::new(stdout).lines() {
                let Ok(line) = line else { break };
                if let Some(r) = line.strip_prefix("S ") {
                    tx.send(Ev::Start(w, r.parse().unwrap_or(0))).ok();
                } else if let Some(r) = line.strip_prefix("F ") {
                    tx.send(Ev::Fail(w, serde_json::from_str(r).unwrap_or(json!({})))).ok();
                } else if let Some(r) = line.strip_prefix("E ") {
                    tx.send(Ev::End(w, serde_json::from_str(r).unwrap_or(json!({})))).ok();
                }
            }
            let st = ch.wait().unwrap();
            use std::os::unix::process::ExitStatusExt;
            tx.send(Ev::Exit(w, st.code(), st.signal())).ok();
        });
    }
    let mut cur: Vec<Option<(u64, Instant)>> = vec![None; jobs as usize];
    let mut ended = vec![false; jobs as usize];
    let mut live = jobs;
    let mut evals = 0u64;
    let mut started = 0u64;
    let mut labels: BTreeMap<String, u64> = Default::default();
    let mut keys: HashSet<u64> = Default::default();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = Default::default();
    let mut bad: Option<(String, Value)> = None; // kind, event
    let mut errors: Vec<String> = vec![];
    let mut slowest = 0.0f64;
    let kill_all = |pids: &[i32]| {
        for &pid in pids {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
            }
        }
    };
    while live > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Ev::Start(w, i)) => {
                cur[w] = Some((i, Instant::now()));
                started += 1;
            }
            Ok(Ev::Fail(_, j)) => {
                if j["known"].as_bool() == Some(true) {
                    let e = known_hits.entry(j["sig"].as_str().unwrap_or("").to_string()).or_insert((0, String::new()));
                    e.0 += 1;
                    e.1 = j["msg"].as_str().unwrap_or("").to_string();
                } else if bad.is_none() {
                    bad = Some(("failure".into(), j));
                    kill_all(&pids);
                }
            }
            Ok(Ev::End(w, j)) => {
                ended[w] = true;
                cur[w] = None;
                evals += j["evals"].as_u64().unwrap_or(0);
                slowest = slowest.max(j["slowest"][0].as_f64().unwrap_or(0.0));
                if let Some(o) = j["labels"].as_object() {
                    for (k, v) in o {
                        *labels.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                    }
                }
                if let Some(a) = j["keys"].as_array() {
                    keys.extend(a.iter().filter_map(|x| x.as_u64()));
                }
                if let Some(a) = j["samples"].as_array()
                    && samples.len() < 8
                {
                    samples.extend(a.iter().take(2).filter_map(|x| x.as_str().map(|s| s.to_string())));
                }
            }
            Ok(Ev::Exit(w, code, sig)) => {
                live -= 1;
                if bad.is_none() && !ended[w] {
                    let idx = cur[w].map(|x| x.0);
                    bad = Some((
                        "crash".into(),
                        json!({"idx": idx, "sig": format!("crash:signal {sig:?} code {code:?}"), "msg": format!("worker died: signal {sig:?} code {code:?}")}),
                    ));
                    kill_all(&pids);
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in 0..jobs as usize {
            if let Some((i, t)) = cur[w]
                && bad.is_none()
                && t.elapsed().as_secs() > p.hang_s
            {
                bad = Some(("hang".into(), json!({"idx": i, "sig": "hang", "msg": format!("no answer after {} s", p.hang_s)})));
                kill_all(&pids);
            }
        }
    }
    let mut exit = 0;
    let mut violations = 0;
    if let Some((kind, ev)) = bad {
        let idx = ev["idx"].as_u64().unwrap_or(0);
        let sig0 = ev["sig"].as_str().unwrap_or("").to_string();
        let msg0 = ev["msg"].as_str().unwrap_or("").to_string();
        match kind.as_str() {
            "failure" => {
                let init = choices_of(&ev);
                // Confirm and shrink in a subprocess, which may hang or die without harm.
                let (choices, sig, msg) = shrink_sub(p, cfg.tier, &init).unwrap_or_else(|| {
                    println!("note: the failure did not reproduce on immediate replay");
                    (init, sig0, msg0)
                });
                let path = write_replay(p, cfg, &choices, &sig, &msg, "failure");
                println!("case {idx}: {sig}: {msg}");
                println!("VIOLATION property={} replay={}", p.id, path);
                violations = 1;
                exit = 1;
            }
            "crash" => {
                let input = json!({"seed": cfg.seed, "seed_index": idx});
                let v = if idx < (1 << 40) { eval_sub(p, cfg.tier, &input, p.hang_s) } else { Verdict::Pass };
                match v {
                    Verdict::Crash(why) => {
                        // regenerate the choices is impossible after a crash: store the seed.
                        let path = format!("{}/replays/{}-seed{}-case{}.json", cfg.verif, p.id, cfg.seed, idx);
                        std::fs::create_dir_all(format!("{}/replays", cfg.verif)).ok();
                        let j = json!({"property": p.id, "kind": "crash", "message": why, "seed": cfg.seed, "seed_index": idx,
                            "tier": tier_s, "how_to_replay": "harness replay <this file>"});
                        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
                        println!("case {idx}: {why}");
                        println!("VIOLATION property={} replay={}", p.id, path);
                        violations = 1;
                        exit = 1;
                    }
                    other => {
                        errors.push(format!("{msg0}; on its own the case gives {other:?}"));
                        exit = 2;
                    }
                }
            }
            _ => {
                if p.hang_is_violation {
                    let path = format!("{}/replays/{}-seed{}-case{}.json", cfg.verif, p.id, cfg.seed, idx);
                    std::fs::create_dir_all(format!("{}/replays", cfg.verif)).ok();
                    let j = json!({"property": p.id, "kind": "hang", "message": msg0, "seed": cfg.seed, "seed_index": idx,
                        "tier": tier_s, "how_to_replay": "harness replay <this file>"});
                    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
                    println!("case {idx}: {msg0}");
                    println!("VIOLATION property={} replay={}", p.id, path);
                    violations = 1;
                    exit = 1;
                } else {
                    errors.push(format!("case {idx}: {msg0}"));
                    exit = 2;
                }
            }
        }
    }
    let known = known_sigs(&cfg.verif, p.id);
    for (_, what) in known.iter() {
        println!("KNOWN-FINDING: property={} {}", p.id, what);
    }
    for e in &errors {
        println!("ERROR property={} {}", p.id, e);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id,
        "tier": tier_s,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": if evals > 0 { evals } else { started },
            "distinct_nontrivial": keys.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": labels,
            "slowest_case_s": slowest,
            "known_findings_hit": known_hits.iter().map(|(k, v)| json!({"sig": k, "times": v.0})).collect::<Vec<_>>(),
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all(format!("{}/evidence", cfg.verif)).ok();
    let path = format!("{}/evidence/{}.json", cfg.verif, p.id);
    std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s, slowest case {:.2} s, exit {}",
        p.id, tier_s, evals, keys.len(), wall, slowest, exit
    );
    if std::env::var_os("VERIF_CLASSES").is_some() {
        for (k, v) in &labels {
            println!("   {k}: {v}");
        }
    }
    exit
}

pub fn replay(props: &[Prop], path: &str, verif: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let j: Value = serde_json::from_str(&s).expect("replay json");
    let id = j["property"].as_str().unwrap();
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let tier = if j["tier"].as_str() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let _ = verif;
    match eval_sub(p, tier, &j, p.hang_s) {
        Verdict::Pass => {
            println!("replay: {id} passes");
            0
        }
        Verdict::Fail { sig, msg, .. } => {
            println!("replay: {id} fails: {sig}: {msg}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Verdict::Crash(w) => {
            println!("replay: {id}: {w}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Verdict::Hang => {
            println!("replay: {id}: no answer");
            if p.hang_is_violation {
                println!("VIOLATION property={id} replay={path}");
                1
            } else {
                2
            }
        }
    }
}
