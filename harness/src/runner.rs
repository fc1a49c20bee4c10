//! Drives the checks: proptest generates tapes (8 shards, one seeded RNG each),
//! a coverage-guided driver evolves them where asked, failures are reduced and
//! written as replay files, evidence is measured and written.
use crate::tape::*;
use proptest::test_runner::{Config, RngAlgorithm, TestError, TestRng, TestRunner};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    /// Exact identity of the failure, matched against known findings.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) {
            return $crate::runner::fail($sig, format!($($a)*));
        }
    };
}

#[derive(Default)]
pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub digest: u64,
    pub sample: Option<String>,
    pub want_sample: bool,
    /// Media bytes of the case, saved beside a replay file.
    pub art: Vec<(String, Vec<u8>)>,
    pub keep_art: bool,
    pub thorough: bool,
    pub evals: u64,
    /// Checks inside this case (comparisons made).
    pub checks: u64,
}
impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        *self.labels.entry(s.into()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
    pub fn data(&mut self, name: &str, b: &[u8]) {
        self.digest ^= hash64(b).rotate_left(17).wrapping_add(b.len() as u64);
        if self.keep_art {
            self.art.push((name.into(), b.to_vec()));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(crate::clip(&f(), 500));
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Drive {
    Random,
    /// Coverage-guided evolution of tapes.
    Guided,
    /// Tapes [0], [1], ... [n-1]: a finite space enumerated.
    Enum,
}
pub type CheckFn = fn(&mut Tape, &mut Cx) -> R;
pub struct Sub {
    pub name: &'static str,
    pub drive: Drive,
    pub quick: u64,
    pub thorough: u64,
    pub tape: usize,
    pub f: CheckFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

pub const SHARDS: usize = 8;

// ------------------------------------------------------------- one execution

thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static SHARD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let short = loc.rsplit("/repo/").next().unwrap_or(&loc).to_string();
            // strip line numbers and figures from the signature: identity is the file and message shape
            let shape: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect();
            let file = short.split(':').next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic {file} {shape}"), msg: format!("PANIC at {short}: {msg}") })
        }
    }
}

pub fn exec(sub: &Sub, tape: &[u32], cx: &mut Cx) -> R {
    crate::slots::store(SHARD.with(|s| s.get()), sub.name, tape);
    covrt::reset();
    let mut t = Tape::new(tape.to_vec());
    match guarded(|| (sub.f)(&mut t, cx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

// ------------------------------------------------------------------- shrink

pub fn shrink(tape: Vec<u32>, mut bad: impl FnMut(&[u32]) -> bool, budget: usize, secs: u64) -> Vec<u32> {
    let t0 = Instant::now();
    let mut cur = tape;
    let mut left = budget;
    let mut try_one = |c: &[u32], left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed().as_secs() >= secs {
            *left = 0;
            return false;
        }
        *left -= 1;
        bad(c)
    };
    // truncate (a short tape reads as zeros)
    let mut hi = cur.len();
    let mut lo = 0;
    while lo < hi && left > 0 {
        let mid = (lo + hi) / 2;
        if try_one(&cur[..mid], &mut left) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < cur.len() && try_one(&cur[..hi], &mut left) {
        cur.truncate(hi);
    }
    loop {
        let before = cur.clone();
        // zero or delete chunks
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && left > 0 {
                let j = (i + size).min(cur.len());
                let mut c = cur.clone();
                c.drain(i..j);
                if try_one(&c, &mut left) {
                    cur = c;
                    continue;
                }
                if cur[i..j].iter().any(|&x| x != 0) {
                    let mut c = cur.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    if try_one(&c, &mut left) {
                        cur = c;
                    }
                }
                i = j;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        for i in 0..cur.len() {
            if cur[i] == 0 {
                continue;
            }
            for v in [1u32, 2, cur[i] % 10, cur[i] % 100, cur[i] % 1000, cur[i] / 2] {
                if v < cur[i] {
                    let mut c = cur.clone();
                    c[i] = v;
                    if try_one(&c, &mut left) {
                        cur = c;
                        break;
                    }
                }
            }
        }
        while cur.last() == Some(&0) {
            cur.pop();
        }
        if cur == before || left == 0 {
            break;
        }
    }
    cur
}

// ----------------------------------------------------------- known findings

pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}
pub fn load_known() -> Vec<Known> {
    let p = crate::verif().join("known_findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        // known: property=C07 sub=<name> sig=<signature> :: what fails
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let Some((head, what)) = rest.split_once(" :: ") else { continue };
        let Some(h) = head.strip_prefix("property=") else { continue };
        let Some((prop, h)) = h.split_once(" sub=") else { continue };
        let Some((sub, sig)) = h.split_once(" sig=") else { continue };
        out.push(Known { property: prop.into(), sub: sub.into(), sig: sig.into(), what: what.into() });
    }
    out
}

// --------------------------------------------------------------------- stats

#[derive(Default)]
struct Stats {
    evals: u64,
    checks: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<usize, u64>,
    corpus: u64,
    truncated: bool,
}
impl Stats {
    fn absorb(&mut self, cx: Cx, sub: &str) {
        self.evals += 1 + cx.evals;
        self.checks += cx.checks;
        if cx.nontrivial {
            self.nontrivial.insert(cx.digest);
        }
        for (k, v) in cx.labels {
            *self.labels.entry(format!("{sub}/{k}")).or_default() += v;
        }
        if let Some(s) = cx.sample {
            if cx.nontrivial && self.samples.iter().filter(|x| x["check"] == sub).count() < 3 {
                self.samples.push(serde_json::json!({"check": sub, "case": s}));
            }
        }
    }
}

pub struct Failure {
    pub sub: usize,
    pub tape: Vec<u32>,
    pub fail: Fail,
}

fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let h = hash64(format!("{seed}/{prop}/{sub}/{shard}").as_bytes());
    let e = expand((h ^ (h >> 32)) as u32 | 1, 32);
    out.copy_from_slice(&e);
    out[..8].copy_from_slice(&h.to_le_bytes());
    out[8..16].copy_from_slice(&seed.to_le_bytes());
    out
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub scale: f64,
    pub all: bool,
}

pub fn run_prop(p: &Prop, o: &Opts) -> (i32, serde_json::Value, Vec<String>) {
    let t0 = Instant::now();
    let deadline = if o.thorough { 7000 } else { 700 };
    let known = load_known();
    let stop = AtomicBool::new(false);
    let failures: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let mut lines = vec![];
    for (si, sub) in p.subs.iter().enumerate() {
        if let Some(only) = &o.only {
            if sub.name != only {
                continue;
            }
        }
        let ts = Instant::now();
        let n = if o.thorough { sub.thorough } else { sub.quick };
        let n = if sub.drive == Drive::Enum { n } else { ((n as f64) * o.scale).ceil() as u64 };
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (failures, total, stop, known) = (&failures, &total, &stop, &known);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, move || {
                        SHARD.with(|s| s.set(shard));
                        covrt::set_shard(shard as u32);
                        let mut st = Stats::default();
                        let lo = n * shard as u64 / SHARDS as u64;
                        let hi = n * (shard as u64 + 1) / SHARDS as u64;
                        let one = |tape: &[u32], st: &mut Stats| -> Result<(), Fail> {
                            let mut cx = Cx {
                                want_sample: shard == 0 && st.samples.iter().filter(|x| x["check"] == sub.name).count() < 3,
                                thorough: o.thorough,
                                ..Cx::default()
                            };
                            let r = exec(sub, tape, &mut cx);
                            st.absorb(cx, sub.name);
                            if let Err(f) = &r {
                                if let Some(i) = known.iter().position(|k| k.property == p.id && k.sub == sub.name && k.sig == f.sig) {
                                    *st.known.entry(i).or_default() += 1;
                                    return Ok(());
                                }
                            }
                            r
                        };
                        let found: Option<(Vec<u32>, Fail)> = match sub.drive {
                            Drive::Enum => {
                                let mut f = None;
                                for i in lo..hi {
                                    if stop.load(Ordering::Relaxed) {
                                        break;
                                    }
                                    let t = vec![i as u32];
                                    if let Err(e) = one(&t, &mut st) {
                                        f = Some((t, e));
                                        break;
                                    }
                                }
                                f
                            }
                            Drive::Random => random(p.id, sub, o.seed, shard, hi - lo, &mut |t| {
                                if stop.load(Ordering::Relaxed) {
                                    return Ok(());
                                }
                                if t0.elapsed().as_secs() > deadline {
                                    st.truncated = true;
                                    return Ok(());
                                }
                                one(t, &mut st)
                            }),
                            Drive::Guided => guided(p.id, sub, o.seed, shard, hi - lo, &mut |t| {
                                if stop.load(Ordering::Relaxed) {
                                    return Ok(());
                                }
                                if t0.elapsed().as_secs() > deadline {
                                    st.truncated = true;
                                    return Ok(());
                                }
                                one(t, &mut st)
                            }),
                        };
                        if sub.drive == Drive::Guided {
                            st.corpus += 1;
                        }
                        if let Some((tape, f)) = found {
                            stop.store(true, Ordering::Relaxed);
                            let sig = f.sig.clone();
                            let tape = if sub.drive == Drive::Enum { tape } else {
                                shrink(tape, |c| {
                                    matches!(exec(sub, c, &mut Cx::default()), Err(e) if e.sig == sig)
                                }, 6000, 60)
                            };
                            let f = exec(sub, &tape, &mut Cx::default()).err().unwrap_or(f);
                            failures.lock().unwrap().push((shard, Failure { sub: si, tape, fail: f }));
                        }
                        let mut tot = total.lock().unwrap();
                        tot.evals += st.evals;
                        tot.checks += st.checks;
                        tot.truncated |= st.truncated;
                        tot.nontrivial.extend(st.nontrivial);
                        for (k, v) in st.labels {
                            *tot.labels.entry(k).or_default() += v;
                        }
                        for (k, v) in st.known {
                            *tot.known.entry(k).or_default() += v;
                        }
                        tot.samples.extend(st.samples);
                    })
                    .unwrap();
            }
        });
        if std::env::var_os("VH_TIMES").is_some() {
            eprintln!("{} {}: {:.1}s", p.id, sub.name, ts.elapsed().as_secs_f64());
        }
        if stop.load(Ordering::Relaxed) {
            if o.all {
                stop.store(false, Ordering::Relaxed);
            } else {
                break;
            }
        }
    }
    let tot = total.into_inner().unwrap();
    for k in known.iter().filter(|k| k.property == p.id) {
        lines.push(format!("KNOWN-FINDING: property={} {}", p.id, k.what));
    }
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| (f.1.sub, f.0));
    let mut code = 0;
    let mut seen = HashSet::new();
    for (_, f) in &fs {
        if !seen.insert((f.sub, f.fail.sig.clone())) {
            continue;
        }
        let path = write_replay(p, &p.subs[f.sub], &f.tape, &f.fail, o.seed);
        lines.push(format!("{}/{}: [{}] {}", p.id, p.subs[f.sub].name, f.fail.sig, crate::clip(&f.fail.msg, 1500)));
        lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
        code = 1;
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": p.level,
        "coverage": {
            "evaluations": tot.evals,
            "comparisons": tot.checks,
            "distinct_nontrivial": tot.nontrivial.len(),
            "rule": p.rule,
            "samples": tot.samples,
            "classes": tot.labels,
            "known_finding_cases": tot.known.values().sum::<u64>(),
            "stopped_at_deadline": tot.truncated,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": seen.len(),
    });
    (code, ev, lines)
}

fn random(prop: &str, sub: &Sub, seed: u64, shard: usize, n: u64, one: &mut dyn FnMut(&[u32]) -> R) -> Option<(Vec<u32>, Fail)> {
    if n == 0 {
        return None;
    }
    use proptest::prelude::*;
    let cfg = Config {
        cases: n as u32,
        failure_persistence: None,
        max_shrink_iters: 0,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop, sub.name, shard));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    // Lengths: mostly up to the full tape, some short ones.
    let max = sub.tape;
    let strat = prop_oneof![
        3 => proptest::collection::vec(any::<u32>(), 0..=max),
        2 => proptest::collection::vec(any::<u32>(), max..=max),
        1 => proptest::collection::vec(prop_oneof![4 => any::<u32>(), 1 => Just(0u32), 1 => 0u32..8], 0..=max),
    ];
    let last: std::cell::RefCell<Option<Fail>> = std::cell::RefCell::new(None);
    let one = std::cell::RefCell::new(one);
    let r = runner.run(&strat, |t| match (one.borrow_mut())(&t) {
        Ok(()) => Ok(()),
        Err(f) => {
            let m = f.msg.clone();
            *last.borrow_mut() = Some(f);
            Err(TestCaseError::fail(m))
        }
    });
    match r {
        Ok(()) => None,
        Err(TestError::Fail(_, t)) => Some((t, last.into_inner().unwrap())),
        Err(e) => panic!("proptest: {e:?}"),
    }
}

/// Coverage-guided evolution of tapes: keep a tape when it reaches a new
/// (edge, bucketed count) pair in the crate under test.
fn guided(prop: &str, sub: &Sub, seed: u64, shard: usize, n: u64, one: &mut dyn FnMut(&[u32]) -> R) -> Option<(Vec<u32>, Fail)> {
    use proptest::prelude::Rng as _;
    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop, sub.name, shard));
    let used = (covrt::total_edges() as usize + 1).min(covrt::MAP);
    let mut virgin = vec![0u8; used];
    let mut corpus: Vec<Vec<u32>> = vec![];
    covrt::enable_map(true);
    let mut found = None;
    for i in 0..n {
        let below = |r: &mut TestRng, k: usize| if k == 0 { 0 } else { r.next_u32() as usize % k };
        let tape: Vec<u32> = if corpus.len() < 4 || i % 7 == 0 {
            let len = below(&mut rng, sub.tape + 1);
            (0..len).map(|_| rng.next_u32()).collect()
        } else {
            // favour recent additions
            let k = if below(&mut rng, 3) == 0 {
                corpus.len() - 1 - below(&mut rng, (corpus.len() / 4).max(1))
            } else {
                below(&mut rng, corpus.len())
            };
            let mut t = corpus[k].clone();
            for _ in 0..1 + below(&mut rng, 5) {
                let len = t.len().max(1);
                match below(&mut rng, 8) {
                    0 | 1 | 2 => {
                        let j = below(&mut rng, len);
                        if j < t.len() {
                            t[j] = rng.next_u32();
                        }
                    }
                    3 => {
                        let j = below(&mut rng, len);
                        if j < t.len() {
                            t[j] = t[j].wrapping_add(below(&mut rng, 9) as u32).wrapping_sub(4);
                        }
                    }
                    4 => {
                        let a = below(&mut rng, len).min(t.len());
                        let b = (a + 1 + below(&mut rng, 6)).min(t.len());
                        t.drain(a..b);
                    }
                    5 => {
                        for _ in 0..1 + below(&mut rng, 8) {
                            t.push(rng.next_u32());
                        }
                    }
                    6 => {
                        let a = below(&mut rng, len).min(t.len());
                        let v = rng.next_u32();
                        t.insert(a, v);
                    }
                    _ => {
                        let o = &corpus[below(&mut rng, corpus.len())];
                        let a = below(&mut rng, len).min(t.len());
                        let b = below(&mut rng, o.len().max(1)).min(o.len());
                        t.truncate(a);
                        t.extend_from_slice(&o[b..]);
                    }
                }
            }
            t.truncate(sub.tape * 2);
            t
        };
        covrt::clear_map();
        if let Err(f) = one(&tape) {
            found = Some((tape, f));
            break;
        }
        let new = covrt::with_map(|m| {
            let mut new = false;
            for (v, &c) in virgin.iter_mut().zip(m.iter()) {
                if c == 0 {
                    continue;
                }
                let bit = 1u8 << (8 - (c as u32).leading_zeros().saturating_sub(24)).saturating_sub(1).min(7);
                if *v & bit == 0 {
                    *v |= bit;
                    new = true;
                }
            }
            new
        });
        if new {
            corpus.push(tape);
        }
    }
    covrt::enable_map(false);
    found
}

// -------------------------------------------------------------------- replay

pub fn write_replay(p: &Prop, sub: &Sub, tape: &[u32], f: &Fail, seed: u64) -> std::path::PathBuf {
    let dir = crate::verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash64(format!("{:?}", tape).as_bytes());
    let base = format!("{}-{}-{:08x}", p.id, sub.name, h as u32);
    // re-run to collect the media bytes (skipped if the case kills the process)
    let mut files = vec![];
    if !f.sig.starts_with("crash") {
        let mut cx = Cx { keep_art: true, ..Cx::default() };
        let _ = exec(sub, tape, &mut cx);
        for (i, (name, b)) in cx.art.iter().enumerate() {
            let fp = dir.join(format!("{base}.{i}.{name}"));
            let _ = std::fs::write(&fp, b);
            files.push(fp.display().to_string());
        }
    }
    let path = dir.join(format!("{base}.json"));
    let j = serde_json::json!({
        "property": p.id, "check": sub.name, "seed": seed, "signature": f.sig,
        "message": f.msg, "tape": tape, "inputs": files,
        "how": "bash /verif/replay.sh <this file>",
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}
