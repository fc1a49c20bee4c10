//! nom-exif property checks. See /verif/DESIGN.md.
#![allow(deprecated, dead_code)]
mod alloc;
mod build;
mod modes;
mod norm;
mod props;
mod runner;
mod slots;
mod sources;
mod tape;

use runner::*;
use std::path::PathBuf;
use std::process::Command;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
pub fn repo() -> PathBuf {
    "/repo".into()
}
pub fn scratch() -> PathBuf {
    static S: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let p = std::env::var_os("VH_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(|| std::env::temp_dir().join(format!("vh-{}", std::process::id())));
        let _ = std::fs::create_dir_all(&p);
        p
    })
    .clone()
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

/// Work budget of one case, in instrumented edges; ordinary cases use well under 1 % of it.
const BUDGET: u64 = 3_000_000_000;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    covrt::HARD_BUDGET.store(BUDGET, std::sync::atomic::Ordering::Relaxed);
    match cmd {
        "check" => std::process::exit(parent(&a[2])),
        "worker" => {
            install_panic_hook();
            if covrt::total_edges() == 0 {
                eprintln!("error: nom-exif was built without instrumentation");
                std::process::exit(2);
            }
            slots::init(&PathBuf::from(std::env::var_os("VH_SLOTS").unwrap()));
            let p = props::find(&a[2]).expect("unknown property");
            let (code, ev, lines) = run_prop(&p, &opts());
            write_evidence(&a[2], &ev);
            for l in lines {
                println!("{l}");
            }
            if std::env::var_os("VH_STATS").is_some() {
                println!("{}", serde_json::to_string_pretty(&ev).unwrap());
            }
            std::process::exit(code);
        }
        // one case, exit 1 if it fails; used by the parent to triage crashes and by replay
        "case" => {
            install_panic_hook();
            let p = props::find(&a[2]).expect("unknown property");
            let sub = p.subs.iter().find(|s| s.name == a[3]).expect("unknown check");
            let tape: Vec<u32> = serde_json::from_str(&std::fs::read_to_string(&a[4]).unwrap()).unwrap();
            let r = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, || {
                    let mut cx = Cx { want_sample: true, ..Cx::default() };
                    let r = exec(sub, &tape, &mut cx);
                    (r, cx.sample)
                }).unwrap().join().unwrap()
            });
            if let Some(s) = r.1 {
                println!("case: {s}");
            }
            match r.0 {
                Ok(()) => println!("passes"),
                Err(f) => {
                    println!("[{}] {}", f.sig, f.msg);
                    std::process::exit(1);
                }
            }
        }
        "replay" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let t = scratch().join("tape.json");
            std::fs::write(&t, serde_json::to_string(&j["tape"]).unwrap()).unwrap();
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["case", j["property"].as_str().unwrap(), j["check"].as_str().unwrap()])
                .arg(&t).status().unwrap();
            let _ = std::fs::remove_dir_all(scratch());
            println!("{}", if st.success() { "the case passes now" } else { "the case still fails" });
            std::process::exit(if st.success() { 0 } else { 1 });
        }
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}({})", s.name, s.quick)).collect::<Vec<_>>().join(" "));
            }
        }
        _ => {
            eprintln!("usage: vh check <ID> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn opts() -> Opts {
    let env = |k: &str| std::env::var(k).ok();
    Opts {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        only: env("VH_ONLY"),
        scale: env("VH_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        all: env("VH_ALL").is_some(),
    }
}

fn write_evidence(id: &str, ev: &serde_json::Value) {
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap()).expect("evidence");
}

/// Exit status of the worker, or of a triage run, that means "the library took the process down".
fn died(st: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(covrt::EXIT_BUDGET) {
        return Some("crash budget: the case does not finish within the work budget".into());
    }
    match st.signal() {
        Some(s) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s) => {
            Some(format!("crash signal {s}"))
        }
        _ => None,
    }
}

fn parent(id: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let o = opts();
    let dir = scratch();
    let slots_path = dir.join("slots");
    let exe = std::env::current_exe().unwrap();
    let t0 = std::time::Instant::now();
    let st = Command::new(&exe).args(["worker", id]).env("VH_SLOTS", &slots_path).env("VH_SCRATCH", &dir).status();
    let code = match st {
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            2
        }
        Ok(st) => match (st.code(), died(&st)) {
            (Some(c @ (0 | 1)), _) => c,
            (_, Some(why)) => triage(&p, &o, &exe, &slots_path, &dir, &why, t0),
            (c, None) => {
                eprintln!("worker ended abnormally: {c:?} {st}");
                3
            }
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn triage(p: &Prop, o: &Opts, exe: &std::path::Path, slots_path: &std::path::Path, dir: &std::path::Path, why: &str, t0: std::time::Instant) -> i32 {
    let run = |sub: &str, tape: &[u32]| -> Option<String> {
        let t = dir.join("tape.json");
        std::fs::write(&t, serde_json::to_string(tape).unwrap()).unwrap();
        let st = Command::new(exe).args(["case", p.id, sub]).arg(&t).env("VH_SCRATCH", dir)
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok()?;
        died(&st)
    };
    for (name, tape) in slots::load(slots_path) {
        let Some(sub) = p.subs.iter().find(|s| s.name == name) else { continue };
        if let Some(w) = run(&name, &tape) {
            let tape = if sub.drive == Drive::Enum { tape } else {
                shrink(tape, |c| run(&name, c).is_some(), if w.contains("budget") { 40 } else { 300 }, 100)
            };
            let f = Fail { sig: w.clone(), msg: format!("the process died on this case: {w}") };
            let path = write_replay(p, sub, &tape, &f, o.seed);
            write_evidence(p.id, &serde_json::json!({
                "property": p.id, "tier": if o.thorough { "thorough" } else { "quick" }, "seed": o.seed, "level": p.level,
                "coverage": { "evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at a case that kills the process", "samples": [format!("{name}: {tape:?}")] },
                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
            }));
            println!("{}/{}: {}", p.id, name, w);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
    }
    eprintln!("worker died ({why}) and no recorded case reproduces it");
    3
}
