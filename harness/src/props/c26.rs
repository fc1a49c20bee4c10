//! Neither logging nor other threads change what is reported.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    static LOGGED: Cell<usize> = const { Cell::new(0) };
}
/// Takes the formatted log and counts it.
struct Sink;
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        LOGGED.with(|l| l.set(l.get() + b.len()));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn subscriber(form: usize, level: tracing::Level) -> Box<dyn tracing::Subscriber + Send + Sync> {
    use tracing_subscriber::fmt::format::FmtSpan;
    let b = tracing_subscriber::fmt().with_max_level(level).with_writer(|| Sink).with_ansi(false);
    match form {
        0 => Box::new(b.finish()),
        1 => Box::new(b.pretty().finish()),
        2 => Box::new(b.compact().with_span_events(FmtSpan::FULL).finish()),
        _ => Box::new(b.with_span_events(FmtSpan::NEW | FmtSpan::CLOSE).with_ansi(true).finish()),
    }
}

fn input(t: &mut Tape) -> (String, Arc<Vec<u8>>) {
    if t.chance(1, 2) {
        let m = gen_media(t, false);
        (m.fmt.to_string(), Arc::new(m.bytes))
    } else {
        let (l, b) = gen_input(t, false);
        (l, Arc::new(b))
    }
}

/// Everything that can be asked of one result, as text.
fn deep(l: Result<Live>) -> Vec<String> {
    let mut v = vec![];
    match l {
        Err(e) => v.push(format!("{} / {e} / {e:?}", err_cat(&e))),
        Ok(l) => {
            v.push(format!("{:?}", l.out()));
            match &l {
                Live::Exif(i) => {
                    v.push(format!("{i:?}"));
                    let x: Exif = i.clone_rewound().into();
                    v.push(format!("{:?}", eager_entries(&x)));
                    v.push(format!("{:?}", x.gps_info().map(canon_gps)));
                }
                Live::Img(m) => v.push(format!("{:?}", m.format.is_some())),
                Live::Track(x) => v.push(format!("{x:?}")),
            }
        }
    }
    v
}

fn logged(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, a) = input(t);
    let form = t.below(4);
    let level = *t.pick(&[tracing::Level::TRACE, tracing::Level::TRACE, tracing::Level::DEBUG, tracing::Level::INFO, tracing::Level::ERROR]);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
    let mut s = gen_sched(t);
    cap_sched(&mut s, a.len());
    cx.data(&what, &a);
    cx.label(format!("{level}"));
    let mut lines = 0;
    for op in OPS {
        let go = || {
            let (kind, l) = run_live(&mut MediaParser::new(), op, mode, &a, &s, &Arc::default());
            (kind, deep(l))
        };
        let quiet = go();
        LOGGED.with(|l| l.set(0));
        let loud = tracing::subscriber::with_default(subscriber(form, level), go);
        lines += LOGGED.with(|l| l.get());
        let again = go();
        cx.checks += 2;
        for (name, r) in [("with a log", &loud), ("after logging", &again)] {
            ensure!(
                *r == quiet,
                "logging changes the result",
                "{what}, {} bytes, {op:?} via {mode:?}, level {level}: {name}\n{:?}\nwithout\n{:?}",
                a.len(),
                crate::clip(&format!("{r:?}"), 900),
                crate::clip(&format!("{quiet:?}"), 900)
            );
        }
    }
    cx.nontrivial = lines > 0;
    cx.sample(|| format!("{what}, {} bytes via {mode:?}: {lines} bytes of log at {level}", a.len()));
    Ok(())
}

/// What a thread of the case does: the operation, how it reads, whether it uses
/// a result another one made.
#[derive(Clone)]
struct Job {
    file: usize,
    op: Op,
    mode: Mode,
    sched: Sched,
}

fn threads(t: &mut Tape, cx: &mut Cx) -> R {
    let pool: Vec<_> = (0..t.range(1, 4)).map(|_| input(t)).collect();
    for (k, (what, b)) in pool.iter().enumerate() {
        cx.data(&format!("file{k}-{what}"), b);
    }
    let n = t.range(2, 5);
    let plan: Vec<Vec<Job>> = (0..n)
        .map(|_| {
            (0..t.range(1, 4))
                .map(|_| {
                    let file = t.below(pool.len());
                    let mut sched = gen_sched(t);
                    cap_sched(&mut sched, pool[file].1.len());
                    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
                    Job { file, op: *t.pick(&OPS), mode, sched }
                })
                .collect()
        })
        .collect();
    // alone
    let one = |p: &mut MediaParser, j: &Job| {
        let (kind, l) = run_live(p, j.op, j.mode, &pool[j.file].1, &j.sched, &Arc::default());
        (kind, deep(l))
    };
    let want: Vec<Vec<_>> = plan.iter().map(|js| js.iter().map(|j| one(&mut MediaParser::new(), j)).collect()).collect();
    // one result for all the threads, from the first file that gives one
    let shared = pool.iter().find_map(|(_, b)| MediaParser::new().parse_exif(MediaSource::from_memory(b.as_ref().clone()).ok()?).ok());
    let eager = shared.as_ref().map(|i| Exif::from(i.clone_rewound()));
    let view = exif_out;
    let want_view = shared.as_ref().map(view);
    let want_eager = eager.as_ref().map(eager_entries);
    let start = std::sync::Barrier::new(n);
    let got: Vec<std::result::Result<_, _>> = std::thread::scope(|s| {
        let hs: Vec<_> = plan
            .iter()
            .map(|js| {
                let (shared, eager, start, one) = (&shared, &eager, &start, &one);
                s.spawn(move || {
                    covrt::reset();
                    start.wait();
                    guarded(|| {
                        let mut p = MediaParser::new();
                        let v: Vec<_> = js.iter().map(|j| one(&mut p, j)).collect();
                        (v, shared.as_ref().map(view), eager.as_ref().map(eager_entries))
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("caught inside")).collect()
    });
    cx.nontrivial = want.iter().flatten().filter(|(_, v)| v.len() > 1).count() > 1;
    cx.label_if(shared.is_some(), "shared result");
    cx.label(format!("{n} threads"));
    cx.sample(|| format!("{n} threads over {} files: {}", pool.len(), pool.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ")));
    for (k, g) in got.into_iter().enumerate() {
        let (v, sh, ea) = g?;
        cx.checks += 3;
        for (j, (x, y)) in plan[k].iter().zip(v.iter().zip(&want[k])) {
            ensure!(
                x == y,
                "threads change the result",
                "{:?} of {} via {:?} in thread {k} of {n}:\n{}\nalone:\n{}",
                j.op, pool[j.file].0, j.mode,
                crate::clip(&format!("{x:?}"), 900),
                crate::clip(&format!("{y:?}"), 900)
            );
        }
        ensure!(sh == want_view, "threads change the result", "a result seen from thread {k} of {n}: {sh:?}\nalone: {want_view:?}");
        ensure!(ea == want_eager, "threads change the result", "an eager result seen from thread {k} of {n}: {ea:?}\nalone: {want_eager:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "logged: something was logged; threads: at least two of the parses give a result; distinct by the bytes of the files",
        level: "exploration",
        assumptions: &[
            "the thread schedules are those the machine produces, not enumerated: the crate has no locks or shared state of its own to schedule around",
            "the log is formatted in full and thrown away; only that it does not matter is checked, not what it says",
        ],
        subs: vec![
            Sub { name: "logged", drive: Drive::Random, quick: 80_000, thorough: 1_600_000, tape: 900, f: logged },
            Sub { name: "threads", drive: Drive::Random, quick: 60_000, thorough: 1_200_000, tape: 1400, f: threads },
        ],
    }
}
