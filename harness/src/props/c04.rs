//! Async parsing returns exactly what sync parsing returns.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use std::sync::Arc;

fn compare(t: &mut Tape, cx: &mut Cx, what: &str, b: Vec<u8>, with_file: bool) -> R {
    cx.data("input", &b);
    let a = Arc::new(b);
    for op in OPS {
        for (k, (sm, am)) in SYNC.iter().zip(ASYNC).enumerate() {
            if *sm == Mode::File && !with_file {
                continue;
            }
            let mut s = gen_sched(t);
            cap_sched(&mut s, a.len());
            let base = run_sched(op, *sm, &a, &Sched::default());
            let r = run_sched(op, am, &a, &s);
            cx.nontrivial |= base.out.is_ok();
            if k == 0 {
                cx.label(format!("{op:?} {}", if base.out.is_ok() { "ok" } else { "err" }));
            }
            cx.checks += 1;
            ensure!(
                agree(&base, &r), format!("{op:?} {am:?}").as_str(),
                "{what} ({} bytes): {op:?} via {sm:?} and {am:?} (chunks {:?}, pending every {}) differ: {}\n{sm:?}: {}\n{am:?}: {}",
                a.len(), s.chunks, s.interrupt_every, diff(&base, &r), base.brief(), r.brief()
            );
            if let (Err(x), Err(y)) = (&base.out, &r.out) {
                ensure!(x == y, "error category", "{what} ({} bytes): {op:?} fails with {x} via {sm:?} but {y} via {am:?}", a.len());
            }
        }
    }
    Ok(())
}
fn wellformed(t: &mut Tape, cx: &mut Cx) -> R {
    let m = gen_media(t, true);
    cx.label(m.fmt);
    cx.sample(|| format!("{}, {} bytes", m.fmt, m.bytes.len()));
    let f = t.chance(1, 6);
    compare(t, cx, m.fmt, m.bytes, f)
}
fn damaged(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, b) = gen_input(t, false);
    cx.label(what.split('+').next().unwrap());
    cx.sample(|| format!("{what}, {} bytes", b.len()));
    compare(t, cx, &what, b, false)
}
fn samples(t: &mut Tape, cx: &mut Cx) -> R {
    let s = seeds_full();
    if s.is_empty() {
        return Ok(());
    }
    let (n, b) = &s[t.below(s.len())];
    cx.label(n.as_str());
    cx.sample(|| format!("{n}, {} bytes", b.len()));
    compare(t, cx, n, b.as_ref().clone(), true)
}
pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a file for which at least one synchronous entry point succeeds; distinct by content",
        level: "exploration",
        assumptions: &[],
        subs: vec![
            Sub { name: "wellformed", drive: Drive::Random, quick: 61_000, thorough: 732_000, tape: 400, f: wellformed },
            Sub { name: "damaged", drive: Drive::Guided, quick: 110_000, thorough: 1_320_000, tape: 400, f: damaged },
            Sub { name: "samples", drive: Drive::Random, quick: 760, thorough: 9_120, tape: 60, f: samples },
        ],
    }
}
