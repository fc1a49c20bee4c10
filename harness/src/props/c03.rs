//! The result does not depend on how the bytes are supplied.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use std::sync::Arc;

pub fn compare(t: &mut Tape, cx: &mut Cx, what: &str, b: Vec<u8>, with_file: bool) -> R {
    if b.len() <= 128 {
        return Ok(()); // streams of at most 128 bytes are refused by contract
    }
    cx.data("input", &b);
    let a = Arc::new(b);
    for op in OPS {
        let base = run(op, Mode::Mem, &a);
        cx.nontrivial |= base.out.is_ok();
        cx.label(format!("{op:?} {}", if base.out.is_ok() { "ok" } else { "err" }));
        let mut s = gen_sched(t);
        cap_sched(&mut s, a.len());
        if t.chance(1, 5) {
            s.lead = t.range(1, 5000);
        }
        let mut plain = s.clone();
        plain.lead = 0;
        let runs = [(Mode::Seek, s.clone()), (Mode::Unseek, plain), (Mode::File, Sched::default())];
        for (m, s) in runs.iter().take(if with_file { 3 } else { 2 }) {
            let r = run_sched(op, *m, &a, s);
            cx.checks += 1;
            ensure!(
                agree(&base, &r), format!("{op:?} {m:?}").as_str(),
                "{what} ({} bytes): {op:?} from memory and via {m:?} (chunks {:?}, lead {}) differ: {}\nmemory: {}\n{m:?}: {}",
                a.len(), s.chunks, s.lead, diff(&base, &r), base.brief(), r.brief()
            );
        }
    }
    Ok(())
}

fn wellformed(t: &mut Tape, cx: &mut Cx) -> R {
    let m = gen_media(t, true);
    cx.label(m.fmt);
    cx.sample(|| format!("{}, {} bytes", m.fmt, m.bytes.len()));
    let f = t.chance(1, 4);
    compare(t, cx, m.fmt, m.bytes, f)
}
fn damaged(t: &mut Tape, cx: &mut Cx) -> R {
    let big = t.chance(1, 4);
    let (what, b) = gen_input(t, big);
    cx.label(what.split('+').next().unwrap());
    cx.sample(|| format!("{what}, {} bytes", b.len()));
    compare(t, cx, &what, b, false)
}
fn samples(t: &mut Tape, cx: &mut Cx) -> R {
    let s = seeds_full();
    if s.is_empty() {
        return Ok(());
    }
    let (n, b) = &s[t.below(s.len())];
    cx.label(n.as_str());
    cx.sample(|| format!("{n}, {} bytes", b.len()));
    compare(t, cx, n, b.as_ref().clone(), true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a file of more than 128 bytes for which at least one entry point succeeds from memory; distinct by content",
        level: "exploration",
        assumptions: &["streams of at most 128 bytes are excluded (documented strict end-of-file contract of the header read)", "failures are compared as failures; their category is C24's subject"],
        subs: vec![
            Sub { name: "wellformed", drive: Drive::Random, quick: 95_000, thorough: 1_140_000, tape: 400, f: wellformed },
            Sub { name: "damaged", drive: Drive::Guided, quick: 190_000, thorough: 2_280_000, tape: 400, f: damaged },
            Sub { name: "samples", drive: Drive::Random, quick: 950, thorough: 11_400, tape: 60, f: samples },
        ],
    }
}
