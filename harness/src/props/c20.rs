//! I/O errors are passed through and leave the parser usable.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::MediaParser;
use std::io::ErrorKind;
use std::sync::Arc;

const MODES: [Mode; 4] = [Mode::Seek, Mode::Unseek, Mode::ASeek, Mode::AUnseek];
// UnexpectedEof is left out: it is how a source says that it has ended.
const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
];

fn input(t: &mut Tape) -> (String, Vec<u8>) {
    match t.below(8) {
        0 => {
            let big = t.chance(1, 2);
            ("motion".into(), super::c16::gen(t, big).bytes)
        }
        1 => {
            let s = seeds();
            let (n, b) = t.pick(s);
            (n.clone(), b.as_ref().clone())
        }
        2 => {
            let b = t.chance(1, 2);
            gen_input(t, b)
        }
        _ => {
            let big = t.chance(2, 3);
            let m = gen_media(t, big);
            (m.fmt.to_string(), m.bytes)
        }
    }
}

fn fault(t: &mut Tape, cx: &mut Cx) -> R {
    let (l, b) = input(t);
    let d = Arc::new(b);
    let op = *t.pick(&OPS);
    let mode = *t.pick(&MODES);
    let mut s = gen_sched(t);
    // few operations, so that every one of them is a likely target
    for c in &mut s.chunks {
        *c = (*c).max(d.len() / 60 + 1);
    }
    let stat = Arc::new(Stat::default());
    let base = run_with(&mut MediaParser::new(), op, mode, &d, &s, &stat);
    let n = Stat::get(&stat.ops);
    if n == 0 {
        return Ok(());
    }
    cx.label(l.split([' ', '+']).next().unwrap_or(""));
    cx.label(format!("{mode:?}"));
    cx.data("file", &d);
    // the second source, for the parser that met the fault
    let m2 = gen_media(t, false);
    let d2 = Arc::new(m2.bytes);
    let op2 = if m2.image { *t.pick(&[Op::Exif, Op::Image]) } else { Op::Track };
    let mode2 = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::ASeek, Mode::AUnseek]);
    let good2 = run(op2, mode2, &d2);
    let points: Vec<u64> = if n <= 12 { (0..n).collect() } else { (0..12).map(|_| t.below(n as usize) as u64).collect() };
    cx.nontrivial = true;
    cx.sample(|| format!("{l} of {} bytes, {op:?} via {mode:?}: {n} operations, failing at {points:?}; without a fault {}", d.len(), crate::clip(&base.brief(), 120)));
    for k in points {
        let kind = *t.pick(&KINDS);
        let mut s = s.clone();
        s.fail_op = Some((k, kind));
        s.sticky = t.chance(1, 2);
        let stat = Arc::new(Stat::default());
        let mut p = MediaParser::new();
        let r = run_with(&mut p, op, mode, &d, &s, &stat);
        cx.checks += 2;
        let hit = Stat::get(&stat.faults) > 0;
        let what = || format!("{l} ({} bytes), {op:?} via {mode:?}, operation {k} of {n} fails with {kind:?}{}", d.len(), if s.sticky { " and all later ones" } else { "" });
        cx.label_if(r.out.is_ok(), "succeeds all the same");
        // A parse that asks for more after a fault still needed data: it must report the fault,
        // even if the source goes on as if nothing had happened.
        let on = hit && Stat::get(&stat.ops) > k + 1;
        let io = format!("Io({kind:?})");
        if hit && r.out == Err(io.clone()) {
            ensure!(r.kind.is_none() || r.kind == base.kind, "kind under a fault", "{}: kind {:?}, without the fault {:?}", what(), r.kind, base.kind);
        } else if on {
            return fail("goes on after a fault", format!("{}: {} further operations, and the result is {}", what(), Stat::get(&stat.ops) - k - 1, r.brief()));
        } else if r.kind == base.kind && r.out == base.out {
            // not reached, or not needed
        } else if !hit {
            return fail("differs without a fault", format!("{}: not reached, yet {}", what(), diff(&r, &base)));
        } else {
            match &r.out {
                Err(e) => return fail(&format!("fault reported as {e}"), format!("{}: reported as {e}; without the fault {}", what(), base.brief())),
                Ok(_) => return fail("different metadata under a fault", format!("{}: {}", what(), diff(&r, &base))),
            }
        }
        let r2 = run_with(&mut p, op2, mode2, &d2, &Sched::default(), &Arc::default());
        ensure!(r2 == good2, "parser unusable after a fault", "{}; then {} via {mode2:?}: {}", what(), m2.fmt, diff(&r2, &good2));
    }
    Ok(())
}

/// Interrupted reads (synchronous sources) and pending ones are retried at every point.
fn interrupted(t: &mut Tape, cx: &mut Cx) -> R {
    let (l, b) = input(t);
    let d = Arc::new(b);
    let op = *t.pick(&OPS);
    // a seek is not interrupted: only streams that are read
    let mode = Mode::Unseek;
    let mut s = gen_sched(t);
    s.interrupt_every = 0;
    for c in &mut s.chunks {
        *c = (*c).max(d.len() / 60 + 1);
    }
    let stat = Arc::new(Stat::default());
    let base = run_with(&mut MediaParser::new(), op, mode, &d, &s, &stat);
    let n = Stat::get(&stat.ops);
    cx.label(l.split([' ', '+']).next().unwrap_or(""));
    cx.data("file", &d);
    let points: Vec<u64> = if n <= 12 { (0..n).collect() } else { (0..12).map(|_| t.below(n as usize) as u64).collect() };
    cx.nontrivial = n > 0;
    cx.sample(|| format!("{l} of {} bytes, {op:?}: {n} reads, interrupted at {points:?}", d.len()));
    for k in points {
        let mut s = s.clone();
        s.fail_op = Some((k, ErrorKind::Interrupted));
        let r = run_with(&mut MediaParser::new(), op, mode, &d, &s, &Arc::default());
        cx.checks += 1;
        ensure!(r == base, "interruption", "{l} ({} bytes), {op:?}: read {k} of {n} interrupted once: {}", d.len(), diff(&r, &base));
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "the source was asked for data at least once, and one such request is failed",
        level: "exploration",
        assumptions: &["a source failing with UnexpectedEof is one that ends early, not one that fails", "files read by path fail like any other seekable source"],
        subs: vec![
            Sub { name: "fault", drive: Drive::Random, quick: 210_000, thorough: 2_520_000, tape: 600, f: fault },
            Sub { name: "interrupted", drive: Drive::Random, quick: 100_000, thorough: 1_200_000, tape: 500, f: interrupted },
        ],
    }
}
