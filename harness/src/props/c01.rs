//! No input makes any entry point panic.
use super::common::*;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

fn parse_all(a: &Arc<Vec<u8>>, modes: &[Mode], sched: &Sched, cx: &mut Cx) {
    for op in OPS {
        for &m in modes {
            let mut p = MediaParser::new();
            let (k, l) = run_live(&mut p, op, m, a, sched, &Arc::default());
            cx.checks += 1;
            if k.is_some() {
                cx.nontrivial = true;
            }
            std::hint::black_box(format!("{p:?}"));
            let l = l.map_err(|e| std::hint::black_box(format!("{e} {e:?} {:?}", std::error::Error::source(&e).map(|s| s.to_string()))));
            if let Ok(l) = l {
                cx.label(format!("{op:?} ok"));
                walk(l);
            } else if k.is_some() {
                cx.label(format!("{op:?} err"));
            }
        }
    }
}

fn bytes(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, b) = gen_input(t, false);
    cx.data("input", &b);
    cx.label(what.split('+').next().unwrap());
    cx.sample(|| format!("{what}, {} bytes", b.len()));
    let a = Arc::new(b);
    let extra = *t.pick(&[Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
    let mut s = gen_sched(t);
    cap_sched(&mut s, a.len());
    parse_all(&a, &[Mode::Mem, extra], &s, cx);
    Ok(())
}

/// Path-based and byte-buffer helpers, including the deprecated ones.
#[allow(deprecated)]
fn helpers(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, b) = gen_input(t, false);
    cx.data("input", &b);
    cx.label(what.split('+').next().unwrap());
    cx.sample(|| format!("{what}, {} bytes", b.len()));
    let f = TempFile::new(&b);
    let bb = bytes::Bytes::from(b.clone());
    let mut ok = 0;
    let mut n = 0;
    if let Ok(x) = read_exif(&f.0) {
        ok += 1;
        n += format!("{x:?}").len();
    }
    if let Ok(x) = read_exif_iter(&f.0) {
        ok += 1;
        n += walk(Live::Exif(x));
    }
    if let Ok(x) = read_track(&f.0) {
        ok += 1;
        n += walk(Live::Track(x));
    }
    if let Ok(x) = read_metadata(&f.0) {
        ok += 1;
        n += format!("{x:?}").len();
    }
    if let Ok(x) = read_exif_from_bytes(bb.clone()) {
        n += format!("{x:?}").len();
    }
    if let Ok(x) = read_exif_iter_from_bytes(bb.clone()) {
        n += walk(Live::Exif(x));
    }
    if let Ok(x) = read_track_from_bytes(bb.clone()) {
        n += walk(Live::Track(x));
    }
    if let Ok(x) = read_metadata_from_bytes(bb.clone()) {
        n += format!("{x:?}").len();
    }
    let mut p = MediaParser::new();
    if let Ok(ms) = MediaSource::from_bytes(bb.clone()) {
        cx.nontrivial = true;
        if let Ok(x) = p.parse_exif_from_bytes(ms) {
            n += walk(Live::Exif(x));
        }
    }
    if let Ok(ms) = MediaSource::from_bytes(bb) {
        if let Ok(x) = p.parse_track_from_bytes(ms) {
            n += walk(Live::Track(x));
        }
    }
    rt(async {
        let _ = read_exif_async(&f.0).await;
        let _ = read_exif_iter_async(&f.0).await;
        let _ = read_track_async(&f.0).await;
        let _ = read_metadata_async(&f.0).await;
    });
    cx.label(format!("{ok} helpers ok"));
    cx.checks += 14;
    std::hint::black_box(n);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the input gets past format detection in at least one entry point (so a parser ran on it); distinct by content",
        level: "exploration",
        assumptions: &["the library is built with debug assertions and overflow checks, so arithmetic overflow counts as a panic"],
        subs: vec![
            Sub { name: "bytes", drive: Drive::Guided, quick: 270_000, thorough: 4_000_000, tape: 400, f: bytes },
            Sub { name: "helpers", drive: Drive::Guided, quick: 13_000, thorough: 156_000, tape: 400, f: helpers },
        ],
    }
}
