//! Matroska/WebM track metadata equals what the container encodes.
use super::common::*;
use crate::build::ebml::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

/// Duration in milliseconds: exact ticks x scale / 10^6, whole milliseconds.
/// Two values are allowed only where the exact one is within float error of a whole number.
fn duration(m: &Mkv) -> Option<(u64, u64)> {
    let (d, _) = m.duration?;
    let scale = m.scale.unwrap_or(1_000_000);
    let x = d * scale as f64 / 1e6;
    let lo = (x * (1.0 - 1e-14) - 1e-12).max(0.0) as u64;
    let hi = (x * (1.0 + 1e-14) + 1e-12) as u64;
    if d.fract() == 0.0 && scale % 1_000_000 == 0 && x * 1e6 < 1e16 {
        // (beyond that the exact value may be off by float error)
        let v = (d as u128 * (scale / 1_000_000) as u128).min(u64::MAX as u128) as u64;
        return Some((v, v));
    }
    Some((lo, hi))
}

fn model(t: &mut Tape, cx: &mut Cx) -> R {
    let m = gen_model(t);
    let o = MkvOpts { big: t.chance(1, 3), audio_first: t.chance(1, 3), seek: t.chance(1, 2), stale: false };
    let b = build(t, &m, o);
    if b.len() <= 140 {
        return Ok(());
    }
    cx.data("mkv", &b);
    cx.nontrivial = m.duration.is_some() || m.date.is_some() || m.dims.is_some();
    cx.label_if(o.seek, "seek table");
    cx.label_if(o.audio_first, "audio first");
    cx.label_if(m.scale.is_some(), "scale");
    cx.label_if(m.scale.is_some_and(|s| s > u32::MAX as u64), "scale beyond 32 bits");
    cx.label_if(m.dims.is_none(), "no video");
    cx.label_if(m.no_tracks, "no tracks");
    cx.label_if(m.duration.is_none(), "no duration");
    cx.label_if(b.len() > 9000, "larger than a read");
    cx.sample(|| format!("{} bytes: {m:?}", b.len()));
    let len = b.len();
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
    let mut s = gen_sched(t);
    cap_sched(&mut s, len);
    let (kind, l) = run_live(&mut MediaParser::new(), Op::Track, mode, &a, &s, &Arc::default());
    ensure!(kind == Some("Track"), "kind", "{len} bytes via {mode:?}: kind {kind:?}");
    let tr = match l {
        Ok(Live::Track(x)) => x,
        Ok(_) => unreachable!(),
        Err(e) => return fail("parse fails", format!("{len} bytes via {mode:?}, {m:?}: {e}")),
    };
    let got = track_out(&tr);
    cx.checks += 4;
    // duration
    let g = tr.get(TrackInfoTag::DurationMs);
    match (duration(&m), g) {
        (None, None) => {}
        (Some((lo, hi)), Some(EntryValue::U64(v))) if (lo..=hi).contains(v) => {}
        (w, g) => return fail("duration", format!("via {mode:?}, {m:?}: expected {w:?} ms, reported {g:?}")),
    }
    let date = m.date.map(|ns| {
        let d = chrono::DateTime::from_timestamp(978_307_200 + ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000) as u32).unwrap();
        format!("DateTime({})", d.format("%Y-%m-%dT%H:%M:%S%.f%:z"))
    });
    ensure!(got.entries.get("CreateDate").cloned() == date, "date", "via {mode:?}, {m:?}: expected {date:?}, reported {:?}", got.entries.get("CreateDate"));
    // a size that doesn't fit the 32 bits it is reported in is not reported
    let dims = m.dims.filter(|d| d.0.max(d.1) <= u32::MAX as u64);
    cx.label_if(dims != m.dims, "size beyond 32 bits");
    for (name, w) in [("Width", dims.map(|d| d.0)), ("Height", dims.map(|d| d.1))] {
        let w = w.map(|v| format!("U32({v})"));
        ensure!(got.entries.get(name).cloned() == w, name, "via {mode:?}, {m:?}: expected {w:?}, reported {:?}", got.entries.get(name));
    }
    let known = ["DurationMs", "CreateDate", "Width", "Height"];
    for k in got.entries.keys() {
        ensure!(known.contains(&k.as_str()), "invented field", "via {mode:?}, {m:?}: {k} = {:?}", got.entries[k]);
    }
    ensure!(got.gps.is_none(), "invented position", "{:?}", got.gps);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a Matroska or WebM file that encodes a duration, a date or a video size; distinct by file bytes",
        level: "exploration",
        assumptions: &["the EBML header fits the sniffed 128 bytes", "one video track; the segment has an Info element, and, if its size is unknown, a Tracks element; durations are finite and not negative"],
        subs: vec![Sub { name: "model", drive: Drive::Random, quick: 1_200_000, thorough: 14_400_000, tape: 300, f: model }],
    }
}
