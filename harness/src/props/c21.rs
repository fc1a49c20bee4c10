//! Truncating or extending a file never invents or alters metadata.
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use std::collections::HashMap;
use std::sync::Arc;

struct In {
    name: String,
    bytes: Vec<u8>,
}
fn input(t: &mut Tape, whole: bool) -> In {
    let big = t.chance(1, 3);
    match t.below(9) {
        0 => In { name: "motion".into(), bytes: super::c16::gen(t, big).bytes },
        1 => {
            let s = if whole { seeds_full() } else { seeds() };
            let (n, b) = t.pick(s);
            In { name: n.clone(), bytes: b.as_ref().clone() }
        }
        2..=4 => {
            // GPS and dates, whose values draw on several entries
            let o = tiff::GenOpts { dates: true, chain: true, big: if big { 2000 } else { 120 }, max_ents: 8, ..Default::default() };
            let mut tf = tiff::gen_tiff(t, &o);
            super::c11::add_gps(t, &mut tf);
            let x = tf.encode().bytes;
            let c = *t.pick(&["tiff", "jpeg", "heif", "avif", "png", "png-app1", "png-exif", "raf", "cr3"]);
            if x.len() > 60_000 && matches!(c, "jpeg" | "raf") {
                return In { name: "tiff".into(), bytes: x };
            }
            let b = super::c07::contain(t, c, &x, big);
            In { name: c.into(), bytes: b }
        }
        _ => {
            let m = gen_media(t, big);
            In { name: m.fmt.into(), bytes: m.bytes }
        }
    }
}

/// The wall-clock part of a date, the value itself otherwise: a date's zone is
/// an entry of its own, and may be lost on its own.
fn wall(v: &str) -> String {
    for p in ["DateTime(", "NaiveDateTime("] {
        if let Some(x) = v.strip_prefix(p) {
            return format!("date {}", &x[..x.len().min(19)]);
        }
    }
    v.to_string()
}

/// The same place, the altitude and the speed possibly lost.
fn position_fewer(w: &str, c: &str) -> bool {
    let parts = |x: &str| -> Option<(String, String, String)> {
        let (p, r) = x.split_once(" alt ")?;
        let (a, s) = r.split_once(" speed ")?;
        Some((p.into(), a.into(), s.into()))
    };
    match (parts(w), parts(c)) {
        (Some(w), Some(c)) => c.0 == w.0 && (c.1 == "?" || c.1 == w.1) && (c.2 == "none" || c.2 == w.2),
        _ => false,
    }
}

fn exif_fewer(w: &ExifOut, c: &ExifOut) -> std::result::Result<(), String> {
    let mut m: HashMap<(usize, u16), Vec<&std::result::Result<String, String>>> = HashMap::new();
    for (i, tag, v) in &w.entries {
        m.entry((*i, *tag)).or_default().push(v);
    }
    for (i, tag, v) in &c.entries {
        let Some(ws) = m.get(&(*i, *tag)) else {
            return Err(format!("entry {tag:#06x} of directory {i} is {v:?}, the whole file has none"));
        };
        if let Ok(v) = v {
            if !ws.iter().any(|w| w.as_ref().is_ok_and(|w| wall(w) == wall(v))) {
                return Err(format!("entry {tag:#06x} of directory {i} is {v}, in the whole file {ws:?}"));
            }
        }
    }
    if let Ok(Some(g)) = &c.gps {
        if !w.gps.as_ref().is_ok_and(|w| w.as_ref().is_some_and(|w| position_fewer(w, g))) {
            return Err(format!("position {g}, in the whole file {:?}", w.gps));
        }
    }
    if c.embedded && !w.embedded {
        return Err("an embedded track the whole file has not".into());
    }
    Ok(())
}
fn fewer(w: &Out, c: &Out) -> std::result::Result<(), String> {
    match (w, c) {
        (Out::Exif(w), Out::Exif(c)) => exif_fewer(w, c),
        (Out::Img(w), Out::Img(c)) => {
            match (&w.exif, &c.exif) {
                (Some(w), Some(c)) => exif_fewer(w, c)?,
                (None, Some(c)) => return Err(format!("EXIF {c:?}, the whole file has none")),
                _ => {}
            }
            if let Some(c) = &c.text {
                let none = vec![];
                let w = w.text.as_ref().unwrap_or(&none);
                let mut i = w.iter();
                if !c.iter().all(|x| i.any(|y| x == y)) {
                    return Err(format!("text {c:?}, in the whole file {w:?}"));
                }
            }
            Ok(())
        }
        (Out::Track(w), Out::Track(c)) => {
            for (k, v) in &c.entries {
                if w.entries.get(k) != Some(v) {
                    return Err(format!("{k} is {v}, in the whole file {:?}", w.entries.get(k)));
                }
            }
            if c.gps.is_some() && c.gps != w.gps {
                return Err(format!("position {:?}, in the whole file {:?}", c.gps, w.gps));
            }
            Ok(())
        }
        _ => Err("another kind of result".into()),
    }
}

fn truncated(t: &mut Tape, cx: &mut Cx) -> R {
    tiff::UNIQUE.set(true);
    let f = input(t, false);
    tiff::UNIQUE.set(false);
    let d = Arc::new(f.bytes);
    if d.len() < 2 {
        return Ok(());
    }
    cx.label(f.name.as_str());
    cx.data("file", &d);
    let whole: Vec<Res> = OPS.iter().map(|op| run(*op, Mode::Mem, &d)).collect();
    cx.nontrivial = whole.iter().any(|r| r.out.is_ok());
    if !cx.nontrivial {
        return Ok(());
    }
    let mut cuts: Vec<usize> = vec![];
    for _ in 0..14 {
        cuts.push(match t.below(4) {
            0 => t.below(d.len()),
            1 => d.len() - 1 - t.below(d.len().min(64)),
            _ => {
                // metadata lies at the head, mostly
                let h = d.len().min(1200);
                t.below(h)
            }
        });
    }
    cx.sample(|| format!("{} of {} bytes cut at {cuts:?}", f.name, d.len()));
    for c in cuts {
        let part = Arc::new(d[..c].to_vec());
        let k = t.below(4);
        let mode = ALL[[0, 1, 2, 4][k]];
        for (op, w) in OPS.iter().zip(&whole) {
            let r = run(*op, mode, &part);
            cx.checks += 1;
            let Ok(o) = &r.out else { continue };
            cx.label_if(true, "cut and readable");
            let Ok(w) = &w.out else {
                return fail("metadata invented", format!("{} of {} bytes cut at {c}: {op:?} via {mode:?} gives {}, the whole file fails: {:?}", f.name, d.len(), r.brief(), w.out));
            };
            if let Err(e) = fewer(w, o) {
                return fail("metadata altered", format!("{} of {} bytes cut at {c}: {op:?} via {mode:?}: {e}", f.name, d.len()));
            }
        }
    }
    Ok(())
}

/// A box of the top level that reaches to the end of the file takes in what is appended.
fn open_ended(b: &[u8]) -> bool {
    let mut i = 0;
    while i + 8 <= b.len() {
        let n = u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        match n {
            0 => return &b[i + 4..i + 8] == b"moov" || &b[i + 4..i + 8] == b"meta",
            1 if i + 16 <= b.len() => {
                let n = u64::from_be_bytes(b[i + 8..i + 16].try_into().unwrap());
                if n > b.len() as u64 {
                    return false;
                }
                i += (n as usize).max(1);
            }
            _ => i += n.max(8),
        }
    }
    false
}

/// A JPEG that ends before its image does (some samples): what is appended
/// goes on with its segments.
fn cut_jpeg(b: &[u8]) -> bool {
    let mut i = 2;
    while let Some(&[0xff, m, hi, lo]) = b.get(i..i + 4).map(|x| <&[u8; 4]>::try_from(x).unwrap()) {
        match m {
            0xd8 | 0xff => i += 1,
            0xd9 | 0xda => return false,
            _ => i += 2 + u16::from_be_bytes([hi, lo]) as usize,
        }
    }
    i + 4 > b.len() && !b.ends_with(&[0xff, 0xd9])
}

fn extended(t: &mut Tape, cx: &mut Cx) -> R {
    let f = input(t, true);
    let b = f.bytes;
    if b.len() <= 128 {
        return Ok(());
    }
    let bmff = b.len() > 8 && &b[4..8] == b"ftyp";
    if bmff && open_ended(&b) {
        return Ok(());
    }
    if b.starts_with(&[0xff, 0xd8]) && cut_jpeg(&b) {
        return Ok(());
    }
    // EBML: a segment of unknown size ends where the file ends
    let ebml = b.starts_with(&[0x1a, 0x45, 0xdf, 0xa3]);
    if ebml && open_segment(&b) {
        return Ok(());
    }
    let n = t.size(40, 3000);
    let (what, tail) = match t.below(7) {
        0 => ("zeros", vec![0; n]),
        1 => ("0xff", vec![0xff; n]),
        2 | 3 => {
            let m = gen_media(t, false);
            ("another file", m.bytes)
        }
        4 => ("a copy", b.clone()),
        5 => {
            let m = gen_media(t, false);
            let k = t.below(m.bytes.len());
            ("part of another file", m.bytes[k..].to_vec())
        }
        _ => ("random bytes", t.fill(n)),
    };
    let d = Arc::new(b);
    cx.data("file", &d);
    cx.data("tail", &tail);
    let whole: Vec<Res> = OPS.iter().map(|op| run(*op, Mode::Mem, &d)).collect();
    // a motion photo's track is the file's very end
    let motion = whole[0].exif().is_some_and(|x| x.embedded) || (f.name.contains("motion") && !f.name.starts_with("mp4"));
    let longer = Arc::new([d.as_slice(), &tail].concat());
    cx.label(f.name.as_str());
    cx.label(what);
    cx.nontrivial = whole.iter().any(|r| r.out.is_ok()) && !tail.is_empty();
    cx.sample(|| format!("{} of {} bytes followed by {what} ({} bytes)", f.name, d.len(), tail.len()));
    for (op, w) in OPS.iter().zip(&whole) {
        if motion && *op == Op::Track {
            continue;
        }
        let k = t.below(4);
        let mode = ALL[[0, 1, 2, 4][k]];
        let r = run(*op, mode, &longer);
        cx.checks += 1;
        if w.out.is_ok() {
            ensure!(r == *w, "appended bytes change the result", "{} of {} bytes followed by {what} ({} bytes): {op:?} via {mode:?}: {}", f.name, d.len(), tail.len(), diff(&r, w));
        } else if let Err(e) = &w.out {
            // what could not be had before cannot be had now; an early end may become another failure
            ensure!(r.out.is_err(), "metadata out of appended bytes", "{} of {} bytes ({e}) followed by {what} ({} bytes): {op:?} via {mode:?}: {}", f.name, d.len(), tail.len(), r.brief());
        }
    }
    Ok(())
}

fn open_segment(b: &[u8]) -> bool {
    // header element, then the segment (possibly after void elements)
    let Some(at) = super::c16::find(b, &[0x18, 0x53, 0x80, 0x67]) else { return true };
    let Some(&f) = b.get(at + 4) else { return true };
    let w = f.leading_zeros() as usize + 1;
    if w > 8 || at + 4 + w > b.len() {
        return true;
    }
    let v = &b[at + 4..at + 4 + w];
    let ones = (f as u32 | (0xff00u32 >> (w - 1)) & 0xff | (1 << (8 - w))) == 0xff;
    ones && v[1..].iter().all(|x| *x == 0xff)
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "the whole file yields metadata, and it is cut or something is appended",
        level: "exploration",
        assumptions: &[
            "a date's zone is an entry of its own: cut away, the date keeps its wall-clock time",
            "a box or segment without an end takes in what is appended, and a motion photo's track is found from the file's end: those are left out of the appending check",
        ],
        subs: vec![
            Sub { name: "truncated", drive: Drive::Random, quick: 170_000, thorough: 2_040_000, tape: 700, f: truncated },
            Sub { name: "extended", drive: Drive::Random, quick: 110_000, thorough: 1_320_000, tape: 900, f: extended },
        ],
    }
}
