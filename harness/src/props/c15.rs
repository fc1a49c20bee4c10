//! PNG text and EXIF come back exactly, from the right chunk.
use super::c06::ent_diff;
use super::common::*;
use crate::build::png::*;
use crate::build::tiff::{gen_tiff, sorted, GenOpts};
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::{ImageFormatMetadata, MediaParser};
use std::sync::Arc;

const MIB: usize = 1 << 20;

fn block(t: &mut Tape) -> (Vec<u8>, Vec<Ent>) {
    let big = if t.chance(1, 6) { 9000 } else { 150 };
    let tf = gen_tiff(t, &GenOpts { dates: true, chain: true, big, max_ents: 8, ..Default::default() });
    let e = tf.encode();
    let w = sorted(tf.expect(&e));
    (e.bytes, w)
}

/// A legacy profile text that carries no usable EXIF block.
fn damaged(t: &mut Tape, kind: &str, x: &[u8]) -> (Vec<u8>, &'static str) {
    let hdr = if kind == "app1" { b"Exif\0\0".to_vec() } else { vec![] };
    let full = [hdr.clone(), x.to_vec()].concat();
    match t.below(8) {
        0 => {
            let mut s = raw_profile(kind, &full, false, 36);
            let n = s.len();
            s[n - 2] = b'g';
            (s, "not hex")
        }
        1 => {
            let mut s = raw_profile(kind, &full, false, 1 << 20);
            s.pop();
            s.pop();
            (s, "odd digits")
        }
        2 => {
            let mut y = full;
            y[hdr.len()] ^= 0x55;
            (raw_profile(kind, &y, true, 36), "bad byte-order mark")
        }
        3 => {
            let mut y = full;
            y[hdr.len() + 2] = 7;
            y[hdr.len() + 3] = 7;
            (raw_profile(kind, &y, true, 36), "bad magic")
        }
        4 => {
            let k = t.below(8);
            (raw_profile(kind, &full[..hdr.len() + k], false, 36), "too short")
        }
        5 => (vec![], "empty"),
        6 => {
            let n = t.size(20, 400);
            (t.ascii(n).into_bytes(), "other text")
        }
        _ => (format!("\n{kind}\n").into_bytes(), "header only"),
    }
}

struct Case {
    png: Png,
    text: Vec<(String, String)>,
    exif: Option<Vec<Ent>>,
    from: &'static str,
}

fn gen(t: &mut Tape, cx: &mut Cx) -> Case {
    // chunk, and for tEXt whether it is a proper one
    let mut cs: Vec<(Chunk, bool)> = vec![];
    for _ in 0..t.range(0, 8) {
        let big = t.chance(1, 8);
        match t.below(8) {
            0..=2 => {
                let c = noise_chunk(t, big);
                cs.push((c, false));
            }
            3 => {
                // an earlier keyword again
                let k = match cs.iter().filter(|c| c.1).next_back() {
                    Some((c, _)) => c.data.split(|b| *b == 0).next().unwrap().to_vec(),
                    None => b"Comment".to_vec(),
                };
                let v = text_value(t, false);
                cx.label("keyword repeated");
                cs.push((text_chunk(&k, &v), true));
            }
            4 => {
                let n = t.size(30, 300);
                let d: Vec<u8> = t.fill(n).into_iter().map(|b| b | 1).collect();
                cx.label("text chunk without separator");
                cs.push((chunk(b"tEXt", &d), false));
            }
            _ => {
                let k = keyword(t);
                let v = text_value(t, big);
                cs.push((text_chunk(&k, &v), true));
            }
        }
    }
    let many = crowd(t);
    if !many.is_empty() {
        cx.label("many chunks");
        let at = t.below(cs.len() + 1);
        cs.splice(at..at, many);
    }
    if t.chance(1, 3) {
        let n = t.range(8000, 200_000);
        cs.push((Chunk { ty: *b"IDAT", data: t.fill(n) }, false));
        cx.label("image data over 8 KB");
    }
    let put = |t: &mut Tape, cs: &mut Vec<(Chunk, bool)>, c: Chunk, text: bool| {
        let at = if t.chance(1, 3) { cs.len() } else { t.below(cs.len() + 1) };
        cs.insert(at, (c, text));
    };
    let mut exif = None;
    let mut from = "none";
    // lowest priority first
    for (kind, key) in [("exif", "Raw profile type exif"), ("app1", "Raw profile type APP1")] {
        if t.chance(1, 3) {
            let (x, _) = block(t);
            let (v, why) = damaged(t, kind, &x);
            cx.label(format!("damaged {kind}: {why}"));
            put(t, &mut cs, text_chunk(key.as_bytes(), &v), true);
        }
        if t.chance(2, 5) {
            let (x, w) = block(t);
            let pre = kind == "app1" || t.chance(1, 2);
            let y = if pre { [b"Exif\0\0".to_vec(), x].concat() } else { x };
            let width = *t.pick(&[36usize, 36, 1, 72, 1 << 20]);
            let v = raw_profile(kind, &y, t.chance(1, 2), width);
            let v = relaid(t, v);
            if v.len() + key.len() + 1 <= MIB {
                cx.label(format!("{kind} profile"));
                put(t, &mut cs, text_chunk(key.as_bytes(), &v), true);
                exif = Some(w);
                from = if kind == "exif" { "exif profile" } else { "APP1 profile" };
            }
        }
    }
    if t.chance(1, 3) {
        let (x, w) = block(t);
        put(t, &mut cs, chunk(b"eXIf", &x), false);
        exif = Some(w);
        from = "eXIf";
    }
    // near misses must not count as carriers
    if t.chance(1, 5) {
        let (x, _) = block(t);
        let key = *t.pick(&["Raw profile type xmp", "raw profile type exif", "Raw profile type EXIF", "Raw profile type app1", "Raw profile type iptc"]);
        let v = raw_profile("exif", &[b"Exif\0\0".to_vec(), x].concat(), false, 36);
        put(t, &mut cs, text_chunk(key.as_bytes(), &v), true);
        cx.label("other raw profile");
    }
    let text = cs
        .iter()
        .filter(|c| c.1)
        .map(|c| {
            let k = c.0.data.iter().position(|b| *b == 0).unwrap();
            (latin1(&c.0.data[..k]), latin1(&c.0.data[k + 1..]))
        })
        .collect();
    let trailer = if t.chance(1, 4) {
        let n = t.size(100, 3000);
        t.fill(n)
    } else {
        vec![]
    };
    Case { png: Png { chunks: cs.into_iter().map(|c| c.0).collect(), trailer }, text, exif, from }
}

fn check(t: &mut Tape, cx: &mut Cx, c: &Case, modes: usize) -> R {
    let data = Arc::new(c.png.encode());
    cx.data("png", &data);
    let mut ms = ALL.to_vec();
    t.shuffle(&mut ms);
    ms.sort_by_key(|m| matches!(m, Mode::File | Mode::AFile));
    for m in ms.into_iter().take(modes) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        let (_, r) = run_live(&mut MediaParser::new(), Op::Image, m, &data, &s, &Arc::default());
        let img = match r {
            Ok(Live::Img(i)) => Some(i),
            Ok(_) => unreachable!(),
            Err(e) => {
                ensure!(c.text.is_empty() && c.exif.is_none(), "image metadata fails", "PNG with {} texts, EXIF from {} ({} bytes) via {m:?}: {}", c.text.len(), c.from, data.len(), err_cat(&e));
                None
            }
        };
        if let Some(i) = &img {
            let o = img_out(i);
            cx.checks += 1;
            let got = o.text.clone().unwrap_or_default();
            if got != c.text {
                let at = got.iter().zip(&c.text).position(|(a, b)| a != b).unwrap_or(got.len().min(c.text.len()));
                return fail("text differs", crate::clip(&format!("via {m:?}: {} texts for {}; number {at}: {:?}, file has {:?}", got.len(), c.text.len(), got.get(at), c.text.get(at)), 700));
            }
            if let Some(ImageFormatMetadata::Png(p)) = &i.format {
                ensure!(p.len() == c.text.len() && p.is_empty() == c.text.is_empty(), "text count", "len {} is_empty {} for {} texts", p.len(), p.is_empty(), c.text.len());
                for (k, _) in &c.text {
                    let all: Vec<&str> = c.text.iter().filter(|x| x.0 == *k).map(|x| &x.1[..]).collect();
                    ensure!(p.get_all(k).collect::<Vec<_>>() == all, "get_all differs", "get_all({k:?}) gives {} of {} texts", p.get_all(k).count(), all.len());
                    ensure!(p.get(k) == Some(all[0]), "get differs", "get({k:?}) is not the first text");
                }
                ensure!(p.get("no such keyword \u{1}").is_none(), "get invents", "a text for an absent keyword");
            }
            match (&o.exif, &c.exif) {
                (None, None) => {}
                (Some(e), Some(w)) => {
                    let g = sorted(e.entries.clone());
                    ensure!(g == *w, "wrong exif", "EXIF of {} expected, via {m:?}: {}", c.from, ent_diff(w, &g));
                }
                (e, _) => return fail("wrong exif", format!("carrier {}; EXIF reported: {} via {m:?}", c.from, e.is_some())),
            }
        }
        let r = run_sched(Op::Exif, m, &data, &s);
        match (r.exif(), &c.exif) {
            (None, None) => ensure!(r.out == Err("ExifNotFound".into()), "wrong error", "PNG without EXIF via {m:?}: {}", r.brief()),
            (Some(e), Some(w)) => {
                let g = sorted(e.entries.clone());
                ensure!(g == *w, "wrong exif", "EXIF of {} expected, parse_exif via {m:?}: {}", c.from, ent_diff(w, &g));
            }
            (e, _) => return fail("wrong exif", format!("carrier {}; parse_exif via {m:?} reports EXIF: {} ({})", c.from, e.is_some(), r.brief())),
        }
        cx.checks += 1;
    }
    Ok(())
}

fn chunks(t: &mut Tape, cx: &mut Cx) -> R {
    let c = gen(t, cx);
    cx.nontrivial = c.text.len() + c.exif.is_some() as usize >= 2;
    cx.label(format!("exif from {}", c.from));
    cx.sample(|| format!("{} chunks, {} texts, exif from {}", c.png.chunks.len(), c.text.len(), c.from));
    check(t, cx, &c, 3)
}

/// The caps on text: 1 MiB a chunk, 16 MiB in all; what fits is kept, the rest
/// is left out and nothing else changes.
fn caps(t: &mut Tape, cx: &mut Cx) -> R {
    let mut cs = vec![];
    let mut text = vec![];
    let mut total = 0usize;
    let many = t.chance(1, 3);
    let n = if many { t.range(15, 20) } else { t.range(1, 4) };
    for _ in 0..n {
        let kn = t.range(1, 30);
        let k = t.word(kn).into_bytes();
        let len = match t.below(5) {
            0 => MIB,
            1 => MIB + 1,
            2 => MIB - 1,
            3 => MIB + t.below(100_000),
            _ if many => MIB - t.below(40_000),
            _ => t.below(3000) + 100,
        };
        let v: Vec<u8> = t.ascii(len - k.len() - 1).into_bytes();
        let size: usize = latin1(&k).len() + latin1(&v).len();
        if len <= MIB && total + size <= 16 * MIB {
            total += size;
            text.push((latin1(&k), latin1(&v)));
        } else {
            cx.label(if len > MIB { "over 1 MiB" } else { "over 16 MiB in all" });
        }
        cs.push(text_chunk(&k, &v));
    }
    let mut exif = None;
    let mut from = "none";
    if t.chance(1, 2) {
        let (x, w) = block(t);
        cs.push(chunk(b"eXIf", &x));
        exif = Some(w);
        from = "eXIf";
    }
    let k = keyword(t);
    let v = t.ascii(20);
    // a small text after everything still counts if there is room for it
    if total + latin1(&k).len() + 20 <= 16 * MIB {
        text.push((latin1(&k), v.clone()));
    }
    cs.push(text_chunk(&k, v.as_bytes()));
    cx.nontrivial = true;
    cx.label_if(total > 15 * MIB, "near the total cap");
    cx.sample(|| format!("{n} large texts, {} kept", text.len()));
    let c = Case { png: Png { chunks: cs, trailer: vec![] }, text, exif, from };
    check(t, cx, &c, 1)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "at least two of {texts, an EXIF carrier} in the file (caps: always); distinct by file bytes",
        level: "exploration",
        assumptions: &["at most one valid carrier of each kind", "texts beyond 1 MiB each or 16 MiB in all are left out (size caps of src/png.rs)"],
        subs: vec![
            Sub { name: "chunks", drive: Drive::Random, quick: 76_000, thorough: 912_000, tape: 700, f: chunks },
            Sub { name: "caps", drive: Drive::Random, quick: 230, thorough: 2_760, tape: 300, f: caps },
        ],
    }
}
