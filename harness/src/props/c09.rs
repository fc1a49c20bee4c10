//! One bad entry never hides the good ones and is itself reported.
use crate::build::tiff::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

fn raw(t: &mut Tape, be: bool, len_hint: u32) -> (&'static str, Val) {
    let w = W { be };
    match t.below(6) {
        0 => {
            // no such type
            let fmt = *t.pick(&[0u16, 13, 14, 99, 0x100, 0xffff]);
            ("type", Val::Raw { fmt, count: t.range(0, 9) as u32, field: w.u32(t.int32()) })
        }
        1 | 2 => {
            // value beyond the end of the block
            let fmt = t.range(1, 12) as u16;
            let size = [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][fmt as usize];
            let count = if fmt == 6 || fmt == 8 || fmt == 9 || fmt == 11 { 1 } else { (5 / size + 1) + t.below(3) as u32 };
            if count * size <= 4 {
                return ("type", Val::Raw { fmt: 0, count: 1, field: [0; 4] });
            }
            let count = if fmt == 12 { 1 } else { count };
            let off = match t.below(4) {
                0 => len_hint + t.below(1000) as u32,
                1 => u32::MAX - t.below(16) as u32,
                2 => 0x8000_0000,
                _ => len_hint,
            };
            ("out of range", Val::Raw { fmt, count, field: w.u32(off) })
        }
        3 => {
            // a count no file can hold
            let fmt = *t.pick(&[1u16, 2, 3, 4, 5, 7, 10]);
            let count = *t.pick(&[u32::MAX, 0x8000_0000, 0x4000_0001, 0x2000_0001, 0x1fff_ffff, 0x4000_0000]);
            let off = if t.chance(1, 2) { 8 } else { 0 };
            ("huge count", Val::Raw { fmt, count, field: w.u32(off) })
        }
        4 => ("count 0", Val::Raw { fmt: *t.pick(&[3u16, 4, 5, 10, 6, 8, 9, 11, 12]), count: 0, field: w.u32(t.int32()) }),
        _ => {
            // signed and floating types have no array form
            let fmt = *t.pick(&[6u16, 8, 9, 11, 12]);
            let size = [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8][fmt as usize];
            let count = if fmt == 6 { t.range(2, 4) } else if fmt == 8 { 2 } else { t.range(2, 3) } as u32;
            let off = if count * size > 4 { 8 } else { t.int32() };
            ("array of scalar type", Val::Raw { fmt, count, field: w.u32(off) })
        }
    }
}

/// Replaces the value of some entries by a malformed one; returns (dir, entry, why).
pub fn damage(t: &mut Tape, tf: &mut Tiff) -> Vec<(usize, usize, &'static str)> {
    let len = tf.encode().bytes.len().max(150) as u32;
    let mut cand: Vec<(usize, usize)> = vec![];
    for (d, dir) in tf.dirs.iter().enumerate() {
        for (e, en) in dir.ents.iter().enumerate() {
            if !matches!(en.val, Val::Ptr(_)) && en.tag != 0 {
                cand.push((d, e));
            }
        }
    }
    let k = t.range(1, 4).min(cand.len());
    t.shuffle(&mut cand);
    let mut out = vec![];
    for &(d, e) in cand.iter().take(k) {
        let date = DATE_TAGS.contains(&tf.dirs[d].ents[e].tag);
        let (mut why, mut v) = raw(t, tf.be, len);
        if date && why == "array of scalar type" {
            // date text is accepted under any declared type
            (why, v) = ("type", Val::Raw { fmt: 0, count: 1, field: [0; 4] });
        }
        if date && t.chance(1, 3) {
            let n = t.range(5, 24);
            (why, v) = ("not a date", Val::Text(t.word(n).into_bytes()));
        }
        tf.dirs[d].ents[e].val = v;
        out.push((d, e, why));
    }
    out.sort();
    out
}

fn wrap(t: &mut Tape, x: &[u8]) -> (&'static str, Vec<u8>) {
    match t.below(5) {
        0 | 1 => {
            let mut b = x.to_vec();
            b.resize(b.len().max(141), 0);
            ("tiff", b)
        }
        2 => ("jpeg", jpeg::gen_jpeg(t, Some(x), false).encode()),
        3 => ("heif", bmff::gen_heif(t, None, false).encode(Some(x)).bytes),
        _ => ("png", png::Png { chunks: vec![png::chunk(b"eXIf", x), png::chunk(b"IDAT", &[7; 100])], trailer: vec![] }.encode()),
    }
}

fn entries(t: &mut Tape, cx: &mut Cx) -> R {
    let o = GenOpts { dates: true, chain: true, big: 200, max_ents: 14, ..Default::default() };
    let mut tf = gen_tiff(t, &o);
    tf.tail.clear(); // an out-of-range offset must not land in appended bytes
    let hurt = damage(t, &mut tf);
    if hurt.is_empty() {
        return Ok(());
    }
    let enc = tf.encode();
    let bad: Vec<(usize, u16)> = hurt.iter().map(|(d, e, _)| (tf.dirs[*d].idx, tf.dirs[*d].ents[*e].tag)).collect();
    let good: Vec<Ent> = tf.expect(&enc).into_iter().filter(|g| !bad.contains(&(g.0, g.1))).collect();
    let (c, b) = wrap(t, &enc.bytes);
    cx.data(c, &b);
    cx.label(c);
    for h in &hurt {
        cx.label(h.2);
    }
    cx.nontrivial = !good.is_empty();
    let whys: Vec<String> = hurt.iter().zip(&bad).map(|(h, b)| format!("({}, {:#06x}) {}: {:?}", b.0, b.1, h.2, tf.dirs[h.0].ents[h.1].val)).collect();
    cx.sample(|| format!("{c}, {} good entries, damaged {}", good.len(), whys.join("; ")));
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem]);
    let it = match run_live(&mut MediaParser::new(), Op::Exif, mode, &a, &Default::default(), &Arc::default()).1 {
        Ok(Live::Exif(i)) => i,
        Ok(_) => unreachable!(),
        Err(e) => return fail("parse fails", format!("{c} via {mode:?} with damaged entries {}: {e}", whys.join("; "))),
    };
    let got = exif_out(&it).entries;
    let oks = sorted(got.iter().filter(|e| e.2.is_ok()).cloned().collect());
    let want = sorted(good.clone());
    for e in &want {
        ensure!(oks.contains(e), "good entry lost", "{c} via {mode:?}, damaged {}: entry {e:?} is not reported as encoded; got {:?}", whys.join("; "), got.iter().find(|g| g.0 == e.0 && g.1 == e.1));
    }
    for (i, tag) in &bad {
        let mine: Vec<_> = got.iter().filter(|g| g.0 == *i && g.1 == *tag).collect();
        ensure!(!mine.is_empty(), "damaged entry not reported", "{c} via {mode:?}, damaged {}: nothing reported for ({i}, {tag:#06x})", whys.join("; "));
        ensure!(mine.iter().all(|g| g.2.is_err()), "invented value", "{c} via {mode:?}, damaged {}: reported {mine:?}", whys.join("; "));
        ensure!(mine.len() == 1, "damaged entry reported twice", "{c} via {mode:?}, damaged {}: reported {mine:?}", whys.join("; "));
    }
    ensure!(got.len() == want.len() + bad.len(), "extra entries", "{c} via {mode:?}, damaged {}: {} reported, {} good + {} damaged encoded", whys.join("; "), got.len(), want.len(), bad.len());
    let x: Exif = it.into();
    let mut w: Vec<(usize, u16, String)> = want.iter().map(|e| (e.0, e.1, e.2.clone().unwrap())).collect();
    w.sort();
    ensure!(eager_entries(&x) == w, "eager entries", "{c} via {mode:?}, damaged {}", whys.join("; "));
    let mut e: Vec<(usize, u16)> = eager_errors(&x).into_iter().map(|e| (e.0, e.1)).collect();
    let mut wb = bad.clone();
    e.sort();
    wb.sort();
    ensure!(e == wb, "eager errors", "{c} via {mode:?}, damaged {}: errors() lists {e:x?}", whys.join("; "));
    cx.checks += 5;
    Ok(())
}

/// Directory pointers that lead nowhere take only their own directory with them.
fn pointers(t: &mut Tape, cx: &mut Cx) -> R {
    let o = GenOpts { dates: true, chain: true, big: 60, max_ents: 10, ..Default::default() };
    let mut tf = gen_tiff(t, &o);
    tf.tail.clear();
    let enc = tf.encode();
    let mut b = enc.bytes.clone();
    let w = W { be: tf.be };
    // every pointer: (directory, Some(entry)) or (directory, None) for the chain
    let mut ptrs = vec![];
    for (d, dir) in tf.dirs.iter().enumerate() {
        for (e, en) in dir.ents.iter().enumerate() {
            if matches!(en.val, Val::Ptr(_)) {
                ptrs.push((d, Some(e)));
            }
        }
        ptrs.push((d, None));
    }
    let (d, e) = *t.pick(&ptrs);
    // where it leads instead: out of the block, back to where it came from, to a directory without entries
    let way = t.below(5);
    let bogus = match way {
        0 => u32::MAX - t.below(40) as u32,
        1 => b.len().max(150) as u32 + t.below(5000) as u32,
        2 => 0x8000_0000 + t.below(9) as u32,
        3 => enc.dir_at[if t.chance(1, 2) { d } else { 0 }] as u32,
        _ => {
            b.extend([0; 6]);
            b.len() as u32 - 6
        }
    };
    let at = match e {
        Some(e) => enc.rec_at[d][e] + 8,
        None => enc.dir_at[d] + 2 + 12 * tf.dirs[d].ents.len(),
    };
    b[at..at + 4].copy_from_slice(&w.u32(bogus));
    // what is left: cut the pointed-to directory out of the model
    let mut left = tf.clone();
    let mut ptr = None;
    match e {
        Some(e) => {
            ptr = Some((tf.dirs[d].idx, tf.dirs[d].ents[e].tag));
            left.dirs[d].ents[e].val = Val::Raw { fmt: 4, count: 1, field: [0; 4] };
        }
        None => left.dirs[d].next = None,
    }
    let want = sorted(left.expect(&enc));
    let (c, b) = wrap(t, &b);
    cx.data(c, &b);
    cx.label(c);
    cx.label(["beyond any file", "beyond the block", "in the upper half", "back", "empty directory"][way]);
    cx.label(if e.is_some() { "sub-directory pointer" } else { "chain pointer" });
    cx.nontrivial = !want.is_empty();
    cx.sample(|| format!("{c}, directory {d} entry {e:?} points to {bogus:#x}, {} entries elsewhere", want.len()));
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek]);
    let it = match run_live(&mut MediaParser::new(), Op::Exif, mode, &a, &Default::default(), &Arc::default()).1 {
        Ok(Live::Exif(i)) => i,
        Ok(_) => unreachable!(),
        Err(e) => return fail("parse fails", format!("{c} via {mode:?}, directory {d} entry {e:?} points to {bogus:#x}: {e}")),
    };
    let got = exif_out(&it).entries;
    let rest = sorted(got.iter().filter(|g| Some((g.0, g.1)) != ptr).cloned().collect());
    ensure!(rest == want, "entries beside a bad pointer", "{c} via {mode:?}, directory {d} entry {e:?} points to {bogus:#x}: {}", super::c06::ent_diff(&want, &rest));
    if let Some(p) = ptr {
        let mine: Vec<_> = got.iter().filter(|g| (g.0, g.1) == p).collect();
        ensure!(mine.len() == 1, "bad pointer not reported once", "{c} via {mode:?}: {mine:?}");
    }
    cx.checks += 2;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "an EXIF block with at least one malformed and one sound entry; distinct by file bytes",
        level: "exploration",
        assumptions: &["the damaged entries are not directory pointers, and the tag is not 0 in a main directory (the library's end mark)"],
        subs: vec![Sub { name: "entries", drive: Drive::Random, quick: 1_100_000, thorough: 13_200_000, tape: 450, f: entries },
            Sub { name: "pointers", drive: Drive::Random, quick: 570_000, thorough: 6_840_000, tape: 400, f: pointers }],
    }
}
