//! Every supported directory entry decodes to exactly what the file encodes.
use crate::build::tiff::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

pub fn ent_diff(want: &[Ent], got: &[Ent]) -> String {
    let (w, g) = (sorted(want.to_vec()), sorted(got.to_vec()));
    let miss: Vec<_> = w.iter().filter(|e| !g.contains(e)).take(3).map(|e| crate::clip(&format!("{e:?}"), 200)).collect();
    let extra: Vec<_> = g.iter().filter(|e| !w.contains(e)).take(3).map(|e| crate::clip(&format!("{e:?}"), 200)).collect();
    if miss.is_empty() && extra.is_empty() && w != g {
        return format!("multiplicity differs: {} encoded, {} reported", w.len(), g.len());
    }
    format!("missing {miss:?}; not encoded {extra:?}")
}

fn model(t: &mut Tape, cx: &mut Cx) -> R {
    let o = GenOpts { dates: true, chain: true, big: 600, max_ents: 24, ..Default::default() };
    let tf = gen_tiff(t, &o);
    judge(t, cx, tf)
}

/// A directory with as many entries as a directory can have, or nearly.
fn full(t: &mut Tape, cx: &mut Cx) -> R {
    let o = GenOpts { dates: false, chain: true, big: 60, max_ents: 6, ..Default::default() };
    let mut tf = gen_tiff(t, &o);
    let d = t.below(tf.dirs.len());
    let idx = tf.dirs[d].idx;
    let n = 65535 - t.below(3);
    let used: std::collections::HashSet<u16> =
        tf.dirs.iter().filter(|x| x.idx == idx).flat_map(|x| x.ents.iter().map(|e| e.tag)).collect();
    // the tags of the other directories of the same index stay theirs
    let room = n.saturating_sub(tf.dirs[d].ents.len());
    let v = t.u16();
    let from = t.below(60_000) as u16;
    let mut tags = (0..65535u32).map(|k| 1 + ((k + from as u32) % 65535) as u16);
    let mut add = vec![];
    while add.len() < room {
        let Some(tag) = tags.next() else { break };
        if !used.contains(&tag) && tag != EXIF_PTR && tag != GPS_PTR && !DATE_TAGS.contains(&tag) && !OFFSET_TAGS.contains(&tag) {
            add.push(Entry { tag, val: Val::U16(vec![tag ^ v]) });
        }
    }
    // what is short is made up with entries that are reported once only
    let once = tf.dirs[d].ents.len() + add.len();
    for _ in once..n {
        add.push(Entry { tag: add[0].tag, val: add[0].val.clone() });
    }
    let at = if t.chance(1, 2) { 0 } else { tf.dirs[d].ents.len() };
    tf.dirs[d].ents.splice(at..at, add);
    tf.gaps.clear();
    cx.label(format!("{} entries", tf.dirs[d].ents.len()));
    judge(t, cx, tf)
}

/// Entries of more values than 16 bits count.
fn long(t: &mut Tape, cx: &mut Cx) -> R {
    let o = GenOpts { dates: false, chain: true, big: 60, max_ents: 6, ..Default::default() };
    let mut tf = gen_tiff(t, &o);
    let d = t.below(tf.dirs.len());
    let n = match t.below(4) {
        0 => t.range(65_530, 65_545),
        1 => t.range(32_760, 32_775),
        2 => t.range(131_065, 131_080),
        _ => t.range(60_000, 140_000),
    };
    let (a, k) = (t.u32(), t.u32() | 1);
    let mut x = a;
    let mut next = || {
        x = x.wrapping_mul(1_664_525).wrapping_add(k);
        x ^ x >> 15
    };
    let val = match t.below(7) {
        0 => Val::U8((0..n).map(|_| next() as u8).collect()),
        1 => Val::Text((0..n).map(|i| if i + 1 < n { b'a' + (next() % 26) as u8 } else { 0 }).collect()),
        2 => Val::U16((0..n).map(|_| next() as u16).collect()),
        3 => Val::U32((0..n).map(|_| next()).collect()),
        4 => Val::URat((0..n).map(|_| (next(), next())).collect()),
        5 => Val::IRat((0..n).map(|_| (next() as i32, next() as i32)).collect()),
        _ => Val::Undef((0..n).map(|_| next() as u8).collect()),
    };
    let idx = tf.dirs[d].idx;
    let tag = (1..=65_535u16)
        .map(|x| x.wrapping_add(a as u16))
        .find(|x| {
            *x != 0
                && ![EXIF_PTR, GPS_PTR].contains(x)
                && !DATE_TAGS.contains(x)
                && !OFFSET_TAGS.contains(x)
                && !tf.dirs.iter().any(|d| d.idx == idx && d.ents.iter().any(|e| e.tag == *x))
        })
        .unwrap();
    cx.label(format!("format {}", val.fmt()));
    let at = t.below(tf.dirs[d].ents.len() + 1);
    tf.dirs[d].ents.insert(at, Entry { tag, val });
    tf.gaps.clear();
    judge(t, cx, tf)
}

fn judge(t: &mut Tape, cx: &mut Cx, tf: Tiff) -> R {
    let enc = tf.encode();
    let mut b = enc.bytes.clone();
    if b.len() <= 140 {
        b.resize(141, 0);
    }
    let mut want = tf.expect(&enc);
    let mut seen = std::collections::HashSet::new();
    want.retain(|e| seen.insert((e.0, e.1)));
    cx.data("tiff", &b);
    cx.nontrivial = tf.n_entries() >= 3;
    cx.label(if tf.be { "big-endian" } else { "little-endian" });
    cx.label(format!("layout {}", tf.layout));
    cx.label_if(tf.dirs.iter().any(|d| d.idx > 0), "thumbnail chain");
    cx.label_if(tf.dirs[0].ents.iter().any(|e| e.tag == EXIF_PTR), "exif directory");
    for d in &tf.dirs {
        for e in &d.ents {
            cx.label(format!("type {}{}", e.val.fmt(), if e.val.count() == 1 { "" } else { " array" }));
        }
    }
    cx.sample(|| format!("{} bytes, {} directories, {} entries, layout {}", b.len(), tf.dirs.len(), want.len(), tf.layout));
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem]);
    let mut p = MediaParser::new();
    let (_, l) = run_live(&mut p, Op::Exif, mode, &a, &Default::default(), &Arc::default());
    let it = match l {
        Ok(Live::Exif(i)) => i,
        Ok(_) => unreachable!(),
        Err(e) => return fail("parse fails", format!("well-formed TIFF of {} bytes via {mode:?}: {e}", a.len())),
    };
    let got = exif_out(&it).entries;
    ensure!(sorted(got.clone()) == sorted(want.clone()), "lazy entries", "via {mode:?}: {}", ent_diff(&want, &got));
    // the eager form: looked up by number and listed
    let x: Exif = it.into();
    let mut w: Vec<(usize, u16, String)> = want.iter().map(|e| (e.0, e.1, e.2.clone().unwrap())).collect();
    w.sort();
    let e = eager_entries(&x);
    ensure!(e == w, "eager entries", "via {mode:?}: eager form lists {} entries, {} encoded; first difference {:?}", e.len(), w.len(), w.iter().zip(&e).find(|(a, b)| a != b));
    ensure!(x.errors().is_empty(), "errors", "well-formed block but errors() = {:?}", eager_errors(&x));
    for (i, c, v) in &w {
        let g = x.get_by_code(IfdIndex::new(*i), *c).map(canon);
        ensure!(g.as_ref() == Some(v), "lookup", "entry ({i}, {c:#06x}) is {v}, lookup by code gives {g:?}");
    }
    cx.checks += 3 + w.len() as u64;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a TIFF block with at least three entries; distinct by file bytes",
        level: "exploration",
        assumptions: &["well-formed: directories and values do not overlap, (directory index, tag) pairs are unique, signed and floating types have count 1, as the library documents"],
        subs: vec![
            Sub { name: "model", drive: Drive::Random, quick: 1_100_000, thorough: 13_200_000, tape: 500, f: model },
            Sub { name: "full", drive: Drive::Random, quick: 160, thorough: 3_000, tape: 300, f: full },
            Sub { name: "long", drive: Drive::Random, quick: 1_600, thorough: 30_000, tape: 300, f: long },
        ],
    }
}
