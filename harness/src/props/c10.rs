//! Dates combine with their own UTC offset first, whatever the entry order.
use crate::build::tiff::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

/// An offset entry: (text, the offset in minutes if the text is a valid one).
fn offset(t: &mut Tape) -> (Vec<u8>, Option<i32>) {
    if t.chance(3, 4) {
        let m = match t.below(3) {
            0 => t.range(0, 14) as i32 * 60,
            1 => t.range(0, 56) as i32 * 15,
            _ => t.range(0, 14 * 60) as i32,
        };
        let neg = t.chance(1, 2);
        let s = format!("{}{:02}:{:02}", if neg { '-' } else { '+' }, m / 60, m % 60);
        return (s.into_bytes(), Some(if neg { -m } else { m }));
    }
    let s: &[u8] = t.pick(&[&b"   :  "[..], b"", b"abc", b"+99:99", b"::::::", b"+0x:00", b"\xff\xfe", b"+08:60", b"+:", b"\xc3\xa9", b"    "]);
    (s.to_vec(), None)
}

const PAIRS: [(u16, u16, &str); 3] = [(0x9003, 0x9011, "original"), (0x9004, 0x9012, "digitized"), (0x0132, 0x9010, "modified")];

struct M {
    /// directory of each date entry: (dir index, tag, text)
    dates: Vec<(usize, u16, String)>,
    offs: [Option<(Vec<u8>, Option<i32>)>; 3],
}

fn want(m: &M, tag: u16, date: &str) -> Vec<String> {
    let k = PAIRS.iter().position(|p| p.0 == tag).unwrap();
    let naive = date_expect(&Val::Text(date.as_bytes().to_vec())).unwrap();
    let aware = |min: i32| {
        let a = min.abs();
        let n = naive.strip_prefix("Naive").unwrap();
        format!("{}{}{:02}:{:02})", &n[..n.len() - 1], if min < 0 { '-' } else { '+' }, a / 60, a % 60)
    };
    match &m.offs[k] {
        Some((_, Some(o))) => vec![aware(*o)],
        Some((_, None)) => vec![naive],
        None => {
            // no offset of its own: another one of the file may stand in
            let valid: Vec<i32> = m.offs.iter().flatten().filter_map(|o| o.1).collect();
            let any_bad = m.offs.iter().flatten().any(|o| o.1.is_none());
            let mut v: Vec<String> = valid.iter().map(|o| aware(*o)).collect();
            if v.is_empty() || any_bad {
                v.push(naive);
            }
            v
        }
    }
}

fn text(s: &[u8], t: &mut Tape) -> Val {
    let mut v = s.to_vec();
    if v.is_empty() || t.chance(4, 5) {
        v.push(0);
    }
    Val::Text(v)
}

fn gen(t: &mut Tape) -> (Tiff, M) {
    let mut tf = Tiff { be: t.chance(1, 2), ..Tiff::default() };
    let mut m = M { dates: vec![], offs: [None, None, None] };
    let noise = |t: &mut Tape, k: u16| Entry { tag: 50_000 + k, val: gen_val(t, 40) };
    let mut ifd0 = vec![];
    let mut exif = vec![];
    let n = t.below(4);
    for k in 0..n {
        let e = noise(t, k as u16);
        if t.chance(1, 2) { ifd0.push(e) } else { exif.push(e) }
    }
    let put = |t: &mut Tape, to: &mut Vec<Entry>, m: &mut M, idx: usize, tag: u16| {
        let d = gen_date(t);
        to.push(Entry { tag, val: text(d.as_bytes(), t) });
        m.dates.push((idx, tag, d));
    };
    for (tag, off, _) in PAIRS {
        if t.chance(3, 4) {
            put(t, if tag == 0x0132 { &mut ifd0 } else { &mut exif }, &mut m, 0, tag);
        }
        if t.chance(2, 3) {
            let o = offset(t);
            exif.push(Entry { tag: off, val: text(&o.0, t) });
            let k = PAIRS.iter().position(|p| p.1 == off).unwrap();
            m.offs[k] = Some(o);
        }
    }
    if exif.is_empty() {
        exif.push(noise(t, 99));
    }
    match t.below(3) {
        0 => {}
        1 => t.shuffle(&mut exif),
        _ => exif.sort_by_key(|e| e.tag),
    }
    t.shuffle(&mut ifd0);
    let at = t.below(ifd0.len() + 1);
    ifd0.insert(at, Entry { tag: EXIF_PTR, val: Val::Ptr(1) });
    tf.dirs.push(Dir { idx: 0, ents: ifd0, next: None });
    tf.dirs.push(Dir { idx: 0, ents: exif, next: None });
    if t.chance(1, 3) {
        let mut v = vec![noise(t, 70)];
        put(t, &mut v, &mut m, 1, 0x0132);
        tf.dirs.push(Dir { idx: 1, ents: v, next: None });
        tf.dirs[0].next = Some(2);
    }
    tf.layout = t.below(3) as u8;
    if tf.layout == 2 {
        tf.order = (0..16).map(|_| t.u32()).collect();
    }
    tf.align = t.chance(1, 2);
    (tf, m)
}

fn parse(c: &str, a: &Arc<Vec<u8>>, mode: Mode) -> std::result::Result<ExifIter, Fail> {
    match run_live(&mut MediaParser::new(), Op::Exif, mode, a, &Default::default(), &Arc::default()).1 {
        Ok(Live::Exif(i)) => Ok(i),
        Ok(_) => unreachable!(),
        Err(e) => fail("parse fails", format!("{c} via {mode:?}: {e}")),
    }
}

fn check(cx: &mut Cx, c: &str, it: ExifIter, m: &M) -> R {
    let got = exif_out(&it).entries;
    let x: Exif = it.into();
    let offs: Vec<String> = PAIRS.iter().zip(&m.offs).filter_map(|(p, o)| o.as_ref().map(|o| format!("{}={:?}", p.2, String::from_utf8_lossy(&o.0)))).collect();
    for (idx, tag, d) in &m.dates {
        let g = got.iter().find(|e| e.0 == *idx && e.1 == *tag).map(|e| e.2.clone());
        let w = want(m, *tag, d);
        cx.checks += 1;
        let good = matches!(&g, Some(Ok(v)) if w.contains(v));
        let sig = if matches!(&g, Some(Ok(v)) if v.starts_with("Naive")) && c == "cr3-cmt2" { "cr3 date without its offset" } else { "date" };
        ensure!(good, sig, "{c}: date ({idx}, {tag:#06x}) {d:?} with offsets {offs:?}: expected one of {w:?}, reported {g:?}");
        let e = x.get_by_code(IfdIndex::new(*idx), *tag).map(canon);
        ensure!(e == g.clone().and_then(|g| g.ok()), "eager date", "{c}: lazy {g:?}, eager {e:?}");
        // the typed accessor tells the same moment
        let dt = x.get_by_code(IfdIndex::new(*idx), *tag).and_then(|v| v.as_datetime());
        let s = match dt {
            Some(ExifDateTime::Aware(a)) => format!("DateTime({})", a.format("%Y-%m-%dT%H:%M:%S%:z")),
            Some(ExifDateTime::Naive(n)) => format!("NaiveDateTime({})", n.format("%Y-%m-%dT%H:%M:%S")),
            None => "none".into(),
        };
        ensure!(Some(&s) == e.as_ref(), "accessor", "{c}: value {e:?}, as_datetime {s}");
    }
    // the offset entries themselves are still listed as encoded
    for (p, o) in PAIRS.iter().zip(&m.offs) {
        if let Some((s, _)) = o {
            let g = got.iter().find(|e| e.0 == 0 && e.1 == p.1).map(|e| e.2.clone());
            ensure!(g == Some(Ok(format!("Text({:?})", text_of(s)))), "offset entry", "{c}: {} offset {s:?} reported as {g:?}", p.2);
        }
    }
    Ok(())
}

fn dates(t: &mut Tape, cx: &mut Cx) -> R {
    let (tf, m) = gen(t);
    let b = tf.encode().bytes;
    let c = *t.pick(&["tiff", "jpeg", "heif", "png", "raf", "png-exif"]);
    let f = super::c07::contain(t, c, &b, false);
    cx.data(c, &f);
    cx.label(c);
    cx.nontrivial = !m.dates.is_empty();
    let nv = m.offs.iter().flatten().filter(|o| o.1.is_some()).count();
    cx.label(format!("{nv} valid offsets"));
    cx.label_if(m.offs.iter().flatten().any(|o| o.1.is_none()), "malformed offset");
    cx.label_if(m.offs.iter().flatten().map(|o| o.1).collect::<std::collections::HashSet<_>>().len() > 1, "different offsets");
    cx.sample(|| format!("{c}: dates {:?} offsets {:?}", m.dates, m.offs.iter().map(|o| o.as_ref().map(|o| String::from_utf8_lossy(&o.0).to_string())).collect::<Vec<_>>()));
    let a = Arc::new(f);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem]);
    check(cx, c, parse(c, &a, mode)?, &m)?;
    // the same entries in another order and layout
    let mut g = tf.clone();
    for d in &mut g.dirs {
        t.shuffle(&mut d.ents);
    }
    g.layout = t.below(3) as u8;
    g.order = (0..16).map(|_| t.u32()).collect();
    g.be = t.chance(1, 2);
    let mut b2 = g.encode().bytes;
    b2.resize(b2.len().max(141), 0);
    cx.data("reordered", &b2);
    let pick = |it: &ExifIter| -> Vec<Ent> { sorted(exif_out(it).entries.into_iter().filter(|e| DATE_TAGS.contains(&e.1)).collect()) };
    let (one, two) = (pick(&parse(c, &a, mode)?), pick(&parse("reordered", &Arc::new(b2), Mode::Mem)?));
    cx.checks += 1;
    ensure!(one == two, "order matters", "{c}: {one:?}; same entries in another order: {two:?}");
    Ok(())
}

/// CR3 keeps its Exif directory in a block of its own.
fn cr3(t: &mut Tape, cx: &mut Cx) -> R {
    let (mut tf, mut m) = gen(t);
    let mut exif = tf.dirs.remove(1);
    tf.dirs.truncate(1);
    tf.dirs[0].ents.retain(|e| e.tag != EXIF_PTR && e.tag != 0x0132);
    tf.dirs[0].ents.push(Entry { tag: 0x010f, val: Val::Text(b"Canon\0".to_vec()) });
    tf.dirs[0].next = None;
    m.dates.retain(|d| d.1 != 0x0132);
    exif.ents.retain(|e| e.tag < 50_000);
    if exif.ents.is_empty() {
        return Ok(());
    }
    let c2 = Tiff { be: tf.be, dirs: vec![exif], ..Tiff::default() };
    let f = bmff::cr3(t, &tf.encode().bytes, Some(&c2.encode().bytes), false);
    cx.data("cr3", &f);
    cx.nontrivial = !m.dates.is_empty();
    cx.sample(|| format!("dates {:?}", m.dates));
    check(cx, "cr3-cmt2", parse("cr3", &Arc::new(f), Mode::Mem)?, &m)
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "an EXIF block with at least one date entry; distinct by file bytes",
        level: "exploration",
        assumptions: &["a date without an offset entry of its own may take another valid offset of the file, in which case which one does not depend on entry order", "an offset is valid when it is a sign, two digits below 15, a colon and two digits below 60"],
        subs: vec![
            Sub { name: "dates", drive: Drive::Random, quick: 990_000, thorough: 11_880_000, tape: 300, f: dates },
            Sub { name: "cr3", drive: Drive::Random, quick: 160_000, thorough: 1_920_000, tape: 250, f: cr3 },
        ],
    }
}
