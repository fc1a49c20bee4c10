//! GPS: the position reported equals the GPS entries encoded.
use crate::build::tiff::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

fn rat(t: &mut Tape) -> (u32, u32) {
    match t.below(5) {
        0 => (t.below(60) as u32, 1),
        1 => (t.below(6000) as u32, 100),
        2 => (t.below(60_000_000) as u32, 1_000_000),
        3 => (t.int32(), t.int32()),
        _ => (t.u32(), t.u32() | 1),
    }
}
fn coord(t: &mut Tape, signed: bool) -> (Val, [(u32, u32); 3]) {
    let mut v = [rat(t), rat(t), rat(t)];
    if signed {
        for x in &mut v {
            x.0 &= 0x7fff_ffff;
            x.1 &= 0x7fff_ffff;
        }
        return (Val::IRat(v.iter().map(|x| (x.0 as i32, x.1 as i32)).collect()), v);
    }
    (Val::URat(v.to_vec()), v)
}
fn ch(c: char, t: &mut Tape) -> Val {
    let c = if t.chance(1, 6) { c.to_ascii_lowercase() } else { c };
    Val::Text(if t.chance(5, 6) { vec![c as u8, 0] } else { vec![c as u8] })
}

/// Adds a GPS directory to a TIFF model; returns the canonical position.
pub fn add_gps(t: &mut Tape, tf: &mut Tiff) -> String {
    let mut ents = vec![];
    let fmt3 = |v: &[(u32, u32); 3]| v.iter().map(|r| format!("{}/{}", r.0, r.1)).collect::<Vec<_>>().join(" ");
    let dflt = fmt3(&[(0, 0); 3]);
    let _ = dflt;
    let lat_r = if t.chance(1, 2) { 'S' } else { 'N' };
    let lon_r = if t.chance(1, 2) { 'W' } else { 'E' };
    let (sa, so) = (t.chance(1, 6), t.chance(1, 6));
    let (lav, la) = coord(t, sa);
    let (lov, lo) = coord(t, so);
    ents.push(Entry { tag: 1, val: ch(lat_r, t) });
    ents.push(Entry { tag: 2, val: lav });
    ents.push(Entry { tag: 3, val: ch(lon_r, t) });
    ents.push(Entry { tag: 4, val: lov });
    let mut alt = "?".to_string();
    let has_alt = t.chance(2, 3);
    if has_alt {
        let below = t.chance(1, 3);
        let mut a = rat(t);
        if t.chance(1, 6) {
            a = (a.0 & 0x7fff_ffff, a.1 & 0x7fff_ffff);
            ents.push(Entry { tag: 6, val: Val::IRat(vec![(a.0 as i32, a.1 as i32)]) });
        } else {
            ents.push(Entry { tag: 6, val: Val::URat(vec![a]) });
        }
        ents.push(Entry { tag: 5, val: Val::U8(vec![below as u8]) });
        alt = format!("{}{}/{}", if below { '-' } else { '+' }, a.0, a.1);
    }
    let mut speed = "none".to_string();
    if t.chance(1, 2) {
        let (c, name) = *t.pick(&[('K', "KmPerHour"), ('M', "MilesPerHour"), ('N', "Knots")]);
        let mut s = rat(t);
        ents.push(Entry { tag: 12, val: ch(c, t) });
        if t.chance(1, 4) {
            s = (s.0 & 0x7fff_ffff, s.1 & 0x7fff_ffff);
            ents.push(Entry { tag: 13, val: Val::IRat(vec![(s.0 as i32, s.1 as i32)]) });
        } else {
            ents.push(Entry { tag: 13, val: Val::URat(vec![s]) });
        }
        speed = format!("{name} {}/{}", s.0, s.1);
    }
    // other GPS entries
    if t.chance(2, 3) {
        ents.insert(0, Entry { tag: 0, val: Val::U8(vec![2, 3, 0, 0]) });
    }
    if t.chance(1, 3) {
        ents.push(Entry { tag: 7, val: Val::URat(vec![(1, 1), (2, 1), (3, 1)]) });
    }
    if t.chance(1, 3) {
        ents.push(Entry { tag: 29, val: Val::Text(b"2024:01:02\0".to_vec()) });
    }
    if t.chance(1, 4) {
        ents.push(Entry { tag: 16, val: ch('T', t) });
        ents.push(Entry { tag: 17, val: Val::URat(vec![rat(t)]) });
    }
    if t.chance(1, 4) {
        let v = t.word(9).into_bytes();
        ents.push(Entry { tag: 27, val: Val::Undef(v) });
    }
    if t.chance(1, 4) {
        ents.push(Entry { tag: t.range(40_000, 50_000) as u16, val: Val::U16(vec![3]) });
    }
    if t.chance(1, 2) {
        t.shuffle(&mut ents);
    }
    let d = tf.dirs.len();
    tf.dirs.push(Dir { idx: 0, ents, next: None });
    // pointer from IFD0 or from the EXIF directory
    let exif = tf.dirs[0].ents.iter().find_map(|e| match e.val {
        Val::Ptr(p) if e.tag == EXIF_PTR => Some(p),
        _ => None,
    });
    let par = match exif {
        Some(p) if t.chance(1, 6) => p,
        _ => 0,
    };
    let n = tf.dirs[par].ents.len();
    let k = n - t.below(n + 1);
    tf.dirs[par].ents.insert(k, Entry { tag: GPS_PTR, val: Val::Ptr(d) });
    format!("{lat_r}({}) {lon_r}({}) alt {alt} speed {speed}", fmt3(&la), fmt3(&lo))
}

fn no_gps_tiff(t: &mut Tape) -> Tiff {
    let mut tf = gen_tiff(t, &GenOpts { dates: true, chain: false, big: 60, max_ents: 8, ..Default::default() });
    // drop generated GPS directories (kept in the table, but unreferenced)
    for d in &mut tf.dirs {
        d.ents.retain(|e| e.tag != GPS_PTR);
    }
    tf
}

fn wrap(t: &mut Tape, tiff: &[u8]) -> (&'static str, Vec<u8>) {
    match t.below(6) {
        0 => {
            let mut x = tiff.to_vec();
            if x.len() <= 140 {
                x.resize(141, 0);
            }
            ("tiff", x)
        }
        1 => ("jpeg", jpeg::gen_jpeg(t, Some(tiff), false).encode()),
        2 => ("heif", bmff::gen_heif(t, None, false).encode(Some(tiff)).bytes),
        3 => ("png", {
            let p = png::Png { chunks: vec![png::chunk(b"eXIf", tiff), png::chunk(b"IDAT", &[0; 100])], trailer: vec![] };
            p.encode()
        }),
        4 => {
            let j = jpeg::gen_jpeg(t, Some(tiff), false).encode();
            ("raf", raf::raf(t, &j, false))
        }
        _ => ("cr3", bmff::cr3(t, tiff, None, false)),
    }
}

fn model(t: &mut Tape, cx: &mut Cx) -> R {
    let mut tf = no_gps_tiff(t);
    let with = !t.chance(1, 10);
    let mut expect = if with { Some(add_gps(t, &mut tf)) } else { None };
    if with && t.chance(1, 10) {
        // without a latitude or a longitude there is no position
        let d = tf.dirs.last_mut().unwrap();
        let tag = 2 * t.range(1, 2) as u16;
        match t.below(3) {
            0 => d.ents.retain(|e| e.tag != tag),
            1 => d.ents.retain(|e| ![1, 2, 3, 4].contains(&e.tag)),
            _ => {
                let n = t.range(1, 2);
                for e in d.ents.iter_mut().filter(|e| e.tag == tag) {
                    match &mut e.val {
                        Val::URat(v) => v.truncate(n),
                        _ => e.val = Val::URat(vec![(1, 1); n]),
                    }
                }
            }
        }
        if d.ents.is_empty() {
            d.ents.push(Entry { tag: 29, val: Val::Text(b"2024:01:02\0".to_vec()) });
        }
        expect = None;
        cx.label("no position");
    }
    let enc = tf.encode();
    let (c, bytes) = wrap(t, &enc.bytes);
    cx.data(c, &bytes);
    cx.label(c);
    cx.nontrivial = with;
    cx.sample(|| format!("{c}, {} bytes, {} encodes {expect:?}", bytes.len(), if tf.be { "BE" } else { "LE" }));
    let a = Arc::new(bytes);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek]);
    let mut p = MediaParser::new();
    let (_, l) = run_live(&mut p, Op::Exif, mode, &a, &Default::default(), &Arc::default());
    let it = match l {
        Ok(Live::Exif(i)) => i,
        Ok(_) => unreachable!(),
        Err(e) => return fail("exif fails", format!("{c} via {mode:?}: {e}")),
    };
    let lazy = match it.parse_gps() {
        Ok(g) => g.as_ref().map(canon_gps),
        Err(e) => return fail("gps fails", format!("{c} via {mode:?}: encoded {expect:?}, got error {e}")),
    };
    ensure!(lazy == expect, "gps value", "{c} via {mode:?}: encoded {expect:?}, lazy form reports {lazy:?}");
    let g2 = it.parse_gps().ok().flatten();
    let x: Exif = it.into();
    let eager = x.gps_info().map(canon_gps);
    ensure!(eager == expect, "gps value eager", "{c} via {mode:?}: encoded {expect:?}, eager form reports {eager:?}");
    // decimal and ISO renderings denote that very position
    if let Some(g) = g2 {
        let dec = super::c12::canon_decimal(expect.as_ref().unwrap());
        if let Some((la, lo, al)) = dec {
            let ok = |r: Option<f64>, w: f64| if w.is_finite() { r.is_some_and(|r| (r - w).abs() <= 1e-9 * (1.0 + w.abs())) } else { r.is_none() };
            ensure!(ok(g.latitude_decimal(), la), "latitude decimal", "{expect:?}: {:?}", g.latitude_decimal());
            ensure!(ok(g.longitude_decimal(), lo), "longitude decimal", "{expect:?}: {:?}", g.longitude_decimal());
            if let Some(al) = al {
                ensure!(ok(g.altitude_meters(), al), "altitude", "{expect:?}: {:?}", g.altitude_meters());
            } else {
                ensure!(g.altitude_meters().is_none(), "altitude", "{expect:?}: {:?}", g.altitude_meters());
            }
            if la.abs() < 89.999 && lo.abs() < 179.999 {
                let s = g.to_iso6709();
                let e = super::c12::iso_decimal(&s);
                ensure!(
                    e.is_some_and(|e| (e.0 - la).abs() < 5.1e-6 && (e.1 - lo).abs() < 5.1e-6),
                    "iso rendering", "{expect:?} rendered as {s}"
                );
                let (ra, wa) = (e.unwrap().2.unwrap_or(0.0), al.filter(|a| a.is_finite()).unwrap_or(0.0));
                ensure!((ra - wa).abs() <= 5.1e-4 + 1e-12 * wa.abs(), "iso altitude", "{expect:?} rendered as {s}");
                cx.label("rendered");
            }
        }
    }
    cx.checks += 3;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "an image whose GPS directory holds at least latitude and longitude, parsed from one container and source mode; distinct by file bytes",
        level: "exploration",
        assumptions: &["hemisphere, altitude and speed references are valid; coordinates have three components"],
        subs: vec![Sub { name: "model", drive: Drive::Random, quick: 1_200_000, thorough: 14_400_000, tape: 220, f: model }],
    }
}
