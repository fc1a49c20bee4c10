//! ISO base-media tracks: the metadata reported equals the metadata encoded.
use super::common::*;
use crate::build::bmff::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::tape::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Mp4 {
    pub bytes: Vec<u8>,
    pub expect: BTreeMap<String, String>,
    /// floor of the duration in ms
    pub dur_ms: Option<u128>,
    pub gps: Option<String>,
    pub feats: Vec<&'static str>,
    pub moov_at: usize,
    pub moov_end: usize,
}

pub fn brand(t: &mut Tape) -> ([u8; 4], Vec<[u8; 4]>) {
    const M: [&[u8; 4]; 14] = [
        b"mp42", b"isom", b"qt  ", b"mp41", b"3gp4", b"3gp5", b"3gp6", b"3g2a", b"3g2b", b"iso2", b"avc1", b"XAVC", b"3gs7", b"mqt ",
    ];
    let major = **t.pick(&M);
    let n = t.below(4);
    let compat = (0..n).map(|_| if &major == b"qt  " || &major == b"mqt " { *b"qt  " } else { **t.pick(&[b"isom", b"mp42", b"mp41", b"iso2", b"avc1"]) }).collect();
    (major, compat)
}

pub fn iso6709(t: &mut Tape) -> String {
    let mut s = String::new();
    let lat = t.below(900_000) as f64 / 10_000.0;
    let lon = t.below(1_800_000) as f64 / 10_000.0;
    s.push(if t.chance(1, 2) { '-' } else { '+' });
    s.push_str(&format!("{lat:07.4}"));
    s.push(if t.chance(1, 2) { '-' } else { '+' });
    s.push_str(&format!("{lon:08.4}"));
    if t.chance(1, 2) {
        let alt = t.below(9_000_000) as f64 / 1000.0;
        s.push(if t.chance(1, 4) { '-' } else { '+' });
        s.push_str(&format!("{alt:07.3}"));
    }
    s.push('/');
    s
}

pub fn gen(t: &mut Tape, big: bool) -> Mp4 {
    let (maj, compat) = brand(t);
    gen_with(t, big, ftyp(&maj, 0, &compat))
}

pub fn gen_with(t: &mut Tape, big: bool, head: Vec<u8>) -> Mp4 {
    let mut feats = vec![];
    let mut expect = BTreeMap::new();
    let mut gps = None;
    let ver = if t.chance(1, 5) { 1 } else { 0 };
    let scale = *t.pick(&[1000u32, 600, 1, 90_000, 44_100, 30_000, 24_000, 12_800, 1_000_000]);
    let dur = match t.below(4) {
        0 => t.below(1_000_000) as u64,
        1 => t.u32() as u64 & 0xffff_fff0,
        2 => scale as u64 * t.below(100_000) as u64 & 0xffff_ffff,
        _ if ver == 1 => t.u64() >> 24,
        _ => t.below(60_000) as u64,
    };
    let unknown = t.chance(1, 30);
    let dur = if unknown { if ver == 1 { u64::MAX } else { u32::MAX as u64 } } else { dur };
    let ctime = match t.below(if ver == 1 { 4 } else { 3 }) {
        3 => (1 << 32) + t.u64() % (255_485_145_599 - (1 << 32)),
        0 => 3_786_000_000 + t.below(100_000_000) as u64,
        1 => t.u32() as u64,
        _ => 2_082_844_800 + t.below(1_700_000_000) as u64,
    };
    if ver == 1 {
        feats.push("mvhd-v1");
    }
    let mv = mvhd(&Mvhd { ver, ctime, scale, dur });
    if unknown {
        feats.push("no-duration");
    }
    let dur_ms = (!unknown).then_some(dur as u128 * 1000 / scale as u128);
    let epoch = chrono::DateTime::from_timestamp(ctime as i64 - 2_082_844_800, 0).unwrap();
    expect.insert("CreateDate".to_string(), format!("DateTime({}+00:00)", epoch.format("%Y-%m-%dT%H:%M:%S")));
    // metadata
    let mut meta_entries: Vec<(String, u32, Vec<u8>)> = vec![];
    let text = |t: &mut Tape| -> String {
        match t.below(3) {
            0 => {
                let n = t.range(1, 24);
                t.word(n)
            }
            1 => {
                let n = t.range(1, 60);
                t.ascii(n)
            }
            _ => t.fill(6).iter().map(|b| char::from_u32(0x4e00 + *b as u32).unwrap()).collect(),
        }
    };
    let has_meta = t.chance(1, 2);
    if has_meta {
        for (k, tag) in [("make", "Make"), ("model", "Model"), ("software", "Software"), ("author", "Author")] {
            if t.chance(2, 3) {
                let (ty, shown, v) = if t.chance(1, 4) {
                    feats.push("ilst-number");
                    number(t)
                } else {
                    let v = if t.chance(1, 12) { String::new() } else { text(t) };
                    (1, format!("Text({v:?})"), v.into_bytes())
                };
                expect.insert(tag.into(), shown);
                meta_entries.push((format!("com.apple.quicktime.{k}"), ty, v));
            }
        }
        if t.chance(1, 2) {
            let v = iso6709(t);
            expect.insert("GpsIso6709".into(), format!("Text({v:?})"));
            gps = Some(v.clone());
            meta_entries.push(("com.apple.quicktime.location.ISO6709".into(), 1, v.into_bytes()));
        }
        if t.chance(1, 2) {
            let d = crate::build::tiff::gen_date(t);
            let d = format!("{:04}{}", d[..4].parse::<u32>().unwrap().max(1), &d[4..]);
            let (h, m) = (t.below(14), *t.pick(&[0, 30, 45]));
            let sg = if t.chance(1, 2) { '-' } else { '+' };
            let day = format!("{}-{}-{}T{}", &d[..4], &d[5..7], &d[8..10], &d[11..]);
            let colon = if t.chance(1, 2) { ":" } else { "" };
            let zone = format!("{sg}{h:02}{colon}{m:02}");
            let sg = if h == 0 && m == 0 { '+' } else { sg };
            let shown = format!("{sg}{h:02}:{m:02}");
            // UTC by name, and fractions of a second
            let (zone, shown) = if t.chance(1, 8) { ("Z".to_string(), "+00:00".to_string()) } else { (zone, shown) };
            let frac = if t.chance(1, 8) { format!(".{:03}", t.range(1, 999)) } else { String::new() };
            let v = format!("{day}{frac}{zone}");
            expect.insert("CreateDate".into(), format!("DateTime({day}{frac}{shown})"));
            meta_entries.push(("com.apple.quicktime.creationdate".into(), 1, v.into_bytes()));
        }
        // keys nobody maps
        let n = t.below(3);
        for k in 0..n {
            let (ty, v) = match t.below(6) {
                0 => (1, text(t).into_bytes()),
                1 | 2 | 3 => {
                    let (ty, _, v) = number(t);
                    (ty, v)
                }
                4 => {
                    feats.push("ilst-other-type");
                    (*t.pick(&[0u32, 13, 65, 66, 67, 77]), t.fill(8))
                }
                _ => (24, t.fill(8)),
            };
            meta_entries.push((format!("com.example.key{k}"), ty, v));
        }
        // many keys
        for k in 0..t.crowd() {
            meta_entries.push((format!("com.example.more{k}"), 1, format!("v{k}").into_bytes()));
        }
        t.shuffle(&mut meta_entries);
    }
    let mut order: Vec<usize> = (0..meta_entries.len()).collect();
    if t.chance(1, 3) && order.len() > 1 {
        t.shuffle(&mut order);
        if order.windows(2).any(|w| w[0] > w[1]) {
            feats.push("ilst-order");
        }
    }
    let mut udta = vec![];
    let mut udta_parts = vec![];
    if t.chance(1, 3) {
        // the one from the keys again, or a new one
        let v = gps.unwrap_or_else(|| iso6709(t));
        expect.insert("GpsIso6709".into(), format!("Text({v:?})"));
        udta_parts.push(udta_xyz(t, &v));
        gps = Some(v);
        feats.push("xyz");
    }
    if !expect.contains_key("Author") && t.chance(1, 4) {
        let n = t.range(1, 20);
        let v = if t.chance(1, 3) { text(t) } else { t.word(n) };
        expect.insert("Author".into(), format!("Text({v:?})"));
        udta_parts.push(udta_auth(t, &v));
        feats.push("auth");
    }
    if t.chance(1, 4) {
        let n = t.size(20, 300);
        udta_parts.push(bx(b"name", &t.fill(n)));
    }
    if t.chance(1, 4) {
        let n = t.range(1, 4);
        for _ in 0..n {
            let ty = *t.pick(&[b"titl", b"dscp", b"perf", b"gnre", b"yrrc", b"kywd", b"\xa9nam", b"\xa9cmt", b"\xa9fmt", b"SNum", b"free"]);
            udta_parts.push(crate::build::bmff::full(ty, 0, 0, &[&b"\x15\xc7"[..], &t.fill(9), b"\0"].concat()));
        }
    }
    let many = t.crowd();
    if many > 0 {
        udta_parts.extend((0..many).map(|k| bx(b"cprt", &[b'c'; 11][..k % 11])));
    }
    t.shuffle(&mut udta_parts);
    let has_udta = !udta_parts.is_empty();
    for p in udta_parts {
        udta.extend(p);
    }
    // QuickTime lets the list end in a zero
    if t.chance(1, 5) {
        udta.extend([0; 4]);
        feats.push("udta-zero");
    }
    // tracks
    let mut traks = vec![];
    let ntracks = t.below(4);
    let mut dims = None;
    for k in 0..ntracks {
        let tv = if t.chance(1, 6) { 1 } else { 0 };
        if t.chance(1, 2) {
            let (w, h) = (t.range(1, 9000) as u16, t.range(1, 9000) as u16);
            if dims.is_none() {
                dims = Some((w, h));
                if tv == 1 {
                    feats.push("tkhd-v1");
                }
            }
            traks.push(trak(t, b"vide", tv, k as u32 + 1, w, h));
        } else {
            let sub = *t.pick(&[b"soun", b"meta", b"text", b"tmcd"]);
            traks.push(trak(t, sub, tv, k as u32 + 1, 0, 0));
        }
    }
    // tracks of other kinds in front
    let many = t.crowd().min(270);
    if many > 0 {
        feats.push("many-tracks");
        let sub = *t.pick(&[b"soun", b"text"]);
        let one = bx(b"trak", &[tkhd(0, 77, 0, 0), bx(b"mdia", &hdlr(sub))].concat());
        traks.splice(0..0, vec![one; many]);
    }
    if let Some((w, h)) = dims {
        expect.insert("Width".into(), format!("U32({w})"));
        expect.insert("Height".into(), format!("U32({h})"));
    }
    // movie box
    let mut parts = traks;
    if has_meta {
        let full = t.chance(1, 4);
        feats.extend(full.then_some("meta-full"));
        let at = t.below(parts.len() + 1);
        // a name or an id beside the values
        let odd = t.chance(1, 5);
        feats.extend(odd.then_some("ilst-beside"));
        let mut around = || {
            let mut one = || match t.below(4) {
                0 if odd => crate::build::bmff::full(b"itif", 0, 0, &t.fill(4)),
                1 if odd => crate::build::bmff::full(b"name", 0, 0, t.word(6).as_bytes()),
                _ => vec![],
            };
            (one(), one())
        };
        let meta = qt_meta_with(&meta_entries, &order, full, &mut around);
        parts.insert(at, meta);
        feats.push("meta");
    }
    if has_udta {
        let at = t.below(parts.len() + 1);
        let hh = h(t);
        parts.insert(at, bxh(hh, b"udta", &udta));
    }
    let nz = t.below(3);
    for _ in 0..nz {
        let at = t.below(parts.len() + 1);
        let b = noise_box(t, false);
        parts.insert(at, b);
    }
    let many = tiny_boxes(t);
    if !many.is_empty() {
        feats.push("many-boxes");
        let at = t.below(parts.len() + 1);
        parts.splice(at..at, many);
    }
    let at = if t.chance(1, 5) { t.below(parts.len() + 1) } else { 0 };
    if at > 0 {
        feats.push("mvhd-late");
    }
    parts.insert(at, mv);
    let hh = h(t);
    let moov = bxh(hh, b"moov", &parts.concat());
    let n = t.size(300, if big { 120_000 } else { 3000 });
    let mh = h(t);
    let media = t.fill(n);
    let mdat = bxh(mh, b"mdat", &media);
    let mut b = head;
    let nz = t.below(3);
    for _ in 0..nz {
        if t.chance(1, 3) {
            b.extend(bx(b"wide", b""));
        } else {
            b.extend(noise_box(t, big));
        }
    }
    for x in tiny_boxes(t) {
        b.extend(x);
    }
    let moov_at;
    if t.chance(1, 2) {
        b.extend(&mdat);
        for _ in 0..t.below(4) {
            let hh = h(t);
            b.extend(bxh(hh, b"mdat", &media[..media.len() / 2]));
        }
        feats.push("mdat-first");
        moov_at = b.len();
        b.extend(&moov);
        let e = b.len();
        if t.chance(1, 4) {
            b.extend(noise_box(t, big));
        }
        return done(b, expect, dur_ms, gps, feats, moov_at, e);
    }
    moov_at = b.len();
    b.extend(&moov);
    let e = b.len();
    if t.chance(1, 3) {
        b.extend(noise_box(t, big));
    }
    // fragments that follow the movie box, each with its own media data
    if t.chance(1, 8) {
        feats.push("fragments");
        for k in 0..t.range(1, 5) as u32 {
            let mfhd = crate::build::bmff::full(b"mfhd", 0, 0, &(k + 1).to_be_bytes());
            let traf = bx(b"traf", &crate::build::bmff::full(b"tfhd", 0, 0, &[0, 0, 0, 1]));
            b.extend(bx(b"moof", &[mfhd, traf].concat()));
            b.extend(bx(b"mdat", &media[..media.len() / 3]));
        }
    }
    if t.chance(1, 6) {
        feats.push("mdat-open");
        b.extend(to_end(b"mdat", &media));
        b.extend(vec![0; 140usize.saturating_sub(b.len())]);
        return done(b, expect, dur_ms, gps, feats, moov_at, e);
    }
    b.extend(&mdat);
    if b.len() <= 140 {
        b.extend(bx(b"free", &[0; 140]));
    }
    done(b, expect, dur_ms, gps, feats, moov_at, e)
}
fn done(bytes: Vec<u8>, expect: BTreeMap<String, String>, dur_ms: Option<u128>, gps: Option<String>, feats: Vec<&'static str>, moov_at: usize, moov_end: usize) -> Mp4 {
    Mp4 { bytes, expect, dur_ms, gps, feats, moov_at, moov_end }
}

/// A QuickTime well-known number type: its code, the value it encodes, its bytes.
fn number(t: &mut Tape) -> (u32, String, Vec<u8>) {
    let w = *t.pick(&[1usize, 2, 3, 4, 8]);
    let v = t.fill(w);
    let v = match t.below(5) {
        0 => vec![0xFF; w],
        1 => {
            let mut z = vec![0; w];
            z[0] = 0x80;
            z
        }
        _ => v,
    };
    let mut raw = [0u8; 8];
    raw[8 - w..].copy_from_slice(&v);
    let un = u64::from_be_bytes(raw);
    let sn = (un << (64 - 8 * w)) as i64 >> (64 - 8 * w);
    match t.below(6) {
        0 | 1 => (21, format!("{}({sn})", ["", "I8", "I16", "I32", "I32", "", "", "", "I64"][w]), v),
        2 | 3 => (22, format!("{}({un})", ["", "U8", "U16", "U32", "U32", "", "", "", "U64"][w]), v),
        4 => {
            let f = t.u32() as i32 as f32 / 1024.0;
            (23, format!("F32(0x{:08x})", f.to_bits()), f.to_be_bytes().to_vec())
        }
        _ => {
            let f = t.u32() as i32 as f64 / 4096.0;
            (24, format!("F64(0x{:016x})", f.to_bits()), f.to_be_bytes().to_vec())
        }
    }
}

/// The reported track equals the model; durations may round either way by 1 ms.
pub fn check(m: &Mp4, r: &Res, how: &str) -> R {
    let Some(tr) = r.track() else {
        return fail("track fails", format!("{how}: a well-formed file {:?} gives {}", m.feats, r.brief()));
    };
    ensure!(r.kind == Some("Track"), "kind", "{how}: kind {:?}", r.kind);
    let mut got = tr.entries.clone();
    let d = got.remove("DurationMs");
    for (k, v) in &m.expect {
        ensure!(got.get(k) == Some(v), &format!("track {k}"), "{how}: {k}: encoded {v}, reported {:?} (file features {:?})", got.get(k), m.feats);
    }
    for (k, v) in &got {
        ensure!(m.expect.contains_key(k), &format!("track invented {k}"), "{how}: {k}={v} is not encoded in the file (features {:?})", m.feats);
    }
    if let Some(want) = m.dur_ms {
        let n: Option<u128> = d.as_deref().and_then(|s| s.strip_prefix("U64(")).and_then(|s| s.strip_suffix(')')).and_then(|s| s.parse().ok());
        let Some(n) = n else { return fail("track DurationMs", format!("{how}: duration {d:?}, encoded {want} ms")) };
        // a double carries 53 bits
        let slack = 1 + want / (1 << 50);
        ensure!(n + slack >= want && n <= want + slack, "track DurationMs", "{how}: reported {n} ms, encoded {want} ms (features {:?})", m.feats);
    } else {
        ensure!(d.is_none(), "track duration invented", "{how}: duration {d:?}, encoded as unknown (features {:?})", m.feats);
    }
    let exp_gps = m.gps.as_ref().map(|s| super::c12::iso_decimal(s).unwrap());
    match (&exp_gps, &tr.gps) {
        (None, None) => {}
        (Some(e), Some(g)) => {
            let got = super::c12::canon_decimal(g);
            ensure!(got.is_some_and(|x| super::c12::close(&x, e)), "track gps", "{how}: encoded {:?}, reported {g}", m.gps);
        }
        _ => return fail("track gps", format!("{how}: encoded {:?}, reported {:?}", m.gps, tr.gps)),
    }
    Ok(())
}

fn model(t: &mut Tape, cx: &mut Cx) -> R {
    let big = t.chance(1, 4);
    let m = gen(t, big);
    cx.data("mp4", &m.bytes);
    for f in &m.feats {
        cx.label(*f);
    }
    cx.nontrivial = m.expect.len() >= 2;
    cx.sample(|| format!("{} bytes, features {:?}, encodes {:?}, {:?} ms", m.bytes.len(), m.feats, m.expect, m.dur_ms));
    let a = Arc::new(m.bytes.clone());
    let mut s = gen_sched(t);
    cap_sched(&mut s, m.bytes.len());
    let streams = [Mode::Seek, Mode::Unseek, Mode::ASeek, Mode::AUnseek, Mode::AMem];
    let other = *t.pick(&streams);
    for mode in [Mode::Mem, other] {
        let r = run_sched(Op::Track, mode, &a, &s);
        check(&m, &r, &format!("{mode:?}"))?;
        cx.checks += 1;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "an ISO base-media file with at least two encoded metadata fields, parsed successfully or not, compared field by field with the model; distinct by file bytes",
        level: "exploration",
        assumptions: &["the generator writes well-formed files (box sizes, keys/ilst indexes, version 0 and 1 headers)"],
        subs: vec![Sub { name: "model", drive: Drive::Random, quick: 1_200_000, thorough: 14_400_000, tape: 260, f: model }],
    }
}
