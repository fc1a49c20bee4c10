//! Inputs shared by several properties: well-formed media of every format,
//! the repository's sample files, structure-aware damage, read schedules, and a
//! full walk over everything a parse hands back.
use crate::build::*;
use crate::modes::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::{Arc, OnceLock};

pub const FMTS: [&str; 9] = [
    "jpeg", "tiff", "heif", "png", "raf", "cr3", "mp4", "mkv", "motion",
];

pub struct Media {
    pub fmt: &'static str,
    pub image: bool,
    pub bytes: Vec<u8>,
}

pub fn small_tiff(t: &mut Tape, big: usize) -> Vec<u8> {
    let o = tiff::GenOpts {
        dates: true,
        chain: true,
        big,
        max_ents: 14,
        ..Default::default()
    };
    tiff::gen_tiff(t, &o).encode().bytes
}

/// A well-formed file of the given format.
pub fn gen_fmt(t: &mut Tape, fmt: &'static str, big: bool) -> Media {
    let bigv = if big { 3000 } else { 200 };
    let mut image = true;
    let bytes = match fmt {
        "tiff" => {
            let mut x = small_tiff(t, bigv);
            if x.len() <= 140 {
                x.resize(141, 0);
            }
            x
        }
        "jpeg" => {
            let x = small_tiff(t, bigv);
            let with = !t.chance(1, 6) && x.len() < 65000;
            jpeg::gen_jpeg(t, with.then_some(&x[..]), big).encode()
        }
        "heif" => {
            let x = small_tiff(t, bigv);
            let with = !t.chance(1, 8);
            bmff::gen_heif(t, None, big)
                .encode(with.then_some(&x[..]))
                .bytes
        }
        "png" => gen_png(t, big),
        "raf" => {
            let x = small_tiff(t, bigv);
            let x = if x.len() < 65000 { Some(&x[..]) } else { None };
            let j = jpeg::gen_jpeg(t, x, false).encode();
            raf::raf(t, &j, big)
        }
        "cr3" => {
            let a = small_tiff(t, bigv);
            let b = if t.chance(4, 5) {
                Some(small_tiff(t, bigv))
            } else {
                None
            };
            bmff::cr3(t, &a, b.as_deref(), big)
        }
        "mp4" => {
            image = false;
            crate::props::c13::gen(t, big).bytes
        }
        "mkv" => {
            image = false;
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts {
                big,
                audio_first: t.chance(1, 4),
                seek: t.chance(1, 2),
                stale: false,
            };
            ebml::build(t, &m, o)
        }
        _ => crate::props::c16::gen(t, big).bytes,
    };
    Media { fmt, image, bytes }
}

pub fn gen_media(t: &mut Tape, big: bool) -> Media {
    let f = *t.pick(&FMTS);
    gen_fmt(t, f, big)
}

pub fn gen_png(t: &mut Tape, big: bool) -> Vec<u8> {
    let mut p = png::Png::default();
    let n = t.range(1, 6);
    for _ in 0..n {
        let c = match t.below(3) {
            0 => png::noise_chunk(t, big),
            _ => {
                let k = png::keyword(t);
                let v = png::text_value(t, big);
                png::text_chunk(&k, &v)
            }
        };
        p.chunks.push(c);
    }
    let many = png::crowd(t);
    let at = t.below(p.chunks.len() + 1);
    p.chunks.splice(at..at, many.into_iter().map(|c| c.0));
    let bigv = if big { 3000 } else { 200 };
    if t.chance(1, 2) {
        let x = small_tiff(t, bigv);
        let at = t.below(p.chunks.len() + 1);
        p.chunks.insert(at, png::chunk(b"eXIf", &x));
    }
    if t.chance(1, 3) {
        let x = small_tiff(t, bigv);
        let at = t.below(p.chunks.len() + 1);
        let (key, data) = if t.chance(1, 2) {
            ("Raw profile type APP1", [b"Exif\0\0".to_vec(), x].concat())
        } else {
            ("Raw profile type exif", [b"Exif\0\0".to_vec(), x].concat())
        };
        let k = if key.ends_with("APP1") {
            "app1"
        } else {
            "exif"
        };
        p.chunks.insert(
            at,
            png::text_chunk(key.as_bytes(), &{
                let v = png::raw_profile(k, &data, t.chance(1, 2), 36);
                png::relaid(t, v)
            }),
        );
    }
    p.encode()
}

// ------------------------------------------------------------------- seeds

/// Sample files of the repository, cut to 300 KB (absent files are skipped).
pub fn seeds() -> &'static Vec<(String, Arc<Vec<u8>>)> {
    static S: OnceLock<Vec<(String, Arc<Vec<u8>>)>> = OnceLock::new();
    S.get_or_init(|| load_seeds(300_000))
}
/// Sample files in full.
pub fn seeds_full() -> &'static Vec<(String, Arc<Vec<u8>>)> {
    static S: OnceLock<Vec<(String, Arc<Vec<u8>>)>> = OnceLock::new();
    S.get_or_init(|| load_seeds(usize::MAX))
}
fn load_seeds(cap: usize) -> Vec<(String, Arc<Vec<u8>>)> {
    let mut out = vec![];
    if let Ok(rd) = std::fs::read_dir(crate::repo().join("testdata")) {
        for e in rd.flatten() {
            let p = e.path();
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            if !p.is_file() || name.ends_with(".txt") {
                continue;
            }
            if let Ok(mut b) = std::fs::read(&p) {
                b.truncate(cap);
                out.push((name, Arc::new(b)));
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}

// ------------------------------------------------------------------- damage

/// One structure-agnostic edit. Positions favour the head of the file.
pub fn mutate_once(t: &mut Tape, b: &mut Vec<u8>) {
    let len = b.len();
    if len == 0 {
        let n = t.size(20, 200);
        *b = t.fill(n);
        return;
    }
    let at = |t: &mut Tape| -> usize {
        match t.below(3) {
            0 => t.below(len.min(600)),
            1 => t.below(len.min(9000)),
            _ => t.below(len),
        }
    };
    let p = at(t);
    match t.below(12) {
        0 | 1 | 2 => {
            // an interesting number, both endiannesses, 1/2/4/8 bytes
            const V: [u64; 22] = [
                0,
                1,
                2,
                3,
                4,
                7,
                8,
                0x10,
                0x7f,
                0x80,
                0xff,
                0x100,
                0x7fff,
                0x8000,
                0xffff,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_fff0,
                0xffff_ffff,
                0x7fff_ffff_ffff_ffff,
                0x8000_0000_0000_0000,
                u64::MAX,
            ];
            let mut v = *t.pick(&V);
            match t.below(4) {
                0 => v = len as u64,
                1 => v = v.wrapping_add(t.below(17) as u64).wrapping_sub(8),
                _ => {}
            }
            let w = [4usize, 2, 1, 8][t.below(4)];
            let bytes = if t.chance(1, 2) {
                v.to_le_bytes()[..w].to_vec()
            } else {
                v.to_be_bytes()[8 - w..].to_vec()
            };
            let e = (p + w).min(len);
            b[p..e].copy_from_slice(&bytes[..e - p]);
        }
        3 => b[p] = t.u8(),
        4 => b[p] ^= 1 << t.below(8),
        5 => {
            let n = t.size(8, 300);
            let n = n.min(len - p);
            b.drain(p..p + n);
        }
        6 => {
            let n = t.size(8, 300);
            let x = t.fill(n);
            b.splice(p..p, x);
        }
        7 => {
            // copy a range over or into another place
            let q = at(t);
            let n = t.size(16, 400).min(len - p).min(len - q);
            let x = b[p..p + n].to_vec();
            if t.chance(1, 2) {
                b.splice(q..q, x);
            } else {
                b[q..q + n].copy_from_slice(&x);
            }
        }
        8 => b.truncate(p),
        9 => {
            // add or subtract a little from a number field
            let w = [4usize, 2, 8, 1][t.below(4)];
            if p + w <= len {
                let d = t.below(65) as i64 - 32;
                let mut v = 0u64;
                let be = t.chance(1, 2);
                for k in 0..w {
                    v = v << 8 | b[if be { p + k } else { p + w - 1 - k }] as u64;
                }
                v = v.wrapping_add(d as u64);
                for k in 0..w {
                    b[if be { p + w - 1 - k } else { p + k }] = (v >> (8 * k)) as u8;
                }
            }
        }
        10 => {
            let n = t.size(16, 200).min(len - p);
            let v = *t.pick(&[0u8, 0xff]);
            b[p..p + n].fill(v);
        }
        _ => {
            let s = seeds();
            if !s.is_empty() {
                let o = &s[t.below(s.len())].1;
                if !o.is_empty() {
                    let q = t.below(o.len().min(4000));
                    let n = t.size(32, 500).min(o.len() - q);
                    b.splice(p..p, o[q..q + n].to_vec());
                }
            }
        }
    }
}
pub fn mutate(t: &mut Tape, b: &mut Vec<u8>, max: usize) -> usize {
    let n = t.range(1, max);
    for _ in 0..n {
        mutate_once(t, b);
    }
    n
}

/// Any input: generated or sample, usually damaged; sometimes raw bytes.
pub fn gen_input(t: &mut Tape, big: bool) -> (String, Vec<u8>) {
    match t.weighted(&[10, 4, 1]) {
        0 => {
            let m = gen_media(t, big);
            let mut b = m.bytes;
            let mut l = m.fmt.to_string();
            if m.fmt == "mkv" && t.chance(1, 3) {
                // a seek table that leads astray
                let m = ebml::gen_model(t);
                b = ebml::build(
                    t,
                    &m,
                    ebml::MkvOpts {
                        big,
                        seek: true,
                        stale: true,
                        ..Default::default()
                    },
                );
            }
            if ["heif", "heic", "avif"].contains(&m.fmt) && t.chance(1, 3) {
                // an item location that leads astray
                let x = small_tiff(t, 100);
                let mut h = bmff::gen_heif(t, None, big);
                let len = b.len() as u64;
                let mut wild = |first: u64| match t.below(7) {
                    0 => 0,
                    1 => t.below(2 * len as usize + 1) as u64,
                    2 => (1u64 << [31, 32, 63][t.below(3)]).wrapping_add(t.below(600) as u64).wrapping_sub(300),
                    3 => (t.below(600) as u64).wrapping_sub(600),
                    // comes round to somewhere in the file
                    4 => first.wrapping_neg().wrapping_add(t.below(len as usize + 1) as u64),
                    5 => first.wrapping_neg().wrapping_sub(t.below(20) as u64),
                    _ => t.u64(),
                };
                let base = wild(0);
                let off = wild(base);
                let size = wild(base.wrapping_add(off));
                let astray = [[base, off, size], [0, off, size], [0, 200, size]][t.below(3)];
                (h.off_size, h.len_size, h.base_size) = (8, 8, [0u8, 8][t.below(2)]);
                h.astray = Some(astray);
                b = h.encode(Some(&x)).bytes;
            }
            match t.below(6) {
                0 => {}
                1 | 2 => {
                    let mut n = reshape::reshape(t, &mut b, 4);
                    if t.chance(1, 3) {
                        n += mutate(t, &mut b, 3);
                    }
                    l = format!("{l}+{n}");
                }
                _ => {
                    let n = mutate(t, &mut b, 8);
                    l = format!("{l}+{n}");
                }
            }
            (l, b)
        }
        1 if !seeds().is_empty() => {
            let s = &seeds()[t.below(seeds().len())];
            let mut b = s.1.as_ref().clone();
            if !big {
                b.truncate(60_000);
            }
            let n = match t.below(3) {
                0 => reshape::reshape(t, &mut b, 4),
                _ => mutate(t, &mut b, 8),
            };
            (format!("{}+{n}", s.0), b)
        }
        _ => {
            let n = t.size(200, 4000);
            let mut b = t.fill(n);
            // a magic number up front, so the sniffer lets some of it through
            const MAGIC: [&[u8]; 9] = [
                b"\xff\xd8\xff\xe1",
                b"II*\0\x08\0\0\0",
                b"MM\0*\0\0\0\x08",
                b"\x89PNG\r\n\x1a\n",
                b"\0\0\0\x18ftypheic\0\0\0\0",
                b"\0\0\0\x14ftypqt  \0\0\0\0qt  ",
                b"\x1a\x45\xdf\xa3\x80",
                b"FUJIFILMCCD-RAW ",
                b"\0\0\0\x18ftypcrx \0\0\0\x01",
            ];
            let m = *t.pick(&MAGIC);
            b.splice(0..0, m.iter().copied());
            ("raw".into(), b)
        }
    }
}

pub fn gen_sched(t: &mut Tape) -> Sched {
    let chunks = match t.below(5) {
        0 => vec![],
        1 => vec![t.range(1, 64)],
        2 => vec![t.range(500, 9000)],
        3 => (0..t.range(2, 6))
            .map(|_| t.size(64, 20_000).max(1))
            .collect(),
        _ => vec![1, 4096, 3, 70_000, 127],
    };
    Sched {
        chunks,
        interrupt_every: if t.chance(1, 2) {
            t.range(2, 5) as u32
        } else {
            0
        },
        lead: 0,
        ..Sched::default()
    }
}
/// Keeps one-byte reads off large inputs (cost only).
pub fn cap_sched(s: &mut Sched, len: usize) {
    let min = len / 20_000 + 1;
    for c in &mut s.chunks {
        if *c < min {
            *c = min;
        }
    }
}

// --------------------------------------------------------------------- walk

fn fmt_value(v: &EntryValue, n: &mut usize) {
    *n += format!("{v}").len();
    *n += format!("{v:?}").len();
    *n += serde_json::to_string(v).map(|s| s.len()).unwrap_or(0);
    let _ = (
        v.as_str(),
        v.as_u8(),
        v.as_u16(),
        v.as_u32(),
        v.as_u64(),
        v.as_i8(),
        v.as_i16(),
        v.as_i32(),
        v.as_i64(),
    );
    let _ = (v.try_as_integer(), v.try_as_float());
    let _ = (
        v.as_datetime(),
        v.as_urational(),
        v.as_irational(),
        v.as_urational_slice(),
        v.as_irational_slice(),
        v.as_f64(),
    );
    let _ = (
        v.as_u8_slice(),
        v.as_u16_slice(),
        v.as_u32_slice(),
        v.as_undefined(),
    );
    if let Some(d) = v.as_datetime() {
        *n += format!("{d:?} {:?} {}", d.aware(), d.into_naive()).len();
        for secs in [0, 3600 * 14, -3600 * 12 - 1, 86399, -86399] {
            let d = d.or_offset(chrono::FixedOffset::east_opt(secs).unwrap());
            *n += format!("{d} {d:?} {}", d.to_rfc3339()).len();
        }
    }
    for r in v.as_urational_slice().unwrap_or(&[]).iter().take(50) {
        let _ = (r.to_f64(), r.numerator(), r.denominator());
    }
    for r in v.as_irational_slice().unwrap_or(&[]).iter().take(50) {
        let _ = (r.to_f64(), nom_exif::URational::try_from(*r).is_ok());
    }
    if let Some(r) = v.as_urational_slice() {
        let _ = LatLng::try_from(r).map(|l| l.to_decimal_degrees());
    }
    if let Some(r) = v.as_irational_slice() {
        let _ = LatLng::try_from(r).map(|l| l.to_decimal_degrees());
    }
    if let Some(s) = v.as_str() {
        *n += s.parse::<GPSInfo>().map(|g| g.to_iso6709().len()).unwrap_or(0);
        *n += s.parse::<ExifTag>().map(|t| t.to_string().len()).unwrap_or(0);
    }
    if let Some(r) = v.as_urational() {
        let _ = r.to_f64();
        *n += format!("{r:?}").len();
    }
    if let Some(r) = v.as_irational() {
        let _ = r.to_f64();
        let _ = nom_exif::URational::try_from(r);
    }
}
fn walk_gps(g: &GPSInfo, n: &mut usize) {
    let s = g.to_iso6709();
    *n += s.len();
    *n += format!("{g:?}").len();
    let _ = (
        g.latitude_decimal(),
        g.longitude_decimal(),
        g.altitude_meters(),
        g.altitude.magnitude(),
    );
    if let Some(d) = g.latitude_decimal() {
        let _ = LatLng::try_from_decimal_degrees(d).map(|l| l.to_decimal_degrees());
    }
    if let Some(s) = g.speed {
        *n += format!("{}{:?}", s.unit.as_char(), s.value.to_f64()).len();
    }
    let _ = s.parse::<GPSInfo>();
}
#[allow(deprecated)]
fn walk_iter(it: ExifIter, n: &mut usize) {
    let mut a = it.clone_rewound();
    let mut k = 0;
    while let Some(e) = a.next() {
        k += 1;
        *n += format!("{} {:?} {:?} {} {e:?}", e.tag(), e.tag(), e.ifd(), e.ifd()).len();
        *n += e.tag().code() as usize & 1;
        assert!(e.error().is_none() == e.value().is_some(), "neither or both of value and error");
        match e.result() {
            Ok(v) => fmt_value(v, n),
            Err(x) => *n += format!("{x} {x:?}").len(),
        }
        if k == 3 {
            let mut b = a.clone();
            b.by_ref().for_each(drop);
            b.rewind();
            b.next();
        }
        if k == 4 {
            a.rewind();
        }
        if k == 6 {
            let _ = a.parse_gps();
        }
        let _ = e.into_result();
    }
    *n += format!("{it:?}").len();
    let _ = (it.has_embedded_track(), it.has_embedded_media());
    if let Ok(Some(g)) = it.parse_gps() {
        walk_gps(&g, n);
    }
    let x: Exif = it.into();
    for e in x.iter() {
        fmt_value(e.value, n);
        let _ = x.get_by_code(e.ifd, e.tag.code());
        if let Some(t) = e.tag.tag() {
            let _ = (x.get(t), x.get_in(e.ifd, t));
        }
    }
    for (_, _, e) in x.errors() {
        *n += format!("{e} {e:?} {}", nom_exif::Error::from(e.clone())).len();
    }
    let _ = (x.has_embedded_track(), x.has_embedded_media());
    if let Some(g) = x.gps_info() {
        walk_gps(g, n);
    }
    *n += format!("{x:?}").len();
}
/// Uses everything reachable from a parse result; returns the amount of text produced.
pub fn walk(l: Live) -> usize {
    let mut n = 0;
    match l {
        Live::Exif(i) => walk_iter(i, &mut n),
        Live::Track(tr) => {
            for (k, v) in tr.iter() {
                n += k.name().len();
                fmt_value(v, &mut n);
                let _ = tr.get(k);
            }
            if let Some(g) = tr.gps_info() {
                walk_gps(g, &mut n);
            }
            n += format!("{tr:?}").len();
            let _ = tr.has_embedded_media();
        }
        Live::Img(m) => {
            n += format!("{m:?}").len();
            if let Some(ImageFormatMetadata::Png(p)) = &m.format {
                for (k, v) in p.iter() {
                    n += k.len() + v.len();
                    let _ = p.get(k);
                    n += p.get_all(k).count();
                }
                n += p.len() + p.is_empty() as usize;
            }
            if let Some(e) = m.exif {
                walk_iter(e, &mut n);
            }
        }
    }
    n
}
