//! Content is classified by what it is; asking for the wrong kind gets the right error.
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use std::sync::Arc;

const IMG: [&[u8; 4]; 14] = [
    b"heic", b"heix", b"heim", b"heis", b"hevc", b"hevm", b"hevs", b"mif1", b"MiHE", b"miaf", b"MiHB", b"avif", b"avis", b"avio",
];
const MP4: [&[u8; 4]; 17] = [
    b"3g2a", b"3g2b", b"3g2c", b"3ge6", b"3ge7", b"3gg6", b"3gp4", b"3gp5", b"3gp6", b"3gs7", b"avc1", b"mp41", b"mp42", b"iso2",
    b"isom", b"vfj1", b"XAVC",
];
const QT: [&[u8; 4]; 2] = [b"qt  ", b"mqt "];
/// Brands that say nothing by themselves here.
const OTHER: [&[u8; 4]; 12] = [
    b"mp71", b"dash", b"M4V ", b"M4A ", b"msf1", b"MA1A", b"MA1B", b"f4v ", b"iso8", b"nras", b"\0\0\0\0", b"tmap",
];

fn other(t: &mut Tape) -> [u8; 4] {
    if t.chance(2, 3) {
        **t.pick(&OTHER)
    } else {
        // digits only: cannot form one of the brands above
        let w = t.fill(4);
        [b'0' + w[0] % 10, b'0' + w[1] % 10, b'0' + w[2] % 10, b'0' + w[3] % 10]
    }
}

/// (major brand, compatible brands) of a file whose class is given by `own`.
fn brands(t: &mut Tape, own: &[&[u8; 4]], cx: &mut Cx) -> ([u8; 4], Vec<[u8; 4]>) {
    let n = t.size(5, 24);
    if t.chance(3, 4) {
        // a known major brand decides, whatever it claims to be compatible with
        let mut foreign = false;
        let compat = (0..n)
            .map(|_| match t.below(3) {
                0 => other(t),
                1 => **t.pick(own),
                _ => {
                    foreign = true;
                    match t.below(3) {
                        0 => **t.pick(&IMG),
                        1 => **t.pick(&MP4),
                        _ => **t.pick(&QT),
                    }
                }
            })
            .collect();
        let m = **t.pick(own);
        cx.label(format!("brand {}", String::from_utf8_lossy(&m)));
        cx.label_if(foreign, "compatible with other kinds");
        (m, compat)
    } else {
        let mut compat: Vec<[u8; 4]> = (0..n).map(|_| if t.chance(1, 3) { **t.pick(own) } else { other(t) }).collect();
        // brands that only tell the file structure go with images, too
        if own.contains(&b"mif1") && t.chance(1, 3) {
            for c in &mut compat {
                if t.chance(1, 2) {
                    *c = **t.pick(&[b"isom", b"iso2"]);
                }
            }
            cx.label("structural brands");
        }
        let at = t.below(compat.len() + 1);
        let m = **t.pick(own);
        cx.label(format!("compatible {}", String::from_utf8_lossy(&m)));
        compat.insert(at, m);
        (other(t), compat)
    }
}

const F: [&str; 12] = ["jpeg", "heif", "mp4", "mkv", "tiff", "png", "raf", "cr3", "qt", "wide", "jpeg-bare", "motion"];

fn formats(t: &mut Tape, cx: &mut Cx) -> R {
    let f = *t.pick(&F);
    cx.label(f);
    let big = t.chance(1, 4);
    let mut exif = false; // EXIF is in there
    let mut motion = false;
    let mut what = f.to_string();
    let (image, bytes) = match f {
        "heif" => {
            let (m, c) = brands(t, &IMG, cx);
            let x = small_tiff(t, 200);
            let mut l = bmff::gen_heif(t, Some(m), big);
            what = format!("heif {} {:?}", String::from_utf8_lossy(&m), c.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>());
            l.compat = c;
            exif = !t.chance(1, 4);
            (true, l.encode(exif.then_some(&x[..])).bytes)
        }
        "mp4" | "qt" => {
            let own: &[&[u8; 4]] = if f == "mp4" { &MP4 } else { &QT };
            let (m, c) = brands(t, own, cx);
            what = format!("{f} {} {:?}", String::from_utf8_lossy(&m), c.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>());
            let ft = bmff::ftyp(&m, t.u32() & 0x0707, &c);
            (false, super::c13::gen_with(t, big, ft).bytes)
        }
        "wide" => {
            let n = t.size(40, 4000);
            let d = t.fill(n);
            let head = [bmff::bx(b"wide", b""), bmff::bx(b"mdat", &d)].concat();
            (false, super::c13::gen_with(t, big, head).bytes)
        }
        "cr3" => {
            let x = small_tiff(t, 200);
            exif = true;
            (true, bmff::cr3(t, &x, None, big))
        }
        "tiff" => {
            exif = true;
            let mut x = small_tiff(t, 200);
            x.resize(x.len().max(141), 0);
            (true, x)
        }
        "jpeg" => {
            let x = small_tiff(t, 200);
            exif = true;
            (true, jpeg::gen_jpeg(t, Some(&x), big).encode())
        }
        "jpeg-bare" => (true, jpeg::gen_jpeg(t, None, big).encode()),
        "raf" => {
            let x = small_tiff(t, 200);
            exif = !t.chance(1, 4);
            let j = jpeg::gen_jpeg(t, exif.then_some(&x[..]), false).encode();
            (true, raf::raf(t, &j, big))
        }
        "png" => {
            let mut p = png::Png::default();
            for _ in 0..t.range(0, 4) {
                p.chunks.push(png::noise_chunk(t, big));
            }
            p.chunks.push(png::chunk(b"IDAT", &t.fill(140)));
            if t.chance(1, 2) {
                exif = true;
                let x = small_tiff(t, 200);
                p.chunks.push(png::chunk(b"eXIf", &x));
            }
            (true, p.encode())
        }
        "mkv" => {
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts { big, audio_first: t.chance(1, 4), seek: t.chance(1, 2), stale: false };
            (false, ebml::build(t, &m, o))
        }
        _ => {
            let m = super::c16::gen_kind(t, big, Some(true));
            exif = m.has_exif;
            motion = true;
            (true, m.bytes)
        }
    };
    if bytes.len() <= 128 {
        return Ok(());
    }
    cx.data(f, &bytes);
    cx.nontrivial = true;
    cx.sample(|| format!("{what}, {} bytes, exif {exif}", bytes.len()));
    let data = Arc::new(bytes);
    let kind = if image { "Image" } else { "Track" };
    let mut ms = ALL.to_vec();
    t.shuffle(&mut ms);
    ms.sort_by_key(|m| matches!(m, Mode::File | Mode::AFile));
    for m in ms.into_iter().take(2) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        for op in OPS {
            let r = run_sched(op, m, &data, &s);
            cx.checks += 1;
            ensure!(r.kind == Some(kind), "wrong kind", "{what} ({} bytes) via {m:?}: kind {:?}, {}", data.len(), r.kind, r.brief());
            let want: std::result::Result<(), &str> = match (op, image) {
                (Op::Track, true) if motion => continue,
                (Op::Track, true) => Err("TrackNotFound"),
                (Op::Track, false) => Ok(()),
                (_, true) if exif => Ok(()),
                _ => Err("ExifNotFound"),
            };
            let ok = match (&r.out, want) {
                (Ok(Out::Exif(_)), Ok(())) => op == Op::Exif,
                (Ok(Out::Img(i)), Ok(())) => op == Op::Image && i.exif.is_some(),
                (Ok(Out::Track(_)), Ok(())) => op == Op::Track,
                (Err(e), Err(w)) => e == w,
                _ => false,
            };
            ensure!(ok, "wrong result for the request", "{what} ({} bytes): {op:?} via {m:?} should give {want:?}, gives {}", data.len(), r.brief());
        }
    }
    Ok(())
}

/// Whether the first bytes carry one of the supported signatures.
fn signed(b: &[u8]) -> bool {
    let s = |p: &[u8]| b.starts_with(p);
    s(b"\xff\xd8")
        || s(b"\x89PNG\r\n\x1a\n")
        || s(b"II*\0")
        || s(b"MM\0*")
        || s(b"\x1a\x45\xdf\xa3")
        || s(b"FUJIFILMCCD-RAW ")
        || b.get(4..8).is_some_and(|x| x == b"ftyp" || x == b"wide")
}

fn foreign(t: &mut Tape, cx: &mut Cx) -> R {
    const SIG: [&[u8]; 30] = [
        b"GIF89a", b"GIF87a", b"BM\x36\0\0\0\0\0", b"RIFF\x24\0\0\0WEBPVP8 ", b"RIFF\x24\0\0\0WAVEfmt ", b"RIFF\x24\0\0\0AVI LIST",
        b"%PDF-1.7\n", b"PK\x03\x04", b"\x1f\x8b\x08", b"\x7fELF\x02\x01\x01", b"ID3\x04\0", b"fLaC", b"OggS", b"8BPS\0\x01",
        b"\0\0\x01\0\x01\0", b"\xff\x0a", b"\0\0\0\x0cJXL \r\n\x87\n", b"\0\0\0\x0cjP  \r\n\x87\n", b"FLV\x01\x05", b"\x30\x26\xb2\x75\x8e\x66\xcf\x11",
        b"<!DOCTYPE html>", b"<?xml version=", b"II+\0\x08\0\0\0", b"IIRO", b"IIU\0", b"MMOR", b"\xff\xfb\x90", b"\x49\x49\x1a\0\0\0HEAPCCDR", b"\0\0\0\x1cmoov",
        b"\x8aMNG\r\n\x1a\n",
    ];
    let (what, bytes): (String, Vec<u8>) = match t.below(5) {
        0 => {
            let s = *t.pick(&SIG);
            let n = t.size(600, 20_000);
            (format!("signature {:?}", String::from_utf8_lossy(s)), [s.to_vec(), t.fill(n)].concat())
        }
        1 => {
            // a supported file with its signature spoiled in one place
            let f = *t.pick(&["jpeg", "tiff", "heif", "png", "raf", "cr3", "mp4", "mkv"]);
            let mut b = gen_fmt(t, f, false).bytes;
            let len = match f {
                "jpeg" => 2,
                "png" => 8,
                "raf" => 16,
                _ => 4,
            };
            let at = if matches!(f, "heif" | "cr3" | "mp4") { 4 } else { 0 };
            let k = at + t.below(len);
            b[k] ^= (1 + t.below(255)) as u8;
            (format!("{f} with byte {k} changed"), b)
        }
        2 => {
            let n = t.size(300, 9000);
            ("random bytes".into(), t.fill(n))
        }
        3 => {
            // shorter than its signature
            let f: &[u8] = t.pick(&[&b"\xff\xd8"[..], b"\x89PNG\r\n\x1a\n", b"II*\0", b"MM\0*", b"\x1a\x45\xdf\xa3", b"FUJIFILMCCD-RAW ", b"\0\0\0\x18ftypheic"]);
            let n = t.below(f.len());
            (format!("{n} bytes of a signature"), f[..n].to_vec())
        }
        _ => {
            // an ISO file of unknown brands and no media data in sight
            let n = t.size(3, 20);
            let c: Vec<[u8; 4]> = (0..n).map(|_| other(t)).collect();
            let mut b = bmff::ftyp(&other(t), 0, &c);
            let m = t.range(120, 600);
            b.extend(bmff::bx(b"free", &t.fill(m)));
            ("unknown brands".into(), b)
        }
    };
    if what != "unknown brands" && signed(&bytes) {
        return Ok(());
    }
    cx.data("foreign", &bytes);
    cx.nontrivial = true;
    cx.label(what.split(' ').next_back().unwrap().to_string());
    cx.sample(|| format!("{what}, {} bytes", bytes.len()));
    let empty = bytes.is_empty();
    let data = Arc::new(bytes);
    let mut ms = ALL.to_vec();
    t.shuffle(&mut ms);
    ms.sort_by_key(|m| matches!(m, Mode::File | Mode::AFile));
    for m in ms.into_iter().take(if empty { 8 } else { 3 }) {
        let s = gen_sched(t);
        let r = run_sched(*t.pick(&OPS), m, &data, &s);
        cx.checks += 1;
        ensure!(r.kind.is_none(), "foreign content accepted", "{what} ({} bytes) via {m:?} opens as {:?}", data.len(), r.kind);
        let e = r.out.err().unwrap_or_default();
        ensure!(e == "UnsupportedFormat" || (empty && (e == "UnexpectedEof" || e == "Io(UnexpectedEof)")), "wrong error", "{what} ({} bytes) via {m:?}: {e}", data.len());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "every case (a well-formed file asked for all three kinds of metadata in two source modes, or content without a supported signature)",
        level: "exploration",
        assumptions: &[
            "files of more than 128 bytes (shorter ones are refused when streamed)",
            "the file-type box ends within the first 128 bytes",
            "an unknown major brand comes with compatible brands of one kind only",
        ],
        subs: vec![
            Sub { name: "formats", drive: Drive::Random, quick: 540_000, thorough: 6_480_000, tape: 700, f: formats },
            Sub { name: "foreign", drive: Drive::Random, quick: 540_000, thorough: 6_480_000, tape: 300, f: foreign },
        ],
    }
}
