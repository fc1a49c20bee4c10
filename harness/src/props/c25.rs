//! Media data is passed over: how much of it there is changes nothing.
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::io::{Seek, SeekFrom, Write};
use std::sync::Arc;

/// The stored bytes, where the media data that is not stored belongs, and how much of it.
struct Holey {
    fmt: &'static str,
    ops: &'static [Op],
    bytes: Vec<u8>,
    at: usize,
    gap: u64,
}
const IMG: &[Op] = &[Op::Exif, Op::Image];

/// Everything but the header in front of the gap and the numbers that count on
/// its size is the same for every `gap`.
fn gen(t: &mut Tape, fmt: &'static str, gap: u64) -> Holey {
    let big = t.chance(1, 5);
    let done = |ops, bytes, at| Holey { fmt, ops, bytes, at, gap };
    match fmt {
        "mp4" => {
            let m = super::c13::gen(t, big);
            let ftyp = u32::from_be_bytes(m.bytes[..4].try_into().unwrap()) as usize;
            let at = *t.pick(&[ftyp, m.moov_at, m.moov_at, m.moov_end]);
            let ty = **t.pick(&[b"mdat", b"mdat", b"free", b"skip", b"uuid"]);
            let mut b = m.bytes;
            let h = bmff::large_header(&ty, gap);
            b.splice(at..at, h);
            done(&[Op::Track], b, at + 16)
        }
        "mkv" => {
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts { big, audio_first: t.chance(1, 4), seek: t.chance(1, 2), stale: false };
            let (b, at) = ebml::build_gap(t, &m, o, gap);
            done(&[Op::Track], b, at)
        }
        "png" => {
            let gap = gap.min(0x7fff_ffff);
            let mut p = png::Png::default();
            let n = t.range(1, 5);
            for _ in 0..n {
                let c = if t.chance(1, 2) {
                    png::noise_chunk(t, big)
                } else {
                    let (k, v) = (png::keyword(t), png::text_value(t, false));
                    png::text_chunk(&k, &v)
                };
                p.chunks.push(c);
            }
            let x = small_tiff(t, 200);
            let at = t.below(p.chunks.len() + 1);
            p.chunks.insert(at, png::chunk(b"eXIf", &x));
            let k = t.below(p.chunks.len() + 1);
            let before = png::Png { chunks: p.chunks[..k].to_vec(), trailer: vec![] }.encode().len() - 12;
            let mut b = p.encode();
            let mut h = (gap as u32).to_be_bytes().to_vec();
            h.extend(**t.pick(&[b"IDAT", b"IDAT", b"fdAT", b"prVt"]));
            h.extend([1, 2, 3, 4]);
            b.splice(before..before, h);
            Holey { fmt, ops: IMG, bytes: b, at: before + 8, gap }
        }
        "jpeg" => {
            let m = super::c16::gen_kind(t, big, Some(true));
            let at = m.bytes.len() - m.trailer_len;
            // a parser for the trailer reads the photo, so only photos of some size
            let ops: &[Op] = match (m.has_exif, gap < 1 << 24) {
                (true, true) => &OPS,
                (true, false) => IMG,
                (false, true) => &[Op::Track],
                _ => &[],
            };
            done(ops, m.bytes, at)
        }
        "raf" => {
            let x = small_tiff(t, 200);
            let j = jpeg::gen_jpeg(t, Some(&x), false).encode();
            let b = raf::raf(t, &j, big);
            let at = b.len();
            done(IMG, b, at)
        }
        "cr3" => {
            let (x, y) = (small_tiff(t, 200), small_tiff(t, 200));
            let mut b = bmff::cr3(t, &x, Some(&y), big);
            b.extend(bmff::large_header(b"mdat", gap));
            let at = b.len();
            done(IMG, b, at)
        }
        _ => {
            let x = small_tiff(t, 200);
            let mut l = bmff::gen_heif(t, None, big);
            l.mdat_first = false;
            l.off_size = if gap > 1 << 31 { 8 } else { l.off_size };
            l.gap = gap;
            let h = l.encode(Some(&x));
            done(IMG, h.bytes, h.gap_at)
        }
    }
}
const F: [&str; 7] = ["mp4", "mkv", "png", "jpeg", "raf", "cr3", "heif"];

fn filled(h: &Holey) -> Vec<u8> {
    let mut b = h.bytes[..h.at].to_vec();
    b.resize(h.at + h.gap as usize, 0xA7);
    b.extend_from_slice(&h.bytes[h.at..]);
    b
}
fn same(h: &Holey, op: Op, how: &str, small: &Res, r: &Res) -> R {
    ensure!(
        small.kind == r.kind && small.out == r.out,
        "media data changes the result",
        "{} with {} bytes of media data at {} of {} other bytes, {op:?} {how}: {}",
        h.fmt,
        h.gap,
        h.at,
        h.bytes.len(),
        diff(small, r)
    );
    Ok(())
}
/// The reference: the same file with hardly any media data, from memory.
fn reference(t: &Tape, fmt: &'static str) -> Holey {
    gen(&mut t.clone(), fmt, 16)
}

/// Huge gaps behind seekable readers.
fn huge(t: &mut Tape, cx: &mut Cx) -> R {
    let gap = match t.below(4) {
        0 => (1 << 24) + t.below(1 << 24) as u64,
        1 => (1 << 30) - (1 << 20) + t.u32() as u64 / 2,
        2 => (1 << 32) - 40 + t.below(80) as u64,
        _ => (1 << 32) + (t.u32() as u64) * 64,
    };
    let mode = *t.pick(&[Mode::Seek, Mode::ASeek]);
    let s = gen_sched(t);
    let fmt = *t.pick(&F);
    let small = reference(t, fmt);
    let h = gen(t, fmt, gap);
    if small.bytes.len() + 16 <= 140 {
        return Ok(());
    }
    cx.data(fmt, &h.bytes);
    cx.label(fmt);
    cx.nontrivial = true;
    cx.label_if(h.gap > u32::MAX as u64, "more than 4 GiB");
    cx.sample(|| format!("{fmt}: {} bytes of media data at {} of {} bytes", h.gap, h.at, h.bytes.len()));
    let a = Arc::new(h.bytes.clone());
    let small = Arc::new(filled(&small));
    let n = h.bytes.len() as u64;
    for op in h.ops {
        let r0 = run(*op, Mode::Mem, &small);
        ensure!(r0.out.is_ok(), "reference fails", "{fmt} {op:?}: {}", r0.brief());
        let stat = Arc::new(Stat::default());
        let mut s = Sched { gap: Some((h.at, h.gap)), byte_limit: 3 * n + (4 << 20), ..s.clone() };
        cap_sched(&mut s, h.bytes.len());
        let m = crate::alloc::start();
        let r = run_with(&mut MediaParser::new(), *op, mode, &a, &s, &stat);
        let u = m.read();
        same(&h, *op, &format!("via {mode:?}"), &r0, &r)?;
        let rd = Stat::get(&stat.bytes);
        ensure!(rd <= 2 * n + (1 << 20), "media data read", "{fmt} with {} bytes of media data at {} of {n} other bytes: {op:?} via {mode:?} reads {rd} bytes", h.gap, h.at);
        ensure!(u.peak <= (2 << 20) + 30 * n, "memory grows with media data", "{fmt} with {} bytes of media data at {} of {n} other bytes: {op:?} via {mode:?} holds {} bytes", h.gap, h.at, u.peak);
        cx.checks += 3;
    }
    Ok(())
}

/// Streams read the media data but do not keep it; buffers are not copied.
fn streamed(t: &mut Tape, cx: &mut Cx) -> R {
    let gap = (5 << 20) + t.below(4 << 20) as u64;
    let s = gen_sched(t);
    let fmt = *t.pick(&F);
    let mode = *t.pick(&[Mode::Unseek, Mode::AUnseek, Mode::Mem]);
    // the trailer of a motion photo is found from the end: a stream is kept
    let small = reference(t, fmt);
    let h = gen(t, fmt, gap);
    if small.bytes.len() + 16 <= 140 {
        return Ok(());
    }
    cx.data(fmt, &h.bytes);
    cx.label(fmt);
    cx.label(format!("{mode:?}"));
    cx.nontrivial = true;
    cx.sample(|| format!("{fmt}: {} bytes of media data at {} of {} bytes, {mode:?}", h.gap, h.at, h.bytes.len()));
    let small = Arc::new(filled(&small));
    let n = h.bytes.len() as u64;
    let whole = (mode == Mode::Mem).then(|| bytes::Bytes::from(filled(&h)));
    let a = Arc::new(h.bytes.clone());
    for op in h.ops {
        let r0 = run(*op, Mode::Mem, &small);
        ensure!(r0.out.is_ok(), "reference fails", "{fmt} {op:?}: {}", r0.brief());
        let m;
        let r = match &whole {
            Some(w) => {
                let w = w.clone();
                m = crate::alloc::start();
                run_bytes(*op, w)
            }
            None => {
                let mut s = Sched { gap: Some((h.at, h.gap)), ..s.clone() };
                cap_sched(&mut s, h.bytes.len() + h.gap as usize * 4);
                m = crate::alloc::start();
                run_with(&mut MediaParser::new(), *op, mode, &a, &s, &Arc::default())
            }
        };
        let u = m.read();
        same(&h, *op, &format!("via {mode:?}"), &r0, &r)?;
        cx.checks += 1;
        if !(h.fmt == "jpeg" && *op == Op::Track && mode != Mode::Mem) {
            ensure!(u.peak <= (2 << 20) + 30 * n, "memory grows with media data", "{fmt} with {} bytes of media data at {} of {n} other bytes: {op:?} via {mode:?} holds {} bytes", h.gap, h.at, u.peak);
            cx.checks += 1;
        }
    }
    Ok(())
}
fn run_bytes(op: Op, b: bytes::Bytes) -> Res {
    let mut p = MediaParser::new();
    match MediaSource::from_memory(b) {
        Err(e) => Res { kind: None, out: Err(crate::norm::err_cat(&e)) },
        Ok(ms) => {
            let kind = Some(if ms.kind() == MediaKind::Image { "Image" } else { "Track" });
            let l = match op {
                Op::Exif => p.parse_exif(ms).map(Live::Exif),
                Op::Track => p.parse_track(ms).map(Live::Track),
                Op::Image => p.parse_image_metadata(ms).map(Live::Img),
            };
            Res { kind, out: l.map(|l| l.out()).map_err(|e| crate::norm::err_cat(&e)) }
        }
    }
}

/// Sparse files on disk.
fn files(t: &mut Tape, cx: &mut Cx) -> R {
    let gap = (1 << 32) + t.u32() as u64;
    let fmt = *t.pick(&F);
    let small = reference(t, fmt);
    let h = gen(t, fmt, gap);
    if small.bytes.len() + 16 <= 140 {
        return Ok(());
    }
    cx.data(fmt, &h.bytes);
    cx.label(fmt);
    cx.nontrivial = true;
    cx.sample(|| format!("{fmt}: sparse file, {} bytes of media data at {} of {} bytes", h.gap, h.at, h.bytes.len()));
    let f = TempFile::new(&h.bytes[..h.at]);
    let w = (|| -> std::io::Result<()> {
        let mut o = std::fs::OpenOptions::new().write(true).open(&f.0)?;
        o.seek(SeekFrom::Start(h.at as u64 + h.gap))?;
        o.write_all(&h.bytes[h.at..])?;
        o.set_len(h.bytes.len() as u64 + h.gap)
    })();
    if w.is_err() {
        // the scratch folder does not take sparse files
        cx.nontrivial = false;
        return Ok(());
    }
    let small = Arc::new(filled(&small));
    for op in h.ops {
        let r0 = run(*op, Mode::Mem, &small);
        ensure!(r0.out.is_ok(), "reference fails", "{fmt} {op:?}: {}", r0.brief());
        let mut p = MediaParser::new();
        let how = *t.pick(&["by path", "by path, async"]);
        macro_rules! go {
            ($ms:expr, $exif:ident, $track:ident, $image:ident $(, $aw:tt)?) => {
                match $ms {
                    Err(e) => (None, Err(e)),
                    Ok(ms) => {
                        let kind = Some(if ms.kind() == MediaKind::Image { "Image" } else { "Track" });
                        let l = match op {
                            Op::Exif => p.$exif(ms)$(.$aw)?.map(Live::Exif),
                            Op::Track => p.$track(ms)$(.$aw)?.map(Live::Track),
                            Op::Image => p.$image(ms)$(.$aw)?.map(Live::Img),
                        };
                        (kind, l)
                    }
                }
            };
        }
        let (kind, l) = if how == "by path" {
            go!(MediaSource::open(&f.0), parse_exif, parse_track, parse_image_metadata)
        } else {
            rt(async { go!(AsyncMediaSource::open(&f.0).await, parse_exif_async, parse_track_async, parse_image_metadata_async, await) })
        };
        let r = Res { kind, out: l.map(|l| l.out()).map_err(|e| crate::norm::err_cat(&e)) };
        same(&h, *op, how, &r0, &r)?;
        cx.checks += 1;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "a well-formed file with a gap of media data parsed and compared with the same file with 16 bytes of it; distinct by the stored bytes",
        level: "exploration",
        assumptions: &[
            "TIFF is left out (its directories may lie anywhere, so it is loaded up to the last one), and so are HEIF, CR3, RAF and Matroska files with their media data before the metadata (it is loaded, too, up to 1 GiB)",
            "a motion photo whose video is asked for is read and held in full (its trailer is found from the end), so only the result is compared there",
            "the gaps are synthesised by the reader (or are holes in a sparse file), not stored",
        ],
        subs: vec![
            Sub { name: "huge", drive: Drive::Random, quick: 200_000, thorough: 4_000_000, tape: 700, f: huge },
            Sub { name: "streamed", drive: Drive::Random, quick: 2_000, thorough: 60_000, tape: 700, f: streamed },
            Sub { name: "files", drive: Drive::Random, quick: 2_000, thorough: 40_000, tape: 700, f: files },
        ],
    }
}
