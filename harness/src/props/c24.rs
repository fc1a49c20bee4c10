//! Errors name what went wrong.
use super::c16::find;
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::tape::*;
use crate::norm::Out;
use std::sync::Arc;

fn modes(t: &mut Tape, n: usize) -> Vec<Mode> {
    let mut ms = ALL.to_vec();
    t.shuffle(&mut ms);
    ms.sort_by_key(|m| matches!(m, Mode::File | Mode::AFile));
    ms.truncate(n);
    ms
}
fn pad(mut b: Vec<u8>) -> Vec<u8> {
    // trailing zeros bring short files above the length a stream must have
    let n = b.len().max(141);
    b.resize(n, 0);
    b
}

/// Valid containers that carry no metadata of the kind asked for.
fn absent(t: &mut Tape, cx: &mut Cx) -> R {
    let f = *t.pick(&["jpeg", "heif", "heif-no-meta", "png", "raf", "cr3", "cr3-no-moov", "mp4", "mkv"]);
    cx.label(f);
    let big = t.chance(1, 3);
    let (image, b) = match f {
        "jpeg" => (true, jpeg::gen_jpeg(t, None, big).encode()),
        "heif" => (true, bmff::gen_heif(t, None, big).encode(None).bytes),
        "heif-no-meta" => {
            let m = **t.pick(&[b"heic", b"mif1", b"avif"]);
            let mut b = bmff::ftyp(&m, 0, &[*b"mif1"]);
            for _ in 0..t.range(1, 4) {
                b.extend(bmff::noise_box(t, big));
            }
            let n = t.range(130, 700);
            b.extend(bmff::bx(b"mdat", &t.fill(n)));
            (true, b)
        }
        "png" => {
            let mut p = png::Png::default();
            for _ in 0..t.range(0, 4) {
                p.chunks.push(png::noise_chunk(t, big));
            }
            p.chunks.push(png::chunk(b"IDAT", &t.fill(140)));
            (true, p.encode())
        }
        "raf" => {
            let j = jpeg::gen_jpeg(t, None, big).encode();
            (true, raf::raf(t, &j, big))
        }
        "cr3" => (true, bmff::cr3_with(t, None, None, big)),
        "cr3-no-moov" => {
            let mut b = bmff::ftyp(b"crx ", 1, &[*b"crx ", *b"isom"]);
            let n = t.range(130, 700);
            b.extend(bmff::bx(b"mdat", &t.fill(n)));
            if t.chance(1, 2) {
                b.extend(bmff::noise_box(t, big));
            }
            (true, b)
        }
        "mp4" => (false, super::c13::gen(t, big).bytes),
        _ => {
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts { big, audio_first: t.chance(1, 4), seek: t.chance(1, 2), stale: false };
            (false, ebml::build(t, &m, o))
        }
    };
    if b.len() <= 128 {
        return Ok(());
    }
    cx.data(f, &b);
    cx.nontrivial = true;
    cx.sample(|| format!("{f}, {} bytes, no metadata of the kind asked for", b.len()));
    let data = Arc::new(b);
    for m in modes(t, 3) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        for op in OPS {
            if op == Op::Track && !image {
                continue;
            }
            let want = if op == Op::Track { "TrackNotFound" } else { "ExifNotFound" };
            let r = run_sched(op, m, &data, &s);
            cx.checks += 1;
            ensure!(r.out == Err(want.into()), "missing metadata misreported", "{f} ({} bytes) without it: {op:?} via {m:?} gives {}, not {want}", data.len(), r.brief());
        }
    }
    Ok(())
}

/// A TIFF block whose header cannot be one.
fn bad_tiff(t: &mut Tape) -> (Vec<u8>, &'static str) {
    let mut x = small_tiff(t, 200);
    x.resize(x.len().max(60), 0);
    match t.below(4) {
        0 => {
            x[0] ^= 0x11;
            (x, "byte-order mark")
        }
        1 => {
            x[1] ^= 1 + t.below(255) as u8;
            (x, "half a byte-order mark")
        }
        2 => {
            let k = 2 + t.below(2);
            x[k] ^= 1 + t.below(255) as u8;
            (x, "magic number")
        }
        _ => {
            x[..8].fill(0);
            (x, "zeros")
        }
    }
}

/// A box header inside `b`, which starts at `from`: (place, size).
fn child(b: &[u8], from: usize, ty: &[u8; 4]) -> (usize, usize) {
    let at = from + find(&b[from..], ty).unwrap() - 4;
    (at, u32::from_be_bytes(b[at..at + 4].try_into().unwrap()) as usize)
}

/// A unit inside the carrier, which is whole, does not add up.
fn inside(t: &mut Tape, cx: &mut Cx) -> R {
    let f = *t.pick(&[
        "heif count", "heif child size", "heif field sizes", "heif item name", "heif item length", "mp4 header", "mp4 child size", "mkv info",
        "short tiff", "first directory", "cr3 child size", "cr3 short block",
    ]);
    cx.label(f);
    let big = t.chance(1, 4);
    let mut x = small_tiff(t, 200);
    let mut ops = vec![Op::Exif, Op::Image];
    let mut why = String::new();
    let mut kinds = vec!["IsoBmffBox"];
    let b = match f {
        "heif count" | "heif child size" | "heif field sizes" | "heif item name" | "heif item length" => {
            let mut l = bmff::gen_heif(t, None, big);
            l.items.truncate(40);
            l.odd.clear();
            l.name.clear();
            // one level of it: no noise that looks like what is sought
            for k in l.kids.iter_mut().chain(&mut l.pre) {
                if [&b"iinf"[..], b"iloc", b"infe", b"meta"].iter().any(|n| find(k, n).is_some()) {
                    k.truncate(0);
                }
            }
            if f == "heif item length" {
                // no room for the offset an Exif item starts with
                x.clear();
                l.prefix.clear();
            }
            let e = l.encode(Some(&x));
            let mut b = e.bytes;
            let meta = e.meta_end - {
                let at = find(&b, b"meta").unwrap() - 4;
                e.meta_end - at
            };
            let (ii, il) = (child(&b, meta + 4, b"iinf"), child(&b, meta + 4, b"iloc"));
            let iloc = find_nth_iloc(&b, e.iloc_at);
            ensure!(iloc && il.0 == e.iloc_at, "harness", "iloc at {} and {}", il.0, e.iloc_at);
            match f {
                "heif count" => {
                    let more = t.range(1, 300) as u32;
                    let (at, wide) = if t.chance(1, 2) { (ii.0 + 12, l.iinf_ver > 0) } else { (il.0 + 14, l.iloc_ver == 2) };
                    let n = if wide {
                        u32::from_be_bytes(b[at..at + 4].try_into().unwrap()).saturating_add(more)
                    } else {
                        (u16::from_be_bytes([b[at], b[at + 1]]) as u32 + more).min(0xffff)
                    };
                    why = format!("{n} entries claimed in the box at {}", if at > il.0 && at < il.0 + 20 { il.0 } else { ii.0 });
                    if wide {
                        b[at..at + 4].copy_from_slice(&n.to_be_bytes());
                    } else {
                        b[at..at + 2].copy_from_slice(&(n as u16).to_be_bytes());
                    }
                }
                "heif child size" => {
                    // an essential child larger than what is left of its parent
                    let (at, _) = *t.pick(&[ii, il]);
                    let n = (e.meta_end - at) as u32 + t.range(1, 4000) as u32;
                    why = format!("box at {at}, {n} bytes, its parent ends at {}", e.meta_end);
                    b[at..at + 4].copy_from_slice(&n.to_be_bytes());
                }
                "heif field sizes" => {
                    let bad = *t.pick(&[1u8, 2, 3, 5, 6, 7, 9, 12, 15]);
                    let at = il.0 + 12 + t.below(2);
                    let low = if at == il.0 + 12 || l.iloc_ver > 0 { t.chance(1, 2) } else { false };
                    b[at] = if low { b[at] & 0xf0 | bad } else { b[at] & 0x0f | bad << 4 };
                    why = format!("field size {bad} at {at}");
                }
                "heif item name" => {
                    // the names of all items lose their end mark
                    let mut p = ii.0 + if l.iinf_ver == 0 { 14 } else { 16 };
                    while p < ii.0 + ii.1 {
                        let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
                        let name = p + 12 + if l.infe_ver == 2 { 8 } else { 10 };
                        for c in &mut b[name..p + n] {
                            if *c == 0 {
                                *c = b'n';
                            }
                        }
                        p += n;
                    }
                }
                _ => {
                    // the item ends inside its offset field
                    let n = t.below(4) as u64;
                    let tail = match l.len_size {
                        4 => (n as u32).to_be_bytes().to_vec(),
                        _ => n.to_be_bytes().to_vec(),
                    };
                    let was = match l.len_size {
                        4 => 4u32.to_be_bytes().to_vec(),
                        _ => 4u64.to_be_bytes().to_vec(),
                    };
                    // every item is 4 bytes long here
                    let step = was.len();
                    let mut hit = 0;
                    let mut p = il.0 + 16;
                    while p + step <= il.0 + il.1 {
                        if b[p..p + step] == was[..] && is_len(&b, p, &l, il) {
                            b[p..p + step].copy_from_slice(&tail);
                            hit += 1;
                        }
                        p += 1;
                    }
                    if hit == 0 {
                        return Ok(());
                    }
                    why = format!("{n} bytes");
                }
            }
            b
        }
        "mp4 header" | "mp4 child size" => {
            ops = vec![Op::Track];
            let m = super::c13::gen(t, big);
            let mut b = m.bytes;
            let (at, n) = child(&b, m.moov_at + 8, b"mvhd");
            if f == "mp4 header" {
                // cut out some of its end
                let keep = t.range(8, if b[at + 8] == 1 { 39 } else { 27 });
                let cut = n - keep;
                b.drain(at + keep..at + n);
                b[at..at + 4].copy_from_slice(&(keep as u32).to_be_bytes());
                let k = m.moov_at;
                let wide = b[k..k + 4] == 1u32.to_be_bytes();
                if wide {
                    let v = u64::from_be_bytes(b[k + 8..k + 16].try_into().unwrap()) - cut as u64;
                    b[k + 8..k + 16].copy_from_slice(&v.to_be_bytes());
                } else {
                    let v = u32::from_be_bytes(b[k..k + 4].try_into().unwrap());
                    if v > 0 {
                        b[k..k + 4].copy_from_slice(&(v - cut as u32).to_be_bytes());
                    }
                }
                why = format!("{keep} of {n} bytes");
            } else {
                let n = (m.moov_end - at) as u32 + t.range(1, 4000) as u32;
                b[at..at + 4].copy_from_slice(&n.to_be_bytes());
                why = format!("mvhd of {n} bytes at {at} in a moov box that ends at {}", m.moov_end);
            }
            b
        }
        "cr3 child size" | "cr3 short block" => {
            if f == "cr3 short block" {
                x.truncate(t.below(8));
            }
            let mut b = bmff::cr3(t, &x, None, big);
            let u = b.windows(16).rposition(|w| w == bmff::CANON_UUID).unwrap();
            if f == "cr3 child size" {
                // Canon's box, or the block in it, claims more than the movie box holds
                let more = b.len() as u32 + t.below(4000) as u32;
                let cmt = u + find(&b[u..], b"CMT1").unwrap() - 4;
                let at = match t.below(2) {
                    0 => cmt,
                    // the low half of a 64-bit size, or the size
                    _ => if &b[u - 4..u] == b"uuid" { u - 8 } else { u - 4 },
                };
                b[at..at + 4].copy_from_slice(&more.to_be_bytes());
                why = format!("{more} bytes at {at}");
            } else {
                why = format!("{} bytes", x.len());
            }
            b
        }
        "mkv info" => {
            kinds = vec!["EbmlElement"];
            ops = vec![Op::Track];
            let mut m = ebml::gen_model(t);
            m.dims = None;
            let o = ebml::MkvOpts { big, ..Default::default() };
            let mut b = ebml::build(t, &m, o);
            let at = find(&b, &ebml::id(ebml::INFO)).unwrap() + 4;
            let w = b[at].leading_zeros() as usize + 1;
            // its first child starts with a byte no element starts with
            if b[at..at + w] == ebml::vint(0, w)[..] {
                return Ok(());
            }
            b[at + w] = 0;
            b
        }
        "short tiff" => {
            kinds = vec!["TiffHeader", "JpegSegment", "IsoBmffBox"];
            x.truncate(t.range(1, 7));
            why = format!("{} bytes", x.len());
            let c = t.below(4);
            cx.label(["jpeg", "heif", "png", "raf"][c]);
            match c {
                0 => jpeg::gen_jpeg(t, Some(&x), big).encode(),
                1 => bmff::gen_heif(t, None, big).encode(Some(&x)).bytes,
                2 => {
                    kinds = vec!["TiffHeader", "PngChunk"];
                    png::Png { chunks: vec![png::chunk(b"eXIf", &x), png::chunk(b"IDAT", &t.fill(150))], trailer: vec![] }.encode()
                }
                _ => {
                    let j = jpeg::gen_jpeg(t, Some(&x), big).encode();
                    raf::raf(t, &j, big)
                }
            }
        }
        _ => {
            // the block ends before its first directory
            kinds = vec!["TiffHeader", "IfdEntry"];
            let be = x[0] == b'M';
            let off = match t.below(3) {
                0 => x.len() as u32 + t.below(3000) as u32,
                1 => u32::MAX - t.below(20) as u32,
                _ => x.len() as u32 - t.below(2) as u32,
            };
            x[4..8].copy_from_slice(&if be { off.to_be_bytes() } else { off.to_le_bytes() });
            why = format!("{off:#x} in a block of {} bytes", x.len());
            let c = t.below(5);
            cx.label(["jpeg", "heif", "png", "raf", "cr3"][c]);
            match c {
                0 => jpeg::gen_jpeg(t, Some(&x), big).encode(),
                1 => bmff::gen_heif(t, None, big).encode(Some(&x)).bytes,
                2 => png::Png { chunks: vec![png::chunk(b"eXIf", &x), png::chunk(b"IDAT", &t.fill(100))], trailer: vec![] }.encode(),
                3 => {
                    let j = jpeg::gen_jpeg(t, Some(&x), big).encode();
                    raf::raf(t, &j, big)
                }
                _ => bmff::cr3(t, &x, None, big),
            }
        }
    };
    let b = pad(b);
    cx.data(&f.replace(' ', "-"), &b);
    cx.nontrivial = true;
    cx.sample(|| format!("{f} {why}, {} bytes", b.len()));
    let data = Arc::new(b);
    for m in modes(t, 3) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        for op in &ops {
            let r = run_sched(*op, m, &data, &s);
            cx.checks += 1;
            let ok = match &r.out {
                Err(e) => kinds.iter().any(|k| *e == format!("Malformed({k})")),
                // the rest of a movie may still tell something, not nothing
                Ok(Out::Track(o)) => f.starts_with("mp4") && !o.entries.is_empty(),
                _ => false,
            };
            ensure!(ok, format!("{f} misreported").as_str(), "{f} {why} ({} bytes): {op:?} via {m:?} gives {}, not one of {kinds:?}", data.len(), r.brief());
        }
    }
    Ok(())
}
fn find_nth_iloc(b: &[u8], at: usize) -> bool {
    b.get(at + 4..at + 8) == Some(b"iloc")
}
/// Whether an item length is encoded at `p`.
fn is_len(_b: &[u8], p: usize, l: &bmff::HeifLayout, il: (usize, usize)) -> bool {
    let (idw, m) = (if l.iloc_ver < 2 { 2 } else { 4 }, if l.iloc_ver > 0 { 2 } else { 0 });
    let lens = l.idx_size as usize * (l.iloc_ver > 0) as usize + l.off_size as usize;
    let item = idw + m + 2 + l.base_size as usize + 2 + lens + l.len_size as usize;
    let first = il.0 + 14 + if l.iloc_ver < 2 { 2 } else { 4 };
    p >= first && (p - first) % item == item - l.len_size as usize
}

/// The carrier is there and broken: malformed, named after the broken unit.
fn broken(t: &mut Tape, cx: &mut Cx) -> R {
    let f = *t.pick(&[
        "jpeg tiff", "heif tiff", "png tiff", "raf tiff", "cr3 tiff", "jpeg segment length", "jpeg marker", "raf jpeg", "heif box", "cr3 box",
        "mp4 box", "heif no location", "mkv size", "png app1 ok",
    ]);
    cx.label(f);
    let big = t.chance(1, 4);
    let x = small_tiff(t, 200);
    let mut ops = vec![Op::Exif, Op::Image];
    let mut why = "";
    // a box header whose size cannot be: smaller than the header itself
    let bad_box = |t: &mut Tape| -> Vec<u8> {
        let n = t.range(2, 7) as u32;
        let mut b = n.to_be_bytes().to_vec();
        b.extend(*t.pick(&[b"free", b"skip", b"abcd", b"uuid"]));
        let k = t.size(20, 300);
        b.extend(t.fill(k));
        b
    };
    let (b, kind) = match f {
        "jpeg tiff" => {
            let (x, w) = bad_tiff(t);
            why = w;
            (jpeg::gen_jpeg(t, Some(&x), big).encode(), "TiffHeader")
        }
        "heif tiff" => {
            let (x, w) = bad_tiff(t);
            why = w;
            (bmff::gen_heif(t, None, big).encode(Some(&x)).bytes, "TiffHeader")
        }
        "png tiff" => {
            let (x, w) = bad_tiff(t);
            why = w;
            let mut p = png::Png::default();
            for _ in 0..t.range(0, 4) {
                p.chunks.push(png::noise_chunk(t, big));
            }
            let at = t.below(p.chunks.len() + 1);
            p.chunks.insert(at, png::chunk(b"eXIf", &x));
            p.chunks.push(png::chunk(b"IDAT", &t.fill(100)));
            (p.encode(), "TiffHeader")
        }
        "raf tiff" => {
            let (x, w) = bad_tiff(t);
            why = w;
            let j = jpeg::gen_jpeg(t, Some(&x), false).encode();
            (raf::raf(t, &j, big), "TiffHeader")
        }
        "cr3 tiff" => {
            let (x, w) = bad_tiff(t);
            why = w;
            (bmff::cr3(t, &x, None, big), "TiffHeader")
        }
        "jpeg segment length" | "jpeg marker" | "raf jpeg" => {
            let mut j = jpeg::gen_jpeg(t, Some(&x), big);
            // fill bytes would move the segments found below
            j.fill.clear();
            let b = j.encode();
            let mut at = 2;
            let n = j.segs.iter().position(|s| s.data.starts_with(b"Exif\0\0")).unwrap();
            for s in &j.segs[..t.below(n + 1)] {
                at += 4 + s.data.len();
            }
            let mut b = b;
            if f == "raf jpeg" {
                let k = t.below(2);
                b[k] ^= 1 + t.below(255) as u8;
                (raf::raf(t, &b, big), "JpegSegment")
            } else if f == "jpeg marker" {
                b[at] ^= 1 + t.below(255) as u8;
                (b, "JpegSegment")
            } else {
                b[at + 2] = 0;
                b[at + 3] = t.below(2) as u8;
                (b, "JpegSegment")
            }
        }
        "heif box" => {
            let mut l = bmff::gen_heif(t, None, big);
            l.mdat_first = false;
            let bb = bad_box(t);
            let at = t.below(l.pre.len() + 1);
            l.pre.insert(at, bb);
            (l.encode(Some(&x)).bytes, "IsoBmffBox")
        }
        "cr3 box" => {
            let b = bmff::cr3(t, &x, None, big);
            let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
            let mut b = b;
            b.splice(n..n, bad_box(t));
            (b, "IsoBmffBox")
        }
        "mp4 box" => {
            ops = vec![Op::Track];
            let head = bmff::ftyp(b"mp42", 0, &[*b"isom"]);
            let bb = bad_box(t);
            (super::c13::gen_with(t, big, [head, bb].concat()).bytes, "IsoBmffBox")
        }
        "heif no location" => {
            // the Exif item is declared, its place in the file is not
            let l = bmff::gen_heif(t, None, big);
            let e = l.encode(Some(&x));
            let mut b = e.bytes;
            // the location table becomes a free box
            ensure!(&b[e.iloc_at + 4..e.iloc_at + 8] == b"iloc", "harness", "iloc not at {}", e.iloc_at);
            b[e.iloc_at + 4..e.iloc_at + 8].copy_from_slice(b"free");
            (b, "IsoBmffBox")
        }
        "mkv size" => {
            ops = vec![Op::Track];
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts { big, audio_first: false, seek: false, stale: false };
            let mut b = ebml::build(t, &m, o);
            let at = find(&b, &ebml::id(ebml::SEGMENT)).unwrap();
            // no size starts with a zero byte
            b[at + 4] = 0;
            (b, "EbmlElement")
        }
        _ => {
            // an unusable text profile is not a carrier: the text is still there
            let (y, _) = bad_tiff(t);
            let mut p = png::Png::default();
            let y = [b"Exif\0\0".to_vec(), y].concat();
            p.chunks.push(png::text_chunk(b"Raw profile type APP1", &png::raw_profile("app1", &y, false, 36)));
            ops = vec![Op::Exif];
            (p.encode(), "")
        }
    };
    let b = pad(b);
    cx.data(&f.replace(' ', "-"), &b);
    cx.nontrivial = true;
    cx.sample(|| format!("{f} {why}, {} bytes", b.len()));
    let data = Arc::new(b);
    let want = if kind.is_empty() { "ExifNotFound".to_string() } else { format!("Malformed({kind})") };
    for m in modes(t, 3) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        for op in &ops {
            let r = run_sched(*op, m, &data, &s);
            cx.checks += 1;
            if f == "cr3 tiff" && r.out == Err("Malformed(IsoBmffBox)".into()) {
                // the Canon box has no usable CMT1: also a fair name for it
                continue;
            }
            ensure!(r.out == Err(want.clone()), "broken structure misreported", "broken {f} {why} ({} bytes): {op:?} via {m:?} gives {}, not {want}", data.len(), r.brief());
        }
    }
    Ok(())
}

fn is_eof(e: &str) -> bool {
    e == "UnexpectedEof" || e == "Io(UnexpectedEof)"
}

/// The file ends inside its metadata carrier.
fn ended(t: &mut Tape, cx: &mut Cx) -> R {
    let f = *t.pick(&["jpeg", "heif", "png", "raf", "cr3", "mp4", "mkv", "motion"]);
    let big = t.chance(1, 4);
    if f == "motion" {
        return ended_motion(t, cx, big);
    }
    let mut x = small_tiff(t, if big { 3000 } else { 200 });
    x.resize(x.len().max(60), 0);
    let mut ops = vec![Op::Exif, Op::Image];
    // where the size of the carrier lies
    let mut grown = None;
    let (mut b, from, mut to) = match f {
        "mp4" => {
            ops = vec![Op::Track];
            let m = super::c13::gen(t, big);
            // or in what precedes it
            let from = if m.moov_at > 150 && t.chance(1, 3) { 141 } else { m.moov_at + 9 };
            grown = Some(m.moov_at);
            (m.bytes, from, m.moov_end)
        }
        "mkv" => {
            ops = vec![Op::Track];
            let m = ebml::gen_model(t);
            let o = ebml::MkvOpts { big, audio_first: false, seek: false, stale: false };
            let b = ebml::build(t, &m, o);
            let a = find(&b, &ebml::id(ebml::INFO)).unwrap();
            (b, a + 5, a + 6)
        }
        _ => {
            let b = match f {
                "jpeg" => jpeg::gen_jpeg(t, Some(&x), big).encode(),
                "heif" => bmff::gen_heif(t, None, big).encode(Some(&x)).bytes,
                "raf" => {
                    let j = jpeg::gen_jpeg(t, Some(&x), big).encode();
                    raf::raf(t, &j, big)
                }
                "cr3" => bmff::cr3(t, &x, None, big),
                _ => {
                    let mut p = png::Png::default();
                    for _ in 0..t.range(0, 4) {
                        p.chunks.push(png::noise_chunk(t, big));
                    }
                    p.chunks.push(png::chunk(b"eXIf", &x));
                    p.encode()
                }
            };
            let a = find(&b, &x).unwrap();
            let n = a + x.len();
            if f == "png" {
                grown = Some(a - 8);
            }
            (b, a, n)
        }
    };
    // or the carrier goes on for much longer than there are bytes
    if let Some(at) = grown.filter(|_| t.chance(1, 6)) {
        let n = u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
        if n > 1 {
            let more = *t.pick(&[10_000u32, 1 << 16, 1 << 20, 1 << 24, 400_000_000]) + t.u16() as u32;
            b.truncate(to);
            b[at..at + 4].copy_from_slice(&(n + more).to_be_bytes());
            to += 1;
            cx.label("large carrier");
        }
    }
    if to <= from + 1 {
        return Ok(());
    }
    let cut = from + t.below(to - from);
    if cut <= 140 {
        return Ok(());
    }
    cx.label(f);
    let data = Arc::new(b[..cut].to_vec());
    cx.data(f, &data);
    cx.nontrivial = true;
    cx.sample(|| format!("{f} of {} bytes ends at {cut}, inside its metadata", b.len()));
    for m in modes(t, 3) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        for op in &ops {
            let r = run_sched(*op, m, &data, &s);
            cx.checks += 1;
            match &r.out {
                Err(e) if is_eof(e) => {}
                _ => return fail("early end misreported", format!("{f} of {} bytes cut at {cut}, inside its metadata: {op:?} via {m:?} gives {}", b.len(), r.brief())),
            }
        }
    }
    Ok(())
}

/// A motion photo whose movie, whole by its declared length, ends inside its metadata.
fn ended_motion(t: &mut Tape, cx: &mut Cx, big: bool) -> R {
    let m = super::c13::gen(t, big);
    let (from, to) = if m.moov_at > 150 && t.chance(1, 2) { (141, m.moov_at) } else { (m.moov_at + 9, m.moov_end) };
    let cut = from + t.below(to - from);
    let attr = if t.chance(1, 2) {
        format!("GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"{cut}\"")
    } else {
        format!("GCamera:MicroVideo=\"1\" GCamera:MicroVideoOffset=\"{cut}\"")
    };
    let xml = format!(
        "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description rdf:about=\"\" {attr}></rdf:Description></rdf:RDF></x:xmpmeta>"
    );
    let x = small_tiff(t, 200);
    let mut j = jpeg::gen_jpeg(t, Some(&x), big);
    let at = t.below(j.segs.len() + 1);
    j.segs.insert(at, jpeg::xmp_seg(xml.as_bytes()));
    j.trailer = m.bytes[..cut].to_vec();
    let data = Arc::new(j.encode());
    cx.label("motion");
    cx.data("jpg", &data);
    cx.nontrivial = true;
    cx.sample(|| format!("{} bytes, a movie of {} bytes given as {cut}, inside its metadata", data.len(), m.bytes.len()));
    for md in modes(t, 3) {
        let mut s = gen_sched(t);
        cap_sched(&mut s, data.len());
        let r = run_sched(Op::Track, md, &data, &s);
        cx.checks += 1;
        match &r.out {
            Err(e) if is_eof(e) => {}
            _ => return fail("early end misreported", format!("a movie of {} bytes cut at {cut}, inside its metadata, behind a JPEG: via {md:?} gives {}", m.bytes.len(), r.brief())),
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "every case: a container without metadata, with one broken structure, or ending inside its metadata, asked in three source modes",
        level: "exploration",
        assumptions: &["early end: UnexpectedEof and Io(UnexpectedEof) both name it"],
        subs: vec![
            Sub { name: "absent", drive: Drive::Random, quick: 400_000, thorough: 4_800_000, tape: 600, f: absent },
            Sub { name: "broken", drive: Drive::Random, quick: 400_000, thorough: 4_800_000, tape: 700, f: broken },
            Sub { name: "inside", drive: Drive::Random, quick: 400_000, thorough: 4_800_000, tape: 700, f: inside },
            Sub { name: "ended", drive: Drive::Random, quick: 400_000, thorough: 4_800_000, tape: 700, f: ended },
        ],
    }
}
