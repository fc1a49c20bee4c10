//! Work, memory and bytes read stay bounded by the input.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

fn case(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, b) = gen_input(t, false);
    cx.label(what.split('+').next().unwrap());
    cx.sample(|| format!("{what}, {} bytes", b.len()));
    measure(t, cx, &what, b)
}
fn measure(t: &mut Tape, cx: &mut Cx, what: &str, b: Vec<u8>) -> R {
    cx.data("input", &b);
    let n = b.len() as u64;
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
    let mut s = gen_sched(t);
    cap_sched(&mut s, a.len());
    for op in OPS {
        let stat = Arc::new(Stat::default());
        let mut p = MediaParser::new();
        let m = crate::alloc::start();
        let e0 = covrt::edges();
        let (k, l) = run_live(&mut p, op, mode, &a, &s, &stat);
        let u = m.read();
        let work = covrt::edges() - e0;
        cx.nontrivial |= k.is_some();
        cx.checks += 4;
        let lim = 2_000_000 + 2_000 * n;
        ensure!(work <= lim, "parse work", "{what} ({n} bytes): {op:?} via {mode:?} executes {work} edges, bound {lim}");
        let lim = (1 << 20) + 24 * n;
        ensure!(u.peak <= lim, "parse memory", "{what} ({n} bytes): {op:?} via {mode:?} peaks at {} bytes, bound {lim}", u.peak);
        let rd = Stat::get(&stat.bytes);
        ensure!(rd <= 2 * n + 4096, "bytes read", "{what} ({n} bytes): {op:?} via {mode:?} reads {rd} bytes");
        let eof = Stat::get(&stat.eof_reads);
        ensure!(eof <= 64, "reads at end", "{what} ({n} bytes): {op:?} via {mode:?} asks {eof} times for bytes after the end");
        if let Ok(l) = l {
            cx.label(format!("{op:?} ok"));
            let it = match &l {
                Live::Exif(i) => Some(i),
                Live::Img(i) => i.exif.as_ref(),
                _ => None,
            };
            let mut held = 0u64;
            if let Some(i) = it {
                let m = crate::alloc::start();
                let e0 = covrt::edges();
                let mut cnt = 0u64;
                for e in i.clone_rewound() {
                    cnt += 1;
                    if let Ok(v) = e.result() {
                        held += size(v);
                    }
                }
                let u = m.read();
                let work = covrt::edges() - e0;
                let lim = 2_000_000 + 2_000 * n + 40 * held;
                ensure!(work <= lim, "iteration work", "{what} ({n} bytes): iterating {cnt} entries ({held} bytes) executes {work} edges, bound {lim}");
                let lim = (1 << 20) + 24 * n;
                ensure!(u.peak <= lim, "iteration memory", "{what} ({n} bytes): iterating {cnt} entries peaks at {} bytes, bound {lim}", u.peak);
                // entries are 12 bytes each on disk
                ensure!(cnt <= n / 12 * 4 + 16, "entry count", "{what} ({n} bytes): {cnt} entries reported");
                let m = crate::alloc::start();
                let x: Exif = i.clone_rewound().into();
                let u = m.read();
                let lim = (1 << 20) + 24 * n + 6 * held + 600 * cnt;
                ensure!(u.peak <= lim, "eager memory", "{what} ({n} bytes): eager form of {cnt} entries ({held} bytes of values) peaks at {} bytes, bound {lim}", u.peak);
                drop(x);
            }
            let m = crate::alloc::start();
            let e0 = covrt::edges();
            let txt = walk(l) as u64;
            let u = m.read();
            let work = covrt::edges() - e0;
            let lim = 4_000_000 + 8_000 * n + 400 * held + 50 * txt;
            ensure!(work <= lim, "walk work", "{what} ({n} bytes): using the result of {op:?} executes {work} edges, bound {lim}");
            let lim = (4 << 20) + 100 * n + 60 * held;
            ensure!(u.peak <= lim, "walk memory", "{what} ({n} bytes): using the result of {op:?} peaks at {} bytes, bound {lim}", u.peak);
            cx.checks += 6;
        }
    }
    Ok(())
}
fn size(v: &EntryValue) -> u64 {
    (match v {
        EntryValue::Text(s) => s.len(),
        EntryValue::Undefined(b) | EntryValue::U8Array(b) => b.len(),
        EntryValue::U16Array(b) => b.len() * 2,
        EntryValue::U32Array(b) => b.len() * 4,
        EntryValue::URationalArray(b) => b.len() * 8,
        EntryValue::IRationalArray(b) => b.len() * 8,
        _ => 8,
    }) as u64
}

/// Small files that claim huge sizes, counts and offsets.
fn claims(t: &mut Tape, cx: &mut Cx) -> R {
    let m = gen_media(t, false);
    let mut b = m.bytes;
    cx.label(m.fmt);
    // overwrite a few fields with large numbers
    let k = t.range(1, 4);
    for _ in 0..k {
        let lim = b.len().min(if t.chance(1, 2) { 400 } else { 4000 });
        let p = t.below(lim.max(1));
        let v = *t.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x3fff_ffff, 0x0fff_ffff, 0x00ff_ffff, 0x4000_0000, 0x0100_0000]);
        let w = *t.pick(&[4usize, 4, 3, 8, 2]);
        let x = v.to_be_bytes();
        for j in 0..w {
            if p + j < b.len() {
                b[p + j] = x[j % 4];
            }
        }
    }
    cx.sample(|| format!("{} with {k} huge fields, {} bytes", m.fmt, b.len()));
    measure(t, cx, m.fmt, b)
}
/// Directories full of pointers to each other and to themselves.
fn web(t: &mut Tape, cx: &mut Cx) -> R {
    let be = t.chance(1, 2);
    let n = t.range(1, 5);
    let mut sizes = vec![];
    for _ in 0..n {
        sizes.push(match t.below(4) {
            0 => t.range(1, 4),
            1 => t.range(4, 20),
            _ => t.range(20, 200),
        });
    }
    let w = crate::build::tiff::W { be };
    let mut off = vec![];
    let mut o = 8usize;
    for s in &sizes {
        off.push(o as u32);
        o += 2 + s * 12 + 4;
    }
    let mut b = if be { b"MM".to_vec() } else { b"II".to_vec() };
    b.extend(w.u16(42));
    b.extend(w.u32(8));
    let mut ptrs = 0;
    for (i, s) in sizes.iter().enumerate() {
        b.extend(w.u16(*s as u16));
        let plain = t.below(4);
        // whole directories of pointers to one place, or to anywhere
        let fixed = if t.chance(1, 2) { Some(t.below(n)) } else { None };
        let ptr_tag = *t.pick(&[0u16, 0x8769, 0x8825]);
        for k in 0..*s {
            let ptr = k % 4 >= plain || plain == 3 && k % 16 == 0;
            let tag = match (ptr, ptr_tag) {
                (true, 0) => *[0x8769u16, 0x8825].get(k % 2).unwrap(),
                (true, p) => p,
                _ => 0x0100 + k as u16,
            };
            b.extend(w.u16(tag));
            b.extend(w.u16(4));
            b.extend(w.u32(1));
            let to = fixed.unwrap_or_else(|| (k * 7 + i) % n);
            // sometimes into the middle of a directory
            let skew = if k % 11 == 10 { 2 } else { 0 };
            b.extend(w.u32(if ptr { off[to] + skew } else { k as u32 }));
            ptrs += ptr as usize;
        }
        let nx = t.below(n + 2);
        b.extend(w.u32(if nx < n { off[nx] } else { 0 }));
    }
    let what = match t.below(4) {
        0 => {
            b = crate::build::jpeg::gen_jpeg(t, Some(&b), false).encode();
            "jpeg"
        }
        1 => {
            let c2 = b.clone();
            b = crate::build::bmff::cr3(t, &b, Some(&c2), false);
            "cr3"
        }
        _ => {
            b.resize(b.len().max(140), 0);
            "tiff"
        }
    };
    cx.label(what);
    cx.sample(|| format!("{what}: {n} directories, {ptrs} pointers among them, {} bytes", b.len()));
    measure(t, cx, what, b)
}
fn clean(t: &mut Tape, cx: &mut Cx) -> R {
    let m = gen_media(t, true);
    cx.label(m.fmt);
    cx.sample(|| format!("{}, {} bytes", m.fmt, m.bytes.len()));
    measure(t, cx, m.fmt, m.bytes)
}

/// Files of a great many small parts: four times the parts, four times the work.
fn large(t: &mut Tape, cx: &mut Cx) -> R {
    use crate::build::{bmff, ebml, jpeg, png, tiff};
    const KINDS: [&str; 14] = [
        "jpeg segments", "jpeg fill bytes", "jpeg xmp", "heif boxes", "heif items", "mp4 boxes", "moov boxes", "keys", "cr3 boxes",
        "png chunks", "png text", "mkv elements", "tiff entries", "tiff chain",
    ];
    let k = t.below(KINDS.len());
    let kind = KINDS[k];
    let n = t.range(200, 400) << 10;
    let unit = [0usize, 1, 3, 9, 30][t.below(5)];
    let v = t.below(8);
    let x = small_tiff(t, 200);
    let ending = t.chance(1, 2);
    let make = |n: usize| -> Vec<u8> {
        let many = |head: Vec<u8>, one: &[u8], tail: &[u8]| -> Vec<u8> {
            let mut b = head;
            while b.len() < n {
                b.extend_from_slice(one);
            }
            if ending {
                b.extend_from_slice(tail);
            }
            b
        };
        let body = vec![0x20u8; unit];
        let app = |m: u8, d: &[u8]| [&[0xFF, m][..], &((d.len() + 2) as u16).to_be_bytes(), d].concat();
        let jtail = jpeg::Jpeg { segs: vec![jpeg::exif_seg(&x[..x.len().min(65000)])], scan: vec![0x11; 200], ..Default::default() }.encode();
        let mvhd = bmff::mvhd(&bmff::Mvhd { ver: 0, ctime: 3_700_000_000, scale: 1, dur: 9 });
        let moov = bmff::bx(b"moov", &mvhd);
        match kind {
            "jpeg segments" => {
                // before EXIF, or behind it
                let head = if v < 4 { vec![0xFF, 0xD8] } else { jtail[..jtail.len() - 212].to_vec() };
                many(head, &app(0xE2, &body), &jtail[2..])
            }
            "jpeg fill bytes" => many(vec![0xFF, 0xD8], &[0xFF; 64], &jtail[2..]),
            "jpeg xmp" => {
                let xml = format!("<a GCamera:MotionPhoto=\"1\"><Container:Directory{}", " <Container:Item Item:Length=\"1\"/>".repeat(v * 3));
                let s = app(0xE1, &[jpeg::XMP_NS, xml.as_bytes(), &body].concat());
                many(vec![0xFF, 0xD8], &s, &jtail[2..])
            }
            "heif boxes" => {
                let h = bmff::HeifLayout { mdat_first: false, ..bmff::gen_heif(&mut Tape::new(vec![]), Some(*b"heic"), false) }.encode(Some(&x)).bytes;
                let head = bmff::ftyp(b"heic", 0, &[*b"mif1"]);
                many(head, &bmff::bx(b"free", &body), &h[16..])
            }
            "heif items" => {
                let mut l = bmff::gen_heif(&mut Tape::new(vec![]), Some(*b"heic"), false);
                l.iinf_ver = 1;
                l.infe_ver = 3;
                l.iloc_ver = 2;
                l.name = body;
                l.items = (0..n as u32 / 60).map(|k| (k + 1000, *b"hvc1")).collect();
                l.encode(Some(&x)).bytes
            }
            "mp4 boxes" => many(bmff::ftyp(b"isom", 0, &[*b"isom"]), &bmff::bx(b"free", &body), &moov),
            "moov boxes" => {
                let ty = *[b"free", b"trak", b"udta", b"meta"][v % 4];
                let inner = many(vec![], &bmff::bx(&ty, &body), &mvhd);
                [bmff::ftyp(b"isom", 0, &[*b"isom"]), bmff::bx(b"moov", &inner)].concat()
            }
            "keys" => {
                let e: Vec<(String, u32, Vec<u8>)> = (0..n / 60).map(|k| (format!("k{}", k * (v & 1)), 1, body.clone())).collect();
                let o: Vec<usize> = (0..e.len()).collect();
                let inner = [mvhd, bmff::qt_meta(&e, &o, false)].concat();
                [bmff::ftyp(b"qt  ", 0, &[*b"qt  "]), bmff::bx(b"moov", &inner)].concat()
            }
            "cr3 boxes" => {
                let c = bmff::cr3_with(&mut Tape::new(vec![]), Some(&x), None, false);
                let head = bmff::ftyp(b"crx ", 1, &[*b"crx ", *b"isom"]);
                many(head.clone(), &bmff::bx(b"free", &body), &c[head.len()..])
            }
            "png chunks" => many(png::Png::default().encode()[..33].to_vec(), &[&(unit as u32).to_be_bytes()[..], b"prVt", &body, b"AAAA"].concat(), b"\0\0\0\0IENDAAAA"),
            "png text" => {
                let d = [&b"K\0"[..], &body].concat();
                many(png::Png::default().encode()[..33].to_vec(), &[&(d.len() as u32).to_be_bytes()[..], b"tEXt", &d, b"AAAA"].concat(), b"\0\0\0\0IENDAAAA")
            }
            "mkv elements" => {
                let ty = [0xECu32, ebml::CLUSTER, ebml::TAGS, ebml::SEEKHEAD][v % 4];
                let m = ebml::Mkv { scale: None, duration: Some((5.0, true)), date: None, dims: Some((10, 10)), ..Default::default() };
                let w = ebml::build(&mut Tape::new(vec![]), &m, ebml::MkvOpts::default());
                let seg = ebml::id(ebml::SEGMENT);
                let at = super::c16::find(&w, &seg).unwrap();
                let head = [&w[..at], &seg, &[0xFF]].concat();
                // the size of the tail's segment is one byte or two
                let body_at = super::c16::find(&w, &ebml::id(ebml::INFO)).unwrap();
                many(head, &ebml::el(ty, 1, &body), &w[body_at..])
            }
            "tiff entries" => {
                let ents = (0..(n / 12).min(65535)).map(|k| tiff::Entry { tag: (k as u16).max(1), val: tiff::Val::U16(vec![k as u16]) }).collect();
                tiff::Tiff { be: v & 1 == 1, dirs: vec![tiff::Dir { idx: 0, ents, next: None }], ..Default::default() }.encode().bytes
            }
            _ => {
                let e = |k: usize| tiff::Entry { tag: 0x100, val: tiff::Val::U32(vec![k as u32; 1 + unit]) };
                let m = n / (18 + 4 * unit + if unit > 0 { 4 } else { 0 });
                let dirs = (0..m).map(|k| tiff::Dir { idx: k, ents: vec![e(k)], next: (k + 1 < m).then_some(k + 1) }).collect();
                tiff::Tiff { be: v & 1 == 1, dirs, ..Default::default() }.encode().bytes
            }
        }
    };
    let (a, b) = (Arc::new(make(n)), Arc::new(make(4 * n)));
    cx.data("input", &a);
    cx.label(kind);
    cx.nontrivial = true;
    cx.sample(|| format!("{kind}, unit {unit}, variant {v}: {} and {} bytes", a.len(), b.len()));
    let mode = *t.pick(&[Mode::Seek, Mode::Unseek, Mode::ASeek, Mode::AUnseek, Mode::Mem]);
    for op in OPS {
        let work = |x: &Arc<Vec<u8>>| {
            let e0 = covrt::edges();
            let stat = Arc::new(Stat::default());
            let mut p = MediaParser::new();
            let (_, l) = run_live(&mut p, op, mode, x, &Sched::default(), &stat);
            let e1 = covrt::edges();
            let n = l.ok().map(|l| match l {
                Live::Exif(i) => i.count(),
                Live::Img(i) => i.exif.map_or(0, |e| e.count()),
                _ => 0,
            });
            (e1 - e0, covrt::edges() - e1, n)
        };
        let ((p1, w1, c1), (p2, w2, c2)) = (work(&a), work(&b));
        cx.checks += 3;
        let how = format!("{kind} (unit {unit}, variant {v}), {op:?} via {mode:?}, {} and {} bytes", a.len(), b.len());
        ensure!(p2 <= 8 * p1 + 2_000_000, "parse scaling", "{how}: {p1} and {p2} edges to parse");
        ensure!(w2 <= 8 * w1 + 2_000_000, "walk scaling", "{how}: {w1} and {w2} edges to read {c1:?} and {c2:?} entries");
        let lim = 2_000_000 + 2_000 * b.len() as u64;
        ensure!(p2 <= lim, "parse work", "{how}: {p2} edges, bound {lim}");
    }
    Ok(())
}

/// One long value: using it costs four times as much when it is four times as long.
fn values(t: &mut Tape, cx: &mut Cx) -> R {
    use crate::build::{bmff, jpeg, png, tiff, tiff::Val};
    let k = t.below(9);
    let n = t.range(3000, 9000);
    // what the value is made of: one byte again and again, printable or not, or anything
    let fill = [0x20u8, 0x41, 0x30, 0, 0xFF, 0xE4][t.below(6)];
    let noise = t.chance(1, 3).then(|| t.fill(64));
    let c = t.below(5);
    let tag = *t.pick(&[0x010Fu16, 0x9286, 0x927C, 0x9003, 0xC5D8, 0x02BC]);
    let make = |n: usize| -> Vec<u8> {
        let b = |i: usize| noise.as_ref().map_or(fill, |x| x[i % x.len().max(1)]);
        let w = |i: usize| u32::from_be_bytes([b(4 * i), b(4 * i + 1), b(4 * i + 2), b(4 * i + 3)]);
        let bytes: Vec<u8> = (0..n).map(b).collect();
        let val = match k {
            0 => Val::U8(bytes),
            1 => Val::Text([&bytes.iter().map(|x| (*x).max(1)).collect::<Vec<_>>()[..], &[0]].concat()),
            2 => Val::Undef(bytes),
            3 => Val::U16((0..n / 2).map(|i| w(i) as u16).collect()),
            4 => Val::U32((0..n / 4).map(w).collect()),
            5 => Val::URat((0..n / 8).map(|i| (w(i), i as u32)).collect()),
            6 => Val::IRat((0..n / 8).map(|i| (w(i) as i32, i as i32)).collect()),
            7 => {
                // the one text of a movie
                let e = [("com.apple.quicktime.make".to_string(), 1, bytes.iter().map(|x| x & 0x7F).collect::<Vec<u8>>())];
                let inner = [bmff::mvhd(&bmff::Mvhd { ver: 0, ctime: 3_700_000_000, scale: 1, dur: 9 }), bmff::qt_meta(&e, &[0], false)].concat();
                return [bmff::ftyp(b"qt  ", 0, &[*b"qt  "]), bmff::bx(b"moov", &inner), bmff::bx(b"free", &[0; 100])].concat();
            }
            _ => {
                let d = [&b"Comment\0"[..], &bytes.iter().map(|x| (*x).max(1)).collect::<Vec<_>>()].concat();
                let head = png::Png::default().encode()[..33].to_vec();
                return [head, (d.len() as u32).to_be_bytes().to_vec(), b"tEXt".to_vec(), d, b"AAAA\0\0\0\0IENDAAAA".to_vec()].concat();
            }
        };
        let ents = vec![tiff::Entry { tag, val }];
        let x = tiff::Tiff { dirs: vec![tiff::Dir { idx: 0, ents, next: None }], ..Default::default() }.encode().bytes;
        match c {
            0 if x.len() < 65_000 => jpeg::Jpeg { segs: vec![jpeg::exif_seg(&x)], scan: vec![0x11; 200], ..Default::default() }.encode(),
            1 => bmff::HeifLayout { mdat_first: false, ..bmff::gen_heif(&mut Tape::new(vec![]), Some(*b"heic"), false) }.encode(Some(&x)).bytes,
            _ => [x, vec![0; 160]].concat(),
        }
    };
    let (a, b) = (Arc::new(make(n)), Arc::new(make(4 * n)));
    cx.data("input", &a);
    cx.sample(|| format!("value kind {k} of {n} and {} bytes, tag {tag:04x}", 4 * n));
    for op in OPS {
        let run = |x: &Arc<Vec<u8>>| {
            let (_, l) = run_live(&mut MediaParser::new(), op, Mode::Mem, x, &Sched::default(), &Arc::default());
            let l = l.ok()?;
            let (m, e0) = (crate::alloc::start(), covrt::edges());
            let txt = walk(l);
            Some((covrt::edges() - e0, m.read().total, txt))
        };
        let (Some(x), Some(y)) = (run(&a), run(&b)) else { continue };
        cx.nontrivial = true;
        cx.label(format!("{op:?} kind {k}"));
        cx.checks += 2;
        let how = format!("one value of {n} and {} bytes (kind {k}, tag {tag:04x}), {op:?}", 4 * n);
        ensure!(y.0 <= 8 * x.0 + 200_000, "value work", "{how}: {} and {} edges to use it", x.0, y.0);
        ensure!(y.1 <= 8 * x.1 + (1 << 20), "value copies", "{how}: {} and {} bytes allocated to use it", x.1, y.1);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "the input gets past format detection (so a parser ran on it); distinct by content",
        level: "exploration",
        assumptions: &[
            "work is counted in executed control-flow edges of the crate under test (compiler-inserted counters), memory in bytes requested from the allocator",
            "an input may repeat one value under many tags: the eager form is bounded by the values reported, not by the file size",
        ],
        subs: vec![
            Sub { name: "damaged", drive: Drive::Guided, quick: 160_000, thorough: 2_500_000, tape: 400, f: case },
            Sub { name: "claims", drive: Drive::Guided, quick: 160_000, thorough: 2_500_000, tape: 400, f: claims },
            Sub { name: "web", drive: Drive::Random, quick: 32_000, thorough: 600_000, tape: 120, f: web },
            Sub { name: "large", drive: Drive::Random, quick: 400, thorough: 8_000, tape: 200, f: large },
            Sub { name: "values", drive: Drive::Random, quick: 4_000, thorough: 60_000, tape: 100, f: values },
            Sub { name: "clean", drive: Drive::Random, quick: 21_000, thorough: 252_000, tape: 400, f: clean },
        ],
    }
}
