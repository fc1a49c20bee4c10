//! EXIF content is independent of the container that carries it.
use super::c06::ent_diff;
use super::common::*;
use crate::build::tiff::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::tape::*;
use std::sync::Arc;

fn model(t: &mut Tape, max: usize, idx: bool) -> Tiff {
    let big = if t.chance(1, 3) { max } else { 80 };
    let mut tf = gen_tiff(t, &GenOpts { dates: true, chain: idx, big, max_ents: 14, ..Default::default() });
    if t.chance(1, 2) {
        for d in &mut tf.dirs {
            d.ents.retain(|e| e.tag != GPS_PTR);
        }
        super::c11::add_gps(t, &mut tf);
        // a (directory index, tag) pair occurs once: the position's entries stay
        let g = tf.dirs.len() - 1;
        let tags: Vec<u16> = tf.dirs[g].ents.iter().map(|e| e.tag).collect();
        for (k, d) in tf.dirs.iter_mut().enumerate() {
            if k != g && d.idx == 0 {
                d.ents.retain(|e| !tags.contains(&e.tag));
            }
        }
    }
    tf
}

const C: [&str; 9] = ["tiff", "jpeg", "heif", "avif", "png", "png-app1", "png-exif", "raf", "cr3"];

/// One container of the named kind around the block, with random surroundings.
pub fn contain(t: &mut Tape, c: &str, x: &[u8], big: bool) -> Vec<u8> {
    match c {
        "tiff" => {
            let mut b = x.to_vec();
            if t.chance(1, 2) {
                let n = t.size(200, if big { 40_000 } else { 900 });
                b.extend(t.fill(n));
            }
            b.resize(b.len().max(141), 0);
            b
        }
        "jpeg" => jpeg::gen_jpeg(t, Some(x), big).encode(),
        "heif" => bmff::gen_heif(t, None, big).encode(Some(x)).bytes,
        "avif" => {
            let b = **t.pick(&bmff::AVIF);
            bmff::gen_heif(t, Some(b), big).encode(Some(x)).bytes
        }
        "raf" => {
            let j = jpeg::gen_jpeg(t, Some(x), big).encode();
            raf::raf(t, &j, big)
        }
        "cr3" => bmff::cr3(t, x, None, big),
        _ => {
            let mut p = png::Png::default();
            let n = t.size(2, 6);
            for _ in 0..n {
                let k = png::noise_chunk(t, big);
                p.chunks.push(k);
            }
            let at = t.below(p.chunks.len() + 1);
            let up = t.chance(1, 2);
            let width = *t.pick(&[36usize, 36, 1, 72, 1 << 20]);
            let e = if c == "png-app1" || t.chance(1, 2) { [b"Exif\0\0".to_vec(), x.to_vec()].concat() } else { x.to_vec() };
            p.chunks.insert(
                at,
                match c {
                    "png" => png::chunk(b"eXIf", x),
                    "png-app1" => png::text_chunk(b"Raw profile type APP1", &png::relaid(t, png::raw_profile("app1", &e, up, width))),
                    _ => png::text_chunk(b"Raw profile type exif", &png::relaid(t, png::raw_profile("exif", &e, up, width))),
                },
            );
            let n = t.size(60, if big { 60_000 } else { 900 });
            p.chunks.push(png::chunk(b"IDAT", &t.fill(n)));
            p.encode()
        }
    }
}

fn containers(t: &mut Tape, cx: &mut Cx) -> R {
    let max = *t.pick(&[300usize, 300, 3000, 9000]);
    let tf = model(t, max, true);
    let enc = tf.encode();
    if enc.bytes.len() > 65_000 {
        return Ok(());
    }
    let want = sorted(tf.expect(&enc));
    let mut gps: Option<std::result::Result<Option<String>, String>> = None;
    cx.nontrivial = want.len() >= 3;
    cx.label_if(enc.bytes.len() > 8192, "block larger than a read");
    cx.sample(|| format!("block of {} bytes, {} entries", enc.bytes.len(), want.len()));
    let mut names = C.to_vec();
    t.shuffle(&mut names);
    for c in names.iter().take(4) {
        let b = contain(t, c, &enc.bytes, true);
        cx.data(c, &b);
        cx.label(*c);
        let a = Arc::new(b);
        let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
        let mut s = gen_sched(t);
        cap_sched(&mut s, a.len());
        let op = if t.chance(1, 4) { Op::Image } else { Op::Exif };
        let r = run_sched(op, mode, &a, &s);
        let Some(e) = r.exif() else {
            return fail("exif lost", format!("a block of {} bytes in {c} ({} bytes) via {op:?} {mode:?}: {}", enc.bytes.len(), a.len(), r.brief()));
        };
        let got = sorted(e.entries.clone());
        cx.checks += 1;
        ensure!(got == want, "entries differ", "the block in {c} ({} bytes) via {op:?} {mode:?}: {}", a.len(), ent_diff(&want, &got));
        match &gps {
            None => gps = Some(e.gps.clone()),
            Some(g) => ensure!(*g == e.gps, "gps differs", "the block in {c} via {op:?} {mode:?}: position {:?}, in {}: {g:?}", e.gps, names[0]),
        }
    }
    Ok(())
}

/// CR3: the union of its blocks, the first occurrence of a tag in a directory wins.
fn cr3(t: &mut Tape, cx: &mut Cx) -> R {
    let a = model(t, 300, true);
    let b = model(t, 300, false);
    let (ea, eb) = (a.encode(), b.encode());
    let mut want = a.expect(&ea);
    let mut dup = 0;
    for e in b.expect(&eb) {
        if want.iter().any(|w| w.0 == e.0 && w.1 == e.1) {
            dup += 1;
        } else {
            want.push(e);
        }
    }
    let want = sorted(want);
    let big = t.chance(1, 3);
    let f = bmff::cr3(t, &ea.bytes, Some(&eb.bytes), big);
    cx.data("cr3", &f);
    cx.nontrivial = want.len() >= 3;
    cx.label_if(dup > 0, "tag in both blocks");
    cx.sample(|| format!("CMT1 {} + CMT2 {} bytes, {} entries, {dup} in both", ea.bytes.len(), eb.bytes.len(), want.len()));
    let f = Arc::new(f);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
    let r = run(Op::Exif, mode, &f);
    let Some(e) = r.exif() else {
        return fail("exif lost", format!("CR3 of {} bytes via {mode:?}: {}", f.len(), r.brief()));
    };
    let got = sorted(e.entries.clone());
    cx.checks += 1;
    ensure!(got == want, "cr3 entries", "CR3 via {mode:?}: {}", ent_diff(&want, &got));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "an EXIF block with at least three entries carried by four containers (or two blocks in one CR3); distinct by file bytes",
        level: "exploration",
        assumptions: &["the block fits a JPEG segment (65 KB)", "two CR3 blocks naming the same tag in the same directory: the first block's entry is kept"],
        subs: vec![
            Sub { name: "containers", drive: Drive::Random, quick: 190_000, thorough: 2_280_000, tape: 900, f: containers },
            Sub { name: "cr3", drive: Drive::Random, quick: 190_000, thorough: 2_280_000, tape: 600, f: cr3 },
        ],
    }
}
