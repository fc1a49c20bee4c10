//! Lazy, eager, cloned and rewound views of one parse agree.
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

fn ent(e: &ExifIterEntry) -> Ent {
    let r = match e.result() {
        Ok(v) => Ok(canon(v)),
        Err(e) => Err(canon_err(e)),
    };
    (e.ifd().as_usize(), e.tag().code(), r)
}
fn gps_of(i: &ExifIter) -> std::result::Result<Option<String>, String> {
    match i.parse_gps() {
        Ok(g) => Ok(g.as_ref().map(canon_gps)),
        Err(e) => Err(err_cat(&e)),
    }
}

fn check_eager(x: &Exif, all: &[Ent], gps: &std::result::Result<Option<String>, String>, emb: bool, how: &str) -> R {
    let mut oks: Vec<(usize, u16, String)> = all.iter().filter_map(|e| e.2.as_ref().ok().map(|v| (e.0, e.1, v.clone()))).collect();
    let mut bad: Vec<(usize, u16, String)> = all.iter().filter_map(|e| e.2.as_ref().err().map(|v| (e.0, e.1, v.clone()))).collect();
    oks.sort();
    bad.sort();
    let e = eager_entries(x);
    ensure!(e == oks, "eager entries", "{how}: lazily {} values, eagerly {}; first difference {:?}", oks.len(), e.len(), oks.iter().zip(&e).find(|(a, b)| a != b));
    let er = eager_errors(x);
    ensure!(er == bad, "eager errors", "{how}: lazily {bad:?}, eagerly {er:?}");
    ensure!(x.gps_info().map(canon_gps) == gps.clone().ok().flatten(), "eager gps", "{how}: lazy gps {gps:?}, eager {:?}", x.gps_info());
    ensure!(x.has_embedded_track() == emb, "eager embedded flag", "{how}: lazy {emb}, eager {}", x.has_embedded_track());
    for it in x.iter() {
        let by_code = x.get_by_code(it.ifd, it.tag.code());
        ensure!(by_code.is_some_and(|v| canon(v) == canon(it.value)), "lookup by code", "{how}: iter() lists ({:?}, {:#06x}) = {}, get_by_code gives {by_code:?}", it.ifd, it.tag.code(), canon(it.value));
        if let Some(tag) = it.tag.tag() {
            let g = x.get_in(it.ifd, tag);
            ensure!(g.is_some_and(|v| canon(v) == canon(it.value)), "lookup by tag", "{how}: iter() lists ({:?}, {tag}), get_in gives {g:?}", it.ifd);
            let m = x.get(tag).map(canon);
            let w = x.get_in(IfdIndex::MAIN, tag).map(canon);
            ensure!(m == w, "main lookup", "{how}: get({tag}) = {m:?}, get_in(MAIN) = {w:?}");
        }
    }
    // what is not listed is not found
    for (i, c, v) in all.iter().filter(|e| e.2.is_err()) {
        if !oks.iter().any(|o| o.0 == *i && o.1 == *c) {
            let g = x.get_by_code(IfdIndex::new(*i), *c);
            ensure!(g.is_none(), "failed entry found", "{how}: ({i}, {c:#06x}) failed with {v:?} but lookup gives {g:?}");
        }
    }
    for k in [0usize, 1, 2, 7] {
        for c in [0x010f_u16, 0x0132, 0x9003, 0x829a, 1, 2, 4, 0xfffe] {
            let listed = oks.iter().find(|o| o.0 == k && o.1 == c).map(|o| o.2.clone());
            let g = x.get_by_code(IfdIndex::new(k), c).map(canon);
            ensure!(g == listed, "lookup of absent code", "{how}: ({k}, {c:#06x}) listed {listed:?}, lookup gives {g:?}");
        }
    }
    Ok(())
}

fn source(t: &mut Tape) -> (String, Vec<u8>) {
    match t.weighted(&[5, 4]) {
        0 => {
            let f = *t.pick(&["jpeg", "tiff", "heif", "png", "raf", "cr3", "motion"]);
            let m = gen_fmt(t, f, false);
            (f.into(), m.bytes)
        }
        _ => {
            let (l, b) = gen_input(t, false);
            (l, b)
        }
    }
}

fn views(t: &mut Tape, cx: &mut Cx) -> R {
    let (what, b) = if t.chance(1, 3) {
        // one TIFF with valid and damaged entries, GPS included
        let mut tf = tiff::gen_tiff(t, &tiff::GenOpts { dates: true, chain: true, big: 100, max_ents: 10, ..Default::default() });
        if t.chance(1, 2) {
            for d in &mut tf.dirs {
                d.ents.retain(|e| e.tag != tiff::GPS_PTR);
            }
            super::c11::add_gps(t, &mut tf);
        }
        super::c09::damage(t, &mut tf);
        let mut b = tf.encode().bytes;
        b.resize(b.len().max(150), 0);
        ("entry-damage".to_string(), b)
    } else {
        source(t)
    };
    cx.data("input", &b);
    let a = Arc::new(b);
    let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem]);
    let mut p = MediaParser::new();
    let it = match run_live(&mut p, Op::Exif, mode, &a, &Default::default(), &Arc::default()).1 {
        Ok(Live::Exif(i)) => i,
        _ => return Ok(()),
    };
    cx.label(what.split('+').next().unwrap());
    let emb = it.has_embedded_track();
    // reference: the plain sequence, taken from a copy parsed separately
    let reference = match run_live(&mut MediaParser::new(), Op::Exif, mode, &a, &Default::default(), &Arc::default()).1 {
        Ok(Live::Exif(i)) => i,
        _ => return fail("second parse fails", format!("{what}: same bytes, same mode")),
    };
    let gps = gps_of(&reference);
    let all: Vec<Ent> = reference.map(|e| ent(&e)).take(20_000).collect();
    if all.len() >= 20_000 {
        return Ok(());
    }
    cx.nontrivial = all.len() >= 2;
    cx.label_if(all.iter().any(|e| e.2.is_err()), "has damaged entries");
    cx.label_if(matches!(gps, Ok(Some(_))), "has gps");
    let mut ops_log = vec![];
    let mut pool: Vec<(ExifIter, usize)> = vec![(it, 0)];
    let n = t.range(4, 24);
    for _ in 0..n {
        let k = t.below(pool.len());
        let len = all.len();
        match t.below(9) {
            0 | 1 | 2 => {
                let m = if t.chance(1, 4) { len + 2 } else { t.range(1, 4) };
                ops_log.push(format!("next x{m} on {k}"));
                for _ in 0..m {
                    let (i, pos) = &mut pool[k];
                    let got = i.next().map(|e| ent(&e));
                    let want = all.get(*pos).cloned();
                    ensure!(got == want, "next", "{what} via {mode:?}: entry {pos} is {want:?}, got {got:?} after [{}]", ops_log.join(", "));
                    *pos += 1;
                    cx.checks += 1;
                    if got.is_none() {
                        *pos = len.max(*pos - 1);
                        break;
                    }
                }
            }
            3 | 4 => {
                let c = if t.chance(1, 2) { pool[k].0.clone() } else { pool[k].0.clone_rewound() };
                ops_log.push(format!("clone {k} as {}", pool.len()));
                if pool.len() < 6 {
                    pool.push((c, 0));
                }
            }
            5 => {
                ops_log.push(format!("rewind {k}"));
                pool[k].0.rewind();
                pool[k].1 = 0;
            }
            6 => {
                ops_log.push(format!("gps of {k}"));
                let g = gps_of(&pool[k].0);
                cx.checks += 1;
                ensure!(g == gps, "gps at position", "{what} via {mode:?}: gps {gps:?} at first, {g:?} after [{}]", ops_log.join(", "));
                ensure!(pool[k].0.has_embedded_track() == emb, "embedded flag at position", "{what}");
            }
            7 => {
                // the eager form of a clone
                let c = pool[k].0.clone_rewound();
                ops_log.push(format!("eager of a clone of {k}"));
                let x: Exif = c.into();
                cx.checks += 1;
                check_eager(&x, &all, &gps, emb, &format!("{what} via {mode:?} after [{}]", ops_log.join(", ")))?;
            }
            _ => {
                if pool.len() > 1 {
                    let _ = pool.remove(k);
                    ops_log.push(format!("drop {k}"));
                }
            }
        }
    }
    cx.sample(|| format!("{what}, {} entries: {}", all.len(), ops_log.join(", ")));
    // every iterator that is left, rewound, describes the whole parse
    for (mut i, pos) in pool {
        if t.chance(1, 2) {
            i.rewind();
            let x: Exif = i.into();
            check_eager(&x, &all, &gps, emb, &format!("{what} via {mode:?} rewound after [{}]", ops_log.join(", ")))?;
        } else {
            let rest: Vec<Ent> = i.map(|e| ent(&e)).collect();
            let want = &all[pos.min(all.len())..];
            ensure!(rest == want, "rest", "{what} via {mode:?}: {} entries left, expected {}, after [{}]", rest.len(), want.len(), ops_log.join(", "));
        }
        cx.checks += 1;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "an EXIF result with at least two entries put through a random sequence of view operations; distinct by file bytes and operations",
        level: "exploration",
        assumptions: &["clone() is documented to rewind, like clone_rewound()", "a consumed iterator's eager form is compared after a rewind; converting a partly consumed one is only checked for its remaining entries"],
        subs: vec![Sub { name: "views", drive: Drive::Random, quick: 850_000, thorough: 10_200_000, tape: 500, f: views }],
    }
}
