//! A reused parser behaves like a fresh one.
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::future::Future;
use std::sync::Arc;

/// Drops an async parse after a few polls.
fn cancelled(p: &mut MediaParser, op: Op, data: &Arc<Vec<u8>>, seek: bool, polls: usize) {
    let s = Sched { chunks: vec![200, 3000], interrupt_every: 1, ..Sched::default() };
    let src = Src::new(data.clone(), Sched { interrupt_every: 2, ..s }, Arc::default());
    let fut = async {
        macro_rules! go {
            ($ms:expr) => {
                if let Ok(ms) = $ms {
                    match op {
                        Op::Exif => drop(p.parse_exif_async(ms).await),
                        Op::Track => drop(p.parse_track_async(ms).await),
                        Op::Image => drop(p.parse_image_metadata_async(ms).await),
                    }
                }
            };
        }
        if seek {
            go!(AsyncMediaSource::seekable(src).await)
        } else {
            go!(AsyncMediaSource::unseekable(src).await)
        }
    };
    let mut fut = Box::pin(fut);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..polls {
        if fut.as_mut().poll(&mut cx).is_ready() {
            break;
        }
    }
}

fn input(t: &mut Tape, big: bool) -> (String, Arc<Vec<u8>>) {
    match t.weighted(&[6, 3, 1]) {
        0 => {
            let m = gen_media(t, big);
            (m.fmt.to_string(), Arc::new(m.bytes))
        }
        1 => {
            let (l, b) = gen_input(t, false);
            (l, Arc::new(b))
        }
        _ => {
            let s = seeds();
            if s.is_empty() {
                return ("empty".into(), Arc::new(vec![]));
            }
            let (n, b) = &s[t.below(s.len())];
            (n.clone(), b.clone())
        }
    }
}

/// Work on a held object that must not matter to any other.
fn disturb(t: &mut Tape, l: &mut Live) {
    match l {
        Live::Exif(i) => {
            let n = t.below(6);
            for _ in 0..n {
                i.next();
            }
            if t.chance(1, 3) {
                i.rewind();
            }
            let _ = i.parse_gps();
        }
        Live::Img(m) => {
            if let Some(i) = &mut m.exif {
                i.next();
                let _ = i.parse_gps();
            }
        }
        Live::Track(_) => {}
    }
}

/// A file of which the parser must hold more than it keeps for the next one (4 MB).
fn heavy(t: &mut Tape) -> (String, Arc<Vec<u8>>) {
    let n = t.range(4_000_000, 6_500_000);
    let wide = || tiff::Tiff {
        dirs: vec![tiff::Dir {
            ents: vec![
                tiff::Entry { tag: 0x10f, val: tiff::Val::Text(b"Heavy\0".to_vec()) },
                tiff::Entry { tag: 0xc4a5, val: tiff::Val::Undef(vec![b'H'; n]) },
            ],
            ..Default::default()
        }],
        ..Default::default()
    };
    let (what, b) = match t.below(4) {
        0 => {
            let x = small_tiff(t, 300);
            let mut b = jpeg::gen_jpeg(t, Some(&x), false).encode();
            let one = [&[0xff, 0xe2, 0xfd, 0xea][..], &[b'H'; 65_000]].concat();
            b.splice(2..2, one.repeat(n / 65_000));
            ("jpeg", b)
        }
        1 => {
            let m = super::c13::gen(t, false);
            let mut b = m.bytes[..m.moov_at].to_vec();
            let moov = &m.bytes[m.moov_at..m.moov_end];
            // whatever the size of its header is, it becomes one of a plain size
            let h = if moov[..4] == [0, 0, 0, 1] { 16 } else { 8 };
            b.extend(bmff::bx(b"moov", &[&moov[h..], &bmff::bx(b"free", &vec![b'H'; n])].concat()));
            b.extend(&m.bytes[m.moov_end..]);
            ("mp4", b)
        }
        2 => ("tiff", wide().encode().bytes),
        _ => {
            let mut p = png::Png::default();
            p.chunks.push(png::text_chunk(b"Title", b"heavy"));
            p.chunks.push(png::chunk(b"eXIf", &wide().encode().bytes));
            ("png", p.encode())
        }
    };
    (format!("{what} of {} bytes", b.len()), Arc::new(b))
}

fn history(t: &mut Tape, cx: &mut Cx) -> R {
    let pool: Vec<_> = (0..t.range(1, 4)).map(|_| input(t, true)).collect();
    play(t, cx, &pool, 3)
}
fn large(t: &mut Tape, cx: &mut Cx) -> R {
    let mut pool = vec![heavy(t)];
    pool.extend((0..t.range(1, 3)).map(|_| input(t, true)));
    play(t, cx, &pool, 1)
}
/// `keep` in four results are held on to while the history goes on.
fn play(t: &mut Tape, cx: &mut Cx, pool: &[(String, Arc<Vec<u8>>)], keep: usize) -> R {
    let n = t.range(3, 9);
    let mut p = MediaParser::new();
    let mut held: Vec<(usize, String, Live, Out)> = vec![];
    let mut log = vec![];
    for (k, (what, b)) in pool.iter().enumerate() {
        cx.data(&format!("file{k}-{what}"), b);
    }
    let (mut oks, mut errs) = (0, 0);
    for step in 0..n {
        let (what, a) = &pool[t.below(pool.len())];
        let op = *t.pick(&OPS);
        match t.below(8) {
            0 => {
                // a parse that ends in an I/O error
                let mut s = gen_sched(t);
                cap_sched(&mut s, a.len());
                s.fail_op = Some((t.size(4, 30) as u64, std::io::ErrorKind::Other));
                s.sticky = true;
                let m = *t.pick(&[Mode::Seek, Mode::Unseek, Mode::ASeek]);
                drop(run_live(&mut p, op, m, a, &s, &Arc::default()));
                log.push(format!("{step}: {op:?} {what} via {m:?}, source fails at operation {:?}", s.fail_op.unwrap().0));
                cx.label("fault");
                continue;
            }
            1 => {
                let polls = t.size(4, 40);
                let seek = t.chance(1, 2);
                cancelled(&mut p, op, a, seek, polls);
                log.push(format!("{step}: {op:?} {what} async, dropped after {polls} polls"));
                cx.label("cancelled");
                continue;
            }
            2 if !held.is_empty() => {
                let k = t.below(held.len());
                if t.chance(1, 2) {
                    drop(held.remove(k));
                } else {
                    disturb(t, &mut held[k].2);
                }
            }
            _ => {}
        }
        let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek]);
        let mut s = gen_sched(t);
        cap_sched(&mut s, a.len());
        log.push(format!("{step}: {op:?} {what} via {mode:?} (chunks {:?})", s.chunks));
        let (kind, l) = run_live(&mut p, op, mode, a, &s, &Arc::default());
        let fresh = run_with(&mut MediaParser::new(), op, mode, a, &s, &Arc::default());
        let r = Res {
            kind,
            out: match &l {
                Ok(l) => Ok(l.out()),
                Err(e) => Err(err_cat(e)),
            },
        };
        cx.checks += 1;
        ensure!(
            r == fresh, "reused differs",
            "after this history the reused parser differs from a fresh one: {}\n{}\nreused: {}\nfresh: {}",
            diff(&r, &fresh), log.join("\n"), r.brief(), fresh.brief()
        );
        match l {
            Ok(l) => {
                oks += 1;
                let o = l.out();
                if t.chance(keep, 4) {
                    held.push((step, what.clone(), l, o));
                }
            }
            Err(_) => errs += 1,
        }
    }
    cx.nontrivial = oks >= 1 && oks + errs >= 3;
    cx.label_if(oks > 0 && errs > 0, "mixed outcomes");
    cx.label_if(held.len() > 1, "several results held");
    cx.sample(|| log.join("; "));
    if t.chance(1, 3) {
        drop(p);
        cx.label("parser dropped first");
    }
    for (step, what, l, was) in &held {
        let now = l.out();
        cx.checks += 1;
        ensure!(
            now == *was, "held result changed",
            "the result of step {step} ({what}) changed afterwards\n{}\nthen: {}\nnow: {}",
            log.join("\n"), crate::clip(&format!("{was:?}"), 700), crate::clip(&format!("{now:?}"), 700)
        );
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a history with at least three completed parses of which one succeeded; distinct by the files and operations",
        level: "exploration",
        assumptions: &["a parse whose source fails or whose future is dropped is a disturbance: it is not itself compared (its operation count may differ)"],
        subs: vec![
            Sub { name: "history", drive: Drive::Random, quick: 230_000, thorough: 2_760_000, tape: 900, f: history },
            Sub { name: "large", drive: Drive::Random, quick: 250, thorough: 6_000, tape: 900, f: large },
        ],
    }
}
