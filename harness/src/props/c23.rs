//! One-shot helpers, deprecated forms and the image-metadata entry point agree
//! with the reusable parser.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use std::sync::Arc;

/// Either kind of result in full, or the failure.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Lazy(ExifOut),
    Eager(Eager),
    Track(TrackOut),
    Fail(String),
}
#[derive(Clone, Debug, PartialEq)]
struct Eager {
    entries: Vec<(usize, u16, String)>,
    errors: Vec<(usize, u16, String)>,
    gps: Option<String>,
    embedded: bool,
}
fn eager_of(x: &Exif) -> Eager {
    Eager { entries: eager_entries(x), errors: eager_errors(x), gps: x.gps_info().map(canon_gps), embedded: x.has_embedded_track() }
}
/// The eager form expected of a lazy result: the first value of every
/// directory and tag, every error.
fn eager_from(o: &ExifOut) -> Eager {
    let mut entries: Vec<_> = o.entries.iter().filter_map(|(i, t, v)| v.as_ref().ok().map(|v| (*i, *t, v.clone()))).collect();
    let mut errors: Vec<_> = o.entries.iter().filter_map(|(i, t, v)| v.as_ref().err().map(|v| (*i, *t, v.clone()))).collect();
    entries.sort();
    errors.sort();
    Eager { entries, errors, gps: o.gps.clone().ok().flatten(), embedded: o.embedded }
}
fn fail_of(e: Error) -> Got {
    Got::Fail(err_cat(&e))
}
fn lazy(r: Result<ExifIter>) -> Got {
    match r {
        Ok(i) => Got::Lazy(exif_out(&i)),
        Err(e) => fail_of(e),
    }
}
fn eager(r: Result<Exif>) -> Got {
    match r {
        Ok(x) => Got::Eager(eager_of(&x)),
        Err(e) => fail_of(e),
    }
}
fn track(r: Result<TrackInfo>) -> Got {
    match r {
        Ok(x) => Got::Track(track_out(&x)),
        Err(e) => fail_of(e),
    }
}
fn meta(r: Result<Metadata>) -> Got {
    match r {
        Ok(Metadata::Exif(x)) => Got::Eager(eager_of(&x)),
        Ok(Metadata::Track(x)) => Got::Track(track_out(&x)),
        Err(e) => fail_of(e),
    }
}
/// The parser API's results for the same content: (lazy, eager, track, combined).
struct Want {
    lazy: Got,
    eager: Got,
    track: Got,
    meta: Got,
}
fn want(p: &mut MediaParser, mode: Mode, d: &Arc<Vec<u8>>) -> Want {
    let e = run_with(p, Op::Exif, mode, d, &Sched::default(), &Default::default());
    let t = run_with(p, Op::Track, mode, d, &Sched::default(), &Default::default());
    let got = |r: &Res| match &r.out {
        Ok(Out::Exif(x)) => Got::Lazy(x.clone()),
        Ok(Out::Track(x)) => Got::Track(x.clone()),
        Ok(o) => Got::Fail(format!("unexpected {o:?}")),
        Err(e) => Got::Fail(e.clone()),
    };
    let lazy = got(&e);
    let track = got(&t);
    let eager = match &lazy {
        Got::Lazy(x) => Got::Eager(eager_from(x)),
        o => o.clone(),
    };
    let meta = match e.kind {
        Some("Image") => eager.clone(),
        Some(_) => track.clone(),
        None => lazy.clone(),
    };
    Want { lazy, eager, track, meta }
}
fn eq(what: &str, file: &str, n: usize, got: Got, want: &Got, cx: &mut Cx) -> R {
    cx.checks += 1;
    ensure!(
        got == *want, what,
        "{file} ({n} bytes): {what} gives {}, the parser {}",
        crate::clip(&format!("{got:?}"), 700), crate::clip(&format!("{want:?}"), 700)
    );
    Ok(())
}
fn content(t: &mut Tape) -> (String, Vec<u8>) {
    match t.below(8) {
        0 => {
            let n = t.size(10, 400);
            ("random bytes".into(), t.fill(n))
        }
        1 => ("motion".into(), super::c16::gen(t, true).bytes),
        2 => {
            let s = seeds_full();
            let (n, b) = t.pick(s);
            (n.clone(), b.as_ref().clone())
        }
        3 | 4 => gen_input(t, true),
        5 => {
            let m = gen_media(t, false);
            let k = t.below(m.bytes.len() + 1);
            (format!("{}+cut", m.fmt), m.bytes[..k].to_vec())
        }
        _ => {
            let m = gen_media(t, true);
            (m.fmt.into(), m.bytes)
        }
    }
}
/// A parser that has read something else before.
fn used(t: &mut Tape) -> MediaParser {
    let mut p = MediaParser::new();
    if t.chance(1, 2) {
        let m = gen_media(t, false);
        let op = *t.pick(&OPS);
        let mode = *t.pick(&[Mode::Mem, Mode::Seek, Mode::Unseek]);
        run_with(&mut p, op, mode, &Arc::new(m.bytes), &Sched::default(), &Default::default());
    }
    p
}
fn note(cx: &mut Cx, name: &str, d: &[u8], w: &Want) {
    cx.label(name.split('+').next().unwrap());
    cx.data("file", d);
    cx.nontrivial = !matches!(w.meta, Got::Fail(_));
    cx.label(match &w.meta {
        Got::Eager(_) => "image metadata",
        Got::Track(_) => "track metadata",
        _ => "fails",
    });
    cx.sample(|| format!("{name}, {} bytes: {}", d.len(), crate::clip(&format!("{:?}", w.meta), 100)));
}

fn files(t: &mut Tape, cx: &mut Cx) -> R {
    let (name, b) = content(t);
    let d = Arc::new(b);
    let w = want(&mut used(t), Mode::File, &d);
    note(cx, &name, &d, &w);
    let f = TempFile::new(&d);
    let n = d.len();
    eq("read_exif", &name, n, eager(read_exif(&f.0)), &w.eager, cx)?;
    eq("read_exif_iter", &name, n, lazy(read_exif_iter(&f.0)), &w.lazy, cx)?;
    eq("read_track", &name, n, track(read_track(&f.0)), &w.track, cx)?;
    eq("read_metadata", &name, n, meta(read_metadata(&f.0)), &w.meta, cx)?;
    Ok(())
}
fn files_async(t: &mut Tape, cx: &mut Cx) -> R {
    let (name, b) = content(t);
    let d = Arc::new(b);
    let w = want(&mut used(t), Mode::File, &d);
    note(cx, &name, &d, &w);
    let f = TempFile::new(&d);
    let n = d.len();
    let (a, b, c, m) = rt(async {
        (
            eager(read_exif_async(&f.0).await),
            lazy(read_exif_iter_async(&f.0).await),
            track(read_track_async(&f.0).await),
            meta(read_metadata_async(&f.0).await),
        )
    });
    eq("read_exif_async", &name, n, a, &w.eager, cx)?;
    eq("read_exif_iter_async", &name, n, b, &w.lazy, cx)?;
    eq("read_track_async", &name, n, c, &w.track, cx)?;
    eq("read_metadata_async", &name, n, m, &w.meta, cx)?;
    Ok(())
}
#[allow(deprecated)]
fn bytes(t: &mut Tape, cx: &mut Cx) -> R {
    let (name, b) = content(t);
    let d = Arc::new(b);
    let w = want(&mut used(t), Mode::Mem, &d);
    note(cx, &name, &d, &w);
    let n = d.len();
    let v = || d.as_ref().clone();
    eq("read_exif_from_bytes", &name, n, eager(read_exif_from_bytes(v())), &w.eager, cx)?;
    eq("read_exif_iter_from_bytes", &name, n, lazy(read_exif_iter_from_bytes(v())), &w.lazy, cx)?;
    eq("read_track_from_bytes", &name, n, track(read_track_from_bytes(v())), &w.track, cx)?;
    eq("read_metadata_from_bytes", &name, n, meta(read_metadata_from_bytes(v())), &w.meta, cx)?;
    let mut p = used(t);
    let e = MediaSource::from_bytes(v()).and_then(|ms| p.parse_exif_from_bytes(ms));
    eq("parse_exif_from_bytes", &name, n, lazy(e), &w.lazy, cx)?;
    let e = MediaSource::from_bytes(v()).and_then(|ms| p.parse_track_from_bytes(ms));
    eq("parse_track_from_bytes", &name, n, track(e), &w.track, cx)?;
    let (a, b) = (MediaSource::from_bytes(v()), MediaSource::from_memory(v()));
    let k = |x: Option<MediaKind>| format!("{x:?}");
    let (a, b) = (k(a.ok().map(|m| m.kind())), k(b.ok().map(|m| m.kind())));
    ensure!(a == b, "kind of from_bytes", "{name} ({n} bytes): {a} from from_bytes, {b} from from_memory");
    Ok(())
}
fn no_file(t: &mut Tape, cx: &mut Cx) -> R {
    let what = *t.pick(&["missing", "directory", "empty"]);
    cx.label(what);
    cx.data("case", what.as_bytes());
    cx.sample(|| what.to_string());
    let f = TempFile::new(&[]);
    let path = match what {
        "missing" => f.0.with_extension("not-there"),
        "directory" => f.0.parent().unwrap().to_path_buf(),
        _ => f.0.clone(),
    };
    let mut p = MediaParser::new();
    let w = lazy(MediaSource::open(&path).and_then(|ms| p.parse_exif(ms)));
    cx.nontrivial = true;
    ensure!(matches!(&w, Got::Fail(_)), "no file", "{what}: {w:?}");
    eq("read_exif", what, 0, eager(read_exif(&path)), &w, cx)?;
    eq("read_exif_iter", what, 0, lazy(read_exif_iter(&path)), &w, cx)?;
    eq("read_track", what, 0, track(read_track(&path)), &w, cx)?;
    eq("read_metadata", what, 0, meta(read_metadata(&path)), &w, cx)?;
    let (a, b, c, m) = rt(async {
        (
            eager(read_exif_async(&path).await),
            lazy(read_exif_iter_async(&path).await),
            track(read_track_async(&path).await),
            meta(read_metadata_async(&path).await),
        )
    });
    for (k, g) in [("read_exif_async", a), ("read_exif_iter_async", b), ("read_track_async", c), ("read_metadata_async", m)] {
        eq(k, what, 0, g, &w, cx)?;
    }
    Ok(())
}

/// The image-metadata entry point against the plain one.
fn image(t: &mut Tape, cx: &mut Cx) -> R {
    let (name, b) = content(t);
    let d = Arc::new(b);
    cx.label(name.split('+').next().unwrap());
    cx.data("file", &d);
    let k = t.below(6);
    let mode = [Mode::Mem, Mode::Seek, Mode::Unseek, Mode::AMem, Mode::ASeek, Mode::AUnseek][k];
    let mut p = used(t);
    let e = run_with(&mut p, Op::Exif, mode, &d, &Sched::default(), &Default::default());
    let stat: Arc<Stat> = Default::default();
    let (kind, live) = run_live(&mut p, Op::Image, mode, &d, &Sched::default(), &stat);
    let png = d.starts_with(b"\x89PNG\r\n\x1a\n");
    let n = d.len();
    ensure!(kind == e.kind, "kind", "{name} ({n} bytes) via {mode:?}: {kind:?} against {:?}", e.kind);
    cx.checks += 1;
    match live {
        Ok(Live::Img(m)) => {
            let o = img_out(&m);
            cx.nontrivial = true;
            cx.label(match (&o.exif, &o.text) {
                (Some(_), Some(_)) => "EXIF and text",
                (Some(_), None) => "EXIF",
                (None, Some(_)) => "text",
                _ => "nothing",
            });
            cx.sample(|| format!("{name} via {mode:?}, {n} bytes: EXIF {}, text {:?}", o.exif.is_some(), o.text.as_ref().map(|t| t.len())));
            ensure!(o.exif.is_some() || o.text.as_ref().is_some_and(|t| !t.is_empty()), "empty image metadata", "{name} ({n} bytes) via {mode:?}: {o:?}");
            ensure!(png || o.text.is_none(), "format metadata of another format", "{name} ({n} bytes) via {mode:?}: {:?}", o.text);
            match (&o.exif, &e.out) {
                (Some(x), Ok(Out::Exif(y))) => ensure!(x == y, "EXIF part", "{name} ({n} bytes) via {mode:?}: {x:?} in the image metadata, {y:?} alone"),
                (None, Err(c)) if c == "ExifNotFound" => {}
                (x, y) => return fail("EXIF part", format!("{name} ({n} bytes) via {mode:?}: image metadata has EXIF {x:?}, alone {y:?}")),
            }
            let text = o.text.clone();
            let want = o.exif.as_ref().map(eager_from);
            let x: ImageMetadata<Exif> = m.into();
            ensure!(x.exif.as_ref().map(eager_of) == want, "eager image metadata", "{name} ({n} bytes) via {mode:?}: {:?}, lazily {want:?}", x.exif.as_ref().map(eager_of));
            let t2: Option<Vec<(String, String)>> = match &x.format {
                Some(ImageFormatMetadata::Png(t)) => Some(t.iter().map(|(a, b)| (a.into(), b.into())).collect()),
                _ => None,
            };
            ensure!(t2 == text, "eager image metadata", "{name} ({n} bytes): text {t2:?}, lazily {text:?}");
        }
        Ok(_) => return fail("image metadata", "another kind of result".to_string()),
        Err(c) => {
            let c = err_cat(&c);
            ensure!(e.out == Err(c.clone()), "image metadata failure", "{name} ({n} bytes) via {mode:?}: image metadata fails with {c}, EXIF alone {:?}", e.out);
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "the content yields metadata through the parser API",
        level: "exploration",
        assumptions: &["failures are compared by category"],
        subs: vec![
            Sub { name: "files", drive: Drive::Random, quick: 53_000, thorough: 636_000, tape: 700, f: files },
            Sub { name: "async", drive: Drive::Random, quick: 25_000, thorough: 300_000, tape: 700, f: files_async },
            Sub { name: "bytes", drive: Drive::Random, quick: 85_000, thorough: 1_020_000, tape: 700, f: bytes },
            Sub { name: "image", drive: Drive::Random, quick: 120_000, thorough: 1_440_000, tape: 700, f: image },
            Sub { name: "no-file", drive: Drive::Enum, quick: 3, thorough: 3, tape: 4, f: no_file },
        ],
    }
}
