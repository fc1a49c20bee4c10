//! One parse = (operation, source mode, bytes, schedule, parser).
use crate::norm::*;
use crate::sources::*;
use nom_exif::*;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Exif,
    Track,
    Image,
}
pub const OPS: [Op; 3] = [Op::Exif, Op::Track, Op::Image];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Mem,
    Seek,
    Unseek,
    File,
    AMem,
    ASeek,
    AUnseek,
    AFile,
}
pub const SYNC: [Mode; 4] = [Mode::Mem, Mode::Seek, Mode::Unseek, Mode::File];
pub const ASYNC: [Mode; 4] = [Mode::AMem, Mode::ASeek, Mode::AUnseek, Mode::AFile];
pub const ALL: [Mode; 8] = [
    Mode::Mem, Mode::Seek, Mode::Unseek, Mode::File, Mode::AMem, Mode::ASeek, Mode::AUnseek, Mode::AFile,
];

/// What a parse hands back, still live.
pub enum Live {
    Exif(ExifIter),
    Track(TrackInfo),
    Img(ImageMetadata<ExifIter>),
}
impl Live {
    pub fn out(&self) -> Out {
        match self {
            Live::Exif(i) => Out::Exif(exif_out(i)),
            Live::Track(t) => Out::Track(track_out(t)),
            Live::Img(m) => Out::Img(img_out(m)),
        }
    }
}

fn sync_op<R: std::io::Read>(p: &mut MediaParser, op: Op, ms: MediaSource<R>) -> Result<Live> {
    Ok(match op {
        Op::Exif => Live::Exif(p.parse_exif(ms)?),
        Op::Track => Live::Track(p.parse_track(ms)?),
        Op::Image => Live::Img(p.parse_image_metadata(ms)?),
    })
}
async fn async_op<R: tokio::io::AsyncRead + Unpin + Send>(
    p: &mut MediaParser,
    op: Op,
    ms: AsyncMediaSource<R>,
) -> Result<Live> {
    Ok(match op {
        Op::Exif => Live::Exif(p.parse_exif_async(ms).await?),
        Op::Track => Live::Track(p.parse_track_async(ms).await?),
        Op::Image => Live::Img(p.parse_image_metadata_async(ms).await?),
    })
}

fn kstr(k: MediaKind) -> &'static str {
    match k {
        MediaKind::Image => "Image",
        MediaKind::Track => "Track",
    }
}

/// Err(e): opening or parsing failed. The first component is the kind if the source opened.
pub fn run_live(
    p: &mut MediaParser,
    op: Op,
    mode: Mode,
    data: &Arc<Vec<u8>>,
    sched: &Sched,
    stat: &Arc<Stat>,
) -> (Option<&'static str>, Result<Live>) {
    macro_rules! go {
        ($ms:expr) => {{
            match $ms {
                Ok(ms) => {
                    let k = kstr(ms.kind());
                    (Some(k), sync_op(p, op, ms))
                }
                Err(e) => (None, Err(e)),
            }
        }};
    }
    macro_rules! ago {
        ($ms:expr) => {{
            match $ms {
                Ok(ms) => {
                    let k = kstr(ms.kind());
                    (Some(k), async_op(p, op, ms).await)
                }
                Err(e) => (None, Err(e)),
            }
        }};
    }
    let src = || Src::new(data.clone(), sched.clone(), stat.clone());
    match mode {
        Mode::Mem => go!(MediaSource::from_memory(data.as_ref().clone())),
        Mode::Seek => go!(MediaSource::seekable(src())),
        Mode::Unseek => go!(MediaSource::unseekable(src())),
        Mode::File => {
            let f = TempFile::new(data);
            go!(MediaSource::open(&f.0))
        }
        Mode::AMem => spin(async { ago!(AsyncMediaSource::from_memory(data.as_ref().clone())) }),
        Mode::ASeek => spin(async { ago!(AsyncMediaSource::seekable(src()).await) }),
        Mode::AUnseek => spin(async { ago!(AsyncMediaSource::unseekable(src()).await) }),
        Mode::AFile => {
            let f = TempFile::new(data);
            rt(async { ago!(AsyncMediaSource::open(&f.0).await) })
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub kind: Option<&'static str>,
    pub out: std::result::Result<Out, String>,
}
impl Res {
    pub fn exif(&self) -> Option<&ExifOut> {
        match &self.out {
            Ok(Out::Exif(e)) => Some(e),
            Ok(Out::Img(i)) => i.exif.as_ref(),
            _ => None,
        }
    }
    pub fn track(&self) -> Option<&TrackOut> {
        match &self.out {
            Ok(Out::Track(t)) => Some(t),
            _ => None,
        }
    }
    pub fn brief(&self) -> String {
        let s = format!("{:?}/{:?}", self.kind, self.out);
        crate::clip(&s, 900)
    }
}

pub fn run_with(
    p: &mut MediaParser,
    op: Op,
    mode: Mode,
    data: &Arc<Vec<u8>>,
    sched: &Sched,
    stat: &Arc<Stat>,
) -> Res {
    let (kind, r) = run_live(p, op, mode, data, sched, stat);
    Res {
        kind,
        out: match r {
            Ok(l) => Ok(l.out()),
            Err(e) => Err(err_cat(&e)),
        },
    }
}
pub fn run(op: Op, mode: Mode, data: &Arc<Vec<u8>>) -> Res {
    run_with(&mut MediaParser::new(), op, mode, data, &Sched::default(), &Arc::default())
}
pub fn run_sched(op: Op, mode: Mode, data: &Arc<Vec<u8>>, s: &Sched) -> Res {
    run_with(&mut MediaParser::new(), op, mode, data, s, &Arc::default())
}

/// Equality of two parses: same kind, equal results, or both failed.
pub fn agree(a: &Res, b: &Res) -> bool {
    if a.kind != b.kind {
        return false;
    }
    match (&a.out, &b.out) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
/// Human-readable first difference.
pub fn diff(a: &Res, b: &Res) -> String {
    if a.kind != b.kind {
        return format!("kind {:?} vs {:?}", a.kind, b.kind);
    }
    if let (Some(x), Some(y)) = (a.exif(), b.exif()) {
        if x.entries != y.entries {
            for (i, (p, q)) in x.entries.iter().zip(&y.entries).enumerate() {
                if p != q {
                    return crate::clip(&format!("entry {i}: {p:?} vs {q:?}"), 600);
                }
            }
            return format!("{} vs {} entries", x.entries.len(), y.entries.len());
        }
    }
    format!("{} vs {}", a.brief(), b.brief())
}
