//! Canonical, comparable form of everything the library reports.
use nom_exif::*;
use std::collections::BTreeMap;

pub fn canon(v: &EntryValue) -> String {
    match v {
        EntryValue::F32(f) => format!("F32({:#010x})", f.to_bits()),
        EntryValue::F64(f) => format!("F64({:#018x})", f.to_bits()),
        EntryValue::DateTime(d) => format!("DateTime({})", d.format("%Y-%m-%dT%H:%M:%S%.f%:z")),
        EntryValue::NaiveDateTime(d) => format!("NaiveDateTime({})", d.format("%Y-%m-%dT%H:%M:%S%.f")),
        EntryValue::URational(r) => format!("URational({}/{})", r.numerator(), r.denominator()),
        EntryValue::IRational(r) => format!("IRational({}/{})", r.numerator(), r.denominator()),
        EntryValue::Undefined(b) => format!("Undefined({})", hex(b)),
        EntryValue::U8Array(b) => format!("U8Array({})", hex(b)),
        other => format!("{other:?}"),
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
/// How much is available to a value that lies beyond what the parser ever loads
/// (1 GB) depends on how much happens to be loaded: no part of the result.
pub fn canon_err(e: &EntryError) -> String {
    match e {
        EntryError::Truncated { needed, .. } if *needed > 1 << 29 => format!("Truncated {{ needed: {needed} }}"),
        e => format!("{e:?}"),
    }
}
pub fn canon_gps(g: &GPSInfo) -> String {
    let ll = |l: &LatLng| {
        format!(
            "{}/{} {}/{} {}/{}",
            l.degrees.numerator(), l.degrees.denominator(),
            l.minutes.numerator(), l.minutes.denominator(),
            l.seconds.numerator(), l.seconds.denominator()
        )
    };
    let alt = match g.altitude {
        Altitude::Unknown => "?".to_string(),
        Altitude::AboveSeaLevel(r) => format!("+{}/{}", r.numerator(), r.denominator()),
        Altitude::BelowSeaLevel(r) => format!("-{}/{}", r.numerator(), r.denominator()),
    };
    let sp = match &g.speed {
        None => "none".to_string(),
        Some(s) => format!("{:?} {}/{}", s.unit, s.value.numerator(), s.value.denominator()),
    };
    format!(
        "{}({}) {}({}) alt {} speed {}",
        g.latitude_ref.as_char(), ll(&g.latitude), g.longitude_ref.as_char(), ll(&g.longitude), alt, sp
    )
}

pub type Ent = (usize, u16, std::result::Result<String, String>);

#[derive(Clone, Debug, PartialEq)]
pub struct ExifOut {
    pub entries: Vec<Ent>,
    pub gps: std::result::Result<Option<String>, String>,
    pub embedded: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct TrackOut {
    pub entries: BTreeMap<String, String>,
    pub gps: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ImgOut {
    pub exif: Option<ExifOut>,
    pub text: Option<Vec<(String, String)>>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Exif(ExifOut),
    Track(TrackOut),
    Img(ImgOut),
    Kind(&'static str),
}

pub fn err_cat(e: &Error) -> String {
    match e {
        Error::Io(e) => format!("Io({:?})", e.kind()),
        Error::Malformed { kind, .. } => format!("Malformed({kind:?})"),
        Error::UnexpectedEof { .. } => "UnexpectedEof".into(),
        Error::UnsupportedFormat => "UnsupportedFormat".into(),
        Error::ExifNotFound => "ExifNotFound".into(),
        Error::TrackNotFound => "TrackNotFound".into(),
        #[allow(unreachable_patterns)]
        other => format!("{other:?}"),
    }
}

pub fn exif_out(iter: &ExifIter) -> ExifOut {
    let entries: Vec<Ent> = iter
        .clone_rewound()
        .map(|e| {
            (
                e.ifd().as_usize(),
                e.tag().code(),
                match e.result() {
                    Ok(v) => Ok(canon(v)),
                    Err(e) => Err(canon_err(e)),
                },
            )
        })
        .collect();
    ExifOut {
        entries,
        gps: match iter.parse_gps() {
            Ok(g) => Ok(g.as_ref().map(canon_gps)),
            Err(e) => Err(err_cat(&e)),
        },
        embedded: iter.has_embedded_track(),
    }
}
/// Sorted view of an eager `Exif`.
pub fn eager_entries(x: &Exif) -> Vec<(usize, u16, String)> {
    let mut v: Vec<_> = x
        .iter()
        .map(|e| (e.ifd.as_usize(), e.tag.code(), canon(e.value)))
        .collect();
    v.sort();
    v
}
pub fn eager_errors(x: &Exif) -> Vec<(usize, u16, String)> {
    let mut v: Vec<_> = x
        .errors()
        .iter()
        .map(|(i, t, e)| (i.as_usize(), t.code(), canon_err(e)))
        .collect();
    v.sort();
    v
}
pub fn track_out(t: &TrackInfo) -> TrackOut {
    TrackOut {
        entries: t.iter().map(|(k, v)| (k.name().to_string(), canon(v))).collect(),
        gps: t.gps_info().map(canon_gps),
    }
}
pub fn img_out(m: &ImageMetadata<ExifIter>) -> ImgOut {
    ImgOut {
        exif: m.exif.as_ref().map(exif_out),
        text: match &m.format {
            Some(ImageFormatMetadata::Png(t)) => {
                Some(t.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
            }
            None => None,
            #[allow(unreachable_patterns)]
            _ => None,
        },
    }
}
