//! Tag names and codes.
use crate::ensure;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::OnceLock;

/// Names and codes of the EXIF 2.3 / TIFF 6.0 tags the library knows, from the
/// standard (exiftool's spelling).
const STD: &[(&str, u16)] = &[
    ("Make", 0x010f), ("Model", 0x0110), ("Orientation", 0x0112), ("ImageWidth", 0x0100), ("ImageHeight", 0x0101),
    ("ISOSpeedRatings", 0x8827), ("ShutterSpeedValue", 0x9201), ("ExposureTime", 0x829a), ("FNumber", 0x829d),
    ("ExifImageWidth", 0xa002), ("ExifImageHeight", 0xa003), ("DateTimeOriginal", 0x9003), ("CreateDate", 0x9004),
    ("ModifyDate", 0x0132), ("OffsetTime", 0x9010), ("OffsetTimeOriginal", 0x9011), ("OffsetTimeDigitized", 0x9012),
    ("GPSLatitudeRef", 0x0001), ("GPSLatitude", 0x0002), ("GPSLongitudeRef", 0x0003), ("GPSLongitude", 0x0004),
    ("GPSAltitudeRef", 0x0005), ("GPSAltitude", 0x0006), ("GPSVersionID", 0x0000), ("ExifOffset", 0x8769),
    ("GPSInfo", 0x8825), ("ImageDescription", 0x010e), ("XResolution", 0x011a), ("YResolution", 0x011b),
    ("ResolutionUnit", 0x0128), ("Software", 0x0131), ("HostComputer", 0x013c), ("WhitePoint", 0x013e),
    ("PrimaryChromaticities", 0x013f), ("YCbCrCoefficients", 0x0211), ("ReferenceBlackWhite", 0x0214),
    ("Copyright", 0x8298), ("ExposureProgram", 0x8822), ("SpectralSensitivity", 0x8824), ("OECF", 0x8828),
    ("SensitivityType", 0x8830), ("ExifVersion", 0x9000), ("ApertureValue", 0x9202), ("BrightnessValue", 0x9203),
    ("ExposureBiasValue", 0x9204), ("MaxApertureValue", 0x9205), ("SubjectDistance", 0x9206), ("MeteringMode", 0x9207),
    ("LightSource", 0x9208), ("Flash", 0x9209), ("FocalLength", 0x920a), ("SubjectArea", 0x9214), ("MakerNote", 0x927c),
    ("UserComment", 0x9286), ("FlashPixVersion", 0xa000), ("ColorSpace", 0xa001), ("RelatedSoundFile", 0xa004),
    ("FlashEnergy", 0xa20b), ("FocalPlaneXResolution", 0xa20e), ("FocalPlaneYResolution", 0xa20f),
    ("FocalPlaneResolutionUnit", 0xa210), ("SubjectLocation", 0xa214), ("ExposureIndex", 0xa215),
    ("SensingMethod", 0xa217), ("FileSource", 0xa300), ("SceneType", 0xa301), ("CFAPattern", 0xa302),
    ("CustomRendered", 0xa401), ("ExposureMode", 0xa402), ("WhiteBalanceMode", 0xa403), ("DigitalZoomRatio", 0xa404),
    ("FocalLengthIn35mmFilm", 0xa405), ("SceneCaptureType", 0xa406), ("GainControl", 0xa407), ("Contrast", 0xa408),
    ("Saturation", 0xa409), ("Sharpness", 0xa40a), ("DeviceSettingDescription", 0xa40b), ("SubjectDistanceRange", 0xa40c),
    ("ImageUniqueID", 0xa420), ("LensSpecification", 0xa432), ("LensMake", 0xa433), ("LensModel", 0xa434),
    ("Gamma", 0xa500), ("GPSTimeStamp", 0x0007), ("GPSSatellites", 0x0008), ("GPSStatus", 0x0009),
    ("GPSMeasureMode", 0x000a), ("GPSDOP", 0x000b), ("GPSSpeedRef", 0x000c), ("GPSSpeed", 0x000d), ("GPSTrackRef", 0x000e),
    ("GPSTrack", 0x000f), ("GPSImgDirectionRef", 0x0010), ("GPSImgDirection", 0x0011), ("GPSMapDatum", 0x0012),
    ("GPSDestLatitudeRef", 0x0013), ("GPSDestLatitude", 0x0014), ("GPSDestLongitudeRef", 0x0015),
    ("GPSDestLongitude", 0x0016), ("GPSDestBearingRef", 0x0017), ("GPSDestBearing", 0x0018), ("GPSDestDistanceRef", 0x0019),
    ("GPSDestDistance", 0x001a), ("GPSProcessingMethod", 0x001b), ("GPSAreaInformation", 0x001c), ("GPSDateStamp", 0x001d),
    ("GPSDifferential", 0x001e), ("YCbCrPositioning", 0x0213), ("RecommendedExposureIndex", 0x8832),
    ("SubSecTimeDigitized", 0x9292), ("SubSecTimeOriginal", 0x9291), ("SubSecTime", 0x9290), ("InteropOffset", 0xa005),
    ("ComponentsConfiguration", 0x9101), ("ThumbnailOffset", 0x0201), ("ThumbnailLength", 0x0202), ("Compression", 0x0103),
    ("BitsPerSample", 0x0102), ("PhotometricInterpretation", 0x0106), ("SamplesPerPixel", 0x0115), ("RowsPerStrip", 0x0116),
    ("PlanarConfiguration", 0x011c),
];

/// Every name some code has, with how many codes have it.
fn names() -> &'static BTreeMap<&'static str, usize> {
    static S: OnceLock<BTreeMap<&'static str, usize>> = OnceLock::new();
    S.get_or_init(|| {
        let mut m = BTreeMap::new();
        for c in 0..=u16::MAX {
            if let Some(t) = ExifTag::from_code(c) {
                *m.entry(t.name()).or_default() += 1;
            }
        }
        m
    })
}

fn code(t: &mut Tape, cx: &mut Cx) -> R {
    let c = t.u32() as u16;
    cx.data("code", &c.to_be_bytes());
    cx.checks += 8;
    let toc = TagOrCode::from(c);
    ensure!(toc.code() == c, "code", "{c:#06x} becomes {:#06x}", toc.code());
    let tag = ExifTag::from_code(c);
    ensure!(toc.tag() == tag, "code", "{c:#06x} is {tag:?}, as TagOrCode {:?}", toc.tag());
    let std: Vec<_> = STD.iter().filter(|x| x.1 == c).collect();
    let s = serde_json::to_string(&toc).unwrap();
    let back: std::result::Result<TagOrCode, _> = serde_json::from_str(&s);
    ensure!(back.as_ref().is_ok_and(|b| *b == toc), "code round trip", "{toc:?} → {s} → {back:?}");
    if let Some(tag) = tag {
        cx.nontrivial = true;
        cx.label("known");
        cx.sample(|| format!("{c:#06x} is {tag}"));
        ensure!(tag.code() == c, "bijection", "{c:#06x} is {tag:?}, whose code is {:#06x}", tag.code());
        ensure!(toc == TagOrCode::Tag(tag), "bijection", "{c:#06x} is {toc:?}");
        let n = tag.name();
        ensure!(!n.is_empty() && names()[n] == 1, "unique name", "{n:?} is the name of {} codes", names()[n]);
        ensure!(ExifTag::from_str(n).is_ok_and(|x| x == tag), "name parses back", "{n:?} of {c:#06x} parses as {:?}", ExifTag::from_str(n));
        ensure!(tag.to_string() == n && toc.to_string() == n, "name printed", "{tag:?} prints as {tag} / {toc}, its name is {n}");
        let s = serde_json::to_string(&tag).unwrap();
        ensure!(serde_json::from_str::<ExifTag>(&s).is_ok_and(|x| x == tag), "tag round trip", "{tag:?} → {s}");
        if let Some(x) = std.first() {
            ensure!(x.0 == n, "standard name", "{c:#06x} is called {n}, in the standard {}", x.0);
        }
        ensure!(STD.iter().all(|x| x.0 != n || x.1 == c), "standard code", "{n} has the code {c:#06x}, not the standard's");
    } else {
        ensure!(toc == TagOrCode::Unknown(c), "unknown code", "{c:#06x} is {toc:?}");
        ensure!(std.is_empty(), "known tag lost", "{c:#06x} ({}) is not known", std[0].0);
        let s = toc.to_string();
        ensure!(s.contains(&format!("{c:04x}")) || s.contains(&format!("{c:04X}")) || s.contains(&c.to_string()), "unknown code printed", "{c:#06x} prints as {s}");
    }
    Ok(())
}

/// A TIFF with one entry of the given code in one of four directories.
fn tiff(be: bool, place: u8, c: u16, count: u32, fmt: u16, field: [u8; 4]) -> Vec<u8> {
    let w16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let w32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut b = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
    b.extend(w32(8));
    let ent = |b: &mut Vec<u8>, tag: u16, fmt: u16, n: u32, f: [u8; 4]| {
        b.extend(w16(tag));
        b.extend(w16(fmt));
        b.extend(w32(n));
        b.extend(f);
    };
    let next = 8 + 2 + 12 + 4;
    match place {
        0 => {
            b.extend(w16(1));
            ent(&mut b, c, fmt, count, field);
            b.extend(w32(0));
        }
        1 => {
            // IFD1
            b.extend(w16(1));
            ent(&mut b, 0x0112, 3, 1, [w16(1)[0], w16(1)[1], 0, 0]);
            b.extend(w32(next));
            b.extend(w16(1));
            ent(&mut b, c, fmt, count, field);
            b.extend(w32(0));
        }
        p => {
            b.extend(w16(1));
            ent(&mut b, if p == 2 { 0x8769 } else { 0x8825 }, 4, 1, w32(next));
            b.extend(w32(0));
            b.extend(w16(1));
            ent(&mut b, c, fmt, count, field);
            b.extend(w32(0));
        }
    }
    b.resize(b.len().max(200), 0);
    b
}

/// The code of a file's entry is the code reported, and both lookups find it.
fn in_file(t: &mut Tape, cx: &mut Cx) -> R {
    let i = t.u32();
    let c = (i >> 3) as u16;
    let place = (i >> 1 & 3) as u8;
    let be = i & 1 == 1;
    if c == 0 && place != 3 {
        // tag 0 ends a directory outside GPS
        return Ok(());
    }
    cx.nontrivial = true;
    cx.checks += 5;
    cx.label(["main", "thumbnail", "exif", "gps"][place as usize]);
    let b = tiff(be, place, c, 4, 7, [1, c as u8, (c >> 8) as u8, 9]);
    cx.data("tiff", &b);
    cx.sample(|| format!("code {c:#06x} in directory kind {place}"));
    let want = EntryValue::Undefined(vec![1, c as u8, (c >> 8) as u8, 9]);
    let date = [0x9003, 0x9004, 0x0132].contains(&c);
    let mut p = MediaParser::new();
    let it = match MediaSource::from_memory(b).and_then(|s| p.parse_exif(s)) {
        Ok(i) => i,
        Err(e) => return fail("unreadable", format!("code {c:#06x}: {e}")),
    };
    let ifd = usize::from(place == 1);
    let hits: Vec<_> = it.clone_rewound().filter(|e| e.ifd().as_usize() == ifd && e.tag().code() == c).collect();
    // a pointer's own directory entry may repeat the code
    ensure!(!hits.is_empty(), "code lost", "code {c:#06x} in place {place} is not reported: {:?}", it.clone_rewound().map(|e| e.tag()).collect::<Vec<_>>());
    let all: Vec<_> = it.clone_rewound().map(|e| (e.ifd().as_usize(), e.tag().code())).collect();
    let others = all.iter().filter(|x| x.1 != c).all(|x| matches!(x, (0, 0x0112 | 0x8769 | 0x8825)));
    ensure!(others, "code invented", "code {c:#06x} in place {place} gives {all:x?}");
    for h in &hits {
        ensure!(h.tag() == TagOrCode::from(c) && h.tag().tag() == ExifTag::from_code(c), "tag of the code", "{c:#06x} is reported as {:?}", h.tag());
    }
    if date || (c == 0x8769 || c == 0x8825 || c == 0x0112) {
        return Ok(());
    }
    ensure!(hits.len() == 1 && hits[0].value() == Some(&want), "value of the code", "{c:#06x} in place {place} is {:?}", hits[0].value());
    let x: Exif = it.into();
    let ix = IfdIndex::new(ifd);
    ensure!(x.get_by_code(ix, c) == Some(&want), "lookup by code", "{c:#06x} in place {place}: {:?}", x.get_by_code(ix, c));
    if let Some(tag) = ExifTag::from_code(c) {
        ensure!(x.get_in(ix, tag) == Some(&want), "lookup by tag", "{tag} in place {place}: {:?}", x.get_in(ix, tag));
        ensure!(x.get(tag) == if ifd == 0 { Some(&want) } else { None }, "lookup in the main directory", "{tag} in place {place}: {:?}", x.get(tag));
    }
    // no other code answers
    for o in [c ^ 1, c.wrapping_add(1), c.swap_bytes()] {
        if o != c && ![0x0112, 0x8769, 0x8825].contains(&o) {
            ensure!(x.get_by_code(ix, o).is_none(), "lookup by another code", "{o:#06x} finds {c:#06x}");
        }
    }
    ensure!(x.iter().filter(|e| e.tag.code() == c && e.ifd == ix && *e.value == want).count() == 1, "listing", "{c:#06x} in place {place}");
    Ok(())
}

fn strings(t: &mut Tape, cx: &mut Cx) -> R {
    let all: Vec<&str> = names().keys().copied().chain(TRACK.iter().map(|x| x.name())).collect();
    let mut s = match t.below(6) {
        0 => {
            let n = t.size(12, 40);
            t.ascii(n)
        }
        1 => format!("Unknown(0x{:04x})", t.u16()),
        2 => format!("{:#x}", t.u16()),
        3 => {
            let mut s = t.pick(&all).to_string();
            s.push_str(*t.pick(&all));
            s
        }
        _ => t.pick(&all).to_string(),
    };
    for _ in 0..t.below(3) {
        let n = s.chars().count();
        match t.below(6) {
            0 => s = s.to_lowercase(),
            1 => s = s.to_uppercase(),
            2 => s.insert(0, *t.pick(&[' ', '\0', '\n', 'I', '\u{feff}'])),
            3 => s.push(*t.pick(&[' ', '\0', '\n', 's', '0'])),
            4 if n > 0 => {
                let k = t.below(n);
                s = s.chars().enumerate().filter(|x| x.0 != k).map(|x| x.1).collect();
            }
            _ => {
                let k = t.below(n + 1);
                let c = (0x20 + t.below(0x5f) as u8) as char;
                s = s.chars().take(k).chain([c]).chain(s.chars().skip(k + 1)).collect();
            }
        }
    }
    cx.data("name", s.as_bytes());
    cx.nontrivial = !s.is_empty();
    cx.sample(|| format!("{s:?}"));
    cx.checks += 2;
    match ExifTag::from_str(&s) {
        Ok(x) => {
            cx.label("parses");
            ensure!(x.name() == s && ExifTag::from_code(x.code()) == Some(x), "another string parses", "{s:?} parses as {x:?} called {}", x.name());
        }
        Err(ConvertError::UnknownTagName(e)) => {
            ensure!(!names().contains_key(s.as_str()), "name refused", "{s:?} is a tag's name and is refused");
            ensure!(e == s, "refusal", "{s:?} is refused as {e:?}");
        }
        Err(e) => return fail("refusal", format!("{s:?} is refused with {e:?}")),
    }
    match TrackInfoTag::from_str(&s) {
        Ok(x) => ensure!(x.name() == s, "another string parses", "{s:?} parses as {x:?} called {}", x.name()),
        Err(e) => {
            ensure!(TRACK.iter().all(|x| x.name() != s), "name refused", "{s:?} is a track tag's name and is refused: {e}");
            ensure!(matches!(&e, ConvertError::UnknownTagName(n) if *n == s), "refusal", "{s:?} is refused with {e:?}");
        }
    }
    Ok(())
}

const TRACK: [TrackInfoTag; 9] = [
    TrackInfoTag::Make,
    TrackInfoTag::Model,
    TrackInfoTag::Software,
    TrackInfoTag::CreateDate,
    TrackInfoTag::DurationMs,
    TrackInfoTag::Width,
    TrackInfoTag::Height,
    TrackInfoTag::GpsIso6709,
    TrackInfoTag::Author,
];

fn tables(t: &mut Tape, cx: &mut Cx) -> R {
    let i = t.u32() as usize;
    cx.nontrivial = true;
    cx.checks += 3;
    if let Some(k) = i.checked_sub(TRACK.len()) {
        // every standard tag known stays known, under its name and code
        let (n, c) = STD[k];
        cx.data("tag", n.as_bytes());
        cx.sample(|| format!("{n} {c:#06x}"));
        let x = ExifTag::from_str(n);
        ensure!(x.as_ref().is_ok_and(|x| x.code() == c && x.name() == n), "standard tag", "{n} ({c:#06x}) parses as {x:?}");
        ensure!(ExifTag::from_code(c).is_some_and(|x| x.name() == n), "standard code", "{c:#06x} ({n}) is {:?}", ExifTag::from_code(c));
        return Ok(());
    }
    let x = TRACK[i];
    cx.data("tag", x.name().as_bytes());
    ensure!(TrackInfoTag::from_str(x.name()).is_ok_and(|y| y == x), "track tag name", "{} parses as {:?}", x.name(), TrackInfoTag::from_str(x.name()));
    ensure!(x.to_string() == x.name(), "track tag name", "{} prints as {x}", x.name());
    ensure!(TRACK.iter().filter(|y| y.name() == x.name()).count() == 1, "track tag name", "{} is not unique", x.name());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a known code, a non-empty string, or a file with an entry of the code",
        level: "exploration",
        assumptions: &["codes and code × directory × byte order are enumerated in full; strings are sampled"],
        subs: vec![
            Sub { name: "code", drive: Drive::Enum, quick: 65_536, thorough: 65_536, tape: 1, f: code },
            Sub { name: "in_file", drive: Drive::Enum, quick: 65_536 * 8, thorough: 65_536 * 8, tape: 1, f: in_file },
            Sub { name: "tables", drive: Drive::Enum, quick: STD.len() as u64 + 9, thorough: STD.len() as u64 + 9, tape: 1, f: tables },
            Sub { name: "strings", drive: Drive::Random, quick: 7_200_000, thorough: 86_400_000, tape: 40, f: strings },
        ],
    }
}
