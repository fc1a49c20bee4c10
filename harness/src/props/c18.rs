//! Values print, convert and serialise without loss or contradiction.
use super::common::*;
use crate::ensure;
use crate::modes::*;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use chrono::{DateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, Offset, Timelike};
use nom_exif::*;
use serde_json::Value as J;
use std::sync::Arc;

fn u32x(t: &mut Tape) -> u32 {
    match t.below(6) {
        0 => *t.pick(&[0, 1, 2, 10, 255, 256, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]),
        1 => t.below(1000) as u32,
        2 => 1u32 << t.below(32),
        _ => t.u32(),
    }
}
fn u64x(t: &mut Tape) -> u64 {
    match t.below(6) {
        0 => *t.pick(&[0, 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u64::MAX - 1, 1 << 53, (1 << 53) + 1]),
        1 => t.below(1000) as u64,
        2 => 1u64 << t.below(64),
        _ => t.u64(),
    }
}
fn ur(t: &mut Tape) -> URational {
    let n = u32x(t);
    let d = if t.chance(1, 5) { 0 } else { u32x(t) };
    URational::new(n, d)
}
fn ir(t: &mut Tape) -> IRational {
    let n = u32x(t) as i32;
    let d = if t.chance(1, 5) { 0 } else { u32x(t) as i32 };
    IRational::new(n, d)
}
fn text(t: &mut Tape) -> String {
    let n = t.size(30, 400);
    (0..n)
        .map(|_| match t.below(8) {
            0 => char::from_u32(t.below(0x3000) as u32).unwrap_or('?'),
            1 => *t.pick(&['"', '\\', '\n', '\t', '\0', '\u{7f}', 'é', '\u{feff}', '😀', '\'', '{', '}']),
            _ => (0x20 + t.below(0x5f) as u8) as char,
        })
        .collect()
}
fn naive(t: &mut Tape) -> NaiveDateTime {
    let y = match t.below(5) {
        0 => *t.pick(&[1, 1000, 1904, 1969, 1970, 2000, 2001, 2038, 9998]),
        _ => t.range(1, 9998) as i32,
    };
    let d = NaiveDate::from_yo_opt(y, t.range(1, 365) as u32).unwrap();
    let s = t.below(86_400) as u32;
    let n = if t.chance(1, 3) { *t.pick(&[1, 1_000, 1_000_000, 500_000_000, 999_999_999, 123_456_789]) } else { 0 };
    d.and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap())
}
fn offset(t: &mut Tape) -> FixedOffset {
    // what the text form can carry: whole minutes
    let m = match t.below(4) {
        0 => *t.pick(&[0, 330, -210, 765, 840, -720, 1439, -1439, 1, -1]),
        _ => t.range(0, 2878) as i32 - 1439,
    };
    FixedOffset::east_opt(m * 60).unwrap()
}
fn gen(t: &mut Tape) -> EntryValue {
    match t.below(19) {
        0 => EntryValue::Text(text(t)),
        1 => EntryValue::URational(ur(t)),
        2 => EntryValue::IRational(ir(t)),
        3 => EntryValue::U8(t.u8()),
        4 => EntryValue::U16(u32x(t) as u16),
        5 => EntryValue::U32(u32x(t)),
        6 => EntryValue::U64(u64x(t)),
        7 => EntryValue::I8(t.u8() as i8),
        8 => EntryValue::I16(u32x(t) as i16),
        9 => EntryValue::I32(u32x(t) as i32),
        10 => EntryValue::I64(u64x(t) as i64),
        11 => EntryValue::F32(match t.below(4) {
            0 => *t.pick(&[0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, 0.1, 1e-45]),
            _ => f32::from_bits(t.u32()),
        }),
        12 => EntryValue::F64(match t.below(4) {
            0 => *t.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::MAX, 0.1, 5e-324]),
            _ => f64::from_bits(t.u64()),
        }),
        13 => {
            let n = naive(t);
            let o = offset(t);
            EntryValue::DateTime(n.and_local_timezone(o).unwrap())
        }
        14 => EntryValue::NaiveDateTime(naive(t)),
        15 => {
            let n = t.size(24, 600);
            if t.chance(1, 2) {
                EntryValue::Undefined((0..n).map(|_| 0x20 + t.below(0x5f) as u8).collect())
            } else {
                EntryValue::Undefined(t.fill(n))
            }
        }
        k => {
            let n = t.size(12, 300);
            match (k, t.below(2)) {
                (16, 0) => EntryValue::URationalArray((0..n).map(|_| ur(t)).collect()),
                (16, _) => EntryValue::IRationalArray((0..n).map(|_| ir(t)).collect()),
                (17, 0) => EntryValue::U8Array(t.fill(n)),
                (17, _) => EntryValue::U16Array((0..n).map(|_| u32x(t) as u16).collect()),
                _ => EntryValue::U32Array((0..n).map(|_| u32x(t)).collect()),
            }
        }
    }
}
fn variant(v: &EntryValue) -> &'static str {
    match v {
        EntryValue::Text(_) => "Text",
        EntryValue::URational(_) => "URational",
        EntryValue::IRational(_) => "IRational",
        EntryValue::U8(_) => "U8",
        EntryValue::U16(_) => "U16",
        EntryValue::U32(_) => "U32",
        EntryValue::U64(_) => "U64",
        EntryValue::I8(_) => "I8",
        EntryValue::I16(_) => "I16",
        EntryValue::I32(_) => "I32",
        EntryValue::I64(_) => "I64",
        EntryValue::F32(_) => "F32",
        EntryValue::F64(_) => "F64",
        EntryValue::DateTime(_) => "DateTime",
        EntryValue::NaiveDateTime(_) => "NaiveDateTime",
        EntryValue::Undefined(_) => "Undefined",
        EntryValue::URationalArray(_) => "URationalArray",
        EntryValue::IRationalArray(_) => "IRationalArray",
        EntryValue::U8Array(_) => "U8Array",
        EntryValue::U16Array(_) => "U16Array",
        EntryValue::U32Array(_) => "U32Array",
        _ => "other",
    }
}

fn same64(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()),
        _ => false,
    }
}
fn ratio(n: f64, d: f64) -> Option<f64> {
    if d == 0.0 {
        None
    } else {
        Some(n / d)
    }
}

/// Each accessor answers exactly for its own type.
fn accessors(v: &EntryValue) -> R {
    macro_rules! acc {
        ($name:ident, $pat:pat => $want:expr) => {{
            #[allow(unreachable_patterns)]
            let want = match v {
                $pat => Some($want),
                _ => None,
            };
            let got = v.$name();
            ensure!(got == want, concat!("accessor ", stringify!($name)), "{} of {v:?} is {got:?}, not {want:?}", stringify!($name));
        }};
    }
    acc!(as_str, EntryValue::Text(s) => s.as_str());
    acc!(as_u8, EntryValue::U8(x) => *x);
    acc!(as_u16, EntryValue::U16(x) => *x);
    acc!(as_u32, EntryValue::U32(x) => *x);
    acc!(as_u64, EntryValue::U64(x) => *x);
    acc!(as_i8, EntryValue::I8(x) => *x);
    acc!(as_i16, EntryValue::I16(x) => *x);
    acc!(as_i32, EntryValue::I32(x) => *x);
    acc!(as_i64, EntryValue::I64(x) => *x);
    acc!(as_urational, EntryValue::URational(x) => *x);
    acc!(as_irational, EntryValue::IRational(x) => *x);
    acc!(as_urational_slice, EntryValue::URationalArray(x) => x.as_slice());
    acc!(as_irational_slice, EntryValue::IRationalArray(x) => x.as_slice());
    acc!(as_u8_slice, EntryValue::U8Array(x) => x.as_slice());
    acc!(as_u16_slice, EntryValue::U16Array(x) => x.as_slice());
    acc!(as_u32_slice, EntryValue::U32Array(x) => x.as_slice());
    acc!(as_undefined, EntryValue::Undefined(x) => x.as_slice());
    acc!(as_datetime, EntryValue::DateTime(_) | EntryValue::NaiveDateTime(_) => match v {
        EntryValue::DateTime(d) => ExifDateTime::Aware(*d),
        EntryValue::NaiveDateTime(d) => ExifDateTime::Naive(*d),
        _ => unreachable!(),
    });
    let f = match v {
        EntryValue::F64(x) => Some(*x),
        _ => None,
    };
    ensure!(same64(v.as_f64(), f), "accessor as_f64", "as_f64 of {v:?} is {:?}", v.as_f64());
    // the widening accessors
    let int: Option<i128> = match v {
        EntryValue::U8(x) => Some(*x as i128),
        EntryValue::U16(x) => Some(*x as i128),
        EntryValue::U32(x) => Some(*x as i128),
        EntryValue::U64(x) => Some(*x as i128),
        EntryValue::I8(x) => Some(*x as i128),
        EntryValue::I16(x) => Some(*x as i128),
        EntryValue::I32(x) => Some(*x as i128),
        EntryValue::I64(x) => Some(*x as i128),
        _ => None,
    };
    let want = int.and_then(|x| i64::try_from(x).ok());
    ensure!(v.try_as_integer() == want, "try_as_integer", "try_as_integer of {v:?} is {:?}, not {want:?}", v.try_as_integer());
    let want = match v {
        EntryValue::F32(x) => Some(*x as f64),
        EntryValue::F64(x) => Some(*x),
        EntryValue::URational(r) => ratio(r.numerator() as f64, r.denominator() as f64),
        EntryValue::IRational(r) => ratio(r.numerator() as f64, r.denominator() as f64),
        _ => int.map(|x| x as f64),
    };
    ensure!(same64(v.try_as_float(), want), "try_as_float", "try_as_float of {v:?} is {:?}, not {want:?}", v.try_as_float());
    Ok(())
}

fn num_tokens(body: &str) -> Option<Vec<u64>> {
    if body.trim().is_empty() {
        return Some(vec![]);
    }
    body.split(',')
        .map(|x| {
            let x = x.trim();
            match x.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16).ok(),
                None => x.parse().ok(),
            }
        })
        .collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(&s[i..i + 2], 16).ok()).collect()
}
/// "n/d (q)" – the quotient, when shown, is the rounded value.
fn rational_ok(s: &str, n: i64, d: i64) -> bool {
    let s = s.trim();
    let (frac, q) = match s.split_once(' ') {
        Some((a, b)) => (a, Some(b)),
        None => (s, None),
    };
    let Some((a, b)) = frac.split_once('/') else { return false };
    if a.parse() != Ok(n) || b.parse() != Ok(d) {
        return false;
    }
    let Some(q) = q else { return true };
    let Some(q) = q.strip_prefix('(').and_then(|q| q.strip_suffix(')')) else { return false };
    let Ok(q) = q.parse::<f64>() else { return false };
    if d == 0 {
        return !q.is_finite();
    }
    let want = n as f64 / d as f64;
    (q - want).abs() <= 0.000_050_1 + want.abs() * 1e-12
}

fn shown(v: &EntryValue) -> bool {
    let s = v.to_string();
    let arr = || -> Option<&str> { s.split_once('[')?.1.strip_suffix(']') };
    match v {
        EntryValue::Text(x) => s == *x,
        EntryValue::URational(r) => rational_ok(&s, r.numerator() as i64, r.denominator() as i64),
        EntryValue::IRational(r) => rational_ok(&s, r.numerator() as i64, r.denominator() as i64),
        EntryValue::U8(x) => s.parse() == Ok(*x),
        EntryValue::U16(x) => s.parse() == Ok(*x),
        EntryValue::U32(x) => s.parse() == Ok(*x),
        EntryValue::U64(x) => s.parse() == Ok(*x),
        EntryValue::I8(x) => s.parse() == Ok(*x),
        EntryValue::I16(x) => s.parse() == Ok(*x),
        EntryValue::I32(x) => s.parse() == Ok(*x),
        EntryValue::I64(x) => s.parse() == Ok(*x),
        EntryValue::F32(x) => s.parse::<f32>().is_ok_and(|y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())),
        EntryValue::F64(x) => s.parse::<f64>().is_ok_and(|y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())),
        EntryValue::DateTime(d) => DateTime::parse_from_rfc3339(&s).is_ok_and(|e| e == *d && e.offset() == d.offset()),
        EntryValue::NaiveDateTime(d) => naive_back(&s).is_some_and(|e| e == *d),
        EntryValue::Undefined(b) => {
            match s.strip_prefix('"').and_then(|x| x.strip_suffix('"')) {
                Some(x) => x.as_bytes() == b.as_slice(),
                None => s.strip_prefix("0x").and_then(unhex).is_some_and(|x| x == *b),
            }
        }
        EntryValue::U8Array(a) => arr().and_then(num_tokens).is_some_and(|x| x == a.iter().map(|x| *x as u64).collect::<Vec<_>>()),
        EntryValue::U16Array(a) => arr().and_then(num_tokens).is_some_and(|x| x == a.iter().map(|x| *x as u64).collect::<Vec<_>>()),
        EntryValue::U32Array(a) => arr().and_then(num_tokens).is_some_and(|x| x == a.iter().map(|x| *x as u64).collect::<Vec<_>>()),
        EntryValue::URationalArray(a) => arr().is_some_and(|x| {
            let p: Vec<&str> = if x.is_empty() { vec![] } else { x.split(", ").collect() };
            p.len() == a.len() && p.iter().zip(a).all(|(p, r)| rational_ok(p, r.numerator() as i64, r.denominator() as i64))
        }),
        EntryValue::IRationalArray(a) => arr().is_some_and(|x| {
            let p: Vec<&str> = if x.is_empty() { vec![] } else { x.split(", ").collect() };
            p.len() == a.len() && p.iter().zip(a).all(|(p, r)| rational_ok(p, r.numerator() as i64, r.denominator() as i64))
        }),
        _ => true,
    }
}
fn naive_back(s: &str) -> Option<NaiveDateTime> {
    for f in ["%Y-%m-%d %H:%M:%S%.f", "%Y-%m-%dT%H:%M:%S%.f", "%Y:%m:%d %H:%M:%S%.f"] {
        if let Ok(x) = NaiveDateTime::parse_from_str(s, f) {
            return Some(x);
        }
    }
    None
}
fn jrat(j: &J, n: i64, d: i64) -> bool {
    j.get("numerator").and_then(|x| x.as_i64()) == Some(n) && j.get("denominator").and_then(|x| x.as_i64()) == Some(d)
}
fn jnums(j: &J, want: Vec<u64>) -> bool {
    j.as_array().is_some_and(|a| a.len() == want.len() && a.iter().zip(&want).all(|(x, w)| x.as_u64() == Some(*w)))
}
fn serialised(v: &EntryValue, j: &J, js: &str) -> bool {
    match v {
        EntryValue::Text(x) => j.as_str() == Some(x),
        EntryValue::URational(r) => jrat(j, r.numerator() as i64, r.denominator() as i64),
        EntryValue::IRational(r) => jrat(j, r.numerator() as i64, r.denominator() as i64),
        EntryValue::U8(x) => j.as_u64() == Some(*x as u64),
        EntryValue::U16(x) => j.as_u64() == Some(*x as u64),
        EntryValue::U32(x) => j.as_u64() == Some(*x as u64),
        EntryValue::U64(x) => j.as_u64() == Some(*x),
        EntryValue::I8(x) => j.as_i64() == Some(*x as i64),
        EntryValue::I16(x) => j.as_i64() == Some(*x as i64),
        EntryValue::I32(x) => j.as_i64() == Some(*x as i64),
        EntryValue::I64(x) => j.as_i64() == Some(*x),
        // JSON has no word for these
        EntryValue::F32(x) if !x.is_finite() => true,
        EntryValue::F64(x) if !x.is_finite() => true,
        EntryValue::F32(x) => j.is_number() && js.parse() == Ok(*x),
        EntryValue::F64(x) => j.is_number() && js.parse() == Ok(*x),
        EntryValue::DateTime(d) => j.as_str().and_then(|s| DateTime::parse_from_rfc3339(s).ok()).is_some_and(|e| e == *d && e.offset() == d.offset()),
        EntryValue::NaiveDateTime(d) => j.as_str().and_then(naive_back).is_some_and(|e| e == *d),
        EntryValue::Undefined(b) => j.as_str().and_then(unhex).is_some_and(|x| x == *b),
        EntryValue::U8Array(a) => jnums(j, a.iter().map(|x| *x as u64).collect()),
        EntryValue::U16Array(a) => jnums(j, a.iter().map(|x| *x as u64).collect()),
        EntryValue::U32Array(a) => jnums(j, a.iter().map(|x| *x as u64).collect()),
        EntryValue::URationalArray(a) => j.as_array().is_some_and(|x| x.len() == a.len() && x.iter().zip(a).all(|(j, r)| jrat(j, r.numerator() as i64, r.denominator() as i64))),
        EntryValue::IRationalArray(a) => j.as_array().is_some_and(|x| x.len() == a.len() && x.iter().zip(a).all(|(j, r)| jrat(j, r.numerator() as i64, r.denominator() as i64))),
        _ => true,
    }
}

fn judge(v: &EntryValue, from_file: bool) -> R {
    accessors(v)?;
    // dates of a file may lie beyond what the text forms are defined for
    let plain = match v {
        EntryValue::DateTime(d) => (0..=9999).contains(&d.year()) && d.nanosecond() < 1_000_000_000 && d.offset().local_minus_utc() % 60 == 0,
        EntryValue::NaiveDateTime(d) => (0..=9999).contains(&d.year()) && d.nanosecond() < 1_000_000_000,
        _ => true,
    };
    let s = v.to_string();
    let what = if from_file { " from a file" } else { "" };
    ensure!(!plain || shown(v), &format!("text form of {}", variant(v)), "{v:?}{what} prints as {s:?}");
    let js = match serde_json::to_string(v) {
        Ok(s) => s,
        Err(e) => return fail("serialise", format!("{v:?} does not serialise: {e}")),
    };
    let j: J = match serde_json::from_str(&js) {
        Ok(j) => j,
        Err(e) => return fail("serialise", format!("{v:?} serialises to {js:?}: {e}")),
    };
    ensure!(!plain || serialised(v, &j, &js), &format!("serialised form of {}", variant(v)), "{v:?}{what} serialises as {js}");
    Ok(())
}

fn values(t: &mut Tape, cx: &mut Cx) -> R {
    let v = gen(t);
    cx.label(variant(&v));
    cx.data("value", canon(&v).as_bytes());
    cx.nontrivial = true;
    cx.checks += 4;
    cx.sample(|| format!("{v:?} → {v}"));
    judge(&v, false)?;
    // what the conversions into a value keep
    let back = match &v {
        EntryValue::Text(s) => {
            ensure!(EntryValue::from(s.as_str()) == v, "from", "&str");
            EntryValue::from(s.clone())
        }
        EntryValue::U8(x) => (*x).into(),
        EntryValue::U16(x) => (*x).into(),
        EntryValue::U32(x) => (*x).into(),
        EntryValue::U64(x) => (*x).into(),
        EntryValue::I8(x) => (*x).into(),
        EntryValue::I16(x) => (*x).into(),
        EntryValue::I32(x) => (*x).into(),
        EntryValue::I64(x) => (*x).into(),
        EntryValue::F32(x) => (*x).into(),
        EntryValue::F64(x) => (*x).into(),
        EntryValue::DateTime(d) => {
            let e = EntryValue::from((d.naive_local(), Some(d.offset().fix())));
            ensure!(canon(&e) == canon(&v), "from", "{v:?} from its parts is {e:?}");
            (*d).into()
        }
        EntryValue::NaiveDateTime(d) => EntryValue::from((*d, None)),
        _ => v.clone(),
    };
    ensure!(canon(&back) == canon(&v), "from", "{v:?} through From is {back:?}");
    if let Some(d) = v.as_datetime() {
        let fb = offset(t);
        let o = d.or_offset(fb);
        match d {
            ExifDateTime::Aware(x) => {
                ensure!(d.aware().is_some_and(|y| y == x && y.offset() == x.offset()), "aware", "{d:?}.aware() is {:?}", d.aware());
                ensure!(d.into_naive() == x.naive_local(), "into_naive", "{d:?} is {}", d.into_naive());
                ensure!(o == x && o.offset() == x.offset(), "or_offset", "{d:?} with a fallback {fb} is {o}");
            }
            ExifDateTime::Naive(x) => {
                ensure!(d.aware().is_none(), "aware", "{d:?}.aware() is {:?}", d.aware());
                ensure!(d.into_naive() == x, "into_naive", "{d:?} is {}", d.into_naive());
                ensure!(o.naive_local() == x && o.offset() == &fb, "or_offset", "{d:?} with the fallback {fb} is {o}");
            }
        }
    }
    Ok(())
}

/// Ratios and what is built from them.
fn ratios(t: &mut Tape, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let u = ur(t);
    let i = ir(t);
    cx.label_if(u.denominator() == 0 || i.denominator() == 0, "zero denominator");
    cx.label_if(i.numerator() < 0 || i.denominator() < 0, "negative");
    cx.data("ratios", format!("{u:?} {i:?}").as_bytes());
    cx.sample(|| format!("{u:?} {i:?}"));
    cx.checks += 6;
    let want = ratio(u.numerator() as f64, u.denominator() as f64);
    ensure!(same64(u.to_f64(), want), "to_f64", "{u:?} is {:?}, not {want:?}", u.to_f64());
    let want = ratio(i.numerator() as f64, i.denominator() as f64);
    ensure!(same64(i.to_f64(), want), "to_f64", "{i:?} is {:?}, not {want:?}", i.to_f64());
    let conv = |i: IRational| -> R {
        let r = URational::try_from(i);
        let (n, d) = (i.numerator() as i64, i.denominator() as i64);
        if n >= 0 && d >= 0 {
            ensure!(r.as_ref().is_ok_and(|u| u.numerator() as i64 == n && u.denominator() as i64 == d), "unsigned conversion", "{i:?} becomes {r:?}");
        } else if (n < 0) != (d < 0) && n != 0 {
            ensure!(r.is_err(), "unsigned conversion", "negative {i:?} becomes {r:?}");
        } else if let Ok(u) = r {
            // both negative, or a negative zero: refused, or the same value
            ensure!(u.numerator() as i64 == n.abs() && u.denominator() as i64 == d.abs(), "unsigned conversion", "{i:?} becomes {u:?}");
        }
        Ok(())
    };
    conv(i)?;
    // degrees, minutes and seconds out of an array
    let n = t.below(5);
    let us: Vec<URational> = (0..n).map(|_| ur(t)).collect();
    let r = LatLng::try_from(us.as_slice());
    let r2 = LatLng::try_from(&us);
    ensure!(r.is_ok() == (n >= 3) && r2.is_ok() == r.is_ok(), "LatLng from ratios", "{us:?} becomes {r:?} / {r2:?}");
    if let (Ok(l), Ok(m)) = (r, r2) {
        ensure!(l == m && [l.degrees, l.minutes, l.seconds] == us[..3], "LatLng from ratios", "{us:?} becomes {l:?}");
        let want = us[..3].iter().map(|r| r.to_f64()).collect::<Option<Vec<_>>>().map(|v| v[0] + v[1] / 60.0 + v[2] / 3600.0);
        let got = l.to_decimal_degrees();
        let close = match (got, want) {
            (None, None) => true,
            (Some(a), Some(b)) => (a - b).abs() <= 1e-9 * b.abs().max(1.0),
            _ => false,
        };
        ensure!(close, "decimal degrees", "{l:?} is {got:?}, not {want:?}");
    }
    let is: Vec<IRational> = (0..n).map(|_| if t.chance(2, 3) { IRational::new(u32x(t) as i32 & i32::MAX, u32x(t) as i32 & i32::MAX) } else { ir(t) }).collect();
    let r = LatLng::try_from(is.as_slice());
    let r2 = LatLng::try_from(&is);
    let pos = is.iter().take(3).all(|i| i.numerator() >= 0 && i.denominator() >= 0);
    let neg = is.iter().take(3).any(|i| i.numerator() != 0 && (i.numerator() < 0) != (i.denominator() < 0));
    ensure!(r.is_ok() == r2.is_ok(), "LatLng from ratios", "{is:?} becomes {r:?} / {r2:?}");
    if n < 3 || neg {
        ensure!(r.is_err(), "LatLng from ratios", "{is:?} becomes {r:?}");
    } else if pos {
        ensure!(
            r.as_ref().is_ok_and(|l| [l.degrees, l.minutes, l.seconds].iter().zip(&is).all(|(u, i)| u.numerator() as i64 == i.numerator() as i64 && u.denominator() as i64 == i.denominator() as i64)),
            "LatLng from ratios",
            "{is:?} becomes {r:?}"
        );
    }
    // altitude
    let a = *t.pick(&[Altitude::AboveSeaLevel(u), Altitude::BelowSeaLevel(u), Altitude::Unknown]);
    let want = match a {
        Altitude::AboveSeaLevel(r) => r.to_f64(),
        Altitude::BelowSeaLevel(r) => r.to_f64().map(|x| -x),
        _ => None,
    };
    ensure!(same64(a.meters(), want), "altitude", "{a:?} is {:?} m", a.meters());
    ensure!(a.magnitude() == if a == Altitude::Unknown { None } else { Some(u) }, "altitude", "{a:?} has magnitude {:?}", a.magnitude());
    // serialised ratios come back
    let s = serde_json::to_string(&(u, i)).unwrap();
    let b: std::result::Result<(URational, IRational), _> = serde_json::from_str(&s);
    ensure!(b.as_ref().is_ok_and(|b| *b == (u, i)), "ratio round trip", "{s} → {b:?}");
    Ok(())
}

/// The reference letters.
fn letters(t: &mut Tape, cx: &mut Cx) -> R {
    let c = char::from_u32(t.u32()).unwrap_or('?');
    cx.data("letter", c.to_string().as_bytes());
    cx.nontrivial = c.is_ascii_alphabetic();
    cx.checks += 3;
    let up = c.to_ascii_uppercase();
    let want = match up {
        'N' => Some(LatRef::North),
        'S' => Some(LatRef::South),
        _ => None,
    };
    let got = LatRef::from_char(c);
    ensure!(got == want && got.is_none_or(|r| r.as_char() == up && (r.sign() > 0.0) == (up == 'N') && r.sign().abs() == 1.0), "latitude letter", "{c:?} is {got:?}");
    let want = match up {
        'E' => Some(LonRef::East),
        'W' => Some(LonRef::West),
        _ => None,
    };
    let got = LonRef::from_char(c);
    ensure!(got == want && got.is_none_or(|r| r.as_char() == up && (r.sign() > 0.0) == (up == 'E') && r.sign().abs() == 1.0), "longitude letter", "{c:?} is {got:?}");
    let want = match up {
        'K' => Some(SpeedUnit::KmPerHour),
        'M' => Some(SpeedUnit::MilesPerHour),
        'N' => Some(SpeedUnit::Knots),
        _ => None,
    };
    let got = SpeedUnit::from_char(c);
    ensure!(got == want && got.is_none_or(|r| r.as_char() == up), "speed letter", "{c:?} is {got:?}");
    Ok(())
}

/// Every value found in a file, good or damaged.
fn files(t: &mut Tape, cx: &mut Cx) -> R {
    let (l, b) = gen_input(t, false);
    cx.label(l.split([' ', '+']).next().unwrap_or(""));
    cx.data("file", &b);
    let d = Arc::new(b);
    let mut seen: Vec<EntryValue> = vec![];
    for op in OPS {
        let (_, r) = run_live(&mut MediaParser::new(), op, Mode::Mem, &d, &Default::default(), &Default::default());
        match r {
            Ok(Live::Exif(i)) => {
                for e in i.clone_rewound() {
                    seen.extend(e.value().cloned());
                }
            }
            Ok(Live::Track(tr)) => seen.extend(tr.iter().map(|(_, v)| v.clone())),
            Ok(Live::Img(m)) => {
                if let Some(f) = &m.format {
                    let s = serde_json::to_string(f).unwrap();
                    let b: std::result::Result<ImageFormatMetadata, _> = serde_json::from_str(&s);
                    match (f, b) {
                        (ImageFormatMetadata::Png(a), Ok(ImageFormatMetadata::Png(b))) => {
                            ensure!(a.iter().eq(b.iter()) && a.len() == b.len(), "text round trip", "{a:?} → {s} → {b:?}");
                            for (k, v) in a.iter() {
                                ensure!(s.contains(&serde_json::to_string(k).unwrap()) && s.contains(&serde_json::to_string(v).unwrap()), "text serialised", "{k:?}={v:?} not in {s}");
                            }
                        }
                        (_, b) => return fail("text round trip", format!("{s} → {b:?}")),
                    }
                    cx.label("png text");
                }
            }
            Err(_) => {}
        }
    }
    cx.nontrivial = !seen.is_empty();
    cx.sample(|| format!("{l}: {} values", seen.len()));
    for v in &seen {
        cx.checks += 4;
        judge(v, true)?;
    }
    Ok(())
}

/// The extremes of the date range: no conversion may panic.
fn far(t: &mut Tape, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let base = *t.pick(&[NaiveDateTime::MIN, NaiveDateTime::MAX]);
    let s = t.below(3 * 86_400) as i64;
    let s = if base == NaiveDateTime::MAX { -s } else { s };
    let n = base.checked_add_signed(chrono::TimeDelta::seconds(s)).unwrap();
    let m = t.below(172_799) as i32 - 86_399;
    let o = FixedOffset::east_opt(m).unwrap();
    cx.data("time", format!("{n} at {o}").as_bytes());
    cx.sample(|| format!("{n} at {o}"));
    cx.checks += 3;
    let v = EntryValue::from((n, Some(o)));
    let d = v.as_datetime();
    ensure!(d.is_some_and(|d| d.into_naive() == n), "far date", "{n} at {o} becomes {v:?}");
    let d = ExifDateTime::Naive(n).or_offset(o);
    let _ = (v.to_string(), serde_json::to_string(&v), d.timestamp());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "every value; for files: at least one value found",
        level: "exploration",
        assumptions: &["JSON is the serialised form judged; it has no NaN or infinity, which are left out", "the text form of a moment is judged for years 0 to 9999 and whole-minute offsets, the range RFC 3339 defines"],
        subs: vec![
            Sub { name: "values", drive: Drive::Random, quick: 7_000_000, thorough: 84_000_000, tape: 120, f: values },
            Sub { name: "ratios", drive: Drive::Random, quick: 5_800_000, thorough: 69_600_000, tape: 40, f: ratios },
            Sub { name: "files", drive: Drive::Random, quick: 350_000, thorough: 4_200_000, tape: 300, f: files },
            Sub { name: "letters", drive: Drive::Enum, quick: 0x11_0000, thorough: 0x11_0000, tape: 1, f: letters },
            Sub { name: "far", drive: Drive::Random, quick: 580_000, thorough: 6_960_000, tape: 6, f: far },
        ],
    }
}
