//! Coordinate conversions: decimal degrees and ISO 6709.
use crate::ensure;
use crate::norm::*;
use crate::runner::*;
use crate::tape::*;
use nom_exif::*;

pub type Pos = (f64, f64, Option<f64>);

/// Reference reader of ISO 6709 Annex H strings (independent of the library).
/// Altitude counts only with a CRS identifier, as the library documents by test.
pub fn iso_decimal(s: &str) -> Option<Pos> {
    let b = s.as_bytes();
    let mut p = 0;
    let mut coord = |deg_digits: usize, pos: &[u8], neg: &[u8]| -> Option<f64> {
        let sg = *b.get(p)?;
        let sign = if pos.contains(&sg) { 1.0 } else if neg.contains(&sg) { -1.0 } else { return None };
        p += 1;
        let st = p;
        while p < b.len() && b[p].is_ascii_digit() {
            p += 1;
        }
        let int = &s[st..p];
        let mut frac = String::from("0.");
        if b.get(p) == Some(&b'.') {
            p += 1;
            let f = p;
            while p < b.len() && b[p].is_ascii_digit() {
                p += 1;
            }
            frac.push_str(&s[f..p]);
        }
        let f: f64 = format!("{frac}0").parse().ok()?;
        if int.len() < deg_digits || (int.len() - deg_digits) % 2 == 1 {
            return None;
        }
        let d: f64 = int[..deg_digits].parse().ok()?;
        let rest = &int[deg_digits..];
        let v = match rest.len() {
            0 => d + f,
            2 => d + (rest.parse::<f64>().ok()? + f) / 60.0,
            4 => d + rest[..2].parse::<f64>().ok()? / 60.0 + (rest[2..].parse::<f64>().ok()? + f) / 3600.0,
            _ => return None,
        };
        Some(sign * v)
    };
    let lat = coord(2, b"+N", b"-S")?;
    let lon = coord(3, b"+E", b"-W")?;
    if lat.abs() > 90.0 || lon.abs() > 180.0 {
        return None;
    }
    let rest = &s[p..];
    let alt = rest.find("CRS").and_then(|k| rest[..k].parse::<f64>().ok());
    Some((lat, lon, alt))
}

/// Decimal position of a canonical GPS rendering (`norm::canon_gps`).
pub fn canon_decimal(c: &str) -> Option<Pos> {
    let rat = |s: &str| -> Option<f64> {
        let (a, b) = s.split_once('/')?;
        Some(a.parse::<f64>().ok()? / b.parse::<f64>().ok()?)
    };
    let dms = |s: &str| -> Option<f64> {
        let v: Vec<f64> = s.split(' ').map(rat).collect::<Option<_>>()?;
        Some(v[0] + v[1] / 60.0 + v[2] / 3600.0)
    };
    let (lr, r) = c.split_once('(')?;
    let (lat, r) = r.split_once(") ")?;
    let (or, r) = r.split_once('(')?;
    let (lon, r) = r.split_once(") alt ")?;
    let (alt, _) = r.split_once(" speed")?;
    let alt = if alt == "?" { None } else { Some(rat(&alt[1..])? * if alt.starts_with('-') { -1.0 } else { 1.0 }) };
    Some((dms(lat)? * if lr == "S" { -1.0 } else { 1.0 }, dms(lon)? * if or == "W" { -1.0 } else { 1.0 }, alt))
}
/// Same position within the reader's stated rounding (hundredths of a second, millimetres).
pub fn close(a: &Pos, b: &Pos) -> bool {
    let d = 0.0051 / 3600.0;
    (a.0 - b.0).abs() <= d
        && (a.1 - b.1).abs() <= d
        && match (a.2, b.2) {
            (None, None) => true,
            (Some(x), Some(y)) => (x - y).abs() <= 0.001_001,
            _ => false,
        }
}

fn degrees(t: &mut Tape) -> f64 {
    let v = match t.below(7) {
        0 => t.below(181) as f64,
        1 => t.below(18_000_001) as f64 / 100_000.0,
        2 => (t.u64() as f64 / u64::MAX as f64) * 180.0,
        // just below and above whole degrees, minutes, seconds
        3 => t.below(180) as f64 + t.below(60) as f64 / 60.0 + [0.0, 1e-12, -1e-12, 1e-7, -1e-7][t.below(5)],
        4 => t.below(180) as f64 + t.below(60) as f64 / 60.0 + t.below(60) as f64 / 3600.0 + [0.0, 1e-13, -1e-13, 1.3e-6, -1.3e-6][t.below(5)],
        5 => *t.pick(&[0.0, 180.0, 90.0, 179.999_999_999, 89.999_999_99, 1e-300, 59.999_999_99 / 60.0, 0.999_999_999_9]),
        _ => t.below(1000) as f64 / 999.0 * 180.0,
    };
    let v = v.clamp(0.0, 180.0);
    if t.chance(1, 2) { -v } else { v }
}

fn decimal(t: &mut Tape, cx: &mut Cx) -> R {
    let d = degrees(t);
    cx.data("deg", &d.to_be_bytes());
    cx.nontrivial = d != 0.0;
    cx.sample(|| format!("{d:?} degrees"));
    let l = match LatLng::try_from_decimal_degrees(d) {
        Ok(l) => l,
        Err(e) => return fail("in-range rejected", format!("{d:?}: {e}")),
    };
    let Some(back) = l.to_decimal_degrees() else { return fail("no way back", format!("{d:?} -> {l:?} -> None")) };
    let tol = 0.005_001 / 3600.0;
    ensure!((back - d.abs()).abs() <= tol, "decimal round trip", "{d:?} -> {l:?} -> {back:?}");
    // degrees and minutes components are whole and in range; seconds below 60
    let (dd, mm, ss) = (l.degrees.to_f64(), l.minutes.to_f64(), l.seconds.to_f64());
    ensure!(
        dd.is_some_and(|x| x <= 180.0) && mm.is_some_and(|x| x < 60.0) && ss.is_some_and(|x| x < 60.0),
        "component range", "{d:?} -> {l:?}"
    );
    // a position built from it
    let south = d < 0.0;
    let g = GPSInfo {
        latitude: l,
        latitude_ref: if south { LatRef::South } else { LatRef::North },
        longitude: l,
        longitude_ref: if south { LonRef::West } else { LonRef::East },
        ..Default::default()
    };
    for (name, v) in [("latitude", g.latitude_decimal()), ("longitude", g.longitude_decimal())] {
        ensure!(v.is_some_and(|v| (v - d).abs() <= tol), "signed decimal", "{name} of {d:?}: {v:?}");
    }
    cx.checks += 4;
    Ok(())
}

fn reject(t: &mut Tape, cx: &mut Cx) -> R {
    let d = match t.below(6) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => 180.0 + t.below(1000) as f64 * 0.37 + 1e-9,
        3 => f64::from_bits(180.0f64.to_bits() + 1 + t.below(1 << 20) as u64),
        4 => f64::from_bits(t.u64()),
        _ => *t.pick(&[1e300, 4_294_967_296.0, 65_536.0, 360.0, 181.0]),
    };
    let d = if t.chance(1, 2) { -d } else { d };
    cx.data("deg", &d.to_be_bytes());
    let bad = !d.is_finite() || d.abs() > 180.0;
    cx.nontrivial = bad;
    cx.sample(|| format!("{d:?} degrees must be rejected: {bad}"));
    let r = LatLng::try_from_decimal_degrees(d);
    if bad {
        ensure!(matches!(r, Err(ConvertError::InvalidDecimalDegrees(_))), "out of range accepted", "{d:?} -> {r:?}");
    } else {
        ensure!(r.is_ok(), "in-range rejected", "{d:?} -> {r:?}");
    }
    Ok(())
}

pub fn gen_iso(t: &mut Tape) -> String {
    let mut s = String::new();
    let one = |t: &mut Tape, w: usize, max: usize, pos: &str, neg: &str| -> String {
        let sg = if t.chance(1, 2) { neg } else { pos };
        let sg = &sg[if t.chance(1, 4) { 1..2 } else { 0..1 }];
        let d = t.below(max);
        let frac = |t: &mut Tape| {
            let n = t.below(9);
            if n == 0 {
                String::new()
            } else {
                let mut f = String::from(".");
                for b in t.fill(n) {
                    f.push((b'0' + b % 10) as char);
                }
                f
            }
        };
        let edge = t.chance(1, 12);
        if edge {
            return format!("{sg}{max:0w$}.0");
        }
        match t.below(3) {
            0 => format!("{sg}{d:0w$}{}", frac(t)),
            1 => {
                let m = t.below(60);
                format!("{sg}{d:0w$}{m:02}{}", frac(t))
            }
            _ => {
                let (m, x) = (t.below(60), t.below(60));
                format!("{sg}{d:0w$}{m:02}{x:02}{}", frac(t))
            }
        }
    };
    s.push_str(&one(t, 2, 90, "+N", "-S"));
    s.push_str(&one(t, 3, 180, "+E", "-W"));
    match t.below(4) {
        0 | 1 => {}
        2 => {
            let a = t.below(9_000_000);
            let sg = if t.chance(1, 3) { '-' } else { '+' };
            let v = match t.below(3) {
                0 => format!("{}", a / 1000),
                1 => format!("{}.{:03}", a / 1000, a % 1000),
                _ => format!("{}.{}", a / 1000, a % 10),
            };
            s.push_str(&format!("{sg}{v}CRSWGS_84"));
        }
        _ => {
            let a = t.below(9000);
            s.push_str(&format!("+{a}CRSepsg4326"));
        }
    }
    s.push('/');
    s
}

fn iso(t: &mut Tape, cx: &mut Cx) -> R {
    let s = gen_iso(t);
    cx.data("iso", s.as_bytes());
    cx.nontrivial = true;
    cx.sample(|| s.clone());
    let Some(e) = iso_decimal(&s) else { return Ok(()) };
    cx.label_if(e.2.is_some(), "altitude");
    let g: GPSInfo = match s.parse() {
        Ok(g) => g,
        Err(x) => return fail("iso rejected", format!("{s}: {x}")),
    };
    let got = canon_decimal(&canon_gps(&g));
    ensure!(got.is_some_and(|x| close(&x, &e)), "iso value", "{s} denotes {e:?}, parsed as {}", canon_gps(&g));
    let neg = |x: f64| x < -1e-12;
    ensure!(
        (g.latitude_ref == LatRef::South) == neg(e.0) || e.0.abs() < 1e-9,
        "iso hemisphere", "{s}: {:?}", g.latitude_ref
    );
    ensure!((g.longitude_ref == LonRef::West) == neg(e.1) || e.1.abs() < 1e-9, "iso hemisphere", "{s}: {:?}", g.longitude_ref);
    // rendering and reading back
    let r1 = g.to_iso6709();
    let g1: GPSInfo = match r1.parse() {
        Ok(g) => g,
        Err(x) => return fail("own rendering rejected", format!("{s} -> {r1}: {x}")),
    };
    let r2 = g1.to_iso6709();
    // the sign of a zero carries no position
    let z = |r: &str| r.replacen("-00.00000", "+00.00000", 1).replacen("-000.00000", "+000.00000", 1);
    ensure!(z(&r1) == z(&r2), "rendering not stable", "{s} -> {r1} -> {r2}");
    let (a, b) = (canon_decimal(&canon_gps(&g)).unwrap(), canon_decimal(&canon_gps(&g1)).unwrap());
    // five decimals in the rendering
    ensure!((a.0 - b.0).abs() < 8e-6 && (a.1 - b.1).abs() < 8e-6, "rendering moves the position", "{s} -> {r1}: {a:?} vs {b:?}");
    let (x, y) = (a.2.unwrap_or(0.0), b.2.unwrap_or(0.0));
    ensure!((x - y).abs() < 0.000_6, "rendering moves the altitude", "{s} -> {r1}: {x} vs {y}");
    cx.checks += 5;
    Ok(())
}

/// Positions as EXIF encodes them: arbitrary rationals.
fn render(t: &mut Tape, cx: &mut Cx) -> R {
    let rat = |t: &mut Tape, max: usize| -> URational {
        let den = *t.pick(&[1u32, 100, 1000, 10_000, 1_000_000, 3, 7, 60]);
        let num = t.below(max * den as usize) as u32;
        URational::new(num, den)
    };
    let g = GPSInfo {
        latitude_ref: if t.chance(1, 2) { LatRef::South } else { LatRef::North },
        latitude: LatLng::new(URational::new(t.below(90) as u32, 1), rat(t, 60), rat(t, 60)),
        longitude_ref: if t.chance(1, 2) { LonRef::West } else { LonRef::East },
        longitude: LatLng::new(URational::new(t.below(180) as u32, 1), rat(t, 60), rat(t, 60)),
        altitude: match t.below(3) {
            0 => Altitude::Unknown,
            1 => Altitude::AboveSeaLevel(rat(t, 4000)),
            _ => Altitude::BelowSeaLevel(rat(t, 4000)),
        },
        speed: None,
    };
    let val = |l: &LatLng| {
        let f = |r: URational| r.numerator() as f64 / r.denominator() as f64;
        f(l.degrees) + f(l.minutes) / 60.0 + f(l.seconds) / 3600.0
    };
    let (la, lo) = (val(&g.latitude), val(&g.longitude));
    cx.data("gps", canon_gps(&g).as_bytes());
    if la > 89.9999 || lo > 179.9999 {
        return Ok(());
    }
    cx.nontrivial = true;
    let s = g.to_iso6709();
    cx.sample(|| format!("{} renders as {s}", canon_gps(&g)));
    let Some(e) = iso_decimal(&s) else { return fail("malformed rendering", format!("{} -> {s}", canon_gps(&g))) };
    let (sa, so) = (g.latitude_ref == LatRef::South, g.longitude_ref == LonRef::West);
    let (wa, wo) = (if sa { -la } else { la }, if so { -lo } else { lo });
    ensure!((e.0 - wa).abs() < 5.1e-6 && (e.1 - wo).abs() < 5.1e-6, "rendered position", "{} -> {s} denotes {e:?}", canon_gps(&g));
    for (r, w) in [(g.latitude_decimal(), wa), (g.longitude_decimal(), wo)] {
        ensure!(r.is_some_and(|r| (r - w).abs() < 1e-9), "decimal", "{}: {r:?} should be {w}", canon_gps(&g));
    }
    let alt = match g.altitude {
        Altitude::AboveSeaLevel(r) => Some(r.numerator() as f64 / r.denominator() as f64),
        Altitude::BelowSeaLevel(r) => Some(-(r.numerator() as f64 / r.denominator() as f64)),
        _ => None,
    };
    ensure!(
        match (g.altitude_meters(), alt) { (Some(a), Some(b)) => (a - b).abs() < 1e-9, (None, None) => true, _ => false },
        "altitude metres", "{}: {:?}", canon_gps(&g), g.altitude_meters()
    );
    match (alt, e.2) {
        (Some(a), Some(b)) => ensure!((a - b).abs() < 5.1e-4, "rendered altitude", "{} -> {s}", canon_gps(&g)),
        // zero is rendered as absent
        (Some(a), None) => ensure!(a == 0.0, "rendered altitude", "{} -> {s}", canon_gps(&g)),
        (None, Some(_)) => return fail("rendered altitude", format!("{} -> {s}", canon_gps(&g))),
        (None, None) => {}
    }
    cx.checks += 5;
    Ok(())
}

fn junk(t: &mut Tape, cx: &mut Cx) -> R {
    let mut s: Vec<char> = if t.chance(3, 4) { gen_iso(t).chars().collect() } else { vec![] };
    const C: [char; 24] = ['+', '-', '0', '9', '.', '/', 'N', 'S', 'E', 'W', '°', '′', '″', '\'', '"', ' ', 'C', 'R', 'é', '\0', 'm', '\u{feff}', '１', '8'];
    for _ in 0..t.range(1, 12) {
        let at = t.below(s.len() + 1);
        match t.below(3) {
            0 => s.insert(at, *t.pick(&C)),
            1 if at < s.len() => {
                s.remove(at);
            }
            _ if at < s.len() => s[at] = *t.pick(&C),
            _ => s.push(*t.pick(&C)),
        }
    }
    let s: String = s.into_iter().collect();
    cx.data("iso", s.as_bytes());
    cx.nontrivial = true;
    cx.sample(|| format!("{s:?}"));
    if let Ok(g) = s.parse::<GPSInfo>() {
        cx.label("accepted");
        let r = g.to_iso6709();
        let p = canon_decimal(&canon_gps(&g)).unwrap();
        ensure!(p.0.abs() <= 90.0 + 1e-9 && p.1.abs() <= 180.0 + 1e-9, "out of range accepted", "{s:?} -> {r}");
        ensure!(r.parse::<GPSInfo>().is_ok(), "own rendering rejected", "{s:?} -> {r}");
    } else {
        cx.label("rejected");
        // a string without any digit or sign denotes no position
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a coordinate, rational position or string whose conversion was compared with independently computed degrees; distinct by value",
        level: "exploration",
        assumptions: &[
            "an altitude without a CRS identifier is ignored, as the library's own test requires",
            "a zero altitude is rendered as absent, as the library's own test requires",
        ],
        subs: vec![
            Sub { name: "decimal", drive: Drive::Random, quick: 11_000_000, thorough: 132_000_000, tape: 6, f: decimal },
            Sub { name: "reject", drive: Drive::Random, quick: 2_300_000, thorough: 27_600_000, tape: 6, f: reject },
            Sub { name: "iso", drive: Drive::Random, quick: 6_100_000, thorough: 73_200_000, tape: 24, f: iso },
            Sub { name: "render", drive: Drive::Random, quick: 6_100_000, thorough: 73_200_000, tape: 20, f: render },
            Sub { name: "junk", drive: Drive::Guided, quick: 2_300_000, thorough: 27_600_000, tape: 50, f: junk },
        ],
    }
}
