//! The command-line tool prints what the library reports.
use super::common::*;
use crate::ensure;
use crate::runner::*;
use crate::sources::*;
use crate::tape::*;
use nom_exif::*;
use serde_json::{Map, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Debug)]
struct Opt {
    json: Option<&'static str>,
    no_track: bool,
    no_format: bool,
    with_thumbnail: bool,
    full: bool,
    debug: bool,
}
impl Opt {
    fn gen(t: &mut Tape) -> Opt {
        Opt {
            json: if t.chance(1, 2) { Some(*t.pick(&["-j", "--json"])) } else { None },
            no_track: t.chance(1, 4),
            no_format: t.chance(1, 4),
            with_thumbnail: t.chance(1, 3),
            full: t.chance(1, 3),
            debug: t.chance(1, 40),
        }
    }
    fn args(&self) -> Vec<&'static str> {
        let mut a = vec![];
        a.extend(self.json);
        for (on, s) in [
            (self.no_track, "--no-track"), (self.no_format, "--no-format"), (self.with_thumbnail, "--with-thumbnail"),
            (self.full, "--full"), (self.debug, "--debug"),
        ] {
            if on {
                a.push(s);
            }
        }
        a
    }
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}
fn tool(dir: &Path, args: &[&str], target: &Path, first: bool) -> Ran {
    let exe = std::env::var("VH_CLI").unwrap_or_default();
    let mut c = Command::new(&exe);
    if first {
        c.arg(target).args(args);
    } else {
        c.args(args).arg(target);
    }
    let o = c.current_dir(dir).stdin(Stdio::null()).env_remove("RUST_LOG").output();
    let o = match o {
        Ok(o) => o,
        Err(e) => {
            eprintln!("error: cannot run the tool ({exe:?}): {e}");
            std::process::exit(2);
        }
    };
    Ran { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// What the library has to say of a file.
#[derive(Debug, Default)]
struct Lib {
    /// None: it fails
    entries: Option<Vec<(usize, String, EntryValue)>>,
    embedded: Option<Vec<(String, EntryValue)>>,
    text: Vec<(String, String)>,
    failed: Option<String>,
}
fn track_pairs(i: &TrackInfo) -> Vec<(String, EntryValue)> {
    i.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()
}
fn exif_pairs(i: ExifIter) -> Vec<(usize, String, EntryValue)> {
    i.filter_map(|e| {
        let name = match e.tag() {
            TagOrCode::Tag(t) => t.name().to_string(),
            TagOrCode::Unknown(c) => format!("Unknown(0x{c:04x})"),
        };
        let ifd = e.ifd().as_usize();
        e.into_result().ok().map(|v| (ifd, name, v))
    })
    .collect()
}
fn library(path: &Path) -> Lib {
    let mut l = Lib::default();
    let mut p = MediaParser::new();
    let ms = match MediaSource::open(path) {
        Ok(ms) => ms,
        Err(e) => {
            l.failed = Some(e.to_string());
            return l;
        }
    };
    match ms.kind() {
        MediaKind::Track => match p.parse_track(ms) {
            Ok(i) => l.entries = Some(track_pairs(&i).into_iter().map(|(k, v)| (0, k, v)).collect()),
            Err(e) => l.failed = Some(e.to_string()),
        },
        MediaKind::Image => match p.parse_image_metadata(ms) {
            Ok(m) => {
                let mut embedded = false;
                l.entries = Some(match m.exif {
                    Some(i) => {
                        embedded = i.has_embedded_track();
                        exif_pairs(i)
                    }
                    None => vec![],
                });
                if let Some(ImageFormatMetadata::Png(t)) = &m.format {
                    l.text = t.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                }
                if embedded {
                    l.embedded = MediaSource::open(path).and_then(|ms| p.parse_track(ms)).ok().map(|i| track_pairs(&i));
                }
            }
            // an image that simply holds none
            Err(Error::ExifNotFound) => l.entries = Some(vec![]),
            Err(e) => l.failed = Some(e.to_string()),
        },
    }
    l
}

fn jv<T: serde::Serialize + ?Sized>(v: &T) -> Option<Value> {
    serde_json::from_str(&serde_json::to_value(v).ok()?.to_string()).ok()
}
fn expect_json(l: &Lib, o: &Opt) -> Value {
    let mut root = Map::new();
    let mut sub: Vec<(String, Map<String, Value>)> = vec![];
    for (ifd, k, v) in l.entries.iter().flatten() {
        let Some(v) = jv(v) else { continue };
        if *ifd == 0 {
            root.insert(k.clone(), v);
            continue;
        }
        let n = if *ifd == 1 { "_thumbnail".to_string() } else { format!("_ifd{ifd}") };
        let i = match sub.iter().position(|(k, _)| *k == n) {
            Some(i) => i,
            None => {
                sub.push((n, Map::new()));
                sub.len() - 1
            }
        };
        sub[i].1.insert(k.clone(), v);
    }
    for (k, m) in sub {
        root.insert(k, Value::Object(m));
    }
    if let (Some(e), false) = (&l.embedded, o.no_track) {
        let m: Map<String, Value> = e.iter().filter_map(|(k, v)| Some((k.clone(), jv(v)?))).collect();
        root.insert("_embedded_track".into(), Value::Object(m));
    }
    if !l.text.is_empty() && !o.no_format {
        let mut m = Map::new();
        for (k, _) in &l.text {
            if m.contains_key(k) {
                continue;
            }
            let mut all: Vec<Value> = l.text.iter().filter(|(a, _)| a == k).map(|(_, v)| Value::String(v.clone())).collect();
            let v = if all.len() == 1 { all.remove(0) } else { Value::Array(all) };
            m.insert(k.clone(), v);
        }
        root.insert("_format".into(), Value::Object(m));
    }
    Value::Object(root)
}
fn sorted(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            Value::Object(k.into_iter().map(|(k, v)| (k.clone(), sorted(v))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(sorted).collect()),
        v => v.clone(),
    }
}

/// One line of plain output expected.
#[derive(Debug)]
enum Line {
    Title(&'static str),
    /// key (None: the value goes on), the text, whole or its head with what is cut off
    Item(Option<String>, String, Option<usize>),
    /// a cut value: so many lines more
    More(usize),
}
fn lines_of(k: &str, v: &str, full: bool, out: &mut Vec<Line>) {
    if v.is_empty() {
        out.push(Line::Item(Some(k.into()), "(empty)".into(), None));
        return;
    }
    let all: Vec<&str> = v.split('\n').collect();
    for (i, l) in all.iter().enumerate() {
        if !full && i == 10 {
            out.push(Line::More(all.len() - 10));
            return;
        }
        let n = l.chars().count();
        let (head, cut) = if !full && n > 200 { (l.chars().take(200).collect(), Some(n - 200)) } else { (l.to_string(), None) };
        out.push(Line::Item(if i == 0 { Some(k.into()) } else { None }, head, cut));
    }
}
fn expect_plain(l: &Lib, o: &Opt) -> Vec<Line> {
    let mut out = vec![];
    let entries: Vec<_> = l.entries.iter().flatten().filter(|e| o.with_thumbnail || e.0 != 1).collect();
    let embedded = if o.no_track { None } else { l.embedded.as_ref() };
    let text = if o.no_format || l.text.is_empty() { None } else { Some(&l.text) };
    if !entries.is_empty() && (embedded.is_some() || text.is_some()) {
        out.push(Line::Title("EXIF"));
    }
    for (_, k, v) in entries {
        lines_of(k, &v.to_string(), o.full, &mut out);
    }
    if let Some(e) = embedded {
        out.push(Line::Title("Embedded Track"));
        for (k, v) in e {
            lines_of(k, &v.to_string(), o.full, &mut out);
        }
    }
    if let Some(e) = text {
        out.push(Line::Title("Format Metadata"));
        for (k, v) in e {
            lines_of(k, v, o.full, &mut out);
        }
    }
    out
}
fn fits(e: &Line, got: &str) -> bool {
    match e {
        Line::Title(t) => got.starts_with('-') && got.contains(t),
        Line::More(n) => got.trim_start().starts_with('…') && got.contains(&format!("+{n} more")),
        Line::Item(k, text, cut) => {
            // key, padding, ": ", text; padding alone where the value goes on
            let rest = match k {
                Some(k) => match got.strip_prefix(k.as_str()).map(|r| r.trim_start_matches(' ')).and_then(|r| r.strip_prefix(": ")) {
                    Some(r) => r,
                    None => return false,
                },
                None => {
                    let i = got.len() - got.trim_start_matches(' ').len();
                    // the text may begin with spaces of its own
                    let lead = text.len() - text.trim_start_matches(' ').len();
                    if text.trim_start_matches(' ').is_empty() && cut.is_none() {
                        return got.chars().all(|c| c == ' ') && got.len() >= text.len();
                    }
                    match i.checked_sub(lead) {
                        Some(p) => &got[p..],
                        None => return false,
                    }
                }
            };
            match (rest.strip_prefix(text.as_str()), cut) {
                (Some(""), None) => true,
                (Some(r), Some(n)) => r.starts_with('…') && r.contains(&format!("+{n} char")),
                _ => false,
            }
        }
    }
}

/// The tool's account of one file.
fn judge(what: &str, l: &Lib, o: &Opt, out: &str) -> R {
    if o.debug {
        // the log goes to standard output as well
        return Ok(());
    }
    if l.failed.is_some() {
        ensure!(out.trim().is_empty(), "output for a failed file", "{what} {:?}: the library fails ({:?}), the tool prints {}", o.args(), l.failed, crate::clip(out, 400));
        return Ok(());
    }
    if o.json.is_some() {
        let v: Value = match serde_json::from_str(out) {
            Ok(v) => v,
            Err(e) => return fail("JSON not well formed", format!("{what} {:?}: {e}: {}", o.args(), crate::clip(out, 600))),
        };
        let e = expect_json(l, o);
        if v != e {
            let (v, e) = (sorted(&v), sorted(&e));
            let (v, e) = (serde_json::to_string(&v).unwrap(), serde_json::to_string(&e).unwrap());
            let i = v.bytes().zip(e.bytes()).take_while(|(a, b)| a == b).count();
            let near = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(80).min(s.len())..(i + 120).min(s.len())]).into_owned();
            return fail("JSON content", format!("{what} {:?}: the tool has ...{}..., the library ...{}...", o.args(), near(&v), near(&e)));
        }
        return Ok(());
    }
    let mut lines = out.split('\n').filter(|l| !l.is_empty());
    for e in expect_plain(l, o) {
        let got = lines.next().unwrap_or("");
        ensure!(fits(&e, got), "plain output", "{what} {:?}: expected {e:?}, the tool prints {:?}", o.args(), crate::clip(got, 500));
    }
    if let Some(x) = lines.next() {
        return fail("plain output", format!("{what} {:?}: the tool prints {:?} besides", o.args(), crate::clip(x, 300)));
    }
    Ok(())
}

fn content(t: &mut Tape) -> (String, Vec<u8>) {
    match t.below(12) {
        0 => {
            let n = t.size(10, 400);
            ("random bytes".into(), t.fill(n))
        }
        1 | 2 => ("motion".into(), super::c16::gen(t, true).bytes),
        3 => {
            let (n, b) = t.pick(seeds_full());
            (n.clone(), b.as_ref().clone())
        }
        4 => gen_input(t, true),
        5 => {
            let m = gen_media(t, false);
            let k = t.below(m.bytes.len() + 1);
            (format!("{}+cut", m.fmt), m.bytes[..k].to_vec())
        }
        6 | 7 => ("png".into(), text_png(t)),
        8 => {
            // several directories
            let o = crate::build::tiff::GenOpts { dates: true, chain: true, big: 400, max_ents: 12, ..Default::default() };
            ("tiff".into(), crate::build::tiff::gen_tiff(t, &o).encode().bytes)
        }
        _ => {
            let m = gen_media(t, true);
            (m.fmt.into(), m.bytes)
        }
    }
}
/// Keywords that recur, long and many-lined texts, with or without EXIF.
fn text_png(t: &mut Tape) -> Vec<u8> {
    use crate::build::png;
    let mut chunks = vec![png::chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0])];
    let mut names = vec![];
    for _ in 0..t.range(1, 6) {
        let k = if !names.is_empty() && t.chance(1, 3) {
            let n: &String = t.pick(&names);
            n.clone()
        } else {
            let n = t.range(1, 30) as usize;
            t.word(n)
        };
        names.push(k.clone());
        let mut v = vec![];
        for i in 0..[1, 1, 2, 9, 10, 11, 12, 30][t.below(8)] {
            if i > 0 {
                v.push(b'\n');
            }
            let n = [0, 1, 5, 20, 60, 199, 200, 201, 500][t.below(9)];
            let hi = t.chance(1, 3);
            for _ in 0..n {
                let c = t.range(0x20, 0x7e) as u8;
                v.push(if hi && t.chance(1, 4) { 0xa1 + t.below(0x5e) as u8 } else { c });
            }
        }
        chunks.push(png::text_chunk(k.as_bytes(), &v));
    }
    if t.chance(1, 2) {
        let x = small_tiff(t, 60);
        chunks.push(png::chunk(b"eXIf", &x));
    }
    chunks.push(png::chunk(b"IDAT", &[1, 2, 3]));
    chunks.push(png::chunk(b"IEND", &[]));
    png::Png { chunks, trailer: vec![] }.encode()
}
fn file_name(t: &mut Tape) -> String {
    match t.below(6) {
        0 => "with space.jpg".into(),
        1 => "ünï 写真.png".into(),
        2 => "-j".into(),
        3 => ".hidden".into(),
        4 => "noext".into(),
        _ => {
            let w = t.word(9);
            format!("{w}.bin")
        }
    }
}
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Dir {
    // a fresh name below the check's own scratch folder
    let f = TempFile::new(&[]);
    let d = f.0.with_extension("d");
    std::fs::create_dir_all(&d).unwrap();
    Dir(d)
}

fn single(t: &mut Tape, cx: &mut Cx) -> R {
    let (name, b) = content(t);
    let d = scratch();
    let p = d.0.join(file_name(t));
    std::fs::write(&p, &b).unwrap();
    let o = Opt::gen(t);
    let l = library(&p);
    cx.label(name.split('+').next().unwrap());
    cx.label(if o.json.is_some() { "json" } else { "plain" });
    cx.label(match &l.failed {
        Some(_) => "fails",
        None if l.entries.as_ref().is_some_and(|e| e.is_empty()) && l.text.is_empty() => "no metadata",
        None => "metadata",
    });
    cx.label_if(l.embedded.is_some(), "embedded track");
    cx.label_if(!l.text.is_empty(), "text");
    cx.label_if(l.entries.iter().flatten().any(|e| e.0 == 1), "thumbnail entries");
    cx.data("file", &b);
    cx.data("options", format!("{o:?}").as_bytes());
    cx.sample(|| format!("{name}, {} bytes, {:?}: {} entries, {} texts, failed {:?}", b.len(), o.args(), l.entries.iter().flatten().count(), l.text.len(), l.failed));
    cx.nontrivial = l.failed.is_none() && (l.entries.as_ref().is_some_and(|e| !e.is_empty()) || !l.text.is_empty());
    let first = t.chance(1, 2);
    let r = tool(&d.0, &o.args(), &p, first);
    let what = format!("{name} ({} bytes)", b.len());
    let want = if l.failed.is_some() { 1 } else { 0 };
    cx.checks += 2;
    ensure!(
        (r.code == Some(0)) == (want == 0) && r.code.is_some_and(|c| c < 100), "exit status",
        "{what} {:?}: exit status {:?}, the library {:?}; it says {}", o.args(), r.code, l.failed, crate::clip(&r.err, 300)
    );
    if l.failed.is_some() {
        ensure!(!r.err.trim().is_empty(), "failure not reported", "{what} {:?}: the library fails ({:?}), the tool says nothing", o.args(), l.failed);
    }
    if o.debug {
        ensure!(d.0.join("debug.log").exists(), "debug log", "{what}: no debug.log");
    }
    judge(&what, &l, &o, &r.out)
}

fn directory(t: &mut Tape, cx: &mut Cx) -> R {
    let d = scratch();
    let dir = d.0.join("pics");
    std::fs::create_dir(&dir).unwrap();
    let mut libs: Vec<(String, PathBuf, Lib)> = vec![];
    let mut failed = 0;
    for i in 0..t.below(5) {
        let (name, b) = content(t);
        let p = dir.join(format!("{i} {}", file_name(t)));
        std::fs::write(&p, &b).unwrap();
        cx.data("file", &b);
        let l = library(&p);
        failed += l.failed.is_some() as usize;
        libs.push((name, p, l));
    }
    // not looked into
    if t.chance(1, 2) {
        let s = dir.join("sub");
        std::fs::create_dir(&s).unwrap();
        let m = gen_media(t, false);
        std::fs::write(s.join("inner.jpg"), m.bytes).unwrap();
    }
    let mut o = Opt::gen(t);
    o.debug = false;
    cx.label(format!("{} files", libs.len()));
    cx.label_if(failed > 0 && failed < libs.len(), "some fail");
    cx.data("options", format!("{o:?}").as_bytes());
    cx.nontrivial = libs.len() > 1 && failed < libs.len();
    cx.sample(|| format!("{:?} {:?}", o.args(), libs.iter().map(|(n, _, l)| (n.as_str(), l.failed.is_some())).collect::<Vec<_>>()));
    let r = tool(&d.0, &o.args(), &dir, t.chance(1, 2));
    cx.checks += 1 + libs.len() as u64;
    ensure!(r.code == Some(0), "exit status of a directory", "{:?}: {:?}, {}", o.args(), r.code, crate::clip(&r.err, 300));
    let said = r.err.split('\n').filter(|l| !l.trim().is_empty()).count();
    ensure!(said >= failed, "failure not reported", "{failed} files fail, the tool says {}", crate::clip(&r.err, 400));
    let mut parts: std::collections::HashMap<String, String> = Default::default();
    let mut cur: Option<String> = None;
    let mut rule = false;
    for l in r.out.split('\n') {
        if let Some(p) = l.strip_prefix("File: ") {
            ensure!(parts.insert(p.into(), String::new()).is_none(), "directory listing", "{p} appears twice");
            cur = Some(p.into());
            rule = true;
            continue;
        }
        if rule && l.starts_with("---") {
            rule = false;
            continue;
        }
        rule = false;
        match &cur {
            Some(c) => {
                let s = parts.get_mut(c).unwrap();
                s.push_str(l);
                s.push('\n');
            }
            None => ensure!(l.is_empty(), "directory listing", "{l:?} before the first file"),
        }
    }
    ensure!(parts.len() == libs.len(), "directory listing", "{} files, the tool lists {:?}", libs.len(), parts.keys());
    for (name, p, l) in &libs {
        let Some(out) = parts.get(&p.display().to_string()) else {
            return fail("directory listing", format!("{} is missing from {:?}", p.display(), parts.keys()));
        };
        judge(&format!("{name} in a directory"), l, &o, out)?;
    }
    Ok(())
}

fn nothing(t: &mut Tape, cx: &mut Cx) -> R {
    let i = t.u32() as usize;
    let o = [None, Some("-j")][i % 2];
    let d = scratch();
    let name = ["missing.jpg", "missing/dir/x.heic", "empty.jpg"][i / 2 % 3];
    let p = d.0.join(name);
    if name == "empty.jpg" {
        std::fs::write(&p, b"").unwrap();
    }
    cx.data("case", format!("{name} {o:?}").as_bytes());
    cx.sample(|| format!("{name} {o:?}"));
    cx.nontrivial = true;
    cx.checks += 1;
    let a: Vec<&str> = o.into_iter().collect();
    let r = tool(&d.0, &a, &p, false);
    ensure!(r.code.is_some_and(|c| c != 0 && c < 100), "exit status", "{name} {a:?}: {:?}", r.code);
    ensure!(!r.err.trim().is_empty(), "failure not reported", "{name} {a:?}: the tool says nothing");
    ensure!(r.out.trim().is_empty(), "output for a failed file", "{name} {a:?}: {}", crate::clip(&r.out, 300));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "the library reports metadata for the file (for several files of the directory)",
        level: "exploration",
        assumptions: &[
            "the exit status of a directory is that of reading the directory",
            "an image that holds no metadata at all is not a failure",
            "with --debug only the exit status is judged: the log goes to standard output too",
        ],
        subs: vec![
            Sub { name: "single", drive: Drive::Random, quick: 80_000, thorough: 1_000_000, tape: 700, f: single },
            Sub { name: "directory", drive: Drive::Random, quick: 24_000, thorough: 300_000, tape: 2000, f: directory },
            Sub { name: "nothing", drive: Drive::Enum, quick: 6, thorough: 6, tape: 4, f: nothing },
        ],
    }
}
