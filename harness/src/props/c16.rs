//! Motion photos: JPEG + XMP declaration + appended video.
use super::c13;
use super::common::*;
use crate::build::*;
use crate::ensure;
use crate::modes::*;
use crate::runner::*;
use crate::tape::*;
use std::sync::Arc;

pub struct Motion {
    pub bytes: Vec<u8>,
    pub declared: bool,
    pub mp4: c13::Mp4,
    pub what: String,
    pub has_exif: bool,
    pub trailer_ok: bool,
    pub trailer_len: usize,
}

pub fn gen(t: &mut Tape, big: bool) -> Motion {
    gen_kind(t, big, None)
}

/// `force`: Some(true) = declared, Some(false) = not declared.
pub fn gen_kind(t: &mut Tape, big: bool, force: Option<bool>) -> Motion {
    let mp4 = c13::gen(t, false);
    let mut trailer = vec![];
    let style = t.below(4);
    let mut declared = force.unwrap_or_else(|| !t.chance(1, 4));
    let tail_pad = 0usize;
    let pre_items = t.below(3);
    let mut what;
    // items before the video (primary image, gain map), items after it
    let mut items = vec![("image/jpeg".to_string(), "Primary".to_string(), 0usize, 0usize)];
    let mut gain: Vec<u8> = vec![];
    let mut pads = 0;
    let after: Vec<u8>;
    match style {
        0 | 1 => {
            for k in 0..pre_items {
                let n = t.size(40, 2000);
                gain.extend(t.fill(n));
                items.push(("image/jpeg".into(), format!("GainMap{k}"), n, 0));
            }
            for k in 0..t.crowd().min(200) {
                let n = k % 50;
                gain.extend(vec![0x33; n]);
                items.push(("image/jpeg".into(), format!("Depth{k}"), n, 0));
            }
            let pad = if t.chance(1, 3) { t.size(16, 200) } else { 0 };
            let sem = if t.chance(4, 5) { "MotionPhoto" } else { "EmbeddedVideo" };
            let mime = if sem == "MotionPhoto" && t.chance(1, 5) { "video/quicktime" } else { "video/mp4" };
            let extra = if t.chance(1, 4) { t.size(60, 1000) } else { 0 };
            let has_after = extra > 0;
            items.push((mime.into(), sem.into(), mp4.bytes.len(), pad));
            let again = t.chance(1, 5);
            if again {
                // another video behind it, a preview or a second take
                let other = c13::gen(t, false).bytes;
                let sem = *t.pick(&["MotionPhoto", "Preview", "Video"]);
                items.push(("video/mp4".into(), sem.into(), other.len(), 0));
                after = other;
                pads = pad;
            } else {
                after = t.fill(extra);
            }
            if has_after && !again {
                items.push(("application/octet-stream".into(), "Extra".into(), extra, if t.chance(1, 3) { 80 } else { 0 }));
                pads = pad;
            }
            what = format!("container directory, {} items, padding {pad}", items.len());
        }
        2 => {
            after = vec![];
            what = "MotionPhotoOffset".into();
        }
        _ => {
            after = vec![];
            what = "MicroVideoOffset".into();
        }
    }
    trailer.extend(&gain);
    trailer.extend(&mp4.bytes);
    trailer.extend(vec![0u8; pads + tail_pad]);
    trailer.extend(&after);
    let off = mp4.bytes.len();
    let micro = style == 3;
    let flag = if micro { "MicroVideo" } else { "MotionPhoto" };
    let gate = if declared {
        "1"
    } else {
        // not declared: flag 0, or flag missing, or no XMP at all
        *t.pick(&["0", "", "none"])
    };
    let mut attrs = String::new();
    if gate == "1" || gate == "0" {
        attrs.push_str(&format!(" GCamera:{flag}=\"{gate}\""));
    }
    attrs.push_str(&format!(" GCamera:{flag}Version=\"1\" GCamera:{flag}PresentationTimestampUs=\"12345\""));
    let mut body = String::new();
    match style {
        0 | 1 => {
            body.push_str("<Container:Directory><rdf:Seq>");
            for (m, s, l, p) in &items {
                // attribute order is free in XML
                let mut at = vec![format!("Item:Mime=\"{m}\""), format!("Item:Semantic=\"{s}\"")];
                if *l > 0 || s != "Primary" {
                    at.push(format!("Item:Length=\"{l}\""));
                }
                if *p > 0 || t.chance(1, 3) {
                    at.push(format!("Item:Padding=\"{p}\""));
                }
                if t.chance(1, 3) {
                    t.shuffle(&mut at);
                }
                body.push_str(&format!("<rdf:li rdf:parseType=\"Resource\"><Container:Item {}/></rdf:li>", at.join(" ")));
            }
            body.push_str("</rdf:Seq></Container:Directory>");
            // older attributes beside the directory, which comes first
            if t.chance(1, 5) {
                let name = *t.pick(&["MotionPhotoOffset", "MicroVideoOffset"]);
                let stale = if t.chance(1, 2) { off } else { t.below(off + 50) };
                attrs.push_str(&format!(" GCamera:{name}=\"{stale}\""));
            }
        }
        2 => {
            attrs.push_str(&format!(" GCamera:MotionPhotoOffset=\"{off}\""));
            if t.chance(1, 4) {
                // the older attribute counts where the newer one is missing only
                let stale = if t.chance(1, 2) { off } else { t.below(off + 50) };
                attrs.push_str(&format!(" GCamera:MicroVideoOffset=\"{stale}\""));
            }
        }
        _ => attrs.push_str(&format!(" GCamera:MicroVideoOffset=\"{off}\"")),
    }
    let xml = format!(
        "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description rdf:about=\"\"{attrs}>{body}</rdf:Description></rdf:RDF></x:xmpmeta>"
    );
    // the JPEG
    let x = small_tiff(t, 200);
    let has_exif = !t.chance(1, 8);
    let mut j = jpeg::gen_jpeg(t, has_exif.then_some(&x[..]), big);
    // where the XMP lies
    let at = t.below(j.segs.len() + 1);
    if gate != "none" {
        let lead = match () {
            _ if big && t.chance(1, 12) => t.range(4, 14),
            _ if big && t.chance(1, 3) => t.range(1, 3),
            _ => 0,
        };
        j.segs.insert(at, jpeg::xmp_seg(xml.as_bytes()));
        for _ in 0..lead {
            let n = t.range(20_000, 65_000);
            let d = t.fill(n);
            j.segs.insert(at, jpeg::seg(0xE2, &d));
        }
        what = format!("{what}, XMP segment {at}+{lead} of {}", j.segs.len());
    } else {
        declared = false;
    }
    let trailer_len = trailer.len();
    j.trailer = trailer;
    Motion { trailer_len, bytes: j.encode(), declared, what, has_exif, trailer_ok: true, mp4 }
}

fn model(t: &mut Tape, cx: &mut Cx) -> R {
    let big = t.chance(1, 3);
    let m = gen(t, big);
    cx.data("jpg", &m.bytes);
    cx.label_if(m.declared, "declared");
    cx.nontrivial = m.declared;
    cx.sample(|| format!("{} bytes, {}, declared {}, video {:?}", m.bytes.len(), m.what, m.declared, m.mp4.expect));
    let a = Arc::new(m.bytes.clone());
    let mut s = gen_sched(t);
    cap_sched(&mut s, m.bytes.len());
    let o = [Mode::Seek, Mode::Unseek, Mode::Mem, Mode::AMem, Mode::ASeek, Mode::AUnseek];
    let k = t.below(o.len());
    for mode in [o[k], o[(k + 1 + t.below(5)) % 6]] {
        let r = run_sched(Op::Track, mode, &a, &s);
        if m.declared {
            // the video's own kind is Track, the photo's is Image
            let r2 = Res { kind: r.kind.map(|_| "Track"), out: r.out.clone() };
            ensure!(r.kind == Some("Image"), "kind", "{mode:?}: kind {:?}", r.kind);
            c13::check(&m.mp4, &r2, &format!("motion photo ({}) via {mode:?}", m.what)).map_err(|f| Fail { sig: format!("motion {}", f.sig), msg: f.msg })?;
        } else {
            ensure!(r.out.as_ref().err().map(|e| e.as_str()) == Some("TrackNotFound"), "undeclared track", "{mode:?}: undeclared trailer ({}) gives {}", m.what, r.brief());
        }
        let r = run_sched(Op::Exif, mode, &a, &s);
        if m.has_exif {
            let Some(e) = r.exif() else { return fail("exif fails", format!("{mode:?}: {}", r.brief())) };
            ensure!(e.embedded == m.declared, "embedded flag", "{mode:?}: declared {} but has_embedded_track = {} ({})", m.declared, e.embedded, m.what);
        }
        cx.checks += 2;
    }
    Ok(())
}

/// Declarations that must not be believed: lengths that do not point at a video.
fn unusable(t: &mut Tape, cx: &mut Cx) -> R {
    let mut m = gen_kind(t, false, Some(true));
    // damage the trailer start so that no video lies there, or cut the file
    let how = t.below(3);
    let n = m.bytes.len();
    let vlen = m.mp4.bytes.len();
    match how {
        0 => {
            // no trailer at all: the length reaches outside the file or into the image
            m.bytes.truncate(n - vlen.min(n));
            if m.bytes.len() < 200 {
                m.bytes.resize(200, 0);
            }
        }
        1 => {
            if let Some(p) = find(&m.bytes, &m.mp4.bytes[..16.min(vlen)]) {
                m.bytes[p..p + 12].fill(0x55);
            }
        }
        _ => {
            // trailer replaced by a still image of the same length
            if let Some(p) = find(&m.bytes, &m.mp4.bytes[..16.min(vlen)]) {
                let mut x = vec![0xFF, 0xD8, 0xFF, 0xE0];
                x.resize(vlen, 0);
                m.bytes[p..p + vlen].copy_from_slice(&x);
            }
        }
    }
    cx.data("jpg", &m.bytes);
    cx.nontrivial = true;
    cx.sample(|| format!("{} bytes, {}, damage {how}", m.bytes.len(), m.what));
    let a = Arc::new(m.bytes.clone());
    for mode in [Mode::Mem, Mode::Seek, Mode::Unseek, Mode::ASeek] {
        let r = run(Op::Track, mode, &a);
        ensure!(r.out.is_err(), "video from nothing", "{mode:?}: no video at the declared place (damage {how}) yet {}", r.brief());
    }
    Ok(())
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a JPEG that declares a motion photo with an appended video (sub `model`), or whose declaration is unusable (sub `unusable`); distinct by file bytes",
        level: "exploration",
        assumptions: &["XMP uses the attribute form and the GCamera/Container/Item prefixes documented by the library"],
        subs: vec![
            Sub { name: "model", drive: Drive::Random, quick: 460_000, thorough: 5_520_000, tape: 360, f: model },
            Sub { name: "unusable", drive: Drive::Random, quick: 120_000, thorough: 1_440_000, tape: 360, f: unusable },
        ],
    }
}
