//! Matroska/WebM with every legal encoding width.
use crate::tape::Tape;

pub const SEGMENT: u32 = 0x1853_8067;
pub const INFO: u32 = 0x1549_A966;
pub const TRACKS: u32 = 0x1654_AE6B;
pub const SEEKHEAD: u32 = 0x114D_9B74;
pub const CLUSTER: u32 = 0x1F43_B675;
pub const CUES: u32 = 0x1C53_BB6B;
pub const TAGS: u32 = 0x1254_C367;

pub fn id(v: u32) -> Vec<u8> {
    let b = v.to_be_bytes();
    let z = (v.leading_zeros() / 8) as usize;
    b[z..].to_vec()
}
/// Size as a vint of at least `w` bytes.
pub fn vint(v: u64, w: usize) -> Vec<u8> {
    let mut n = w.clamp(1, 8);
    while n < 8 && v >= (1u64 << (7 * n)) - 1 {
        n += 1;
    }
    let mut b = v.to_be_bytes()[8 - n..].to_vec();
    b[0] |= 1 << (8 - n);
    b
}
pub fn el(i: u32, w: usize, body: &[u8]) -> Vec<u8> {
    let mut o = id(i);
    o.extend(vint(body.len() as u64, w));
    o.extend_from_slice(body);
    o
}
/// The size that stands for "unknown", in one to eight bytes.
pub fn unknown(t: &mut Tape) -> Vec<u8> {
    let n = [1, 8, 4, 2, 3, 5, 6, 7][t.below(8)];
    let mut b = vec![0xFF; n];
    b[0] >>= n - 1;
    b
}
/// Unsigned integer in at least `w` bytes.
pub fn uint(v: u64, w: usize) -> Vec<u8> {
    let need = ((64 - v.leading_zeros()) as usize).div_ceil(8).max(1);
    let n = w.clamp(need, 8);
    v.to_be_bytes()[8 - n..].to_vec()
}
pub fn w(t: &mut Tape) -> usize {
    [1, 1, 2, 4, 8, 3, 5][t.below(7)]
}
pub fn void(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.below(max.max(1));
    let ww = w(t);
    el(0xEC, ww, &vec![0; n])
}
pub fn ebml_header(t: &mut Tape, doc: &str) -> Vec<u8> {
    let mut b = vec![];
    if t.chance(1, 5) {
        b.extend(void(t, 8));
    }
    b.extend(el(0x4286, 1, &[1]));
    b.extend(el(0x42F7, 1, &[1]));
    b.extend(el(0x42F2, 1, &[4]));
    b.extend(el(0x42F3, 1, &[8]));
    let pad = if t.chance(1, 6) { t.range(1, 4) } else { 0 };
    let dw = if t.chance(1, 4) { w(t) } else { 1 };
    b.extend(el(0x4282, dw, &[doc.as_bytes(), &[0u8; 4][..pad]].concat()));
    b.extend(el(0x4287, 1, &[4]));
    b.extend(el(0x4285, 1, &[2]));
    let ww = w(t);
    el(0x1A45_DFA3, ww, &b)
}

#[derive(Clone, Debug, Default)]
pub struct Mkv {
    pub scale: Option<u64>,
    /// Duration in ticks and whether it is stored as f32
    pub duration: Option<(f64, bool)>,
    /// nanoseconds since 2001-01-01
    pub date: Option<i64>,
    pub dims: Option<(u64, u64)>,
    /// no Tracks element (chapters or tags only)
    pub no_tracks: bool,
}

pub fn gen_model(t: &mut Tape) -> Mkv {
    let scale = match t.below(4) {
        0 | 1 => None,
        2 => Some(1_000_000),
        // seconds-long ticks, beyond 32 bits
        _ if t.chance(1, 6) => Some((u32::MAX as u64 - 1 + t.below(5) as u64).max(t.below(200) as u64 * 1_000_000_000)),
        _ => Some(*t.pick(&[1_000u64, 1_000_000, 1_000_000_000, 100_000, 500_000, 1])),
    };
    let duration = if t.chance(4, 5) {
        let f32_ = t.chance(1, 2);
        let v = match t.below(3) {
            0 => t.below(100_000) as f64,
            1 => t.below(10_000_000) as f64 + 0.5,
            _ => t.u32() as f64 / 7.0,
        };
        Some((if f32_ { v as f32 as f64 } else { v }, f32_))
    } else {
        None
    };
    let date = if t.chance(1, 2) {
        let secs = t.u32() as i64 - if t.chance(1, 4) { 1i64 << 31 } else { 0 };
        let nanos = if t.chance(1, 2) {
            t.below(1_000_000_000) as i64
        } else {
            0
        };
        Some(secs * 1_000_000_000 + nanos)
    } else {
        None
    };
    let dims = if t.chance(4, 5) {
        let (mut x, mut y) = (t.range(1, 9000) as u64, t.range(1, 9000) as u64);
        if t.chance(1, 12) {
            // what fits 32 bits, and what does not
            let v = match t.below(3) {
                0 => t.u32() as u64,
                1 => u32::MAX as u64 - t.below(3) as u64,
                _ => (t.u64() >> t.below(32)).max(1 << 32),
            };
            *if t.chance(1, 2) { &mut x } else { &mut y } = v.max(1);
        }
        Some((x, y))
    } else {
        None
    };
    let no_tracks = dims.is_none() && t.chance(1, 4);
    Mkv {
        scale,
        duration,
        date,
        dims,
        no_tracks,
    }
}

fn shuffled(t: &mut Tape, mut parts: Vec<Vec<u8>>) -> Vec<u8> {
    t.shuffle(&mut parts);
    parts.concat()
}

pub fn info_body(t: &mut Tape, m: &Mkv) -> Vec<u8> {
    let mut parts = vec![];
    if let Some(s) = m.scale {
        let (a, b) = (w(t), w(t));
        parts.push(el(0x2AD7B1, a, &uint(s, b)));
    } else if t.chance(1, 8) {
        // no bytes at all: the default
        parts.push(el(0x2AD7B1, 1, &[]));
    }
    if let Some((d, f32_)) = m.duration {
        let a = w(t);
        parts.push(if f32_ {
            el(0x4489, a, &(d as f32).to_be_bytes())
        } else {
            el(0x4489, a, &d.to_be_bytes())
        });
    }
    if let Some(d) = m.date {
        let a = w(t);
        parts.push(el(0x4461, a, &d.to_be_bytes()));
    }
    if t.chance(2, 3) {
        let a = w(t);
        let n = t.size(12, 200);
        parts.push(el(0x4D80, a, t.word(n).as_bytes()));
    }
    if t.chance(1, 2) {
        let a = w(t);
        parts.push(el(0x5741, a, b"libwebm-0.2"));
    }
    if t.chance(1, 3) {
        parts.push(void(t, 60));
    }
    if t.chance(1, 4) {
        let u = t.fill(16);
        parts.push(el(0x73A4, 1, &u));
    }
    for k in 0..t.crowd() {
        parts.push(el(0x5741, 1, &[b'x'; 5][..k % 5]));
    }
    let mut b = shuffled(t, parts);
    if t.chance(1, 5) {
        b.splice(0..0, el(0xBF, 1, &[1, 2, 3, 4]));
    }
    b
}

pub fn track_entry(t: &mut Tape, num: u8, dims: Option<(u64, u64)>) -> Vec<u8> {
    let mut parts = vec![el(0xD7, 1, &[num]), el(0x73C5, 1, &[num])];
    let (a, b, c) = (w(t), w(t), w(t));
    match dims {
        Some((x, y)) => {
            parts.push(el(0x83, a, &[1]));
            parts.push(el(0x86, 1, b"V_VP9"));
            let mut v = vec![
                el(0xB0, b, &uint(x, c)),
                el(0xBA, b, &uint(y, c)),
            ];
            if t.chance(1, 2) {
                v.push(el(0x54B0, 1, &uint(x + 1, 2)));
            }
            if t.chance(1, 3) {
                v.push(void(t, 20));
            }
            if t.chance(1, 3) {
                v.push(el(0x9A, 1, &[2]));
            }
            // and some more nobody asks for
            for k in 0..t.crowd() {
                v.push(el(0xEC, 1, &[0; 3][..k % 4]));
            }
            let vb = shuffled(t, v);
            parts.push(el(0xE0, b, &vb));
        }
        None => {
            parts.push(el(0x83, a, &[2]));
            parts.push(el(0x86, 1, b"A_OPUS"));
            parts.push(el(
                0xE1,
                b,
                &[0xB5, 0x84, 0x47, 0x3B, 0x80, 0x00, 0x9F, 0x81, 0x02],
            ));
        }
    }
    if t.chance(1, 2) {
        let n = t.size(20, 3000);
        let d = t.fill(n);
        parts.push(el(0x63A2, c, &d));
    }
    if t.chance(1, 4) {
        parts.push(void(t, 20));
    }
    for _ in 0..t.crowd() {
        parts.push(el(0xEC, 1, &[]));
    }
    let b = shuffled(t, parts);
    let ww = w(t);
    el(0xAE, ww, &b)
}

#[derive(Clone, Copy, Default)]
pub struct MkvOpts {
    pub big: bool,
    /// audio tracks before the video one
    pub audio_first: bool,
    pub seek: bool,
    /// entries of the seek table may lead to other places
    pub stale: bool,
}

pub fn build(t: &mut Tape, m: &Mkv, o: MkvOpts) -> Vec<u8> {
    build_gap(t, m, o, 0).0
}
/// With `gap` > 0, a top-level element ends in so many bytes that are left out
/// of the encoding; where they belong is returned, too.
pub fn build_gap(t: &mut Tape, m: &Mkv, o: MkvOpts, gap: u64) -> (Vec<u8>, usize) {
    let doc = if t.chance(1, 2) { "webm" } else { "matroska" };
    let head = ebml_header(t, doc);
    let wi = w(t);
    let ib = info_body(t, m);
    let info = el(INFO, wi, &ib);
    let mut tb = vec![];
    let na = t.below(3);
    if o.audio_first {
        for k in 0..na {
            tb.extend(track_entry(t, 10 + k as u8, None));
        }
    }
    // a recorder with a track per microphone
    let many = t.crowd().min(120);
    if many > 0 {
        let one = track_entry(t, 77, None);
        for _ in 0..many {
            tb.extend(&one);
        }
    }
    if m.dims.is_some() {
        tb.extend(track_entry(t, 1, m.dims));
    } else if !o.audio_first {
        tb.extend(track_entry(t, 9, None));
    }
    if !o.audio_first {
        for k in 0..na {
            tb.extend(track_entry(t, 20 + k as u8, None));
        }
    }
    if t.chance(1, 4) {
        let v = void(t, 30);
        if t.chance(1, 2) {
            tb.splice(0..0, v);
        } else {
            tb.extend(v);
        }
    }
    let wt = w(t);
    let tracks = el(TRACKS, wt, &tb);
    // top-level order: info, tracks, and other elements
    let mut top: Vec<(u32, Vec<u8>)> = vec![(INFO, info), (TRACKS, tracks)];
    let bare = m.no_tracks && gap == 0;
    if bare {
        top.pop();
    } else if t.chance(1, 4) {
        top.swap(0, 1);
    }
    let extra = t.below(3);
    for _ in 0..extra {
        let n = if o.big && t.chance(1, 3) {
            t.range(5000, 60_000)
        } else {
            t.size(60, 900)
        };
        let at = t.below(top.len() + 1);
        let ww = w(t);
        let e = match t.below(3) {
            0 => (0xEC, el(0xEC, ww, &vec![0; n])),
            1 => (
                CUES,
                el(
                    CUES,
                    ww,
                    &[vec![0xEC], vint(n as u64, 8), vec![0; n]].concat(),
                ),
            ),
            _ => (
                TAGS,
                el(
                    TAGS,
                    ww,
                    &[vec![0xEC], vint(n as u64, 8), vec![0; n]].concat(),
                ),
            ),
        };
        top.insert(at, e);
    }
    let nc = t.size(200, if o.big { 60_000 } else { 2000 });
    let cl = [el(0xE7, 1, &[0]), {
        let d = t.fill(nc);
        el(0xA3, 4, &[vec![0x81, 0, 0, 0x80], d].concat())
    }]
    .concat();
    let clw = w(t);
    let mut cluster = (CLUSTER, el(CLUSTER, clw, &cl));
    let live = t.chance(1, 6);
    if live {
        // of unknown size: it ends where the next element of its level starts
        cluster.1 = [id(CLUSTER), unknown(t), cl].concat();
    }
    for _ in 0..if live { t.range(1, 3) } else { 1 } {
        if t.chance(1, 6) || live && t.chance(1, 3) {
            let at = t.below(top.len() + 1);
            top.insert(at, cluster.clone());
        } else {
            top.push(cluster.clone());
        }
    }
    let many = t.crowd();
    if many > 0 {
        let at = t.below(top.len() + 1);
        let (ty, body) = [
            (0xEC, vec![0; 5]),
            (CLUSTER, el(0xE7, 1, &[0])),
            (TAGS, vec![0xEC, 0x80]),
        ][t.below(3)]
        .clone();
        let one = (ty, el(ty, 1, &body));
        top.splice(at..at, vec![one; many]);
    }
    let mut holey = usize::MAX;
    if gap > 0 {
        let ty = *t.pick(&[CLUSTER, CLUSTER, 0xEC, 0x1941_A469]);
        // what comes before Info and Tracks is loaded, so it lies behind them
        let last = top
            .iter()
            .rposition(|e| e.0 == INFO || e.0 == TRACKS)
            .unwrap();
        holey = t.range(last + 1, top.len());
        top.insert(holey, (ty, [id(ty), vint(gap, 8)].concat()));
    }
    if o.seek {
        // positions are relative to the first byte of the segment's data;
        // the table has a fixed width so its own length is known
        let mut want: Vec<u32> = vec![];
        for (i, _) in &top {
            if *i != 0xEC && !want.contains(i) && t.chance(5, 6) {
                want.push(*i);
            }
        }
        let mut lead = vec![];
        if t.chance(1, 4) {
            lead = void(t, 40);
        }
        let ww = w(t);
        let pad = if t.chance(1, 3) { void(t, 90) } else { vec![] };
        let crc = t.chance(1, 5);
        // entries for the first clusters, or for ones repeated
        let dup = if t.chance(1, 3) { t.crowd() } else { 0 };
        let mk = |pos: &dyn Fn(u32) -> u64| -> Vec<u8> {
            let mut b = vec![];
            if crc {
                b.extend(el(0xBF, 1, &[1, 2, 3, 4]));
            }
            let more = want.iter().filter(|i| **i == CLUSTER).cycle().take(dup);
            for i in more.chain(&want) {
                let e = [el(0x53AB, 1, &id(*i)), el(0x53AC, 1, &uint(pos(*i), 8))].concat();
                b.extend(el(0x4DBB, 1, &e));
            }
            el(SEEKHEAD, ww.max(2), &b)
        };
        let len = lead.len() + mk(&|_| 1).len() + pad.len();
        // usually in front of all the rest
        let at = if t.chance(1, 5) {
            t.below(top.len() + 1)
        } else {
            0
        };
        let mut offs = std::collections::HashMap::new();
        let mut p = 0;
        for (k, (i, b)) in top.iter().enumerate() {
            if k == at {
                p += len;
            }
            offs.entry(*i).or_insert(p as u64);
            p += b.len() + if k == holey { gap as usize } else { 0 };
        }
        if o.stale {
            let ids: Vec<u32> = offs
                .keys()
                .copied()
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .collect();
            for i in ids {
                match t.below(5) {
                    0 => {
                        let j = t.below(p + 1) as u64;
                        offs.insert(i, j);
                    }
                    1 => {
                        let j = p as u64 + t.int32() as u64;
                        offs.insert(i, j);
                    }
                    2 => {
                        // where another element is
                        let j = offs[&top[t.below(top.len())].0];
                        offs.insert(i, j);
                    }
                    _ => {}
                }
            }
        }
        let table = [lead.clone(), mk(&|i| offs[&i]), pad.clone()].concat();
        top.insert(at, (SEEKHEAD, table));
        if holey != usize::MAX && holey >= at {
            holey += 1;
        }
    }
    let mut body = vec![];
    let mut gap_at = 0;
    for (k, (_, b)) in top.iter().enumerate() {
        body.extend_from_slice(b);
        if k == holey {
            gap_at = body.len();
        }
    }
    let ws = w(t);
    let mut out = head;
    if !bare && t.chance(1, 4) {
        // a segment of unknown size, as live recorders write it
        out.extend(id(SEGMENT));
        out.extend(unknown(t));
        gap_at += out.len();
        out.extend(body);
    } else {
        out.extend(id(SEGMENT));
        out.extend(vint(body.len() as u64 + gap, ws));
        gap_at += out.len();
        out.extend(body);
    }
    (out, gap_at)
}
