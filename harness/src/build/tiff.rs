//! TIFF/EXIF model: directories and values, an encoder with free layout, and
//! the entries a reader must report.
use crate::norm::{hex, Ent};
use crate::tape::Tape;

pub const EXIF_PTR: u16 = 0x8769;
pub const GPS_PTR: u16 = 0x8825;
pub const DATE_TAGS: [u16; 3] = [0x9003, 0x9004, 0x0132];
pub const OFFSET_TAGS: [u16; 3] = [0x9011, 0x9012, 0x9010];

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U8(Vec<u8>),
    Text(Vec<u8>),
    U16(Vec<u16>),
    U32(Vec<u32>),
    URat(Vec<(u32, u32)>),
    I8(i8),
    Undef(Vec<u8>),
    I16(i16),
    I32(i32),
    IRat(Vec<(i32, i32)>),
    F32(u32),
    F64(u64),
    /// Pointer to another directory of the model.
    Ptr(usize),
    /// Verbatim entry fields (damaged entries).
    Raw { fmt: u16, count: u32, field: [u8; 4] },
}

impl Val {
    pub fn fmt(&self) -> u16 {
        match self {
            Val::U8(_) => 1,
            Val::Text(_) => 2,
            Val::U16(_) => 3,
            Val::U32(_) | Val::Ptr(_) => 4,
            Val::URat(_) => 5,
            Val::I8(_) => 6,
            Val::Undef(_) => 7,
            Val::I16(_) => 8,
            Val::I32(_) => 9,
            Val::IRat(_) => 10,
            Val::F32(_) => 11,
            Val::F64(_) => 12,
            Val::Raw { fmt, .. } => *fmt,
        }
    }
    pub fn count(&self) -> u32 {
        (match self {
            Val::U8(v) | Val::Text(v) | Val::Undef(v) => v.len(),
            Val::U16(v) => v.len(),
            Val::U32(v) => v.len(),
            Val::URat(v) => v.len(),
            Val::IRat(v) => v.len(),
            Val::Raw { count, .. } => *count as usize,
            _ => 1,
        }) as u32
    }
    pub fn bytes(&self, be: bool) -> Vec<u8> {
        let w = W { be };
        let mut o = vec![];
        match self {
            Val::U8(v) | Val::Text(v) | Val::Undef(v) => o.extend_from_slice(v),
            Val::U16(v) => v.iter().for_each(|x| o.extend(w.u16(*x))),
            Val::U32(v) => v.iter().for_each(|x| o.extend(w.u32(*x))),
            Val::URat(v) => v.iter().for_each(|x| {
                o.extend(w.u32(x.0));
                o.extend(w.u32(x.1))
            }),
            Val::I8(v) => o.push(*v as u8),
            Val::I16(v) => o.extend(w.u16(*v as u16)),
            Val::I32(v) => o.extend(w.u32(*v as u32)),
            Val::IRat(v) => v.iter().for_each(|x| {
                o.extend(w.u32(x.0 as u32));
                o.extend(w.u32(x.1 as u32))
            }),
            Val::F32(v) => o.extend(w.u32(*v)),
            Val::F64(v) => o.extend(if be { v.to_be_bytes() } else { v.to_le_bytes() }),
            Val::Ptr(_) | Val::Raw { .. } => {}
        }
        o
    }
    /// Canonical form of the value a reader reports (non-date tags).
    pub fn expect(&self) -> String {
        match self {
            Val::U8(v) if v.len() == 1 => format!("U8({})", v[0]),
            Val::U8(v) => format!("U8Array({})", hex(v)),
            Val::Text(v) => format!("Text({:?})", text_of(v)),
            Val::U16(v) if v.len() == 1 => format!("U16({})", v[0]),
            Val::U16(v) => format!("U16Array({v:?})"),
            Val::U32(v) if v.len() == 1 => format!("U32({})", v[0]),
            Val::U32(v) => format!("U32Array({v:?})"),
            Val::URat(v) if v.len() == 1 => format!("URational({}/{})", v[0].0, v[0].1),
            Val::URat(v) => format!(
                "URationalArray([{}])",
                v.iter().map(|r| format!("Rational {{ numerator: {}, denominator: {} }}", r.0, r.1)).collect::<Vec<_>>().join(", ")
            ),
            Val::I8(v) => format!("I8({v})"),
            Val::Undef(v) => format!("Undefined({})", hex(v)),
            Val::I16(v) => format!("I16({v})"),
            Val::I32(v) => format!("I32({v})"),
            Val::IRat(v) if v.len() == 1 => format!("IRational({}/{})", v[0].0, v[0].1),
            Val::IRat(v) => format!(
                "IRationalArray([{}])",
                v.iter().map(|r| format!("Rational {{ numerator: {}, denominator: {} }}", r.0, r.1)).collect::<Vec<_>>().join(", ")
            ),
            Val::F32(b) => format!("F32({b:#010x})"),
            Val::F64(b) => format!("F64({b:#018x})"),
            Val::Ptr(_) | Val::Raw { .. } => "-".into(),
        }
    }
}

/// EXIF text: NUL-padded, UTF-8 where valid, else Latin-1.
pub fn text_of(v: &[u8]) -> String {
    let s = v.iter().position(|&b| b != 0).unwrap_or(v.len());
    let body = &v[s..];
    let e = body.iter().position(|&b| b == 0).unwrap_or(body.len());
    match std::str::from_utf8(&body[..e]) {
        Ok(s) => s.to_string(),
        Err(_) => body[..e].iter().map(|&b| b as char).collect(),
    }
}

#[derive(Clone, Copy)]
pub struct W {
    pub be: bool,
}
impl W {
    pub fn u16(&self, x: u16) -> [u8; 2] {
        if self.be { x.to_be_bytes() } else { x.to_le_bytes() }
    }
    pub fn u32(&self, x: u32) -> [u8; 4] {
        if self.be { x.to_be_bytes() } else { x.to_le_bytes() }
    }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u16,
    pub val: Val,
}
#[derive(Clone, Debug, Default)]
pub struct Dir {
    /// Directory index a reader reports for its entries.
    pub idx: usize,
    pub ents: Vec<Entry>,
    pub next: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Tiff {
    pub be: bool,
    pub dirs: Vec<Dir>,
    /// 0: conventional (table, then its values, breadth-first); 1: values first; 2: shuffled
    pub layout: u8,
    pub order: Vec<u32>,
    pub gaps: Vec<u8>,
    pub lead: usize,
    pub tail: Vec<u8>,
    pub align: bool,
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    /// offset of each directory table
    pub dir_at: Vec<usize>,
    /// (dir, entry) -> offset of the 12-byte record
    pub rec_at: Vec<Vec<usize>>,
    /// (dir, entry) -> offset of the out-of-line value
    pub val_at: Vec<Vec<Option<usize>>>,
}

thread_local! {
    /// Encode no entry twice in directories of one index (the second would show
    /// once the first is damaged).
    pub static UNIQUE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl Tiff {
    pub fn encode(&self) -> Encoded {
        if UNIQUE.get() {
            let mut one = self.clone();
            let mut seen = std::collections::HashSet::new();
            for d in &mut one.dirs {
                let idx = d.idx;
                // one position directory in all
                d.ents.retain(|e| seen.insert((if e.tag == GPS_PTR { 0 } else { idx }, e.tag)));
            }
            return one.encode_all();
        }
        self.encode_all()
    }
    fn encode_all(&self) -> Encoded {
        let w = W { be: self.be };
        // blocks: (dir, None) = table, (dir, Some(e)) = value
        let mut blocks: Vec<(usize, Option<usize>, usize)> = vec![];
        for (d, dir) in self.dirs.iter().enumerate() {
            let tbl = (d, None, 2 + 12 * dir.ents.len() + 4);
            if self.layout != 1 {
                blocks.push(tbl);
            }
            for (e, en) in dir.ents.iter().enumerate() {
                let n = en.val.bytes(self.be).len();
                if n > 4 {
                    blocks.push((d, Some(e), n));
                }
            }
            if self.layout == 1 {
                blocks.push(tbl);
            }
        }
        if self.layout == 2 && !self.order.is_empty() {
            for i in (1..blocks.len()).rev() {
                let j = i - (self.order[i % self.order.len()] as usize) % (i + 1);
                blocks.swap(i, j);
            }
        }
        let mut dir_at = vec![0; self.dirs.len()];
        let mut val_at: Vec<Vec<Option<usize>>> = self.dirs.iter().map(|d| vec![None; d.ents.len()]).collect();
        let mut pos = 8 + self.lead;
        for (k, (d, e, n)) in blocks.iter().enumerate() {
            if !self.gaps.is_empty() {
                pos += self.gaps[k % self.gaps.len()] as usize;
            }
            if self.align && pos % 2 == 1 {
                pos += 1;
            }
            match e {
                None => dir_at[*d] = pos,
                Some(e) => val_at[*d][*e] = Some(pos),
            }
            pos += n;
        }
        let mut b = vec![0xA5u8; pos];
        b[..2].copy_from_slice(if self.be { b"MM" } else { b"II" });
        b[2..4].copy_from_slice(&w.u16(42));
        b[4..8].copy_from_slice(&w.u32(dir_at[0] as u32));
        let mut rec_at = vec![];
        for (d, dir) in self.dirs.iter().enumerate() {
            let mut p = dir_at[d];
            b[p..p + 2].copy_from_slice(&w.u16(dir.ents.len() as u16));
            p += 2;
            let mut recs = vec![];
            for (e, en) in dir.ents.iter().enumerate() {
                recs.push(p);
                b[p..p + 2].copy_from_slice(&w.u16(en.tag));
                b[p + 2..p + 4].copy_from_slice(&w.u16(en.val.fmt()));
                b[p + 4..p + 8].copy_from_slice(&w.u32(en.val.count()));
                let field: [u8; 4] = match &en.val {
                    Val::Ptr(t) => w.u32(dir_at[*t] as u32),
                    Val::Raw { field, .. } => *field,
                    v => {
                        let bytes = v.bytes(self.be);
                        match val_at[d][e] {
                            Some(at) => {
                                b[at..at + bytes.len()].copy_from_slice(&bytes);
                                w.u32(at as u32)
                            }
                            None => {
                                let mut f = [0u8; 4];
                                f[..bytes.len()].copy_from_slice(&bytes);
                                f
                            }
                        }
                    }
                };
                b[p + 8..p + 12].copy_from_slice(&field);
                p += 12;
            }
            let next = dir.next.map(|n| dir_at[n] as u32).unwrap_or(0);
            b[p..p + 4].copy_from_slice(&w.u32(next));
            rec_at.push(recs);
        }
        b.extend_from_slice(&self.tail);
        Encoded { bytes: b, dir_at, rec_at, val_at }
    }

    /// Entries a reader must report, in depth-first order; first of duplicates only.
    pub fn expect(&self, enc: &Encoded) -> Vec<Ent> {
        let mut out = vec![];
        let mut d = Some(0);
        while let Some(i) = d {
            self.walk(i, enc, &mut out);
            d = self.dirs[i].next;
        }
        out
    }
    fn walk(&self, i: usize, enc: &Encoded, out: &mut Vec<Ent>) {
        let dir = &self.dirs[i];
        for e in &dir.ents {
            match &e.val {
                Val::Ptr(t) => {
                    out.push((dir.idx, e.tag, Ok(format!("U32({})", enc.dir_at[*t]))));
                    self.walk(*t, enc, out);
                }
                Val::Raw { .. } => {}
                v => {
                    let x = if DATE_TAGS.contains(&e.tag) { date_expect(v).unwrap_or_else(|| v.expect()) } else { v.expect() };
                    out.push((dir.idx, e.tag, Ok(x)));
                }
            }
        }
    }
    pub fn n_entries(&self) -> usize {
        self.dirs.iter().map(|d| d.ents.len()).sum()
    }
}

/// "YYYY:MM:DD hh:mm:ss" -> canonical naive date.
pub fn date_expect(v: &Val) -> Option<String> {
    let Val::Text(b) = v else { return None };
    let s = text_of(b);
    let s = s.as_str();
    if s.len() != 19 {
        return None;
    }
    Some(format!("NaiveDateTime({}-{}-{}T{})", &s[0..4], &s[5..7], &s[8..10], &s[11..19]))
}

// ------------------------------------------------------------------ generator

pub fn known_tags() -> &'static [u16] {
    static K: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    K.get_or_init(|| (0..=0xffffu16).filter(|c| nom_exif::ExifTag::from_code(*c).is_some()).collect())
}

#[derive(Clone, Copy, Default)]
pub struct GenOpts {
    /// generate date-time entries (without offset entries)
    pub dates: bool,
    /// allow a thumbnail chain
    pub chain: bool,
    /// largest array, in components
    pub big: usize,
    pub max_ents: usize,
    /// conventional layout only
    pub plain: bool,
    /// no out-of-line padding games in front of the first directory
    pub no_lead: bool,
}

pub fn gen_text(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.size(12, max.max(1)).max(1);
    let mut v: Vec<u8> = match t.below(6) {
        0 | 1 | 2 => t.ascii(n).into_bytes(),
        3 => {
            // UTF-8
            let s: String = t.fill(n).iter().map(|b| char::from_u32(0x80 + (*b as u32) * 37).unwrap_or('é')).collect();
            s.into_bytes()
        }
        4 => t.fill(n).into_iter().map(|b| if b == 0 { 1 } else { b }).collect(), // Latin-1
        _ => {
            let mut v = t.fill(n);
            let k = t.below(n);
            v[k] = 0; // embedded NUL
            v
        }
    };
    if t.chance(1, 8) {
        let k = t.range(1, 3);
        for _ in 0..k {
            v.insert(0, 0);
        }
    }
    if t.chance(2, 3) {
        v.push(0);
    }
    v
}

pub fn gen_val(t: &mut Tape, big: usize) -> Val {
    let n = |t: &mut Tape| -> usize {
        match t.below(8) {
            0 | 1 | 2 => 1,
            3 => t.range(1, 5),
            4 => 2,
            5 => t.range(1, 9),
            6 => t.range(1, 40),
            _ => t.range(1, big.max(1)),
        }
    };
    match t.below(12) {
        0 => {
            let n = n(t);
            Val::U16((0..n.min(4000)).map(|_| t.int32() as u16).collect())
        }
        1 => Val::Text(gen_text(t, big)),
        2 => {
            let n = n(t);
            Val::U32((0..n.min(3000)).map(|_| t.int32()).collect())
        }
        3 => {
            let n = n(t);
            Val::URat((0..n.min(2000)).map(|_| (t.int32(), t.int32())).collect())
        }
        4 => {
            let n = n(t);
            Val::U8(t.fill(n))
        }
        5 => {
            let n = n(t);
            Val::Undef(t.fill(n))
        }
        6 => {
            let n = n(t);
            Val::IRat((0..n.min(2000)).map(|_| (t.int32() as i32, t.int32() as i32)).collect())
        }
        7 => Val::I8(t.int32() as i8),
        8 => Val::I16(t.int32() as i16),
        9 => Val::I32(t.int32() as i32),
        10 => Val::F32(t.int32()),
        _ => Val::F64(t.u64()),
    }
}

pub fn gen_date(t: &mut Tape) -> String {
    let y = match t.below(4) {
        0 => t.range(1990, 2030),
        1 => t.range(1900, 2100),
        2 => t.range(1, 9999),
        _ => *t.pick(&[2000, 2024, 2023, 1970, 9999, 1]),
    };
    let m = t.range(1, 12);
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let dm = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1];
    let d = if t.chance(1, 6) { dm } else { t.range(1, dm) };
    let (h, mi, s) = (t.range(0, 23), t.range(0, 59), t.range(0, 59));
    format!("{y:04}:{m:02}:{d:02} {h:02}:{mi:02}:{s:02}")
}

fn gen_tag(t: &mut Tape, used: &mut std::collections::HashSet<(usize, u16)>, idx: usize, gps: bool) -> Option<u16> {
    for _ in 0..8 {
        let tag = if gps {
            t.range(0, 31) as u16
        } else if t.chance(2, 5) {
            (t.u16()).max(32)
        } else {
            *t.pick(known_tags())
        };
        if (tag == 0 && !gps) || tag == EXIF_PTR || tag == GPS_PTR || DATE_TAGS.contains(&tag) || OFFSET_TAGS.contains(&tag) {
            continue;
        }
        if used.insert((idx, tag)) {
            return Some(tag);
        }
    }
    None
}

pub fn gen_tiff(t: &mut Tape, o: &GenOpts) -> Tiff {
    let mut tf = Tiff { be: t.chance(1, 2), ..Tiff::default() };
    let mut used = std::collections::HashSet::new();
    let max = if o.max_ents == 0 { 10 } else { o.max_ents };
    let nchain = if o.chain { [1, 2, 1, 3][t.below(4)] } else { 1 };
    for idx in 0..nchain {
        let root = tf.dirs.len();
        tf.dirs.push(Dir { idx, ..Dir::default() });
        if idx > 0 {
            // link from the previous root
            let prev = (0..root).rev().find(|&d| tf.dirs[d].idx == idx - 1 && tf.dirs[d].next.is_none() && is_root(&tf, d)).unwrap();
            tf.dirs[prev].next = Some(root);
        }
        let n = t.size(max.min(6), max).max(1);
        for _ in 0..n {
            if let Some(tag) = gen_tag(t, &mut used, idx, false) {
                let val = gen_val(t, o.big);
                tf.dirs[root].ents.push(Entry { tag, val });
            }
        }
        let with_sub = if idx == 0 { t.chance(3, 4) } else { t.chance(1, 6) };
        if with_sub {
            let mut parents = vec![root];
            if t.chance(3, 4) {
                let d = tf.dirs.len();
                tf.dirs.push(Dir { idx, ..Dir::default() });
                let n = t.size(max.min(8), max).max(1);
                for _ in 0..n {
                    if let Some(tag) = gen_tag(t, &mut used, idx, false) {
                        let val = gen_val(t, o.big);
                        tf.dirs[d].ents.push(Entry { tag, val });
                    }
                }
                if o.dates && t.chance(1, 2) {
                    for tag in [0x9003, 0x9004] {
                        if t.chance(1, 2) && used.insert((idx, tag)) {
                            let mut s = gen_date(t).into_bytes();
                            s.push(0);
                            tf.dirs[d].ents.push(Entry { tag, val: Val::Text(s) });
                        }
                    }
                }
                ins(t, &mut tf.dirs[root].ents, Entry { tag: EXIF_PTR, val: Val::Ptr(d) });
                used.insert((idx, EXIF_PTR));
                parents.push(d);
            }
            if t.chance(1, 2) {
                let d = tf.dirs.len();
                tf.dirs.push(Dir { idx, ..Dir::default() });
                let n = t.range(1, 8);
                for _ in 0..n {
                    if let Some(tag) = gen_tag(t, &mut used, idx, true) {
                        let val = gen_val(t, o.big.min(300));
                        tf.dirs[d].ents.push(Entry { tag, val });
                    }
                }
                let par = if t.chance(1, 5) { *parents.last().unwrap() } else { root };
                ins(t, &mut tf.dirs[par].ents, Entry { tag: GPS_PTR, val: Val::Ptr(d) });
                used.insert((idx, GPS_PTR));
            }
        }
        if o.dates && t.chance(1, 4) && used.insert((idx, 0x0132)) {
            let mut s = gen_date(t).into_bytes();
            s.push(0);
            ins(t, &mut tf.dirs[root].ents, Entry { tag: 0x0132, val: Val::Text(s) });
        }
    }
    for d in &mut tf.dirs {
        if d.ents.is_empty() {
            let tag = (60_000..60_100u16).find(|x| used.insert((d.idx, *x))).unwrap();
            d.ents.push(Entry { tag, val: Val::U16(vec![7]) });
        }
        if t.chance(1, 3) {
            d.ents.sort_by_key(|e| e.tag);
        }
    }
    // a crowded directory
    let many = t.crowd();
    if many > 0 {
        let d = t.below(tf.dirs.len());
        let idx = tf.dirs[d].idx;
        let front = t.chance(1, 2);
        let v = t.u16();
        let add: Vec<Entry> = (0xC800u16..0xD800)
            .filter(|x| used.insert((idx, *x)))
            .take(many)
            .map(|tag| Entry { tag, val: Val::U16(vec![tag ^ v]) })
            .collect();
        let ents = &mut tf.dirs[d].ents;
        let at = if front { 0 } else { ents.len() };
        ents.splice(at..at, add);
    }
    // a long chain
    let many = if o.chain && !o.plain { t.crowd().min(300) } else { 0 };
    if many > 0 {
        let mut last = (0..tf.dirs.len()).rev().find(|&d| tf.dirs[d].idx == nchain - 1 && is_root(&tf, d)).unwrap();
        let v = t.u16();
        for idx in nchain..nchain + many {
            let d = tf.dirs.len();
            tf.dirs.push(Dir { idx, ents: vec![Entry { tag: 0x0100, val: Val::U16(vec![idx as u16 ^ v]) }], next: None });
            tf.dirs[last].next = Some(d);
            last = d;
        }
    }
    if !o.plain {
        tf.layout = t.below(3) as u8;
        if tf.layout == 2 {
            tf.order = (0..16).map(|_| t.u32()).collect();
        }
        if t.chance(1, 3) {
            tf.gaps = t.fill(5).into_iter().map(|b| b % 9).collect();
        }
        if !o.no_lead && t.chance(1, 6) {
            tf.lead = t.size(64, 600);
        }
        if t.chance(1, 3) {
            let n = t.size(16, 300);
            tf.tail = t.fill(n);
        }
        tf.align = t.chance(1, 2);
    }
    tf
}
fn is_root(tf: &Tiff, d: usize) -> bool {
    !tf.dirs.iter().any(|x| x.ents.iter().any(|e| matches!(e.val, Val::Ptr(p) if p == d)))
}
fn ins(t: &mut Tape, v: &mut Vec<Entry>, e: Entry) {
    let k = v.len() - t.below(v.len() + 1);
    v.insert(k, e);
}

pub fn sorted(mut v: Vec<Ent>) -> Vec<Ent> {
    v.sort();
    v
}
