//! ISO base media files: HEIF/HEIC/AVIF images, CR3, MP4/MOV tracks.
use crate::tape::Tape;

/// Box header style.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum H {
    S32,
    S64,
}
pub fn bx(ty: &[u8; 4], body: &[u8]) -> Vec<u8> {
    bxh(H::S32, ty, body)
}
pub fn bxh(h: H, ty: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    match h {
        H::S32 => {
            o.extend(((body.len() + 8) as u32).to_be_bytes());
            o.extend(ty);
        }
        H::S64 => {
            o.extend(1u32.to_be_bytes());
            o.extend(ty);
            o.extend(((body.len() + 16) as u64).to_be_bytes());
        }
    }
    o.extend_from_slice(body);
    o
}
/// The last box of a file may leave its size to the file's.
pub fn to_end(ty: &[u8; 4], body: &[u8]) -> Vec<u8> {
    [&[0; 4][..], ty, body].concat()
}
pub fn full(ty: &[u8; 4], ver: u8, flags: u32, body: &[u8]) -> Vec<u8> {
    fullh(H::S32, ty, ver, flags, body)
}
pub fn fullh(h: H, ty: &[u8; 4], ver: u8, flags: u32, body: &[u8]) -> Vec<u8> {
    let mut b = vec![ver];
    b.extend(&flags.to_be_bytes()[1..]);
    b.extend_from_slice(body);
    bxh(h, ty, &b)
}
pub fn ftyp(major: &[u8; 4], minor: u32, compat: &[[u8; 4]]) -> Vec<u8> {
    let mut b = major.to_vec();
    b.extend(minor.to_be_bytes());
    for c in compat {
        b.extend(c);
    }
    bx(b"ftyp", &b)
}
pub fn h(t: &mut Tape) -> H {
    if t.chance(1, 6) { H::S64 } else { H::S32 }
}

// ------------------------------------------------------------------- HEIF

#[derive(Clone, Debug)]
pub struct HeifLayout {
    pub major: [u8; 4],
    pub compat: Vec<[u8; 4]>,
    /// boxes between ftyp and meta
    pub pre: Vec<Vec<u8>>,
    /// meta children before/after (other than iinf/iloc), index order shuffled
    pub kids: Vec<Vec<u8>>,
    pub iloc_first: bool,
    pub kid_split: usize,
    pub meta_h: H,
    /// boxes between meta and the mdat
    pub mid: Vec<Vec<u8>>,
    /// bytes in mdat before the item
    pub before: Vec<u8>,
    pub after: Vec<u8>,
    pub mdat_h: H,
    /// a last mdat reaches to the end of the file by a size of zero
    pub open: bool,
    /// items besides the EXIF one: (id, type)
    pub items: Vec<(u32, [u8; 4])>,
    /// what else varies about them: extents, construction method, infe flags;
    /// an item beyond the end of the list is plain
    pub odd: Vec<(u16, u8, u8)>,
    /// position of the EXIF item among the locations
    pub loc_pos: usize,
    pub exif_id: u32,
    pub exif_pos: usize,
    pub iinf_ver: u8,
    pub infe_ver: u8,
    pub iloc_ver: u8,
    pub off_size: u8,
    pub len_size: u8,
    pub base_size: u8,
    pub idx_size: u8,
    /// how the position is split between base and extent offset
    pub base_part: u32,
    /// bytes of the ExifDataBlock between the 4-byte offset and the TIFF header
    pub prefix: Vec<u8>,
    pub name: Vec<u8>,
    /// EXIF item placed before meta (mdat first)
    pub mdat_first: bool,
    pub tail: Vec<Vec<u8>>,
    /// so many bytes at the start of the media data are left out of the encoding
    pub gap: u64,
    /// base, offset and length the EXIF item's location has instead of the right ones
    pub astray: Option<[u64; 3]>,
}

pub struct Heif {
    pub bytes: Vec<u8>,
    pub meta_end: usize,
    pub item_at: usize,
    pub iloc_at: usize,
    /// where the bytes that are not there (`gap`) belong
    pub gap_at: usize,
}

pub const HEIC: [&[u8; 4]; 4] = [b"heic", b"heix", b"heim", b"heis"];
pub const HEIF: [&[u8; 4]; 7] = [b"mif1", b"hevc", b"hevm", b"hevs", b"miaf", b"MiHE", b"MiHB"];
pub const AVIF: [&[u8; 4]; 3] = [b"avif", b"avis", b"avio"];

pub fn noise_box(t: &mut Tape, big: bool) -> Vec<u8> {
    let n = if big && t.chance(1, 3) { t.range(3000, 80_000) } else { t.size(40, 800) };
    let ty = *t.pick(&[b"free", b"skip", b"uuid", b"xyzw", b"junk"]);
    let hh = h(t);
    let n = if ty == b"uuid" { n.max(16) } else { n };
    match t.below(8) {
        // what an editor left in the space it freed
        0 => {
            let ty = *t.pick(&[b"free", b"skip"]);
            let b = [stale(), t.fill(n.min(50))].concat();
            bxh(hh, ty, &b)
        }
        1 => {
            let ty = *t.pick(&[b"pdin", b"sidx", b"styp", b"mfra", b"prft", b"emsg", b"pnot", b"ssix", b"\xa9zzz", b"MOOV", b"Meta"]);
            bxh(hh, ty, &t.fill(n))
        }
        _ => bxh(hh, ty, &t.fill(n)),
    }
}

/// A movie box and a meta box that count for nothing where they are.
fn stale() -> Vec<u8> {
    let mv = mvhd(&Mvhd { ver: 0, ctime: 3_000_000_001, scale: 1, dur: 77 });
    let tr = bx(b"trak", &[tkhd(0, 1, 11, 13), bx(b"mdia", &hdlr(b"vide"))].concat());
    let entry = ("com.apple.quicktime.make".to_string(), 1, b"stale".to_vec());
    let moov = bx(b"moov", &[mv, tr, qt_meta(&[entry], &[0], false)].concat());
    [moov, full(b"meta", 0, 0, &hdlr(b"pict"))].concat()
}

/// Usually none, at times a great many small boxes.
pub fn tiny_boxes(t: &mut Tape) -> Vec<Vec<u8>> {
    let many = t.crowd();
    let ty = *t.pick(&[b"free", b"skip", b"xyzw"]);
    (0..many).map(|k| bx(ty, &[0x5A; 13][..k % 13])).collect()
}

pub fn gen_heif(t: &mut Tape, brand: Option<[u8; 4]>, big: bool) -> HeifLayout {
    let major = brand.unwrap_or_else(|| {
        let all: Vec<&[u8; 4]> = HEIC.iter().chain(&HEIF).chain(&AVIF).copied().collect();
        **t.pick(&all)
    });
    let n = t.below(4);
    let compat = (0..n).map(|_| **t.pick(&[b"mif1", b"heic", b"miaf", b"avif", b"MA1B"])).collect();
    let nb = |t: &mut Tape, k: usize| -> Vec<Vec<u8>> {
        let n = t.below(k);
        (0..n).map(|_| noise_box(t, big)).collect()
    };
    let pre = if t.chance(1, 3) { nb(t, 3) } else { vec![] };
    let mut kids = vec![full(b"hdlr", 0, 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0")];
    if t.chance(1, 2) {
        kids.push(full(b"pitm", 0, 0, &[0, 1]));
    }
    if t.chance(1, 2) {
        kids.push(bx(b"iprp", &bx(b"ipco", &full(b"ispe", 0, 0, &[0, 0, 1, 0, 0, 0, 1, 0]))));
    }
    if t.chance(1, 3) {
        let n = t.size(30, 400);
        kids.push(bx(b"idat", &t.fill(n)));
    }
    if t.chance(1, 4) {
        kids.push(full(b"iref", 0, 0, &bx(b"cdsc", &[0, 2, 0, 1, 0, 1])));
    }
    if big && t.chance(1, 4) {
        let n = t.range(5000, 30_000);
        kids.push(bx(b"free", &t.fill(n)));
    }
    let nitems = t.size(3, 30);
    let mut exif_id = t.range(1, 60) as u32;
    let mut items = vec![];
    for k in 0..nitems {
        let ty = *t.pick(&[b"hvc1", b"av01", b"mime", b"grid", b"uri ", b"iden"]);
        items.push((100 + k as u32, *ty));
    }
    // a tiled picture, one item per tile
    let many = t.crowd();
    let tile = *t.pick(&[b"hvc1", b"av01", b"mime"]);
    items.extend((0..many).map(|k| (1000 + k as u32, *tile)));
    let mut mid = if t.chance(1, 3) { nb(t, 3) } else { vec![] };
    mid.extend(tiny_boxes(t));
    let mut pre = pre;
    pre.extend(tiny_boxes(t));
    if t.chance(1, 2) {
        kids.extend(tiny_boxes(t));
    }
    let nb1 = if big { t.size(200, 70_000) } else { t.size(60, 900) };
    let before = t.fill(nb1);
    let na = t.size(200, if big { 20_000 } else { 900 });
    let after = t.fill(na);
    let iloc_ver = [1, 0, 2][t.below(3)];
    let (infe_ver, iinf_ver) = ([2, 3][t.below(2)], [0, 1][t.below(2)]);
    let off_size = [4u8, 8][t.below(2)];
    let base_size = [0u8, 4, 8][t.below(3)];
    // ids as wide as the versions allow
    if t.chance(1, 3) {
        let wide = iloc_ver == 2 && infe_ver == 3;
        exif_id = if wide { t.u32() } else { t.u16() as u32 };
        let step = if wide { t.u32() | 1 } else { t.u16() as u32 | 1 };
        let mut id = exif_id;
        for i in &mut items {
            id = id.wrapping_add(step) & if wide { u32::MAX } else { 0xffff };
            i.0 = id;
        }
    }
    let odd = if t.chance(1, 3) {
        (0..items.len().min(40)).map(|_| ([1u16, 0, 2, 3, 32][t.below(5)], t.below(3) as u8, t.below(2) as u8)).collect()
    } else {
        vec![]
    };
    let off_size = if base_size > 0 && t.chance(1, 8) { 0 } else { off_size };
    let loc_pos = if t.chance(1, 2) { t.below(items.len() + 1) } else { usize::MAX };
    HeifLayout {
        odd,
        loc_pos,
        major,
        compat,
        pre,
        kid_split: t.below(kids.len() + 1),
        kids,
        iloc_first: t.chance(1, 2),
        meta_h: h(t),
        mid,
        before,
        after,
        mdat_h: h(t),
        exif_pos: t.below(items.len() + 1),
        items,
        exif_id,
        iinf_ver,
        infe_ver,
        iloc_ver,
        off_size,
        len_size: [4u8, 8][t.below(2)],
        base_size,
        idx_size: if iloc_ver > 0 { [0u8, 4, 8][t.below(3)] } else { 0 },
        base_part: if base_size > 0 { t.u32() } else { 0 },
        prefix: match t.below(4) {
            0 | 1 => b"Exif\0\0".to_vec(),
            2 => vec![],
            _ => {
                let n = t.below(12);
                [b"Exif\0\0".to_vec(), t.fill(n)].concat()
            }
        },
        name: if t.chance(1, 4) { t.word(6).into_bytes() } else { vec![] },
        mdat_first: t.chance(1, 8),
        open: t.chance(1, 6),
        tail: if t.chance(1, 4) { nb(t, 3) } else { vec![] },
        gap: 0,
        astray: None,
    }
}

impl HeifLayout {
    fn odd_of(&self, id: u32) -> (u16, u8, u8) {
        let at = self.items.iter().position(|i| i.0 == id);
        at.and_then(|k| self.odd.get(k)).copied().unwrap_or((1, 0, 0))
    }
    fn iinf(&self, with_exif: bool) -> Vec<u8> {
        let mut ids = self.items.clone();
        if with_exif {
            ids.insert(self.exif_pos.min(ids.len()), (self.exif_id, *b"Exif"));
        }
        let mut b = vec![];
        if self.iinf_ver == 0 {
            b.extend((ids.len() as u16).to_be_bytes());
        } else {
            b.extend((ids.len() as u32).to_be_bytes());
        }
        for (id, ty) in &ids {
            let mut e = vec![];
            if self.infe_ver == 2 {
                e.extend((*id as u16).to_be_bytes());
            } else {
                e.extend(id.to_be_bytes());
            }
            e.extend([0, 0]);
            e.extend(ty);
            e.extend(&self.name);
            e.push(0);
            if ty == b"mime" {
                e.extend(b"application/rdf+xml\0");
            }
            if ty == b"uri " {
                e.extend(b"urn:x:y\0");
            }
            b.extend(full(b"infe", self.infe_ver, self.odd_of(*id).2 as u32, &e));
        }
        full(b"iinf", self.iinf_ver, 0, &b)
    }
    fn iloc(&self, with_exif: bool, item_at: u64, item_len: u64, other_at: u64) -> Vec<u8> {
        let sized = |v: u64, n: u8| -> Vec<u8> {
            match n {
                0 => vec![],
                4 => (v as u32).to_be_bytes().to_vec(),
                _ => v.to_be_bytes().to_vec(),
            }
        };
        let mut b = vec![(self.off_size << 4) | self.len_size, (self.base_size << 4) | self.idx_size];
        let mut ids: Vec<(u32, u64, u64)> = self.items.iter().map(|i| (i.0, other_at, 4)).collect();
        if with_exif {
            let k = if self.loc_pos == usize::MAX { self.exif_pos } else { self.loc_pos };
            ids.insert(ids.len().min(k), (self.exif_id, item_at, item_len));
        }
        if self.iloc_ver < 2 {
            b.extend((ids.len() as u16).to_be_bytes());
        } else {
            b.extend((ids.len() as u32).to_be_bytes());
        }
        for (id, at, len) in ids {
            if self.iloc_ver < 2 {
                b.extend((id as u16).to_be_bytes());
            } else {
                b.extend(id.to_be_bytes());
            }
            let (extents, method, _) = self.odd_of(id);
            if self.iloc_ver > 0 {
                b.extend([0, method]);
            }
            b.extend([0, 0]);
            let base = match (self.base_size, self.off_size) {
                (0, _) => 0,
                (_, 0) => at,
                _ => self.base_part as u64 % (at + 1),
            };
            let (base, offset, len) = match self.astray {
                Some([b, o, l]) if with_exif && id == self.exif_id => (b, o, l),
                _ => (base, at - base, len),
            };
            b.extend(sized(base, self.base_size));
            b.extend(extents.to_be_bytes());
            for _ in 0..extents {
                if self.iloc_ver > 0 {
                    b.extend(sized(1, self.idx_size));
                }
                b.extend(sized(offset, self.off_size));
                b.extend(sized(len, self.len_size));
            }
        }
        full(b"iloc", self.iloc_ver, 0, &b)
    }
    fn meta(&self, with_exif: bool, at: u64, len: u64, other: u64) -> (Vec<u8>, usize) {
        let (iinf, iloc) = (self.iinf(with_exif), self.iloc(with_exif, at, len, other));
        let mut b = vec![];
        let mut iloc_at = 0;
        for (k, x) in self.kids.iter().enumerate() {
            if k == self.kid_split {
                Self::pair(&mut b, &iinf, &iloc, self.iloc_first, &mut iloc_at);
            }
            b.extend_from_slice(x);
        }
        if self.kid_split >= self.kids.len() {
            Self::pair(&mut b, &iinf, &iloc, self.iloc_first, &mut iloc_at);
        }
        let m = fullh(self.meta_h, b"meta", 0, 0, &b);
        let hs = m.len() - b.len();
        (m, iloc_at + hs)
    }
    fn pair(b: &mut Vec<u8>, iinf: &[u8], iloc: &[u8], first: bool, at: &mut usize) {
        if first {
            *at = b.len();
            b.extend_from_slice(iloc);
            b.extend_from_slice(iinf);
        } else {
            b.extend_from_slice(iinf);
            *at = b.len();
            b.extend_from_slice(iloc);
        }
    }
    pub fn encode(&self, tiff: Option<&[u8]>) -> Heif {
        // ExifDataBlock: exif_tiff_header_offset, then that many bytes, then TIFF
        let item = tiff.map(|x| {
            let mut d = (self.prefix.len() as u32).to_be_bytes().to_vec();
            d.extend_from_slice(&self.prefix);
            d.extend_from_slice(x);
            d
        });
        let ilen = item.as_ref().map_or(0, |d| d.len());
        let mut b = ftyp(&self.major, 0, &self.compat);
        for p in &self.pre {
            b.extend_from_slice(p);
        }
        let mut mdat_body = self.before.clone();
        if let Some(i) = &item {
            mdat_body.extend_from_slice(i);
        }
        mdat_body.extend_from_slice(&self.after);
        let mdat = if self.gap == 0 && self.open && !self.mdat_first && self.tail.is_empty() {
            to_end(b"mdat", &mdat_body)
        } else if self.gap == 0 {
            bxh(self.mdat_h, b"mdat", &mdat_body)
        } else {
            [large_header(b"mdat", mdat_body.len() as u64 + self.gap), mdat_body.clone()].concat()
        };
        let mh = mdat.len() - mdat_body.len();
        let meta_len = self.meta(tiff.is_some(), 0, 0, 0).0.len();
        let mid: usize = self.mid.iter().map(|m| m.len()).sum();
        let mdat_at = if self.mdat_first { b.len() } else { b.len() + meta_len + mid };
        let item_at = mdat_at + mh + self.before.len();
        let (meta, iloc_rel) = self.meta(tiff.is_some(), item_at as u64 + self.gap, ilen as u64, (mdat_at + mh) as u64);
        let iloc_at;
        let meta_end;
        if self.mdat_first {
            b.extend_from_slice(&mdat);
            iloc_at = b.len() + iloc_rel;
            b.extend_from_slice(&meta);
            meta_end = b.len();
            for m in &self.mid {
                b.extend_from_slice(m);
            }
        } else {
            iloc_at = b.len() + iloc_rel;
            b.extend_from_slice(&meta);
            meta_end = b.len();
            for m in &self.mid {
                b.extend_from_slice(m);
            }
            b.extend_from_slice(&mdat);
        }
        for x in &self.tail {
            b.extend_from_slice(x);
        }
        Heif { bytes: b, meta_end, item_at, iloc_at, gap_at: mdat_at + mh }
    }
}

/// Header of a box with a 64-bit size.
pub fn large_header(ty: &[u8; 4], body: u64) -> Vec<u8> {
    let mut b = 1u32.to_be_bytes().to_vec();
    b.extend(ty);
    b.extend((body + 16).to_be_bytes());
    b
}

// -------------------------------------------------------------------- CR3

pub const CANON_UUID: [u8; 16] = [
    0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48,
];
/// CMT1, CMT2, CMT3 (maker notes), CMT4 (GPS) as in real files.
pub fn cr3(t: &mut Tape, cmt1: &[u8], cmt2: Option<&[u8]>, big: bool) -> Vec<u8> {
    cr3_with(t, Some(cmt1), cmt2, big)
}
/// Without CMT1 there is no Canon box at all.
pub fn cr3_with(t: &mut Tape, cmt1: Option<&[u8]>, cmt2: Option<&[u8]>, big: bool) -> Vec<u8> {
    let mut u = CANON_UUID.to_vec();
    if t.chance(1, 2) {
        u.extend(bx(b"CNCV", b"CanonCR3_001/00.10.00/00.00.00"));
    }
    if t.chance(1, 2) {
        let n = t.size(40, 300);
        u.extend(bx(b"CCTP", &t.fill(n)));
    }
    for b in tiny_boxes(t) {
        u.extend(b);
    }
    let (h1, h2) = (h(t), h(t));
    let mut cmt = vec![bxh(h1, b"CMT1", cmt1.unwrap_or_default())];
    if let Some(c) = cmt2 {
        cmt.push(bxh(h2, b"CMT2", c));
    }
    if t.chance(1, 5) {
        // in any order, with others between
        let n = t.size(9, 60);
        cmt.push(bx(b"CNTH", &t.fill(n)));
        t.shuffle(&mut cmt);
    }
    u.extend(cmt.concat());
    if t.chance(1, 2) {
        let n = t.size(60, if big { 40_000 } else { 900 });
        let mut mk = b"II*\0\x08\0\0\0\0\0\0\0\0\0".to_vec();
        mk.extend(t.fill(n));
        u.extend(bx(b"CMT3", &mk));
    }
    if t.chance(1, 3) {
        let n = t.size(60, if big { 20_000 } else { 400 });
        u.extend(bx(b"THMB", &t.fill(n)));
    }
    let mut moov = vec![];
    if t.chance(1, 4) {
        moov.extend(noise_box(t, false));
    }
    for b in tiny_boxes(t) {
        moov.extend(b);
    }
    if t.chance(1, 3) {
        // what only looks like Canon's box: too short, somebody else's, not a box of that type
        let fake = |t: &mut Tape| -> Vec<u8> {
            let mut d = b"II*\0\x08\0\0\0\x01\0\x0e\x01\x02\0\x04\0\0\0abc\0\0\0\0\0".to_vec();
            let n = t.size(0, 40);
            d.extend(t.fill(n));
            bx(*t.pick(&[b"CMT1", b"CMT2"]), &d)
        };
        for _ in 0..t.range(1, 3) {
            let x = match t.below(5) {
                0 => {
                    let n = t.below(16);
                    bx(b"uuid", &CANON_UUID[..n])
                }
                1 => {
                    let mut u = CANON_UUID;
                    u[t.below(16)] ^= 1 << t.below(8);
                    bx(b"uuid", &[&u[..], &fake(t)].concat())
                }
                2 => bx(*t.pick(&[b"free", b"udta", b"Uuid"]), &[&CANON_UUID[..], &fake(t)].concat()),
                3 => bx(b"udta", &bx(b"uuid", &[&CANON_UUID[..], &fake(t)].concat())),
                _ => fake(t),
            };
            moov.extend(x);
        }
    }
    let uh = h(t);
    let uuid = if cmt1.is_some() { bxh(uh, b"uuid", &u) } else { vec![] };
    let last = t.chance(1, 6);
    if !last {
        moov.extend(&uuid);
    }
    moov.extend(mvhd(&Mvhd { ver: 0, ctime: 3_700_000_000, scale: 1, dur: 1 }));
    if t.chance(1, 2) {
        moov.extend(bx(b"trak", &tkhd(0, 1, 100, 100)));
    }
    if last {
        moov.extend(&uuid);
    }
    let mut b = ftyp(b"crx ", 1, &[*b"crx ", *b"isom"]);
    let mh = h(t);
    if t.chance(1, 5) {
        b.extend(noise_box(t, big));
    }
    if t.chance(1, 5) {
        // Canon's box only counts in the movie box
        let d = b"II*\0\x08\0\0\0\x01\0\x0e\x01\x02\0\x04\0\0\0abc\0\0\0\0\0";
        b.extend(bx(b"uuid", &[&CANON_UUID[..], &bx(b"CMT1", d)].concat()));
    }
    let n = t.size(100, 3000);
    let mdat = bx(b"mdat", &t.fill(n));
    // the moov box may close the file, its last CMT box with it
    let order = t.below(8);
    if order == 0 {
        b.extend(&mdat);
    }
    b.extend(bxh(mh, b"moov", &moov));
    if order == 2 {
        b.extend(to_end(b"mdat", &mdat[8..]));
    } else if order > 1 {
        b.extend(&mdat);
    }
    b
}

// ----------------------------------------------------------------- tracks

#[derive(Clone, Debug)]
pub struct Mvhd {
    pub ver: u8,
    pub ctime: u64,
    pub scale: u32,
    pub dur: u64,
}
pub fn mvhd(m: &Mvhd) -> Vec<u8> {
    let mut b = vec![];
    if m.ver == 1 {
        b.extend(m.ctime.to_be_bytes());
        b.extend(m.ctime.to_be_bytes());
        b.extend(m.scale.to_be_bytes());
        b.extend(m.dur.to_be_bytes());
    } else {
        b.extend((m.ctime as u32).to_be_bytes());
        b.extend((m.ctime as u32).to_be_bytes());
        b.extend(m.scale.to_be_bytes());
        b.extend((m.dur as u32).to_be_bytes());
    }
    b.extend([0, 1, 0, 0, 1, 0, 0, 0, 0, 0]);
    b.extend([0u8; 8]);
    b.extend(matrix());
    b.extend([0u8; 24]);
    b.extend(3u32.to_be_bytes());
    full(b"mvhd", m.ver, 0, &b)
}
fn matrix() -> Vec<u8> {
    let mut b = vec![];
    for v in [0x10000u32, 0, 0, 0, 0x10000, 0, 0, 0, 0x4000_0000] {
        b.extend(v.to_be_bytes());
    }
    b
}
pub fn tkhd(ver: u8, id: u32, w: u16, hgt: u16) -> Vec<u8> {
    let mut b = vec![];
    if ver == 1 {
        b.extend(3_700_000_000u64.to_be_bytes());
        b.extend(3_700_000_001u64.to_be_bytes());
        b.extend(id.to_be_bytes());
        b.extend([0u8; 4]);
        b.extend(77_777u64.to_be_bytes());
    } else {
        b.extend(3_700_000_000u32.to_be_bytes());
        b.extend(3_700_000_001u32.to_be_bytes());
        b.extend(id.to_be_bytes());
        b.extend([0u8; 4]);
        b.extend(77_777u32.to_be_bytes());
    }
    b.extend([0u8; 8]);
    b.extend([0u8; 8]); // layer, alternate group, volume, reserved
    b.extend(matrix());
    b.extend(((w as u32) << 16).to_be_bytes());
    b.extend(((hgt as u32) << 16).to_be_bytes());
    full(b"tkhd", ver, 7, &b)
}
pub fn hdlr(sub: &[u8; 4]) -> Vec<u8> {
    hdlr_named(sub, b"\x08Handler\0")
}
/// The name is counted or ends in a zero; neither when it is empty.
pub fn hdlr_named(sub: &[u8; 4], name: &[u8]) -> Vec<u8> {
    let mut b = b"mhlr".to_vec();
    b.extend(sub);
    b.extend([0u8; 12]);
    b.extend(name);
    full(b"hdlr", 0, 0, &b)
}
pub fn trak(t: &mut Tape, sub: &[u8; 4], ver: u8, id: u32, w: u16, hgt: u16) -> Vec<u8> {
    let mut mdia = vec![];
    if t.chance(1, 2) {
        mdia.push(full(b"mdhd", 0, 0, &[0u8; 20]));
    }
    let name: &[u8] = match t.below(6) {
        0 => b"",
        1 => b"\0",
        2 => b"VideoHandler\0",
        _ => b"\x08Handler\0",
    };
    mdia.push(hdlr_named(sub, name));
    let n = t.size(60, 2000);
    let mut minf = bx(b"stbl", &bx(b"stsz", &t.fill(n)));
    if t.chance(1, 4) {
        // QuickTime has a handler for the data, too
        let of = *t.pick(&[b"alis", b"url ", b"vide", b"soun"]);
        minf.splice(0..0, [full(b"vmhd", 0, 1, &[0; 8]), full(b"hdlr", 0, 0, &[&b"dhlr"[..], of, &[0; 13]].concat())].concat());
    }
    mdia.push(bx(b"minf", &minf));
    if t.chance(1, 6) {
        t.shuffle(&mut mdia);
    }
    let mut b = vec![tkhd(ver, id, w, hgt)];
    if t.chance(1, 3) {
        b.push(bx(b"edts", &full(b"elst", 0, 0, &[0u8; 16])));
    }
    b.push(bx(b"mdia", &mdia.concat()));
    match t.below(12) {
        0 => b.push(bx(b"tref", &bx(b"cdsc", &[0, 0, 0, 1]))),
        1 => b.push(bx(b"udta", &bx(b"name", b"main track"))),
        2 => {
            let entry = ("com.apple.quicktime.camera.lens_model".to_string(), 1, b"back camera".to_vec());
            b.push(qt_meta(&[entry], &[0], false));
        }
        _ => {}
    }
    if t.chance(1, 10) {
        t.shuffle(&mut b);
    }
    if t.chance(1, 5) {
        b.insert(0, noise_box(t, false));
    }
    bx(b"trak", &b.concat())
}
/// QuickTime metadata: keys + ilst, one value box per entry.
pub fn qt_meta(entries: &[(String, u32, Vec<u8>)], order: &[usize], full_meta: bool) -> Vec<u8> {
    qt_meta_with(entries, order, full_meta, &mut || (vec![], vec![]))
}
/// The same with what `around` puts before and after each value within its item.
pub fn qt_meta_with(entries: &[(String, u32, Vec<u8>)], order: &[usize], full_meta: bool, around: &mut dyn FnMut() -> (Vec<u8>, Vec<u8>)) -> Vec<u8> {
    let mut k = (entries.len() as u32).to_be_bytes().to_vec();
    for (key, _, _) in entries {
        k.extend(((key.len() + 8) as u32).to_be_bytes());
        k.extend(b"mdta");
        k.extend(key.as_bytes());
    }
    let mut il = vec![];
    for &i in order {
        let (_, ty, v) = &entries[i];
        let mut d = ty.to_be_bytes().to_vec();
        d.extend([0, 0, 0, 0]);
        d.extend_from_slice(v);
        let (before, after) = around();
        let item = [before, bx(b"data", &d), after].concat();
        il.extend(((item.len() + 8) as u32).to_be_bytes());
        il.extend((i as u32 + 1).to_be_bytes());
        il.extend(item);
    }
    let mut hb = [0u8; 4].to_vec();
    hb.extend(b"mdta");
    hb.extend([0u8; 13]);
    let b = [full(b"hdlr", 0, 0, &hb), full(b"keys", 0, 0, &k), bx(b"ilst", &il)].concat();
    if full_meta {
        full(b"meta", 0, 0, &b)
    } else {
        bx(b"meta", &b)
    }
}
/// Packed ISO 639-2/T language code.
fn lang(t: &mut Tape) -> [u8; 2] {
    let l = **t.pick(&[b"und", b"eng", b"jpn", b"deu", b"zho"]);
    let v = l.iter().fold(0u16, |a, c| a << 5 | (c - 0x60) as u16);
    v.to_be_bytes()
}
/// Android-style location box in udta: size, language and text, at times with a
/// second text in another language behind it.
pub fn udta_xyz(t: &mut Tape, s: &str) -> Vec<u8> {
    let mut b = (s.len() as u16).to_be_bytes().to_vec();
    b.extend(lang(t));
    b.extend(s.as_bytes());
    if t.chance(1, 5) {
        b.extend((s.len() as u16).to_be_bytes());
        b.extend(lang(t));
        b.extend(s.as_bytes());
    } else if t.chance(1, 6) {
        b.extend([0; 4]);
    }
    bx(&[0xA9, b'x', b'y', b'z'], &b)
}
/// 3GPP author box in udta, in UTF-8 or behind a byte order mark in UTF-16.
pub fn udta_auth(t: &mut Tape, s: &str) -> Vec<u8> {
    let mut b = lang(t).to_vec();
    if t.chance(1, 4) {
        b.extend([0xfe, 0xff]);
        b.extend(s.encode_utf16().flat_map(u16::to_be_bytes));
        b.extend([0, 0]);
    } else {
        b.extend(s.as_bytes());
        b.push(0);
    }
    full(b"auth", 0, 0, &b)
}
