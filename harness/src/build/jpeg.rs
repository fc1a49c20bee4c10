//! JPEG: a list of marker segments, scan data, trailer.
use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Seg {
    pub marker: u8,
    pub data: Vec<u8>,
}
pub fn seg(marker: u8, data: &[u8]) -> Seg {
    Seg { marker, data: data.to_vec() }
}
pub fn exif_seg(tiff: &[u8]) -> Seg {
    let mut d = b"Exif\0\0".to_vec();
    d.extend_from_slice(tiff);
    Seg { marker: 0xE1, data: d }
}
pub const XMP_NS: &[u8] = b"http://ns.adobe.com/xap/1.0/\0";
pub fn xmp_seg(xml: &[u8]) -> Seg {
    let mut d = XMP_NS.to_vec();
    d.extend_from_slice(xml);
    Seg { marker: 0xE1, data: d }
}

#[derive(Clone, Debug, Default)]
pub struct Jpeg {
    pub segs: Vec<Seg>,
    /// entropy-coded data after SOS
    pub scan: Vec<u8>,
    /// segments between scans (progressive)
    pub no_scan: bool,
    pub trailer: Vec<u8>,
    /// fill bytes in front of each marker, in turn
    pub fill: Vec<u8>,
}
impl Jpeg {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![0xFF, 0xD8];
        let pad = |b: &mut Vec<u8>, k: usize| {
            if let Some(n) = self.fill.get(k % self.fill.len().max(1)) {
                b.extend(vec![0xFF; *n as usize]);
            }
        };
        for (k, s) in self.segs.iter().enumerate() {
            pad(&mut b, k);
            b.extend([0xFF, s.marker]);
            assert!(s.data.len() <= 65533, "segment too long");
            b.extend(((s.data.len() + 2) as u16).to_be_bytes());
            b.extend_from_slice(&s.data);
        }
        pad(&mut b, self.segs.len());
        if !self.no_scan {
            b.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0]);
            b.extend_from_slice(&self.scan);
        }
        b.extend([0xFF, 0xD9]);
        b.extend_from_slice(&self.trailer);
        b
    }
}

pub const PLAIN_XMP: &str = "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF><rdf:Description rdf:about=\"\" xmp:Rating=\"3\"/></rdf:RDF></x:xmpmeta>";

/// A metadata-free segment that may legally surround EXIF.
pub fn noise_seg(t: &mut Tape, big: bool) -> Seg {
    let n = if big && t.chance(1, 3) { t.range(4000, 65533) } else { t.size(40, 900) };
    match t.below(14) {
        13 => {
            // the identifier counts in APP1 only
            let mut d = [&b"Exif\0\0"[..], &b"Meta\0\0"[..]][t.below(2)].to_vec();
            d.extend(b"II*\0\x08\0\0\0\x01\0\x10\x01\x02\0\x04\0\0\0ABC\0\0\0\0\0");
            d.extend(t.fill(n.min(65000)));
            Seg { marker: 0xE2 + t.below(13) as u8, data: d }
        }
        8 => {
            // a TIFF stream that is not Exif: the index of a multi-picture file
            let mut d = b"MPF\0II*\0\x08\0\0\0\x01\0\x10\x01\x02\0\x04\0\0\0ABC\0\0\0\0\0".to_vec();
            d.extend(t.fill(n.min(65000)));
            Seg { marker: 0xE2, data: d }
        }
        9 => Seg { marker: 0xDD, data: vec![0, 4] },
        10 => {
            let mut d = b"http://ns.adobe.com/xmp/extension/\0".to_vec();
            d.extend(t.fill(n.clamp(40, 65000)));
            Seg { marker: 0xE1, data: d }
        }
        11 => Seg { marker: 0xC4, data: t.fill(n.clamp(17, 300)) },
        0 => {
            let mut d = b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0".to_vec();
            d.truncate(14);
            Seg { marker: 0xE0, data: d }
        }
        1 => Seg { marker: 0xFE, data: t.fill(n) },
        2 => {
            let mut d = b"ICC_PROFILE\0\x01\x01".to_vec();
            d.extend(t.fill(n.min(65000)));
            Seg { marker: 0xE2, data: d }
        }
        3 => Seg { marker: 0xDB, data: t.fill(65) },
        4 => {
            let mut d = b"Photoshop 3.0\0".to_vec();
            d.extend(t.fill(n.min(65000)));
            Seg { marker: 0xED, data: d }
        }
        5 => {
            let mut x = PLAIN_XMP.as_bytes().to_vec();
            x.extend(std::iter::repeat(b' ').take(n.min(60000)));
            xmp_seg(&x)
        }
        6 => Seg { marker: 0xE3 + (t.below(12) as u8), data: t.fill(n) },
        7 => {
            // an APP1 that is neither EXIF nor XMP
            let mut d = b"Ducky".to_vec();
            d.extend(t.fill(n.min(65000)));
            d.truncate(if t.chance(1, 4) { t.below(6) } else { d.len() });
            Seg { marker: 0xE1, data: d }
        }
        _ => Seg { marker: 0xC0 + 2 * t.below(2) as u8, data: vec![8, 0, 16, 0, 16, 1, 1, 0x11, 0] },
    }
}

/// JPEG around an optional EXIF block.
pub fn gen_jpeg(t: &mut Tape, tiff: Option<&[u8]>, big: bool) -> Jpeg {
    let mut j = Jpeg::default();
    let before = t.size(2, 5);
    for _ in 0..before {
        let s = noise_seg(t, big);
        j.segs.push(s);
    }
    let many = t.crowd();
    if many > 0 {
        let (m, s) = (0xE2 + t.below(14) as u8, t.u32());
        let m = if m == 0xEF { 0xFE } else { m };
        j.segs.extend((0..many).map(|k| seg(m, &crate::tape::expand(s, k % 37))));
    }
    if let Some(x) = tiff {
        j.segs.push(exif_seg(x));
    }
    let after = t.size(2, 4);
    for _ in 0..after {
        let s = noise_seg(t, big);
        j.segs.push(s);
    }
    let n = t.size(60, if big { 40_000 } else { 2000 });
    j.scan = t.fill(n).into_iter().map(|b| if b == 0xFF { 0xFE } else { b }).collect();
    // Streams of at most 128 bytes are refused by contract.
    if j.scan.len() < 130 {
        j.scan.resize(130, 0x11);
    }
    if t.chance(1, 8) {
        j.fill = (0..3).map(|_| [0u8, 1, 2, 7, 255][t.below(5)]).collect();
    }
    j
}
