//! PNG: chunks with real CRCs.
use crate::tape::Tape;

pub const SIG: &[u8; 8] = b"\x89PNG\r\n\x1a\n";

pub fn crc(b: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for n in 0..256u32 {
            let mut c = n;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            t[n as usize] = c;
        }
        t
    });
    let mut c = u32::MAX;
    for x in b {
        c = t[((c ^ *x as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub ty: [u8; 4],
    pub data: Vec<u8>,
}
pub fn chunk(ty: &[u8; 4], data: &[u8]) -> Chunk {
    Chunk { ty: *ty, data: data.to_vec() }
}
pub fn text_chunk(key: &[u8], val: &[u8]) -> Chunk {
    let mut d = key.to_vec();
    d.push(0);
    d.extend_from_slice(val);
    Chunk { ty: *b"tEXt", data: d }
}
pub fn ihdr() -> Chunk {
    chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0])
}

#[derive(Clone, Debug, Default)]
pub struct Png {
    pub chunks: Vec<Chunk>,
    pub trailer: Vec<u8>,
}
impl Png {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = SIG.to_vec();
        let mut put = |c: &Chunk| {
            b.extend((c.data.len() as u32).to_be_bytes());
            let at = b.len();
            b.extend(c.ty);
            b.extend_from_slice(&c.data);
            let k = crc(&b[at..]);
            b.extend(k.to_be_bytes());
        };
        put(&ihdr());
        for c in &self.chunks {
            put(c);
        }
        put(&chunk(b"IEND", b""));
        b.extend_from_slice(&self.trailer);
        b
    }
}

pub fn latin1(b: &[u8]) -> String {
    b.iter().map(|&x| x as char).collect()
}

/// ImageMagick-style raw profile text.
pub fn raw_profile(kind: &str, data: &[u8], upper: bool, width: usize) -> Vec<u8> {
    let mut s = format!("\n{kind}\n{:8}\n", data.len());
    let mut col = 0;
    for x in data {
        s.push_str(&if upper { format!("{x:02X}") } else { format!("{x:02x}") });
        col += 1;
        if col == width {
            s.push('\n');
            col = 0;
        }
    }
    s.push('\n');
    s.into_bytes()
}

/// The same profile as other writers would lay it out: other line ends, blanks
/// between the digits, mixed case.
pub fn relaid(t: &mut Tape, text: Vec<u8>) -> Vec<u8> {
    if !t.chance(1, 3) {
        return text;
    }
    let crlf = t.chance(1, 2);
    let blank = *t.pick(&[0usize, 0, 1, 2, 4, 7]);
    let (tab, mixed) = (t.chance(1, 3), t.chance(1, 3));
    let mut out = vec![];
    let (mut lines, mut col) = (0, 0);
    for b in text {
        if b == b'\n' {
            lines += 1;
            if crlf {
                out.push(b'\r');
            }
            out.push(b);
            continue;
        }
        if lines < 3 {
            out.push(b);
            continue;
        }
        col += 1;
        out.push(if mixed && col % 3 == 0 { b.to_ascii_uppercase() } else { b });
        if blank > 0 && col % blank == 0 {
            out.push(if tab { b'\t' } else { b' ' });
        }
    }
    out
}

pub fn noise_chunk(t: &mut Tape, big: bool) -> Chunk {
    let n = if big && t.chance(1, 2) { t.range(8000, 90_000) } else { t.size(50, 1500) };
    match t.below(11) {
        8 => {
            // types that differ in case only are other types
            let ty = **t.pick(&[b"exIf", b"eXif", b"EXIF", b"zxIf"]);
            Chunk { ty, data: [&b"II*\0\x08\0\0\0\x01\0\x10\x01\x02\0\x04\0\0\0ABC\0\0\0\0\0"[..], &t.fill(n)].concat() }
        }
        9 => {
            let ty = **t.pick(&[b"TEXt", b"teXt", b"text", b"tEXT"]);
            Chunk { ty, data: [&b"Comment\0not text"[..], &t.fill(n)].concat() }
        }
        10 => {
            let ty = **t.pick(&[b"PLTE", b"gAMA", b"cHRM", b"sRGB", b"tRNS", b"bKGD", b"acTL", b"fcTL", b"fdAT", b"iend", b"IDat"]);
            Chunk { ty, data: t.fill(n.min(300)) }
        }
        0 | 1 => Chunk { ty: *b"IDAT", data: t.fill(n) },
        2 => Chunk { ty: *b"pHYs", data: vec![0, 0, 11, 19, 0, 0, 11, 19, 1] },
        3 => Chunk { ty: *b"iCCP", data: [b"icc\0\0".to_vec(), t.fill(n)].concat() },
        4 => Chunk { ty: *b"zTXt", data: [b"Comment\0\0".to_vec(), t.fill(n)].concat() },
        5 => Chunk { ty: *b"iTXt", data: [b"Title\0\0\0en\0\0".to_vec(), t.ascii(n.min(3000)).into_bytes()].concat() },
        6 => Chunk { ty: *b"prVt", data: t.fill(n) },
        _ => Chunk { ty: *b"tIME", data: vec![7, 0xE8, 1, 2, 3, 4, 5] },
    }
}

/// Many small chunks: text with keywords of their own, or other ones.
pub fn crowd(t: &mut Tape) -> Vec<(Chunk, bool)> {
    let many = t.crowd();
    if many == 0 {
        return vec![];
    }
    let (kind, s, same) = (t.below(3), t.u32(), t.chance(1, 4));
    (0..many)
        .map(|k| {
            if kind == 2 || (kind == 1 && k % 2 == 1) {
                (Chunk { ty: *b"prVt", data: crate::tape::expand(s, k % 29) }, false)
            } else {
                let key = if same { "Note".to_string() } else { format!("Key{}", s.wrapping_add(k as u32)) };
                (text_chunk(key.as_bytes(), format!("value {k}").as_bytes()), true)
            }
        })
        .collect()
}

/// PNG keyword: 1..79 Latin-1 printable bytes.
pub fn keyword(t: &mut Tape) -> Vec<u8> {
    match t.below(4) {
        0 => t.pick(&["Title", "Author", "Comment", "Software", "Description", "Creation Time"]).as_bytes().to_vec(),
        1 => {
            let n = t.range(1, 79);
            t.word(n).into_bytes()
        }
        2 => {
            let n = t.range(1, 12);
            t.fill(n).into_iter().map(|b| 0xA1 + b % 95).collect()
        }
        _ => {
            let n = t.range(1, 20);
            t.ascii(n).into_bytes()
        }
    }
}
pub fn text_value(t: &mut Tape, big: bool) -> Vec<u8> {
    let n = if big && t.chance(1, 6) { t.range(5_000, 60_000) } else { t.size(30, 600) };
    match t.below(3) {
        0 => t.ascii(n).into_bytes(),
        1 => t.fill(n).into_iter().map(|b| if b == 0 { b'\n' } else { b }).collect(),
        _ => t.fill(n).into_iter().map(|b| 0xA0 | b).collect(),
    }
}
