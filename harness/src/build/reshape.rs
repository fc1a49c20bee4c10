//! Structure-preserving damage: a file is taken apart into its nested units
//! (boxes, elements, segments, chunks), units are shortened, extended, moved,
//! repeated, dropped or retyped, and the file is put together again with every
//! enclosing size made to fit. The result is well nested, so that the odd unit
//! reaches the code that reads it.
use super::ebml;
use crate::tape::Tape;

#[derive(Clone, Debug)]
struct Node {
    ty: Vec<u8>,
    /// bytes between the header and the children (or nothing)
    pre: Vec<u8>,
    kids: Vec<Node>,
    body: Vec<u8>,
    leaf: bool,
    /// BMFF: 64-bit size; EBML: width of the size
    w: u8,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
    Bmff,
    Ebml,
    Jpeg,
    Png,
}

const MASTERS: [&[u8; 4]; 12] = [
    b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"edts", b"dinf", b"iprp", b"ipco", b"moof", b"ilst",
];
const EBML_MASTERS: [u32; 16] = [
    0x1A45DFA3, 0x18538067, 0x114D9B74, 0x4DBB, 0x1549A966, 0x1654AE6B, 0xAE, 0xE0, 0xE1, 0x1254C367, 0x7373, 0x63C0, 0x67C8, 0x1F43B675, 0x1C53BB6B,
    0xBB,
];

fn be32(b: &[u8], p: usize) -> Option<u32> {
    b.get(p..p + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap()))
}

/// Splits `b` into boxes; None when it does not split evenly.
fn boxes(b: &[u8], depth: usize, in_ilst: bool) -> Option<Vec<Node>> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let size = be32(b, p)? as usize;
        let ty = b.get(p + 4..p + 8)?.to_vec();
        let (h, size, w) = match size {
            1 => {
                let n = u64::from_be_bytes(b.get(p + 8..p + 16)?.try_into().unwrap());
                (16, usize::try_from(n).ok()?, 1)
            }
            n => (8, n, 0),
        };
        if size < h || size > b.len() - p {
            // the rest of the file, as it is
            if depth > 0 {
                return None;
            }
            out.push(Node { ty: vec![], pre: vec![], kids: vec![], body: b[p..].to_vec(), leaf: true, w: 0 });
            return Some(out);
        }
        let body = &b[p + h..p + size];
        let t4: [u8; 4] = ty[..].try_into().unwrap();
        let pre = match &t4 {
            b"meta" if body.get(4..8) == Some(b"hdlr") => Some(0),
            b"meta" => Some(4),
            b"iinf" => Some(if body.first() == Some(&0) { 6 } else { 8 }),
            b"iref" => Some(4),
            b"keys" | b"dref" => Some(8),
            b"uuid" => Some(16),
            x if MASTERS.contains(&x) => Some(0),
            _ if in_ilst => Some(0),
            _ => None,
        };
        let kids = pre
            .filter(|_| depth < 12)
            .and_then(|n| Some((body.get(..n)?.to_vec(), boxes(body.get(n..)?, depth + 1, &t4 == b"ilst")?)));
        let leaf = kids.is_none();
        let (pre, kids) = kids.unwrap_or_default();
        out.push(Node { ty, pre, kids, body: if leaf { body.to_vec() } else { vec![] }, leaf, w });
        p += size;
    }
    Some(out)
}

fn elements(b: &[u8], depth: usize) -> Option<Vec<Node>> {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let n = b[p].leading_zeros() as usize + 1;
        let ty = b.get(p..p + n).filter(|_| n <= 4)?.to_vec();
        let w = b.get(p + n)?.leading_zeros() as usize + 1;
        let raw = b.get(p + n..p + n + w).filter(|_| w <= 8)?;
        let mut size = raw[0] as u64 & ((1u64 << (8 - w)) - 1);
        for x in &raw[1..] {
            size = size << 8 | *x as u64;
        }
        let start = p + n + w;
        let open = size == (1u64 << (7 * w)) - 1;
        let size = if open { b.len() - start } else { usize::try_from(size).ok()? };
        if size > b.len() - start {
            if depth > 0 {
                return None;
            }
            out.push(Node { ty: vec![], pre: vec![], kids: vec![], body: b[p..].to_vec(), leaf: true, w: 0 });
            return Some(out);
        }
        let body = &b[start..start + size];
        let id = ty.iter().fold(0u32, |a, x| a << 8 | *x as u32);
        let kids = if EBML_MASTERS.contains(&id) && depth < 12 { elements(body, depth + 1) } else { None };
        let leaf = kids.is_none();
        out.push(Node { ty, pre: vec![], kids: kids.unwrap_or_default(), body: if leaf { body.to_vec() } else { vec![] }, leaf, w: w as u8 });
        p = start + size;
    }
    Some(out)
}

fn segments(b: &[u8]) -> Vec<Node> {
    let mut out = vec![];
    let mut p = 2;
    while b.len() > p + 4 && b[p] == 0xFF && b[p + 1] != 0xDA && b[p + 1] != 0xD9 {
        let n = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize;
        if n < 2 || p + 2 + n > b.len() {
            break;
        }
        out.push(Node { ty: vec![b[p + 1]], pre: vec![], kids: vec![], body: b[p + 4..p + 2 + n].to_vec(), leaf: true, w: 0 });
        p += 2 + n;
    }
    out.push(Node { ty: vec![], pre: vec![], kids: vec![], body: b[p.min(b.len())..].to_vec(), leaf: true, w: 0 });
    out
}

fn chunks(b: &[u8]) -> Vec<Node> {
    let mut out = vec![];
    let mut p = 8;
    while let (Some(n), Some(ty)) = (be32(b, p), b.get(p + 4..p + 8)) {
        let n = n as usize;
        let Some(body) = b.get(p + 8..(p + 8).saturating_add(n)) else { break };
        out.push(Node { ty: ty.to_vec(), pre: vec![], kids: vec![], body: body.to_vec(), leaf: true, w: 0 });
        p += 12 + n;
        if p > b.len() {
            break;
        }
    }
    if p < b.len() {
        out.push(Node { ty: vec![], pre: vec![], kids: vec![], body: b[p..].to_vec(), leaf: true, w: 0 });
    }
    out
}

fn write(f: Fmt, n: &Node, out: &mut Vec<u8>) {
    let mut b = n.pre.clone();
    for k in &n.kids {
        write(f, k, &mut b);
    }
    b.extend_from_slice(&n.body);
    if n.ty.is_empty() {
        out.extend(b);
        return;
    }
    match f {
        Fmt::Bmff => {
            if n.w == 1 {
                out.extend(1u32.to_be_bytes());
                out.extend_from_slice(&n.ty);
                out.extend((b.len() as u64 + 16).to_be_bytes());
            } else {
                out.extend((b.len() as u32 + 8).to_be_bytes());
                out.extend_from_slice(&n.ty);
            }
            out.extend(b);
        }
        Fmt::Ebml => {
            let mut w = n.w.clamp(1, 8) as usize;
            while w < 8 && b.len() as u64 >= (1u64 << (7 * w)) - 1 {
                w += 1;
            }
            out.extend_from_slice(&n.ty);
            out.extend(ebml::vint(b.len() as u64, w));
            out.extend(b);
        }
        Fmt::Jpeg => {
            b.truncate(65533);
            out.extend([0xFF, n.ty[0]]);
            out.extend((b.len() as u16 + 2).to_be_bytes());
            out.extend(b);
        }
        Fmt::Png => {
            out.extend((b.len() as u32).to_be_bytes());
            let c = super::png::crc(&[&n.ty[..], &b[..]].concat());
            out.extend_from_slice(&n.ty);
            out.extend(b);
            out.extend(c.to_be_bytes());
        }
    }
}

fn count(ns: &[Node]) -> usize {
    ns.iter().map(|n| 1 + count(&n.kids)).sum()
}
/// The list that holds node number `k` (in preorder), and its place there.
fn locate(ns: &mut Vec<Node>, k: &mut usize) -> Option<(*mut Vec<Node>, usize)> {
    for i in 0..ns.len() {
        if *k == 0 {
            return Some((ns as *mut _, i));
        }
        *k -= 1;
        if let Some(r) = locate(&mut ns[i].kids, k) {
            return Some(r);
        }
    }
    None
}
fn with<T>(ns: &mut Vec<Node>, mut k: usize, f: impl FnOnce(&mut Vec<Node>, usize) -> T) -> Option<T> {
    let (l, i) = locate(ns, &mut k)?;
    // SAFETY: the pointer comes from the tree borrowed mutably here
    Some(f(unsafe { &mut *l }, i))
}

fn edit(t: &mut Tape, ns: &mut Vec<Node>) {
    let n = count(ns);
    if n == 0 {
        return;
    }
    let k = t.below(n);
    let other = t.below(n);
    match t.below(10) {
        // a leaf gets a short (or slightly other) body
        0..=4 => {
            // prefer leaves: walk on from k to the next one
            let mut k = k;
            for _ in 0..n {
                if with(ns, k, |l, i| l[i].leaf && !l[i].ty.is_empty()) == Some(true) {
                    break;
                }
                k = (k + 1) % n;
            }
            let how = t.below(5);
            let (a, fill) = (t.below(20), t.fill(24));
            with(ns, k, |l, i| {
                let b = if l[i].leaf { &mut l[i].body } else { &mut l[i].pre };
                let len = b.len();
                match how {
                    0 => b.truncate(a % 6),
                    1 => b.truncate(a),
                    2 => b.truncate(len.saturating_sub(1 + a % 8)),
                    3 => b.extend(&fill[..1 + a]),
                    _ => b.resize(len + a, 0),
                }
            });
        }
        5 => {
            with(ns, k, |l, i| {
                l.remove(i);
            });
        }
        6 => {
            let at = t.below(8);
            with(ns, k, |l, i| {
                let c = l[i].clone();
                let at = (i + at).min(l.len());
                l.insert(at, c);
            });
        }
        7 => {
            if let Some(c) = with(ns, k, |l, i| l[i].clone()) {
                // a unit inside or beside another one
                let inside = t.chance(1, 2);
                with(ns, other, |l, i| {
                    if inside && !l[i].leaf && count(&l[i].kids) < 400 {
                        l[i].kids.push(c);
                    } else {
                        l.insert(i, c);
                    }
                });
            }
        }
        8 => {
            // the type of another unit of the file
            if let Some(ty) = with(ns, other, |l, i| l[i].ty.clone()) {
                with(ns, k, |l, i| {
                    if !ty.is_empty() && !l[i].ty.is_empty() {
                        l[i].ty = ty;
                    }
                });
            }
        }
        _ => {
            let w = t.below(9) as u8;
            with(ns, k, |l, i| {
                let j = (i + 1) % l.len();
                l.swap(i, j);
                l[i].w = w;
            });
        }
    }
}

/// One to `max` edits; the number made (0: the bytes have no known structure).
pub fn reshape(t: &mut Tape, b: &mut Vec<u8>, max: usize) -> usize {
    let (f, nodes, head) = if b.starts_with(&[0xFF, 0xD8]) {
        (Fmt::Jpeg, Some(segments(b)), 2)
    } else if b.starts_with(b"\x89PNG\r\n\x1a\n") {
        (Fmt::Png, Some(chunks(b)), 8)
    } else if b.starts_with(&[0x1A, 0x45, 0xDF, 0xA3]) {
        (Fmt::Ebml, elements(b, 0), 0)
    } else if b.get(4..8).is_some_and(|x| x.iter().all(|c| c.is_ascii_alphanumeric())) {
        (Fmt::Bmff, boxes(b, 0, false), 0)
    } else {
        return 0;
    };
    let Some(mut nodes) = nodes else { return 0 };
    let n = t.range(1, max);
    for _ in 0..n {
        edit(t, &mut nodes);
        if count(&nodes) > 3000 {
            break;
        }
    }
    let mut out = b[..head].to_vec();
    for x in &nodes {
        write(f, x, &mut out);
    }
    *b = out;
    n
}
