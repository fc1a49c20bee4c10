//! Fujifilm RAF: header then the embedded JPEG.
use crate::tape::Tape;
pub fn raf(t: &mut Tape, jpeg: &[u8], big: bool) -> Vec<u8> {
    let mut b = b"FUJIFILMCCD-RAW ".to_vec();
    b.extend(*t.pick(&[b"0201", b"0201", b"0200", b"0150", b"\0\0\0\0"]));
    if t.chance(1, 3) {
        b.extend(t.fill(8));
    } else {
        b.extend(b"FF159502");
    }
    let n = t.range(3, 31);
    // The name ends at a NUL, or fills its 32 bytes; whatever it is, nothing depends on it.
    let mut cam = match t.below(8) {
        0..=3 => b"X-T5".to_vec(),
        4 => t.word(32).into_bytes(),
        5 => t.fill(n),
        6 => vec![],
        _ => t.word(n).into_bytes(),
    };
    cam.resize(32, 0);
    if t.chance(1, 8) {
        cam[31] = b'x';
    }
    b.extend(cam);
    b.extend(*t.pick(&[b"0100", b"0100", b"0159", b"\0\0\0\0"]));
    if t.chance(1, 4) {
        b.extend(t.fill(20));
    } else {
        b.extend([0u8; 20]);
    }
    let gap = if big && t.chance(1, 3) {
        let top = *t.pick(&[60_000usize, 60_000, 150_000, 400_000]);
        t.range(8000, top)
    } else { t.size(60, 600) };
    let off = b.len() + 4 + 4 + 16 + gap;
    b.extend((off as u32).to_be_bytes());
    b.extend((jpeg.len() as u32).to_be_bytes());
    b.extend([0u8; 16]);
    b.extend(t.fill(gap));
    b.extend_from_slice(jpeg);
    let n = t.size(100, 2000);
    b.extend(t.fill(n));
    b
}
