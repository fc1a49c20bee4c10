//! The case each shard is executing, in a shared memory-mapped file, so that the
//! parent process can name the case when the worker dies (stack overflow,
//! abort, work budget).
use std::sync::OnceLock;

const SLOT: usize = 64 * 1024;
static BASE: OnceLock<usize> = OnceLock::new();

pub fn init(path: &std::path::Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot file");
    f.set_len((SLOT * crate::runner::SHARDS) as u64).expect("slot size");
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), SLOT * crate::runner::SHARDS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    let _ = BASE.set(p as usize);
}

pub fn store(shard: usize, sub: &str, tape: &[u32]) {
    let Some(&b) = BASE.get() else { return };
    let mut buf = Vec::with_capacity(64 + tape.len() * 4);
    buf.extend_from_slice(&(sub.len() as u32).to_le_bytes());
    buf.extend_from_slice(sub.as_bytes());
    let n = tape.len().min((SLOT - 128) / 4);
    buf.extend_from_slice(&(n as u32).to_le_bytes());
    for x in &tape[..n] {
        buf.extend_from_slice(&x.to_le_bytes());
    }
    unsafe {
        std::ptr::copy_nonoverlapping(buf.as_ptr(), (b + shard * SLOT) as *mut u8, buf.len());
    }
}

pub fn load(path: &std::path::Path) -> Vec<(String, Vec<u32>)> {
    let d = std::fs::read(path).unwrap_or_default();
    let u = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
    let mut out = vec![];
    for s in 0..d.len() / SLOT {
        let o = s * SLOT;
        let l = u(o);
        if l == 0 || l > 100 {
            continue;
        }
        let name = String::from_utf8_lossy(&d[o + 4..o + 4 + l]).to_string();
        let n = u(o + 4 + l);
        let t0 = o + 8 + l;
        out.push((name, (0..n).map(|i| u(t0 + i * 4) as u32).collect()));
    }
    out
}
