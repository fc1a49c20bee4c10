//! Ways of supplying the same bytes: sync/async, seekable/unseekable/memory/
//! path, with scheduled partial reads, interruptions, Pending and faults.
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

/// Reads are refused (by panic: a defect, not an I/O error) past this count.
pub const READ_LIMIT: u64 = 400_000;

#[derive(Clone, Debug, Default)]
pub struct Sched {
    /// Sizes of successive reads, cycled; empty or 0 entries = as much as asked.
    pub chunks: Vec<usize>,
    /// Every k-th read returns Interrupted (sync) or Pending (async); 0 = never.
    pub interrupt_every: u32,
    /// Bytes that precede the media data in the underlying stream.
    pub lead: usize,
    /// Fail the n-th I/O operation (read or seek), 0-based.
    pub fail_op: Option<(u64, io::ErrorKind)>,
    /// Keep failing after the first failure.
    pub sticky: bool,
    /// So many filler bytes that exist nowhere lie before this byte of the data.
    pub gap: Option<(usize, u64)>,
    /// Refuse (by panic) to deliver more bytes than this in all; 0 = no limit.
    pub byte_limit: u64,
}

#[derive(Debug, Default)]
pub struct Stat {
    pub reads: AtomicU64,
    pub seeks: AtomicU64,
    pub ops: AtomicU64,
    pub bytes: AtomicU64,
    pub eof_reads: AtomicU64,
    pub faults: AtomicU64,
    /// furthest byte delivered
    pub max_pos: AtomicU64,
}
impl Stat {
    fn inc(a: &AtomicU64, n: u64) {
        a.fetch_add(n, Ordering::Relaxed);
    }
    pub fn get(a: &AtomicU64) -> u64 {
        a.load(Ordering::Relaxed)
    }
}

pub struct Src {
    data: Arc<Vec<u8>>,
    pos: u64,
    i: usize,
    calls: u32,
    sched: Sched,
    pub stat: Arc<Stat>,
    was_pending: bool,
    pending_seek: Option<SeekFrom>,
}

impl Src {
    pub fn new(data: Arc<Vec<u8>>, sched: Sched, stat: Arc<Stat>) -> Src {
        Src {
            pos: sched.lead as u64,
            data,
            i: 0,
            calls: 0,
            sched,
            stat,
            was_pending: false,
            pending_seek: None,
        }
    }
    fn total(&self) -> u64 {
        self.sched.lead as u64 + self.data.len() as u64 + self.sched.gap.map_or(0, |g| g.1)
    }
    fn fault(&mut self) -> io::Result<()> {
        let n = self.stat.ops.fetch_add(1, Ordering::Relaxed);
        if let Some((k, kind)) = self.sched.fail_op {
            if n == k || (self.sched.sticky && n > k) {
                Stat::inc(&self.stat.faults, 1);
                return Err(io::Error::new(kind, "injected fault"));
            }
        }
        Ok(())
    }
    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.fault()?;
        Stat::inc(&self.stat.reads, 1);
        assert!(
            Stat::get(&self.stat.reads) < READ_LIMIT,
            "READ-LIMIT: source read more than {READ_LIMIT} times"
        );
        if buf.is_empty() {
            return Ok(0);
        }
        let mut want = buf.len();
        if !self.sched.chunks.is_empty() {
            let c = self.sched.chunks[self.i % self.sched.chunks.len()];
            self.i += 1;
            if c > 0 {
                want = want.min(c);
            }
        }
        let total = self.total();
        if self.pos >= total {
            Stat::inc(&self.stat.eof_reads, 1);
            return Ok(0);
        }
        let n = (want as u64).min(total - self.pos) as usize;
        let lead = self.sched.lead as u64;
        let (gap_at, gap_len) = self.sched.gap.map_or((u64::MAX, 0), |g| (g.0 as u64, g.1));
        for (k, b) in buf[..n].iter_mut().enumerate() {
            let p = self.pos + k as u64;
            *b = if p < lead {
                0xEE
            } else {
                match p - lead {
                    q if q < gap_at => self.data[q as usize],
                    q if q - gap_at < gap_len => 0xA7,
                    q => self.data[(q - gap_len) as usize],
                }
            };
        }
        self.pos += n as u64;
        Stat::inc(&self.stat.bytes, n as u64);
        assert!(
            self.sched.byte_limit == 0 || Stat::get(&self.stat.bytes) <= self.sched.byte_limit,
            "READ-LIMIT: source asked for more than {} bytes",
            self.sched.byte_limit
        );
        self.stat.max_pos.fetch_max(self.pos, Ordering::Relaxed);
        Ok(n)
    }
    fn do_seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.fault()?;
        Stat::inc(&self.stat.seeks, 1);
        assert!(
            Stat::get(&self.stat.seeks) < READ_LIMIT,
            "READ-LIMIT: source seeked more than {READ_LIMIT} times"
        );
        let np = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.total() as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "bad seek"));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.sched.interrupt_every > 0 && self.calls % self.sched.interrupt_every == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.do_read(buf)
    }
}
impl Seek for Src {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.do_seek(s)
    }
}

impl tokio::io::AsyncRead for Src {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if !me.was_pending {
            me.calls += 1;
            if me.sched.interrupt_every > 0 && me.calls % me.sched.interrupt_every == 0 {
                me.was_pending = true;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        me.was_pending = false;
        let mut tmp = vec![0u8; buf.remaining().min(1 << 16)];
        match me.do_read(&mut tmp) {
            Ok(n) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
impl tokio::io::AsyncSeek for Src {
    fn start_seek(mut self: Pin<&mut Self>, s: SeekFrom) -> io::Result<()> {
        if self.pending_seek.is_some() {
            return Err(io::Error::other("other operation in progress"));
        }
        self.pending_seek = Some(s);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        let me = &mut *self;
        if let Some(s) = me.pending_seek {
            if !me.was_pending {
                me.calls += 1;
                if me.sched.interrupt_every > 0 && me.calls % me.sched.interrupt_every == 0 {
                    me.was_pending = true;
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            me.was_pending = false;
            me.pending_seek = None;
            return Poll::Ready(me.do_seek(s));
        }
        Poll::Ready(Ok(me.pos))
    }
}

// ---------------------------------------------------------------- executor

/// Polls a future whose only waiting is our own sources' Pending.
pub fn spin<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(std::task::Waker::noop());
    for _ in 0..10_000_000u64 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future never became ready");
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .max_blocking_threads(1).build().unwrap();
    static FILES: Rc<Cell<u64>> = Rc::new(Cell::new(0));
}
pub fn rt<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|r| r.block_on(f))
}

/// A scratch file under the harness's own folder, removed on drop.
pub struct TempFile(pub std::path::PathBuf);
impl TempFile {
    pub fn new(data: &[u8]) -> TempFile {
        Self::named(data, "bin")
    }
    pub fn named(data: &[u8], ext: &str) -> TempFile {
        let n = FILES.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let p = crate::scratch().join(format!(
            "t{:?}-{n}.{ext}",
            std::thread::current().id()
        ).replace(['(', ')'], "_"));
        std::fs::write(&p, data).expect("scratch file");
        TempFile(p)
    }
}
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
