//! Readers whose every answer is decided by the harness.
use crate::engine::Chooser;
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

/// File content, shared between threads.
pub type Data = std::sync::Arc<Vec<u8>>;

/// Log of what the library asked of the reader.
#[derive(Debug, Default, Clone)]
pub struct IoLog {
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    /// number of operations (reads and seeks) answered
    pub ops: u64,
    /// a fault was delivered
    pub faulted: bool,
    /// operations that came after the delivered fault
    pub after_fault: u64,
    /// maximum end offset read
    pub max_pos: u64,
}

/// What an injected failure carries: the number of the operation that failed.
#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "operation {} failed on purpose", self.0)
    }
}
impl std::error::Error for Injected {}

/// How to answer reads.
pub enum Policy {
    /// as many bytes as asked for
    Full,
    /// at most n bytes per read
    Chunk(usize),
    /// at most n bytes per read, an interruption (sync) / pending poll (async) before each
    ChunkIntr(usize),
    /// cyclic sizes
    Cycle(Vec<usize>),
    /// explorer-chosen: 0 full, 1 one byte, 2 half, 3 interrupted/pending
    Tree(Rc<RefCell<Chooser>>, u32),
    /// fail the k-th operation (0-based; reads and seeks count) with this error
    FaultAt(u64, io::ErrorKind),
    /// as FaultAt, but every later operation fails too
    FaultFrom(u64, io::ErrorKind),
    /// at most n bytes per read, and fail the k-th operation
    ChunkFault(usize, u64, io::ErrorKind),
}

pub struct Rd {
    pub data: Data,
    pub pos: u64,
    pub policy: Policy,
    pub log: Rc<RefCell<IoLog>>,
    intr_armed: bool,
    cyc: usize,
}
// The async API asks for Send; every execution of the harness is single-threaded
// and a reader never leaves the thread that made it.
unsafe impl Send for Rd {}

pub const TREE_ALTS: u32 = 4;

enum Ans {
    Take(usize),
    Intr,
    Fail(io::ErrorKind),
}

impl Rd {
    pub fn new(data: Data, policy: Policy) -> (Rd, Rc<RefCell<IoLog>>) {
        let log = Rc::new(RefCell::new(IoLog::default()));
        (
            Rd {
                data,
                pos: 0,
                policy,
                log: log.clone(),
                intr_armed: true,
                cyc: 0,
            },
            log,
        )
    }
    fn answer(&mut self, want: usize) -> Ans {
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let full = want.min(avail);
        let op = self.log.borrow().ops;
        match &mut self.policy {
            Policy::Full => Ans::Take(full),
            Policy::Chunk(n) => Ans::Take(full.min(*n)),
            Policy::ChunkIntr(n) => {
                if self.intr_armed {
                    self.intr_armed = false;
                    Ans::Intr
                } else {
                    self.intr_armed = true;
                    Ans::Take(full.min(*n))
                }
            }
            Policy::Cycle(v) => {
                let n = v[self.cyc % v.len()];
                self.cyc += 1;
                if n == 0 {
                    Ans::Intr
                } else {
                    Ans::Take(full.min(n))
                }
            }
            Policy::Tree(ch, alts) => match ch.borrow_mut().choose(*alts) {
                0 => Ans::Take(full),
                1 => Ans::Take(full.min(1)),
                2 => Ans::Take(if full <= 1 { full } else { full / 2 }),
                _ => Ans::Intr,
            },
            Policy::FaultAt(k, e) => {
                if op == *k {
                    Ans::Fail(*e)
                } else {
                    Ans::Take(full)
                }
            }
            Policy::FaultFrom(k, e) => {
                if op >= *k {
                    Ans::Fail(*e)
                } else {
                    Ans::Take(full)
                }
            }
            Policy::ChunkFault(n, k, e) => {
                if op == *k {
                    Ans::Fail(*e)
                } else {
                    Ans::Take(full.min(*n))
                }
            }
        }
    }
    fn seek_fault(&mut self) -> Option<io::ErrorKind> {
        let op = self.log.borrow().ops;
        match &self.policy {
            Policy::FaultAt(k, e) | Policy::ChunkFault(_, k, e) if op == *k => Some(*e),
            Policy::FaultFrom(k, e) if op >= *k => Some(*e),
            _ => None,
        }
    }
    /// asynchronous seeks may be pending too
    fn seek_pending(&mut self) -> bool {
        match &mut self.policy {
            Policy::ChunkIntr(_) => true,
            Policy::Cycle(v) => {
                let n = v[self.cyc % v.len()];
                n == 0
            }
            Policy::Tree(ch, _) => ch.borrow_mut().choose(2) == 1,
            _ => false,
        }
    }
    fn account(&mut self, n: usize) {
        let mut l = self.log.borrow_mut();
        l.bytes += n as u64;
        l.max_pos = l.max_pos.max(self.pos + n as u64);
    }
    fn do_seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        {
            let f = self.seek_fault();
            let mut l = self.log.borrow_mut();
            l.seeks += 1;
            l.ops += 1;
            if l.faulted {
                l.after_fault += 1;
            }
            if let Some(e) = f {
                l.faulted = true;
                return Err(io::Error::new(e, Injected(l.ops - 1)));
            }
        }
        let np = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
        };
        match np {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}

impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let a = if buf.is_empty() {
            Ans::Take(0)
        } else {
            self.answer(buf.len())
        };
        {
            let mut l = self.log.borrow_mut();
            l.reads += 1;
            l.ops += 1;
            if l.faulted {
                l.after_fault += 1;
            }
            if let Ans::Fail(_) = a {
                l.faulted = true
            }
        }
        match a {
            Ans::Take(n) => {
                self.account(n);
                if n > 0 {
                    let p = self.pos as usize;
                    buf[..n].copy_from_slice(&self.data[p..p + n]);
                    self.pos += n as u64;
                }
                Ok(n)
            }
            Ans::Intr => Err(io::ErrorKind::Interrupted.into()),
            Ans::Fail(e) => Err(io::Error::new(e, Injected(self.log.borrow().ops - 1))),
        }
    }
}
impl Seek for Rd {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.do_seek(to)
    }
}

/// Hides `Seek`.
pub struct NoSeek<R>(pub R);
impl<R: Read> Read for NoSeek<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}

/// Async view of the same reader: an interruption becomes a pending poll.
pub struct ARd {
    pub r: Rd,
    pending_seek: Option<io::Result<u64>>,
    wait: bool,
}
impl ARd {
    pub fn new(r: Rd) -> Self {
        ARd {
            r,
            pending_seek: None,
            wait: false,
        }
    }
}
impl AsyncRead for ARd {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let want = buf.remaining();
        let mut tmp = vec![0u8; want];
        match self.r.read(&mut tmp) {
            Ok(n) => {
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Err(e) if e.kind() == io::ErrorKind::Interrupted => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
impl AsyncSeek for ARd {
    fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> io::Result<()> {
        let r = self.r.do_seek(to);
        self.wait = self.r.seek_pending();
        self.pending_seek = Some(r);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        if std::mem::take(&mut self.wait) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let p = self.r.pos;
        match self.pending_seek.take() {
            Some(r) => Poll::Ready(r),
            None => Poll::Ready(Ok(p)),
        }
    }
}
pub struct ANoSeek(pub ARd);
impl AsyncRead for ANoSeek {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}

/// Drive a future to completion on this thread. A future that is pending without
/// having woken itself can never finish: that is reported as a lost wake-up.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Wake, Waker};
    struct W(AtomicBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst)
        }
    }
    let w = Arc::new(W(AtomicBool::new(true)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if !w.0.swap(false, Ordering::SeqCst) {
            panic!("lost wake-up: future pending and nobody will wake it");
        }
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
