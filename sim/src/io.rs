//! Simulated byte sources and transports.
use crate::engine::*;
use crate::exec;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncWrite};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// How one simulated endpoint behaves in this run (drawn once per run).
#[derive(Clone, Copy, Debug)]
pub struct Behave {
    /// probability (of 8) that an operation is not ready yet
    pub pend: u64,
    /// probability (of 8) that a transfer is cut short
    pub short: u64,
    pub max_chunk: u64,
}
impl Behave {
    pub fn draw() -> Behave {
        let pend = *pick(&[0, 1, 3, 5]);
        let short = *pick(&[0, 4, 8]);
        let max_chunk = *pick(&[1u64, 2, 7, 64, 1000]);
        Behave { pend, short, max_chunk }
    }
    pub fn calm() -> Behave {
        Behave { pend: 0, short: 0, max_chunk: 1000 }
    }
}
/// Content from this size on moves in pieces to match.
pub const LARGE: usize = 25_000;
const PEND_STREAK: u64 = 4;

/// Returns true (after arranging a wake-up) if the operation must wait.
fn maybe_pend(b: &Behave, streak: &mut u64, cx: &mut Context<'_>) -> bool {
    if b.pend > 0 && *streak < PEND_STREAK && chance(b.pend, 8) {
        *streak += 1;
        fault("pending");
        ev("pending", *streak, 0);
        if chance(1, 3) {
            fault("wake_immediately");
            cx.waker().wake_by_ref();
        } else {
            exec::wake_after(range(1, 2000), cx.waker().clone());
        }
        return true;
    }
    *streak = 0;
    false
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SrcFault {
    pub pos: usize,
    pub kind: io::ErrorKind,
    pub id: u32,
    /// keeps failing at this position for ever
    pub sticky: bool,
}
impl SrcFault {
    /// An interruption passes: a caller may retry it for ever, so it cannot last for ever.
    pub fn new(pos: usize, kind: io::ErrorKind, id: u32, sticky: bool) -> Self {
        SrcFault { pos, kind, id, sticky: sticky && kind != io::ErrorKind::Interrupted }
    }
}
pub const ERR_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Interrupted,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidData,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::Other,
    io::ErrorKind::WriteZero,
    io::ErrorKind::NotConnected,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::StorageFull,
];
pub fn make_err(kind: io::ErrorKind, id: u32) -> io::Error {
    io::Error::new(kind, format!("sim-fault-{id}"))
}
pub fn err_is(e: &io::Error, kind: io::ErrorKind, id: u32) -> bool {
    e.kind() == kind && e.to_string().contains(&format!("sim-fault-{id}"))
}
fn err_fault_name(k: io::ErrorKind) -> &'static str {
    match k {
        io::ErrorKind::Interrupted => "src_interrupted",
        io::ErrorKind::WouldBlock => "src_wouldblock",
        io::ErrorKind::ConnectionReset | io::ErrorKind::ConnectionAborted | io::ErrorKind::BrokenPipe => "src_conn_error",
        io::ErrorKind::TimedOut => "src_timeout",
        _ => "src_error",
    }
}

#[derive(Default, Debug)]
pub struct SrcStats {
    /// bytes taken from the source for good
    pub taken: usize,
    pub polls: u64,
    pub dropped: bool,
    pub eof_seen: bool,
    pub errors: u64,
}
/// The byte source under a body.
pub struct SimReader {
    data: Arc<Vec<u8>>,
    pos: usize,
    filled: usize,
    b: Behave,
    streak: u64,
    faults: Vec<SrcFault>,
    pub stats: Arc<Mutex<SrcStats>>,
}
impl SimReader {
    pub fn new(data: Arc<Vec<u8>>, b: Behave, faults: Vec<SrcFault>) -> Self {
        let b = Behave { max_chunk: if data.len() > LARGE { b.max_chunk.max(data.len() as u64 / 64) } else { b.max_chunk }, ..b };
        SimReader { data, pos: 0, filled: 0, b, streak: 0, faults, stats: Default::default() }
    }
    fn avail(&mut self, cx: &mut Context<'_>, want: usize) -> Poll<io::Result<usize>> {
        self.stats.lock().unwrap().polls += 1;
        if self.filled > self.pos {
            return Poll::Ready(Ok((self.filled - self.pos).min(want)));
        }
        // (a source that has reported its end stays ready, as BufRead users expect)
        let ended = self.pos == self.data.len() && self.stats.lock().unwrap().eof_seen;
        if !ended && maybe_pend(&self.b, &mut self.streak, cx) {
            ev_sched("src_pending", self.pos as u64, 0);
            return Poll::Pending;
        }
        if let Some(i) = self.faults.iter().position(|f| f.pos == self.pos) {
            let f = self.faults[i];
            if !f.sticky {
                self.faults.remove(i);
            }
            fault(err_fault_name(f.kind));
            if f.sticky {
                fault("src_error_sticky");
            }
            self.stats.lock().unwrap().errors += 1;
            ev_sched("src_error", self.pos as u64, f.id as u64);
            return Poll::Ready(Err(make_err(f.kind, f.id)));
        }
        let next_fault = self.faults.iter().map(|f| f.pos).filter(|p| *p > self.pos).min().unwrap_or(usize::MAX);
        let rest = self.data.len().min(next_fault) - self.pos;
        if rest == 0 {
            self.stats.lock().unwrap().eof_seen = true;
            return Poll::Ready(Ok(0));
        }
        let mut k = rest.min(want);
        if k > 1 && self.b.short > 0 && chance(self.b.short, 8) {
            let cut = 1 + choose((k as u64).min(self.b.max_chunk)) as usize;
            if cut < k {
                k = cut;
                fault("short_read");
            }
        }
        ev_sched("src_chunk", self.pos as u64, k as u64);
        Poll::Ready(Ok(k))
    }
}
impl Drop for SimReader {
    fn drop(&mut self) {
        self.stats.lock().unwrap().dropped = true;
    }
}
impl AsyncRead for SimReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let _outside = crate::alloc::pause();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let me = &mut *self;
        let k = match me.avail(cx, buf.len()) {
            Poll::Ready(Ok(k)) => k,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        buf[..k].copy_from_slice(&me.data[me.pos..me.pos + k]);
        me.pos += k;
        crate::alloc::received(k);
        me.filled = me.filled.max(me.pos);
        me.stats.lock().unwrap().taken = me.pos;
        Poll::Ready(Ok(k))
    }
}
impl AsyncBufRead for SimReader {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let _outside = crate::alloc::pause();
        let me = self.get_mut();
        let k = match me.avail(cx, usize::MAX) {
            Poll::Ready(Ok(k)) => k,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Pending => return Poll::Pending,
        };
        crate::alloc::received((me.pos + k).saturating_sub(me.filled));
        me.filled = me.pos + k;
        Poll::Ready(Ok(&me.data[me.pos..me.filled]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        let me = &mut *self;
        assert!(me.pos + amt <= me.filled.max(me.pos), "consumed more than the source made available: {amt}");
        me.pos += amt;
        me.stats.lock().unwrap().taken = me.pos;
    }
}

// ---- duplex transport --------------------------------------------------------
#[derive(Default)]
pub struct PipeState {
    pub buf: std::collections::VecDeque<u8>,
    pub cap: usize,
    pub closed: bool,
    pub reset: bool,
    pub reader_gone: bool,
    pub accepted: u64,
    pub flushes: u64,
    pub closes: u64,
    /// bytes accepted by poll_write but not yet pushed to the wire (until flush)
    pub staged: std::collections::VecDeque<u8>,
    pub rwaker: Vec<Waker>,
    pub wwaker: Vec<Waker>,
}
impl PipeState {
    fn wake_r(&mut self) {
        for w in self.rwaker.drain(..) {
            w.wake();
        }
    }
    fn wake_w(&mut self) {
        for w in self.wwaker.drain(..) {
            w.wake();
        }
    }
}
pub type Pipe = Arc<Mutex<PipeState>>;
pub fn pipe(cap: usize) -> Pipe {
    Arc::new(Mutex::new(PipeState { cap: cap.max(1), ..Default::default() }))
}
/// One end of a duplex transport.
pub struct SimConn {
    pub rd: Pipe,
    pub wr: Pipe,
    pub b: Behave,
    pub rstreak: u64,
    pub wstreak: u64,
    pub fstreak: u64,
    /// transient errors injected into writes/reads (probability of 16)
    pub werr: u64,
    pub rerr: u64,
    pub ferr: u64,
    /// writes that accept no byte (probability of 16)
    pub wzero: u64,
    /// reads after the end fail
    pub fail_after_end: bool,
    pub ended: bool,
    /// staged mode: written bytes reach the wire only on flush/close (a
    /// buffering transport such as TLS)
    pub staging: bool,
    pub log: Arc<Mutex<ConnLog>>,
}
#[derive(Default, Debug)]
pub struct ConnLog {
    /// errors this end returned, in order: (operation, kind, id)
    pub errors: Vec<(char, io::ErrorKind, u32)>,
    pub next_id: u32,
    /// writes of bytes that accepted none
    pub zeros: u64,
    pub dropped: bool,
}
impl SimConn {
    pub fn pair(cap_ab: usize, cap_ba: usize, ba: Behave, bb: Behave) -> (SimConn, SimConn) {
        let ab = pipe(cap_ab);
        let bab = pipe(cap_ba);
        (SimConn::new(bab.clone(), ab.clone(), ba), SimConn::new(ab, bab, bb))
    }
    pub fn new(rd: Pipe, wr: Pipe, b: Behave) -> SimConn {
        SimConn { rd, wr, b, rstreak: 0, wstreak: 0, fstreak: 0, werr: 0, rerr: 0, ferr: 0, wzero: 0, fail_after_end: false, ended: false, staging: false, log: Default::default() }
    }
    fn inject(&mut self, op: char, rate: u64) -> Option<io::Error> {
        if rate > 0 && chance(rate, 16) {
            const KINDS: &[io::ErrorKind] = &[
                io::ErrorKind::Interrupted, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::WriteZero, io::ErrorKind::UnexpectedEof,
                io::ErrorKind::NotConnected, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::ConnectionAborted, io::ErrorKind::ConnectionRefused, io::ErrorKind::Unsupported,
                io::ErrorKind::InvalidInput, io::ErrorKind::NotFound, io::ErrorKind::AlreadyExists, io::ErrorKind::AddrInUse, io::ErrorKind::OutOfMemory, io::ErrorKind::QuotaExceeded,
            ];
            let kind = *pick(KINDS);
            let mut l = self.log.lock().unwrap();
            l.next_id += 1;
            let id = l.next_id;
            l.errors.push((op, kind, id));
            fault(match op {
                'r' => "conn_read_error",
                'w' => "conn_write_error",
                'f' => "conn_flush_error",
                _ => "conn_close_error",
            });
            ev_sched("conn_error", op as u64, id as u64);
            return Some(make_err(kind, id));
        }
        None
    }
    fn push_staged(w: &mut PipeState) -> bool {
        // moves staged bytes to the wire as capacity allows; true when empty
        let mut moved = false;
        while !w.staged.is_empty() && w.buf.len() < w.cap {
            let c = w.staged.pop_front().unwrap();
            w.buf.push_back(c);
            moved = true;
        }
        if moved {
            w.wake_r();
        }
        w.staged.is_empty()
    }
}
impl Drop for SimConn {
    fn drop(&mut self) {
        self.log.lock().unwrap().dropped = true;
        let mut w = self.wr.lock().unwrap();
        w.closed = true;
        w.wake_r();
        drop(w);
        let mut r = self.rd.lock().unwrap();
        r.reader_gone = true;
        r.wake_w();
    }
}
impl AsyncRead for SimConn {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let me = &mut *self;
        if maybe_pend(&me.b, &mut me.rstreak, cx) {
            return Poll::Pending;
        }
        if let Some(e) = me.inject('r', me.rerr) {
            return Poll::Ready(Err(e));
        }
        let rd = me.rd.clone();
        let mut r = rd.lock().unwrap();
        if r.reset {
            let mut l = me.log.lock().unwrap();
            l.errors.push(('r', io::ErrorKind::ConnectionReset, 0));
            return Poll::Ready(Err(make_err(io::ErrorKind::ConnectionReset, 0)));
        }
        if r.buf.is_empty() {
            if r.closed {
                if me.ended && me.fail_after_end {
                    let mut l = me.log.lock().unwrap();
                    l.next_id += 1;
                    let id = l.next_id;
                    l.errors.push(('r', io::ErrorKind::NotConnected, id));
                    fault("conn_read_after_end");
                    return Poll::Ready(Err(make_err(io::ErrorKind::NotConnected, id)));
                }
                me.ended = true;
                return Poll::Ready(Ok(0));
            }
            r.rwaker.push(cx.waker().clone());
            ev_sched("conn_empty", 0, 0);
            return Poll::Pending;
        }
        let mut k = r.buf.len().min(buf.len());
        if k > 1 && me.b.short > 0 && chance(me.b.short, 8) {
            let cut = 1 + choose((k as u64).min(me.b.max_chunk)) as usize;
            if cut < k {
                k = cut;
                fault("short_read");
            }
        }
        for x in buf[..k].iter_mut() {
            *x = r.buf.pop_front().unwrap();
        }
        r.wake_w();
        ev_sched("conn_read", k as u64, 0);
        Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for SimConn {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let me = &mut *self;
        if maybe_pend(&me.b, &mut me.wstreak, cx) {
            return Poll::Pending;
        }
        if let Some(e) = me.inject('w', me.werr) {
            return Poll::Ready(Err(e));
        }
        let wr = me.wr.clone();
        let mut w = wr.lock().unwrap();
        if w.closed || w.reader_gone || w.reset {
            let k = if w.reset { io::ErrorKind::ConnectionReset } else { io::ErrorKind::BrokenPipe };
            me.log.lock().unwrap().errors.push(('w', k, 0));
            return Poll::Ready(Err(make_err(k, 0)));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if me.wzero > 0 && chance(me.wzero, 16) {
            me.log.lock().unwrap().zeros += 1;
            fault("conn_write_zero");
            ev_sched("conn_write", 0, 0);
            return Poll::Ready(Ok(0));
        }
        let used = if me.staging { w.staged.len() } else { w.buf.len() };
        let space = w.cap.saturating_sub(used);
        if space == 0 {
            if me.staging {
                SimConn::push_staged(&mut w);
            }
            w.wwaker.push(cx.waker().clone());
            if me.staging && w.staged.len() < w.cap {
                w.wake_w();
            }
            ev_sched("conn_full", w.staged.len() as u64, 0);
            return Poll::Pending;
        }
        let mut k = space.min(buf.len());
        if k > 1 && me.b.short > 0 && chance(me.b.short, 8) {
            let cut = 1 + choose((k as u64).min(me.b.max_chunk)) as usize;
            if cut < k {
                k = cut;
                fault("short_write");
            }
        }
        if me.staging {
            w.staged.extend(&buf[..k]);
        } else {
            w.buf.extend(&buf[..k]);
            w.wake_r();
        }
        w.accepted += k as u64;
        ev_sched("conn_write", k as u64, 0);
        Poll::Ready(Ok(k))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if maybe_pend(&me.b, &mut me.fstreak, cx) {
            return Poll::Pending;
        }
        if let Some(e) = me.inject('f', me.ferr) {
            return Poll::Ready(Err(e));
        }
        let mut w = me.wr.lock().unwrap();
        if w.reader_gone || w.reset {
            w.staged.clear();
            let k = if w.reset { io::ErrorKind::ConnectionReset } else { io::ErrorKind::BrokenPipe };
            me.log.lock().unwrap().errors.push(('f', k, 0));
            return Poll::Ready(Err(make_err(k, 0)));
        }
        if !SimConn::push_staged(&mut w) {
            w.wwaker.push(cx.waker().clone());
            return Poll::Pending;
        }
        w.flushes += 1;
        ev_sched("conn_flush", 0, 0);
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = &mut *self;
        if maybe_pend(&me.b, &mut me.fstreak, cx) {
            return Poll::Pending;
        }
        if let Some(e) = me.inject('c', me.ferr) {
            return Poll::Ready(Err(e));
        }
        let mut w = me.wr.lock().unwrap();
        if w.reader_gone || w.reset {
            w.staged.clear();
            w.closed = true;
            w.closes += 1;
            return Poll::Ready(Ok(()));
        }
        if !SimConn::push_staged(&mut w) {
            w.wwaker.push(cx.waker().clone());
            return Poll::Pending;
        }
        w.closed = true;
        w.closes += 1;
        w.wake_r();
        ev_sched("conn_close", 0, 0);
        Poll::Ready(Ok(()))
    }
}

// ---- data generators ---------------------------------------------------------
pub fn gen_len() -> usize {
    // now and then more than any buffer on the way
    if chance(1, 400) {
        probe("large_content");
        return match choose(8) {
            7 => range(1 << 20, 3 << 20),
            6 => *pick(&[1 << 16, 1 << 17, (1 << 16) - 1, (1 << 16) + 1, 1 << 20]),
            _ => range(30_000, 300_000),
        } as usize;
    }
    match weighted(&[10, 30, 20, 6, 2]) {
        0 => 0,
        1 => range(1, 16) as usize,
        2 => range(1, 300) as usize,
        3 => range(1, 3000) as usize,
        _ => range(8000, 20000) as usize,
    }
}
/// Distinct-looking bytes: position-dependent so repeats and skips show.
pub fn gen_bytes(n: usize) -> Vec<u8> {
    let k = choose(1 << 16) as u32;
    let newline = chance(1, 2);
    (0..n as u32)
        .map(|i| {
            let x = (i ^ k).wrapping_mul(0x9E37_79B1) ^ (i >> 3);
            let b = (x >> 13) as u8;
            if newline && b % 19 == 0 {
                b'\n'
            } else {
                b
            }
        })
        .collect()
}
