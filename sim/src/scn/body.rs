//! C01-C05, C17: bodies read over simulated sources.
use crate::engine::*;
use crate::exec;
use crate::io::*;
use futures_lite::io::{AsyncBufRead, AsyncBufReadExt, AsyncRead, AsyncReadExt};
use http_types::{mime, mime::Mime, Body, Method, Request, Response, StatusCode, Url};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// Whatever carries a body.
pub enum Holder {
    B(Body),
    Q(Request),
    R(Response),
}
impl Holder {
    pub fn into_body(self) -> Body {
        match self {
            Holder::B(b) => b,
            Holder::Q(q) => q.into(),
            Holder::R(mut r) => r.take_body(),
        }
    }
    pub fn len(&self) -> Option<u64> {
        match self {
            Holder::B(b) => b.len(),
            Holder::Q(q) => q.len(),
            Holder::R(r) => r.len(),
        }
    }
    pub fn is_empty(&self) -> Option<bool> {
        match self {
            Holder::B(b) => b.is_empty(),
            Holder::Q(q) => q.is_empty(),
            Holder::R(r) => r.is_empty(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Holder::B(_) => "body",
            Holder::Q(_) => "request",
            Holder::R(_) => "response",
        }
    }
}
impl AsyncRead for Holder {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match &mut *self {
            Holder::B(b) => Pin::new(b).poll_read(cx, buf),
            Holder::Q(b) => Pin::new(b).poll_read(cx, buf),
            Holder::R(b) => Pin::new(b).poll_read(cx, buf),
        }
    }
    fn poll_read_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        match &mut *self {
            Holder::B(b) => Pin::new(b).poll_read_vectored(cx, bufs),
            Holder::Q(b) => Pin::new(b).poll_read_vectored(cx, bufs),
            Holder::R(b) => Pin::new(b).poll_read_vectored(cx, bufs),
        }
    }
}
impl AsyncBufRead for Holder {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        match self.get_mut() {
            Holder::B(b) => Pin::new(b).poll_fill_buf(cx),
            Holder::Q(b) => Pin::new(b).poll_fill_buf(cx),
            Holder::R(b) => Pin::new(b).poll_fill_buf(cx),
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        match &mut *self {
            Holder::B(b) => Pin::new(b).consume(amt),
            Holder::Q(b) => Pin::new(b).consume(amt),
            Holder::R(b) => Pin::new(b).consume(amt),
        }
    }
}

pub fn new_req() -> Request {
    Request::new(*pick(&[Method::Get, Method::Post, Method::Put]), Url::parse("http://node-a.sim/x").unwrap())
}
pub fn new_res() -> Response {
    Response::new(*pick(&[StatusCode::Ok, StatusCode::NotFound]))
}
/// Puts a body into a random carrier.
pub fn carry(b: Body) -> Holder {
    match weighted(&[3, 3, 3]) {
        0 => Holder::B(b),
        1 => {
            let mut q = new_req();
            q.set_body(b);
            Holder::Q(q)
        }
        _ => {
            let mut r = new_res();
            r.set_body(b);
            Holder::R(r)
        }
    }
}

/// What the reader must see.
pub struct Model {
    pub data: Arc<Vec<u8>>,
    /// declared length that is enforced (smallest of a nest)
    pub declared: u64,
    /// what `len()` must report
    pub reported: Option<u64>,
    pub stats: Option<Arc<Mutex<SrcStats>>>,
    pub faults: Vec<SrcFault>,
}
impl Model {
    pub fn limit(&self) -> usize {
        (self.declared.min(self.data.len() as u64)) as usize
    }
}

pub fn gen_declared(n: usize) -> Option<u64> {
    let n = n as u64;
    match weighted(&[4, 5, 5, 3, 2, 1, 1, 1, 1]) {
        0 => None,
        1 => Some(n),
        2 => Some(choose(n + 1)),
        3 => Some(n + range(1, 50)),
        4 => Some((1 << 32) + choose(n + 2)),
        5 => Some(u64::MAX),
        6 => Some((1 << 40) + choose(n + 2)),
        7 => Some((1 << 31) + choose(n + 2)),
        _ => Some(0),
    }
}
pub fn in_memory(data: &[u8]) -> Body {
    let text = String::from_utf8(data.to_vec()).ok();
    let k = choose(6);
    match (k, text) {
        (0, _) => Body::from_bytes(data.to_vec()),
        (1, _) => Body::from(data),
        (2, _) => Body::from(data.to_vec()),
        (3, Some(t)) => Body::from_string(t),
        (4, Some(t)) => Body::from(t),
        (5, Some(t)) => Body::from(&t[..]),
        _ => Body::from_bytes(data.to_vec()),
    }
}

/// Builds a body over `data` and wraps it a few times.
pub fn gen_holder(data: Vec<u8>, faults: Vec<SrcFault>, allow_mem: bool) -> (Holder, Model) {
    let data = Arc::new(data);
    let mut m;
    let body;
    if allow_mem && chance(1, 6) {
        body = in_memory(&data);
        m = Model { declared: data.len() as u64, reported: Some(data.len() as u64), data: data.clone(), stats: None, faults: vec![] };
    } else {
        let b = Behave::draw();
        let declared = gen_declared(data.len());
        let src = SimReader::new(data.clone(), b, faults.clone());
        let stats = src.stats.clone();
        body = Body::from_reader(src, declared);
        m = Model { declared: declared.unwrap_or(u64::MAX), reported: declared, data: data.clone(), stats: Some(stats), faults };
    }
    let mut h = carry(body);
    let depth = weighted(&[6, 2, 1]);
    for _ in 0..depth {
        let b = h.into_body();
        if chance(1, 3) {
            let d2 = gen_declared(m.limit());
            m.declared = m.declared.min(d2.unwrap_or(u64::MAX));
            m.reported = d2;
            h = carry(Body::from_reader(b, d2));
        } else {
            h = carry(b);
        }
    }
    note(|| format!("{} over {} source bytes, declared {:?}, nest {}", h.kind(), m.data.len(), m.reported, depth));
    (h, m)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Iface {
    Plain,
    Buffered,
    Mixed,
}

pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("first difference at offset {i} (got {} bytes, expected a prefix of {})", got.len(), want.len())
}

pub struct Drive<'a> {
    pub m: &'a mut Model,
    pub pos: usize,
    pub iface: Iface,
    pub stopped: bool,
}
impl<'a> Drive<'a> {
    /// Accounts for `got` bytes delivered at the current position.
    fn data(&mut self, got: &[u8]) -> Res {
        let limit = self.m.limit();
        if self.pos + got.len() > limit {
            return viol("beyond-length", format!("{} bytes delivered at position {}, but only {} may be read (declared {}, source {})", got.len(), self.pos, limit, self.m.declared, self.m.data.len()));
        }
        let want = &self.m.data[self.pos..limit];
        if !want.starts_with(got) {
            return viol("wrong-bytes", format!("at position {}: {}", self.pos, diff(got, want)));
        }
        if !got.is_empty() {
            if let Some(f) = self.m.faults.iter().find(|f| f.pos >= self.pos && f.pos < self.pos + got.len() && (f.pos as u64) < self.m.declared) {
                // data beyond an unreported failure
                return viol("failure-swallowed", format!("data at {}..{} delivered although the source failed ({:?}) at {}", self.pos, self.pos + got.len(), f.kind, f.pos));
            }
        }
        self.pos += got.len();
        Ok(())
    }
    fn eof(&mut self, why: &str) -> Res {
        let limit = self.m.limit();
        check!(self.pos == limit, "early-end", "{why} reported end of input at position {}, but {} bytes must be readable", self.pos, limit);
        if let Some(f) = self.m.faults.iter().find(|f| f.pos == self.pos && (f.pos as u64) < self.m.declared) {
            return viol("failure-swallowed", format!("{why} reported end of input at {} where the source fails with {:?}", self.pos, f.kind));
        }
        Ok(())
    }
    fn error(&mut self, e: &io::Error) -> Res {
        let pos = self.pos;
        match self.m.faults.iter().position(|f| f.pos == pos) {
            Some(i) => {
                let f = self.m.faults[i];
                check!(err_is(e, f.kind, f.id), "wrong-error", "at {pos}: got {e:?}, the source failed with {:?} sim-fault-{}", f.kind, f.id);
                if f.sticky {
                    probe("sticky_error_seen");
                    self.stopped = true;
                } else {
                    self.m.faults.remove(i);
                    probe("transient_error_retried");
                }
                Ok(())
            }
            None => viol("spurious-error", format!("at position {pos}: error {e:?} although the source did not fail there")),
        }
    }
    fn size(&self) -> usize {
        let rest = self.m.limit() - self.pos;
        if self.m.limit() > LARGE && chance(2, 3) {
            return *pick(&[1 << 16, 1 << 17, 70_001, (1 << 16) + 1, 8192, 1 << 20]);
        }
        match weighted(&[4, 3, 2, 2, 1, 1]) {
            0 => 1 + choose(16) as usize,
            1 => 64,
            2 => rest,
            3 => rest + 1 + choose(10) as usize,
            4 => *pick(&[4096, 8192, 1 << 16]),
            _ => 0,
        }
    }
    /// One random operation. Returns true at end of input.
    pub async fn op(&mut self, h: &mut Holder, composite: bool) -> Result<bool, Violation> {
        let limit = self.m.limit();
        let rest = limit - self.pos;
        let plain = match self.iface {
            Iface::Plain => true,
            Iface::Buffered => false,
            Iface::Mixed => chance(1, 2),
        };
        if plain {
            match weighted(if composite { &[10, 2, 1, 2] } else { &[1, 0, 0, 0] }) {
                0 => {
                    let k = self.size();
                    let mut buf = vec![0u8; k];
                    let r = if chance(1, 4) {
                        exec::abandon(h.read(&mut buf), choose(3)).await
                    } else {
                        Some(h.read(&mut buf).await)
                    };
                    ev("read", k as u64, match &r { Some(Ok(n)) => *n as u64, Some(Err(_)) => 1 << 40, None => 1 << 41 });
                    match r {
                        None => {}
                        Some(Ok(n)) => {
                            check!(n <= k, "overlong-read", "read of {k} bytes returned {n}");
                            self.data(&buf[..n])?;
                            if n == 0 && k > 0 {
                                self.eof("read")?;
                                return Ok(true);
                            }
                        }
                        Some(Err(e)) => self.error(&e)?,
                    }
                }
                1 => {
                    let k = choose(rest as u64 + 1) as usize;
                    let mut buf = vec![0u8; k];
                    let r = h.read_exact(&mut buf).await;
                    ev("read_exact", k as u64, r.is_ok() as u64);
                    match r {
                        Ok(()) => self.data(&buf)?,
                        Err(e) => return viol("early-end", format!("read_exact({k}) at {} with {rest} bytes readable: {e:?}", self.pos)),
                    }
                }
                2 => {
                    let mut v = vec![0xEE; choose(3) as usize];
                    let pre = v.len();
                    let r = h.read_to_end(&mut v).await;
                    ev("read_to_end", v.len() as u64, r.is_ok() as u64);
                    match r {
                        Ok(n) => {
                            check!(n == v.len() - pre, "wrong-count", "read_to_end returned {n} but appended {}", v.len() - pre);
                            self.data(&v[pre..])?;
                            self.eof("read_to_end")?;
                            return Ok(true);
                        }
                        Err(e) => self.error(&e)?,
                    }
                }
                _ => {
                    let (a, b) = (self.size(), self.size());
                    let (mut ba, mut bb) = (vec![0u8; a], vec![0u8; b]);
                    let r = {
                        let mut bufs = [io::IoSliceMut::new(&mut ba), io::IoSliceMut::new(&mut bb)];
                        h.read_vectored(&mut bufs).await
                    };
                    ev("read_vectored", (a + b) as u64, *r.as_ref().unwrap_or(&0) as u64);
                    match r {
                        Ok(n) => {
                            check!(n <= a + b, "overlong-read", "vectored read of {} bytes returned {n}", a + b);
                            let mut all = ba[..n.min(a)].to_vec();
                            if n > a {
                                all.extend(&bb[..n - a]);
                            }
                            self.data(&all)?;
                            if n == 0 && a + b > 0 {
                                self.eof("read_vectored")?;
                                return Ok(true);
                            }
                        }
                        Err(e) => self.error(&e)?,
                    }
                }
            }
        } else {
            match weighted(if composite { &[10, 3, 1] } else { &[1, 0, 0] }) {
                0 => {
                    let r = if chance(1, 4) {
                        exec::abandon(h.fill_buf(), choose(3)).await
                    } else {
                        Some(h.fill_buf().await)
                    };
                    let got = match r {
                        None => None,
                        Some(Ok(s)) => Some(Ok(s.to_vec())),
                        Some(Err(e)) => Some(Err(e)),
                    };
                    ev("fill_buf", 0, match &got { Some(Ok(v)) => v.len() as u64, Some(Err(_)) => 1 << 40, None => 1 << 41 });
                    match got {
                        None => {}
                        Some(Err(e)) => self.error(&e)?,
                        Some(Ok(v)) => {
                            if v.is_empty() {
                                self.eof("fill_buf")?;
                                return Ok(true);
                            }
                            // Everything shown must be right, consumed or not.
                            let keep = self.pos;
                            self.data(&v)?;
                            let amt = match weighted(&[4, 4, 1]) {
                                0 => v.len(),
                                1 => 1 + choose(v.len() as u64) as usize,
                                _ => 0,
                            };
                            self.pos = keep + amt;
                            h.consume(amt);
                            ev("consume", amt as u64, 0);
                        }
                    }
                }
                1 => {
                    let delim = if chance(1, 2) || rest == 0 { b'\n' } else { self.m.data[self.pos + choose(rest as u64) as usize] };
                    let mut v = Vec::new();
                    let r = h.read_until(delim, &mut v).await;
                    ev("read_until", delim as u64, v.len() as u64);
                    match r {
                        Ok(n) => {
                            check!(n == v.len(), "wrong-count", "read_until returned {n} but appended {}", v.len());
                            let want_end = self.m.data[self.pos..limit].iter().position(|c| *c == delim).map(|i| self.pos + i + 1).unwrap_or(limit);
                            let p0 = self.pos;
                            self.data(&v)?;
                            check!(self.pos == want_end, "wrong-line", "read_until({delim}) at {p0} stopped at {} instead of {want_end}", self.pos);
                            if n == 0 {
                                self.eof("read_until")?;
                                return Ok(true);
                            }
                        }
                        Err(e) => self.error(&e)?,
                    }
                }
                _ => {
                    // a line of text, when the rest is text
                    let line_end = self.m.data[self.pos..limit].iter().position(|c| *c == b'\n').map(|i| self.pos + i + 1).unwrap_or(limit);
                    if std::str::from_utf8(&self.m.data[self.pos..line_end]).is_ok() {
                        let mut s = String::new();
                        let r = h.read_line(&mut s).await;
                        ev("read_line", s.len() as u64, r.is_ok() as u64);
                        match r {
                            Ok(n) => {
                                check!(n == s.len(), "wrong-count", "read_line returned {n} but appended {}", s.len());
                                self.data(s.as_bytes())?;
                                check!(self.pos == line_end, "wrong-line", "read_line stopped at {} instead of {line_end}", self.pos);
                                if n == 0 {
                                    self.eof("read_line")?;
                                    return Ok(true);
                                }
                            }
                            Err(e) => self.error(&e)?,
                        }
                    }
                }
            }
        }
        Ok(false)
    }
    fn invariants(&self, h: &Holder) -> Res {
        check!(h.len() == self.m.reported, "length-changed", "len() is {:?}, declared {:?}", h.len(), self.m.reported);
        check!(h.is_empty() == self.m.reported.map(|x| x == 0), "length-changed", "is_empty() is {:?}, declared {:?}", h.is_empty(), self.m.reported);
        if let Some(s) = &self.m.stats {
            let s = s.lock().unwrap();
            check!(s.taken as u64 <= self.m.declared, "over-read", "{} bytes taken from the source, declared length {}", s.taken, self.m.declared);
            check!(s.taken >= self.pos, "invented-bytes", "{} bytes delivered, {} taken from the source", self.pos, s.taken);
        }
        Ok(())
    }
    /// Reads to the end, then checks the end stays the end.
    pub async fn to_end(&mut self, h: &mut Holder, composite: bool) -> Res {
        let mut ops = 0;
        let mut sticky = 0;
        loop {
            ops += 1;
            let end = if ops > 300 {
                // finish quickly
                let mut buf = vec![0u8; 65536];
                match h.read(&mut buf).await {
                    Ok(0) => {
                        self.eof("read")?;
                        true
                    }
                    Ok(n) => {
                        self.data(&buf[..n])?;
                        false
                    }
                    Err(e) => {
                        self.error(&e)?;
                        false
                    }
                }
            } else {
                self.op(h, composite).await?
            };
            self.invariants(h)?;
            if self.stopped {
                sticky += 1;
                if sticky > 3 {
                    return Ok(());
                }
            }
            if end {
                break;
            }
        }
        // A fault planted exactly at the enforced end may or may not be seen.
        self.m.faults.clear();
        for _ in 0..range(1, 3) {
            let again = if self.iface == Iface::Plain || chance(1, 2) {
                let mut b = [0u8; 9];
                match h.read(&mut b).await {
                    Ok(n) => n,
                    Err(e) if self.m.stats.as_ref().map(|s| s.lock().unwrap().errors > 0).unwrap_or(false) => {
                        let _ = e;
                        return Ok(());
                    }
                    Err(e) => return viol("spurious-error", format!("read after the end: {e:?}")),
                }
            } else {
                match h.fill_buf().await {
                    Ok(s) => s.len(),
                    Err(e) if self.m.stats.as_ref().map(|s| s.lock().unwrap().errors > 0).unwrap_or(false) => {
                        let _ = e;
                        return Ok(());
                    }
                    Err(e) => return viol("spurious-error", format!("fill_buf after the end: {e:?}")),
                }
            };
            ev("read_after_end", again as u64, 0);
            check!(again == 0, "data-after-end", "{again} bytes after the end of the body");
        }
        self.invariants(h)
    }
}

pub fn competitor() {
    // Unrelated tasks, so that scheduling interleaves with something.
    for _ in 0..choose(3) {
        exec::spawn("other", async {
            for _ in 0..range(1, 4) {
                exec::jitter().await;
            }
        });
    }
}

fn read_scenario(iface: fn() -> Iface, composite: bool, with_faults: bool) -> Res {
    exec::configure();
    let n = gen_len();
    let data = gen_bytes(n);
    let mut faults: Vec<SrcFault> = Vec::new();
    if with_faults {
        for id in 0..range(1, 4) {
            let f = SrcFault::new(choose(n as u64 + 1) as usize, *pick(ERR_KINDS), id as u32 + 1, chance(1, 5));
            if faults.iter().all(|g| g.pos != f.pos) {
                faults.push(f);
            }
        }
    }
    let iface = iface();
    let (mut h, mut m) = gen_holder(data, faults, !with_faults);
    competitor();
    exec::run_root(async move {
        // Sometimes move the half-read body to another carrier.
        let mut d = Drive { m: &mut m, pos: 0, iface, stopped: false };
        if chance(1, 4) {
            for _ in 0..range(1, 5) {
                if d.op(&mut h, composite).await? || d.stopped {
                    break;
                }
            }
            if !d.stopped {
                h = carry(h.into_body());
                probe("moved_while_reading");
            }
        }
        if d.stopped {
            return Ok(());
        }
        d.to_end(&mut h, composite).await
    })
}

pub fn c01() -> Res {
    if chance(1, 50) {
        return huge(false);
    }
    read_scenario(|| Iface::Plain, true, false)
}
pub fn c02() -> Res {
    if chance(1, 50) {
        return huge(chance(2, 3));
    }
    read_scenario(|| if chance(1, 2) { Iface::Buffered } else { Iface::Mixed }, true, false)
}

// ---- sources beyond 4 GiB ------------------------------------------------------
/// A source of `total` zero bytes that are claimed but never copied.
struct HugeReader {
    total: u64,
    pos: u64,
    b: Behave,
    zero: &'static [u8],
}
impl AsyncRead for HugeReader {
    fn poll_read(mut self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let k = (buf.len() as u64).min(self.total - self.pos);
        self.pos += k;
        ev("huge_chunk", k, 0);
        Poll::Ready(Ok(k as usize))
    }
}
impl AsyncBufRead for HugeReader {
    fn poll_fill_buf(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let k = (self.zero.len() as u64).min(self.total - self.pos) as usize;
        let z = self.zero;
        let _ = self.b;
        Poll::Ready(Ok(&z[..k]))
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        self.pos += amt as u64;
    }
}
fn huge_zero() -> &'static [u8] {
    use std::sync::OnceLock;
    static Z: OnceLock<&'static [u8]> = OnceLock::new();
    Z.get_or_init(|| Vec::leak(vec![0u8; 1 << 29]))
}
fn huge(bufread: bool) -> Res {
    probe("source_beyond_4GiB");
    let total = (1u64 << 32) * range(1, 3) + choose(1000);
    let declared = match weighted(&[1, 2, 2, 1]) {
        0 => None,
        1 => Some((1u64 << 32) + choose(1000)),
        2 => Some(total - choose(1000)),
        _ => Some(u64::MAX - choose(3)),
    };
    let want = declared.unwrap_or(u64::MAX).min(total);
    let src = HugeReader { total, pos: 0, b: Behave::calm(), zero: huge_zero() };
    let mut h = carry(Body::from_reader(src, declared));
    if chance(1, 3) {
        let b = h.into_body();
        h = carry(b.chain(Body::empty()));
    }
    exec::run_root(async move {
        let mut got = 0u64;
        let mut buf = vec![0u8; if bufread { 16 } else { (1 << 29) + 7 }];
        for _ in 0..200 {
            let n = if bufread {
                let n = h.fill_buf().await.map_err(|e| Violation { class: "spurious-error".into(), msg: format!("{e:?}") })?.len();
                h.consume(n);
                n
            } else {
                h.read(&mut buf).await.map_err(|e| Violation { class: "spurious-error".into(), msg: format!("{e:?}") })?
            };
            ev("huge_read", n as u64, 0);
            got += n as u64;
            check!(got <= want, "beyond-length", "{got} bytes read, declared {declared:?}, source {total}");
            if n == 0 {
                check!(got == want, "early-end", "end of input after {got} bytes, expected {want} (declared {declared:?}, source {total})");
                return Ok(());
            }
        }
        viol("no-progress", "a huge body was not finished in 200 reads")
    })
}

// ---- C03: failing sources --------------------------------------------------------
pub fn c03() -> Res {
    if chance(2, 5) {
        return convert_with_faults();
    }
    read_scenario(|| *pick(&[Iface::Plain, Iface::Buffered, Iface::Mixed]), false, true)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Conv {
    Bytes,
    Text,
    Json,
    Form,
}
pub enum Val {
    Bytes(Vec<u8>),
    Text(String),
    Json(serde_json::Value),
    Form(Vec<(String, String)>),
}
impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::Bytes(b) => format!("{} bytes", b.len()),
            Val::Text(s) => format!("text of {} bytes", s.len()),
            Val::Json(v) => format!("json {v}"),
            Val::Form(v) => format!("form {v:?}"),
        }
    }
}
pub async fn convert(h: &mut Option<Holder>, c: Conv) -> http_types::Result<Val> {
    // On a message the helper leaves the message behind; a body is consumed.
    match h.take().unwrap() {
        Holder::B(b) => match c {
            Conv::Bytes => b.into_bytes().await.map(Val::Bytes),
            Conv::Text => b.into_string().await.map(Val::Text),
            Conv::Json => b.into_json().await.map(Val::Json),
            Conv::Form => b.into_form().await.map(Val::Form),
        },
        Holder::Q(mut q) => {
            let r = match c {
                Conv::Bytes => q.body_bytes().await.map(Val::Bytes),
                Conv::Text => q.body_string().await.map(Val::Text),
                Conv::Json => q.body_json().await.map(Val::Json),
                Conv::Form => q.body_form().await.map(Val::Form),
            };
            *h = Some(Holder::Q(q));
            r
        }
        Holder::R(mut q) => {
            let r = match c {
                Conv::Bytes => q.body_bytes().await.map(Val::Bytes),
                Conv::Text => q.body_string().await.map(Val::Text),
                Conv::Json => q.body_json().await.map(Val::Json),
                Conv::Form => q.body_form().await.map(Val::Form),
            };
            *h = Some(Holder::R(q));
            r
        }
    }
}
/// What a conversion of exactly these bytes must give, if it is valid.
pub fn reference(c: Conv, d: &[u8]) -> Option<Val> {
    match c {
        Conv::Bytes => Some(Val::Bytes(d.to_vec())),
        Conv::Text => String::from_utf8(d.to_vec()).ok().map(Val::Text),
        Conv::Json => serde_json::from_slice(d).ok().map(Val::Json),
        Conv::Form => std::str::from_utf8(d).ok().and_then(|s| serde_urlencoded::from_str(s).ok()).map(Val::Form),
    }
}
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Bytes(x), Val::Bytes(y)) => x == y,
        (Val::Text(x), Val::Text(y)) => x == y,
        (Val::Json(x), Val::Json(y)) => x == y,
        (Val::Form(x), Val::Form(y)) => x == y,
        _ => false,
    }
}

const WORDS: &[&str] = &["a", "chashu", "nori", "ä", "λόγος", "猫", "🐈‍⬛", "\u{0}", "\"", "\\", "a b", "x=y&z", "%41", "+", "\u{feff}", "\n", "0", "-1e9"];
fn gen_text(max_words: u64) -> String {
    let n = choose(max_words + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(pick(WORDS));
        if chance(1, 4) {
            s.push(' ');
        }
    }
    s
}
fn gen_json(depth: u32) -> serde_json::Value {
    use serde_json::Value as V;
    match weighted(if depth == 0 { &[1, 1, 2, 2, 0, 0] } else { &[1, 1, 2, 2, 3, 3] }) {
        0 => V::Null,
        1 => V::Bool(chance(1, 2)),
        2 => serde_json::json!(choose(1 << 40) as i64 - (1 << 20)),
        3 => V::String(gen_text(4)),
        4 => V::Array((0..choose(4)).map(|_| gen_json(depth - 1)).collect()),
        _ => V::Object((0..choose(4)).map(|i| (format!("{}{i}", pick(WORDS)), gen_json(depth - 1))).collect()),
    }
}
/// The text so many times over, as long as that stays within 3 MiB.
fn again(s: String, times: usize) -> String {
    s.repeat(times.min((3 << 20) / s.len().max(1)).max(1))
}
/// Content for a conversion: mostly valid for it, sometimes damaged.
pub fn gen_content(c: Conv) -> Vec<u8> {
    let large = if chance(1, 400) { range(1, 40_000) as usize } else { 1 };
    let mut d = match c {
        Conv::Bytes => {
            let n = gen_len();
            gen_bytes(n)
        }
        Conv::Text => again(gen_text(if chance(1, 8) { 2000 } else { 20 }), large).into_bytes(),
        Conv::Json if large > 1 => serde_json::to_vec(&serde_json::json!([again(gen_text(20), large), gen_json(2)])).unwrap(),
        Conv::Json => serde_json::to_vec(&gen_json(3)).unwrap(),
        Conv::Form => {
            let v: Vec<(String, String)> = (0..choose(5)).map(|_| (gen_text(2), again(gen_text(3), large))).collect();
            serde_urlencoded::to_string(v).unwrap().into_bytes()
        }
    };
    if chance(1, 4) && !d.is_empty() {
        fault("content_damaged");
        for _ in 0..range(1, 2) {
            if d.is_empty() {
                break;
            }
            let i = choose(d.len() as u64) as usize;
            match choose(3) {
                0 => d[i] ^= 0x80,
                1 => {
                    d.remove(i);
                }
                _ => d.insert(i, *pick(&[0xffu8, b'{', b'"', 0xc3, b'&'])),
            }
        }
    }
    d
}

fn convert_with_faults() -> Res {
    exec::configure();
    let c = *pick(&[Conv::Bytes, Conv::Text, Conv::Json, Conv::Form]);
    let data = gen_content(c);
    let n = data.len();
    let mut faults: Vec<SrcFault> = Vec::new();
    for id in 0..range(1, 3) {
        let f = SrcFault::new(choose(n as u64 + 1) as usize, *pick(ERR_KINDS), id as u32 + 1, chance(1, 4));
        if faults.iter().all(|g| g.pos != f.pos) {
            faults.push(f);
        }
    }
    faults.sort_by_key(|f| f.pos);
    let (h, m) = gen_holder(data, faults, false);
    // Sources declaring a length nobody could hold are C17's subject.
    if m.reported.map(|l| l > n as u64 + (1 << 20)).unwrap_or(false) {
        return Ok(());
    }
    competitor();
    exec::run_root(async move {
        let mut h = Some(h);
        let r = convert(&mut h, c).await;
        let d = m.data[..m.limit()].to_vec();
        let must = m.faults.iter().find(|f| (f.pos as u64) < m.declared && f.pos <= m.data.len());
        note(|| format!("{c:?} -> {}", match &r { Ok(v) => v.show(), Err(e) => format!("error {} {}", u16::from(e.status()), e) }));
        match (&r, must) {
            (Ok(v), _) => {
                // Only a retried transient failure may end in success, and only with everything.
                if let Some(f) = must {
                    check!(f.kind == io::ErrorKind::Interrupted && m.faults.iter().filter(|g| (g.pos as u64) < m.declared).all(|g| g.kind == io::ErrorKind::Interrupted && !g.sticky), "failure-swallowed", "{c:?} conversion returned {} although the source failed with {:?} at {}", v.show(), f.kind, f.pos);
                }
                match reference(c, &d) {
                    Some(w) => check!(same(v, &w), "wrong-value", "{c:?} conversion returned {}, expected {}", v.show(), w.show()),
                    None => return viol("invalid-accepted", format!("{c:?} conversion of invalid content returned {}", v.show())),
                }
            }
            (Err(e), Some(f)) => {
                // The first failure that was not an interruption somebody may have retried, or
                // any interruption before it.
                let mut may: Vec<&SrcFault> = Vec::new();
                let mut passed = true;
                for g in m.faults.iter().filter(|g| (g.pos as u64) < m.declared && g.pos <= m.data.len()) {
                    may.push(g);
                    passed = g.kind == io::ErrorKind::Interrupted;
                    if !passed {
                        break;
                    }
                }
                let carried = e.downcast_ref::<io::Error>().map_or(false, |x| may.iter().any(|g| err_is(x, g.kind, g.id)));
                if carried {
                    probe("conversion_failed_with_source_error");
                } else {
                    let refused = passed && reference(c, &d).is_none() && (400..500).contains(&u16::from(e.status()));
                    check!(refused, "wrong-error", "{c:?} conversion failed with {e:?}, which does not carry the source's failure {:?} sim-fault-{}", f.kind, f.id);
                    probe("retried_and_refused");
                }
            }
            (Err(e), None) => {
                // no failure before the declared end: valid content must convert
                if let Some(w) = reference(c, &d) {
                    let at_end = m.faults.iter().any(|f| f.pos as u64 == m.declared);
                    check!(at_end, "spurious-error", "{c:?} conversion failed with {e:?}, expected {}", w.show());
                    return viol("spurious-error", format!("{c:?} conversion read past the declared end and failed with {e:?}"));
                }
            }
        }
        Ok(())
    })
}

// ---- C04: conversions ---------------------------------------------------------------
pub fn c04() -> Res {
    exec::configure();
    let c = *pick(&[Conv::Bytes, Conv::Text, Conv::Json, Conv::Form]);
    let mut data = gen_content(c);
    let from_value = chance(1, 6);
    let (h, m) = if from_value && (c == Conv::Json || c == Conv::Form) {
        // a body made from a value by the library, sent through a slow stream
        let b = match c {
            Conv::Json => {
                let v = gen_json(3);
                data = serde_json::to_vec(&v).unwrap();
                if chance(1, 2) {
                    Body::from_json(&v).unwrap()
                } else {
                    Body::from(v)
                }
            }
            _ => {
                let v: Vec<(String, String)> = (0..choose(5)).map(|_| (gen_text(2), gen_text(3))).collect();
                data = serde_urlencoded::to_string(&v).unwrap().into_bytes();
                Body::from_form(&v).unwrap()
            }
        };
        let want = if c == Conv::Json { mime::JSON } else { mime::FORM };
        check!(b.mime() == Some(&want), "wrong-type", "body made from a {c:?} value has type {:?}", b.mime());
        check!(b.len() == Some(data.len() as u64), "wrong-length", "body made from a {c:?} value declares {:?}, encodes {} bytes", b.len(), data.len());
        let l = data.len() as u64;
        (carry(b), Model { data: Arc::new(data), declared: l, reported: Some(l), stats: None, faults: vec![] })
    } else {
        gen_holder(data, vec![], true)
    };
    let vast = m.reported.map(|l| l > 1 << 21).unwrap_or(false);
    competitor();
    let give_up = chance(1, 5);
    let polls = range(1, 6);
    let stats = m.stats.clone();
    let (id, cell) = exec::spawn_res("convert", async move {
        let was_body = matches!(h, Holder::B(_));
        let mut h = Some(h);
        let r = convert(&mut h, c).await;
        let d = &m.data[..m.limit()];
        note(|| format!("{c:?} -> {}", match &r { Ok(v) => v.show(), Err(e) => format!("error {} {}", u16::from(e.status()), e) }));
        match (&r, reference(c, d)) {
            (Ok(v), Some(w)) => {
                check!(same(v, &w), "wrong-value", "{c:?} conversion returned {}, expected {}", v.show(), w.show());
                probe("converted");
            }
            (Ok(v), None) => return viol("invalid-accepted", format!("{c:?} conversion of invalid content returned {}", v.show())),
            // (a claim of an enormous length may be refused as the sender's fault)
            (Err(e), Some(_)) if vast && (400..500).contains(&u16::from(e.status())) => probe("vast_refused"),
            (Err(e), Some(w)) => return viol("spurious-error", format!("{c:?} conversion failed with {e:?}, expected {}", w.show())),
            (Err(e), None) => {
                probe("invalid_rejected");
                let s = u16::from(e.status());
                check!((400..500).contains(&s), "wrong-status", "{c:?} conversion of invalid content gave status {s}, not a client error");
            }
        }
        match h {
            None => check!(was_body, "lost-message", "message vanished"),
            Some(mut left) => {
                check!(left.len() == Some(0), "body-left", "a message whose body was converted still declares {:?} bytes", left.len());
                let mut v = Vec::new();
                let r = left.read_to_end(&mut v).await;
                check!(matches!(r, Ok(0)), "body-left", "a message whose body was converted still yields {r:?}");
            }
        }
        if let Some(s) = &m.stats {
            let s = s.lock().unwrap();
            check!(s.taken as u64 <= m.declared, "over-read", "{} bytes taken from the source, declared {}", s.taken, m.declared);
        }
        Ok(())
    });
    if give_up {
        exec::cancel_after(id, polls);
    }
    exec::run()?;
    let r = cell.borrow_mut().take();
    match r {
        Some(r) => r,
        None => {
            check!(exec::was_cancelled(id), "stuck", "conversion never finished");
            probe("conversion_dropped");
            if let Some(s) = stats {
                check!(s.lock().unwrap().dropped, "leak", "the source outlives the dropped conversion");
            }
            Ok(())
        }
    }
}

// ---- C05: chains ----------------------------------------------------------------------
struct Node {
    body: Body,
    /// what reading it yields now
    content: Vec<u8>,
    declared: Option<u64>,
    mime: Option<Mime>,
    read: u64,
}
pub const MIMES: &[fn() -> Option<Mime>] = &[|| Some(mime::BYTE_STREAM), || Some(mime::PLAIN), || Some(mime::JSON), || None, || Some(mime::HTML), || "text/plain".parse().ok(), || "text/plain;charset=latin1".parse().ok(), || "text/html;charset=utf-8;a=b".parse().ok()];

async fn chain_node(depth: u64) -> Result<Node, Violation> {
    let mut node = if depth == 0 || chance(2, 5) {
        let n = match weighted(&[3, 6, 1]) {
            0 => 0,
            1 => range(1, 40),
            _ => range(40, 9000),
        } as usize;
        let data = gen_bytes(n);
        let (mut body, content, declared) = match weighted(&[5, 1, 1]) {
            0 => {
                let declared = gen_declared(n);
                let lim = declared.unwrap_or(u64::MAX).min(n as u64) as usize;
                let c = data[..lim].to_vec();
                (Body::from_reader(SimReader::new(Arc::new(data), Behave::draw(), vec![]), declared), c, declared)
            }
            1 => (Body::empty(), vec![], Some(0)),
            _ => {
                let l = data.len() as u64;
                (in_memory(&data), data, Some(l))
            }
        };
        let mut m = body.mime().cloned();
        if chance(1, 3) {
            m = pick(MIMES)();
            body.set_mime(m.clone());
        }
        Node { body, content, declared, mime: m, read: 0 }
    } else {
        let a = Box::pin(chain_node(depth - 1)).await?;
        let b = Box::pin(chain_node(depth - 1)).await?;
        let mime_want = if a.mime == b.mime { a.mime.clone() } else { Some(mime::BYTE_STREAM) };
        let declared = match (a.declared, b.declared) {
            (Some(x), Some(y)) => (x - a.read).checked_add(y - b.read),
            _ => None,
        };
        if declared.is_none() && a.declared.is_some() && b.declared.is_some() {
            probe("chain_length_overflow");
        }
        let mut content = a.content;
        content.extend_from_slice(&b.content);
        let body = a.body.chain(b.body);
        ev("chain", content.len() as u64, declared.unwrap_or(u64::MAX));
        check!(body.len() == declared, "wrong-length", "chained body declares {:?}, expected {declared:?}", body.len());
        check!(body.mime() == mime_want.as_ref(), "wrong-type", "chained body has type {:?}, expected {mime_want:?}", body.mime());
        Node { body, content, declared, mime: mime_want, read: 0 }
    };
    if chance(1, 3) && !node.content.is_empty() {
        // read part of it before it is chained further
        let k = 1 + choose(node.content.len() as u64) as usize;
        let mut got = 0;
        if chance(1, 2) {
            let mut buf = vec![0u8; k];
            if let Err(e) = node.body.read_exact(&mut buf).await {
                return viol("early-end", format!("reading {k} of {} bytes before chaining: {e:?}", node.content.len()));
            }
            check!(buf[..] == node.content[..k], "wrong-bytes", "pre-read: {}", diff(&buf, &node.content[..k]));
            got = k;
        } else {
            while got < k {
                let v = match node.body.fill_buf().await {
                    Ok(v) => v.to_vec(),
                    Err(e) => return viol("spurious-error", format!("{e:?}")),
                };
                check!(!v.is_empty(), "early-end", "end of input after {got} of {} bytes before chaining", node.content.len());
                check!(node.content[got..].starts_with(&v), "wrong-bytes", "pre-read: {}", diff(&v, &node.content[got..]));
                let amt = v.len().min(k - got);
                node.body.consume(amt);
                got += amt;
            }
            probe("pre_read_buffered");
        }
        node.content.drain(..got);
        node.read += got as u64;
        ev("pre_read", got as u64, 0);
    }
    Ok(node)
}
pub fn c05() -> Res {
    exec::configure();
    competitor();
    exec::run_root(async move {
        let a = chain_node(2).await?;
        let b = chain_node(2).await?;
        let declared = match (a.declared, b.declared) {
            (Some(x), Some(y)) => (x - a.read).checked_add(y - b.read),
            _ => None,
        };
        let mime_want = if a.mime == b.mime { a.mime.clone() } else { Some(mime::BYTE_STREAM) };
        let mut data = a.content;
        data.extend_from_slice(&b.content);
        let body = a.body.chain(b.body);
        check!(body.len() == declared, "wrong-length", "chained body declares {:?}, expected {declared:?}", body.len());
        check!(body.mime() == mime_want.as_ref(), "wrong-type", "chained body has type {:?}, expected {mime_want:?}", body.mime());
        note(|| format!("top chain: {} bytes, declared {declared:?}", data.len()));
        let iface = *pick(&[Iface::Plain, Iface::Buffered, Iface::Mixed]);
        let mut m = Model { declared: u64::MAX, reported: declared, data: Arc::new(data), stats: None, faults: vec![] };
        let mut h = carry(body);
        let mut d = Drive { m: &mut m, pos: 0, iface, stopped: false };
        d.to_end(&mut h, true).await
    })
}
