//! C08 trailers, C09 upgrade hand-off, C10 upgraded connections.
use super::body::{competitor, new_req, new_res, Holder};
use crate::engine::*;
use crate::exec;
use crate::io::*;
use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use http_types::{trailers, trailers::Trailers, upgrade};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub type Lines = BTreeMap<String, Vec<String>>;
pub fn lines_of<'a>(it: impl Iterator<Item = (&'a http_types::headers::HeaderName, &'a http_types::headers::HeaderValues)>) -> Lines {
    it.map(|(n, v)| (n.as_str().to_string(), v.iter().map(|v| v.as_str().to_string()).collect())).collect()
}
fn gen_trailers(tag: u64) -> (Trailers, Lines) {
    const NAMES: &[&str] = &["x-checksum", "Server-Timing", "ETag", "x-a", "X-A", "expires", "grpc-status"];
    let mut t = Trailers::new();
    let mut l = Lines::new();
    for k in 0..count(0, 5, 120) {
        let own = format!("x-many-{k}");
        let name = if k > 8 && chance(2, 3) {
            &own[..]
        } else if chance(1, 4) {
            super::multimap::registered_name()
        } else {
            *pick(NAMES)
        };
        let val = format!("{tag}-{k}-{}", *pick(&["", "v", "a, b", "\"q\"", "x=1;y=2"]));
        if chance(1, 3) {
            t.insert(name, val.as_str()).unwrap();
            l.insert(name.to_ascii_lowercase(), vec![val]);
        } else {
            t.append(name, val.as_str()).unwrap();
            l.entry(name.to_ascii_lowercase()).or_default().push(val);
        }
    }
    (t, l)
}

/// Polls `f` a few times in this task; gives it back if it is still pending.
async fn poll_some<F: Future + Unpin>(mut f: F, n: u64) -> Result<F::Output, F> {
    for _ in 0..n {
        match futures_lite::future::poll_once(&mut f).await {
            Some(v) => return Ok(v),
            None => exec::yield_now().await,
        }
    }
    Err(f)
}

/// What one hand-off ended in.
struct Flow<T> {
    /// the sender was created and its send ran to completion
    sent: Cell<bool>,
    send_started: Cell<bool>,
    received: RefCell<Option<Option<T>>>,
    recv_gone: Cell<bool>,
}
impl<T> Flow<T> {
    fn new() -> Rc<Self> {
        Rc::new(Flow { sent: Cell::new(false), send_started: Cell::new(false), received: RefCell::new(None), recv_gone: Cell::new(false) })
    }
}

enum Ends<S, R> {
    Both(S, R),
}

/// Runs one sender and one receiver through random tasks, delays, hand-overs
/// between tasks and cancellations.
fn drive_flow<S: 'static, R: Future<Output = Option<T>> + Unpin + 'static, T: 'static>(
    ends: Ends<Option<S>, Option<R>>,
    send: impl FnOnce(S) -> Pin<Box<dyn Future<Output = ()>>> + 'static,
    flow: Rc<Flow<T>>,
) {
    let Ends::Both(s, r) = ends;
    if let Some(s) = s {
        let fl = flow.clone();
        let mode = weighted(&[8, 2, 1]);
        let cut = if chance(1, 6) { Some(range(1, 4)) } else { None };
        let id = exec::spawn("sender", async move {
            exec::jitter().await;
            if mode == 1 {
                ev("sender_dropped", 0, 0);
                fault("sender_dropped");
                drop(s);
                return;
            }
            if mode == 2 {
                // dropped before its first poll
                fault("send_never_polled");
                let f = send(s);
                exec::jitter().await;
                drop(f);
                return;
            }
            fl.send_started.set(true);
            send(s).await;
            fl.sent.set(true);
            ev("sent", 0, 0);
        });
        if let Some(c) = cut {
            exec::cancel_after(id, c);
        }
    }
    if let Some(r) = r {
        let fl = flow.clone();
        let mode = weighted(&[6, 3, 2]);
        let cut = if chance(1, 8) { Some(range(1, 4)) } else { None };
        let id = exec::spawn("receiver", async move {
            struct Gone<T>(Rc<Flow<T>>);
            impl<T> Drop for Gone<T> {
                fn drop(&mut self) {
                    if self.0.received.borrow().is_none() {
                        self.0.recv_gone.set(true);
                    }
                }
            }
            let g = Gone(fl.clone());
            exec::jitter().await;
            match mode {
                0 => {
                    let v = r.await;
                    ev("received", v.is_some() as u64, 0);
                    *fl.received.borrow_mut() = Some(v);
                }
                1 => {
                    // first polled here, finished in another task
                    let k = range(1, 3);
                    match poll_some(r, k).await {
                        Ok(v) => *fl.received.borrow_mut() = Some(v),
                        Err(r) => {
                            fault("receiver_moved_task");
                            let f2 = fl.clone();
                            exec::spawn("receiver2", async move {
                                let _g = g;
                                exec::jitter().await;
                                let v = r.await;
                                ev("received", v.is_some() as u64, 1);
                                *f2.received.borrow_mut() = Some(v);
                            });
                        }
                    }
                }
                _ => {
                    fault("receiver_dropped");
                    let k = choose(3);
                    if let Ok(v) = poll_some(r, k).await {
                        *fl.received.borrow_mut() = Some(v);
                    }
                }
            }
        });
        if let Some(c) = cut {
            exec::cancel_after(id, c);
        }
    }
}

/// A copy of a message that lives for a while beside it. A copy of a response may share the
/// message's ends, so it does not keep a sender for longer than a bounded while: it lives on
/// (in `kept`) only where it has none.
fn twin(copy: impl FnOnce() -> Holder, sender_taken: bool, kept: &Rc<RefCell<Vec<Holder>>>) {
    if !chance(1, 8) {
        return;
    }
    let c = copy();
    probe("copied");
    let kept = kept.clone();
    exec::spawn("copy", async move {
        exec::jitter().await;
        let mut c = c;
        let mut bare = sender_taken || matches!(c, Holder::Q(_));
        if let (false, Holder::R(r)) = (bare, &mut c) {
            if chance(1, 2) {
                drop(r.send_trailers());
                drop(r.send_upgrade());
                bare = true;
            }
        }
        if bare && chance(2, 3) {
            kept.borrow_mut().push(c);
        }
    });
}

fn copy(h: &Holder) -> Holder {
    match h {
        Holder::Q(q) => Holder::Q(q.clone()),
        Holder::R(r) => Holder::R(r.clone()),
        _ => unreachable!(),
    }
}

// ---- C08 -------------------------------------------------------------------------
pub fn c08() -> Res {
    exec::configure();
    competitor();
    let mut checks: Vec<(Rc<Flow<Trailers>>, Lines, bool, bool)> = Vec::new();
    // Messages whose owner holds on to them while the two ends do their work:
    // neither end may depend on the message being let go.
    let kept: Rc<RefCell<Vec<Holder>>> = Default::default();
    for m in 0..range(1, 3) {
        let (t, want) = gen_trailers(m);
        let flow: Rc<Flow<Trailers>> = Flow::new();
        let mut h = if chance(1, 2) { Holder::Q(new_req()) } else { Holder::R(new_res()) };
        let make_s = !chance(1, 6);
        let make_r = !chance(1, 8);
        let send = move |s: trailers::Sender| -> Pin<Box<dyn Future<Output = ()>>> { Box::pin(s.send(t)) };
        let mk_s = |h: &mut Holder| -> trailers::Sender {
            match h {
                Holder::Q(q) => q.send_trailers(),
                Holder::R(r) => r.send_trailers(),
                _ => unreachable!(),
            }
        };
        let mk_r = |h: &mut Holder| -> trailers::Receiver {
            match h {
                Holder::Q(q) => q.recv_trailers(),
                Holder::R(r) => r.recv_trailers(),
                _ => unreachable!(),
            }
        };
        let has = |h: &Holder| match h {
            Holder::Q(q) => q.has_trailers(),
            Holder::R(r) => r.has_trailers(),
            _ => unreachable!(),
        };
        checks.push((flow.clone(), want, make_s, make_r));
        let order = chance(1, 2);
        let late = chance(1, 3);
        let keep = make_s && chance(1, 2);
        let kept = kept.clone();
        // The message's owner creates the ends, at any time, then lets go of it.
        exec::spawn("owner", async move {
            exec::jitter().await;
            let (mut s, mut r) = (None, None);
            twin(|| copy(&h), false, &kept);
            if order && make_r {
                r = Some(mk_r(&mut h));
                if late {
                    // the receiver starts before the sender exists
                    drive_flow(Ends::Both(None::<trailers::Sender>, r.take()), |_| unreachable!(), flow.clone());
                    exec::jitter().await;
                }
            }
            if make_s {
                let _ = has(&h);
                s = Some(mk_s(&mut h));
                twin(|| copy(&h), true, &kept);
                if late && !order {
                    drive_flow(Ends::Both(s.take(), None::<trailers::Receiver>), send, flow.clone());
                    exec::jitter().await;
                    // perhaps sent by now, and nobody listens yet
                    twin(|| copy(&h), true, &kept);
                    if make_r {
                        r = Some(mk_r(&mut h));
                        drive_flow(Ends::Both(None::<trailers::Sender>, r.take()), |_| unreachable!(), flow.clone());
                    }
                    exec::jitter().await;
                    if keep {
                        kept.borrow_mut().push(h);
                    }
                    return;
                }
            }
            if !order && make_r {
                r = Some(mk_r(&mut h));
            }
            if make_s && !has(&h) {
                note(|| "has_trailers() false after send_trailers()".into());
                panic!("has_trailers() is false after send_trailers()");
            }
            twin(|| copy(&h), make_s, &kept);
            drive_flow(Ends::Both(s, r), send, flow.clone());
            if chance(1, 2) {
                // read the (empty) body meanwhile, then let go
                let mut v = Vec::new();
                let _ = h.read_to_end(&mut v).await;
            }
            exec::jitter().await;
            if keep {
                probe("message_kept");
                kept.borrow_mut().push(h);
                return;
            }
            drop(h);
            ev("owner_gone", 0, 0);
        });
    }
    exec::run()?;
    kept.borrow_mut().clear();
    for (i, (f, want, made_s, made_r)) in checks.into_iter().enumerate() {
        let got = f.received.borrow_mut().take();
        match got {
            None => check!(!made_r || f.recv_gone.get(), "stuck", "receiver {i} neither finished nor was dropped"),
            Some(Some(t)) => {
                check!(made_s && f.send_started.get(), "invented", "receiver {i} got trailers nobody sent");
                let l = lines_of(t.iter());
                check!(l == want, "wrong-trailers", "receiver {i} got {l:?}, sent {want:?}");
                probe("delivered");
            }
            Some(None) => {
                check!(!f.sent.get(), "lost", "receiver {i} ended with nothing although its trailers were sent");
                probe("ended_with_nothing");
            }
        }
        if f.sent.get() && f.recv_gone.get() {
            probe("sent_to_gone_receiver");
        }
    }
    Ok(())
}

// ---- C09 -------------------------------------------------------------------------
pub fn c09() -> Res {
    exec::configure();
    competitor();
    struct Item {
        flow: Rc<Flow<upgrade::Connection>>,
        peer: SimConn,
        log: Arc<Mutex<ConnLog>>,
        pre: Vec<u8>,
        made_s: bool,
        made_r: bool,
    }
    let items: Rc<RefCell<Vec<Item>>> = Default::default();
    let kept: Rc<RefCell<Vec<http_types::Response>>> = Default::default();
    let twins: Rc<RefCell<Vec<Holder>>> = Default::default();
    for _ in 0..range(1, 3) {
        let (conn, peer) = SimConn::pair(4096, 4096, Behave::draw(), Behave::calm());
        let log = conn.log.clone();
        // Bytes the peer has already pushed.
        let pre = gen_bytes(choose(40) as usize);
        {
            let mut p = peer.wr.lock().unwrap();
            p.buf.extend(&pre);
            p.accepted += pre.len() as u64;
        }
        let c = upgrade::Connection::new(conn);
        let flow: Rc<Flow<upgrade::Connection>> = Flow::new();
        let mut h = new_res();
        let made_s = !chance(1, 6);
        let made_r = !chance(1, 8);
        items.borrow_mut().push(Item { flow: flow.clone(), peer, log, pre, made_s, made_r });
        let order = chance(1, 2);
        let late = chance(1, 3);
        let keep = made_s && made_r && chance(1, 2);
        let kept = kept.clone();
        let twins = twins.clone();
        let send = move |s: upgrade::Sender| -> Pin<Box<dyn Future<Output = ()>>> { Box::pin(s.send(c)) };
        exec::spawn("owner", async move {
            exec::jitter().await;
            let (mut s, mut r) = (None, None);
            twin(|| Holder::R(h.clone()), false, &twins);
            if order && made_r {
                r = Some(h.recv_upgrade().await);
                if late {
                    drive_flow(Ends::Both(None::<upgrade::Sender>, r.take()), |_| unreachable!(), flow.clone());
                    exec::jitter().await;
                }
            }
            if made_s {
                s = Some(h.send_upgrade());
                twin(|| Holder::R(h.clone()), true, &twins);
                if late && !order {
                    drive_flow(Ends::Both(s.take(), None::<upgrade::Receiver>), send, flow.clone());
                    exec::jitter().await;
                    // perhaps sent by now, and nobody listens yet
                    twin(|| Holder::R(h.clone()), true, &twins);
                    if made_r {
                        r = Some(h.recv_upgrade().await);
                        drive_flow(Ends::Both(None::<upgrade::Sender>, r.take()), |_| unreachable!(), flow.clone());
                    }
                    exec::jitter().await;
                    if keep {
                        kept.borrow_mut().push(h);
                    }
                    return;
                }
            }
            if !order && made_r {
                r = Some(h.recv_upgrade().await);
            }
            if (made_s || made_r) && !h.has_upgrade() {
                panic!("has_upgrade() is false after the upgrade was requested");
            }
            twin(|| Holder::R(h.clone()), made_s, &twins);
            drive_flow(Ends::Both(s, r), send, flow.clone());
            exec::jitter().await;
            if keep {
                probe("message_kept");
                kept.borrow_mut().push(h);
                return;
            }
            drop(h);
            ev("owner_gone", 0, 0);
        });
    }
    exec::run()?;
    // a copy may hold on to what nobody has received
    twins.borrow_mut().clear();
    let items = std::mem::take(&mut *items.borrow_mut());
    for (i, it) in items.into_iter().enumerate() {
        let got = it.flow.received.borrow_mut().take();
        match got {
            None => {
                check!(!it.made_r || it.flow.recv_gone.get(), "stuck", "receiver {i} neither finished nor was dropped");
                // Nobody has it: it must be closed, not kept.
                check!(it.log.lock().unwrap().dropped, "leak", "connection {i} is still open although its receiver is gone");
                probe("closed_unreceived");
            }
            Some(None) => {
                check!(!it.flow.sent.get(), "lost", "receiver {i} ended with nothing although its connection was sent");
                check!(it.log.lock().unwrap().dropped, "leak", "unsent connection {i} is still open");
                probe("ended_with_nothing");
            }
            Some(Some(mut c)) => {
                check!(it.made_s && it.flow.send_started.get(), "invented", "receiver {i} got a connection nobody sent");
                check!(!it.log.lock().unwrap().dropped, "closed", "delivered connection {i} is already closed");
                probe("delivered");
                let mut peer = it.peer;
                let pre = it.pre;
                let hello = gen_bytes(range(1, 30) as usize);
                exec::run_root(async move {
                    let mut buf = vec![0u8; pre.len()];
                    if let Err(e) = c.read_exact(&mut buf).await {
                        return viol("lost-bytes", format!("reading the {} bytes that were already there: {e:?}", pre.len()));
                    }
                    check!(buf == pre, "wrong-bytes", "connection {i} has other bytes than were buffered for it");
                    if let Err(e) = c.write_all(&hello).await {
                        return viol("spurious-error", format!("write: {e:?}"));
                    }
                    if let Err(e) = c.flush().await {
                        return viol("spurious-error", format!("flush: {e:?}"));
                    }
                    let mut b2 = vec![0u8; hello.len()];
                    if let Err(e) = peer.read_exact(&mut b2).await {
                        return viol("lost-bytes", format!("peer: {e:?}"));
                    }
                    check!(b2 == hello, "wrong-bytes", "peer of connection {i} received other bytes than were written");
                    Ok(())
                })?;
                check!(it.log.lock().unwrap().dropped, "leak", "connection {i} outlives its owner");
            }
        }
    }
    Ok(())
}

// ---- C10 -------------------------------------------------------------------------
/// One direction of one end, as seen by the application above the connection.
#[derive(Default)]
struct DirLog {
    /// bytes accepted by write calls, in order
    accepted: Vec<u8>,
    /// bytes returned by read calls, in order
    read: Vec<u8>,
    eof: bool,
    closed: bool,
    gave_up: bool,
    /// writes of bytes reported to have accepted none
    zeros: u64,
    /// errors seen by the caller: (op, kind, text)
    errors: Vec<(char, io::ErrorKind, String)>,
}
type DL = Rc<RefCell<DirLog>>;

async fn writer<W: AsyncWrite + Unpin>(mut w: W, data: Vec<u8>, log: DL, pipe: Pipe, staging: bool, do_close: bool) -> Res {
    let mut off = 0;
    let mut tries = 0;
    let mut sink: Vec<u8> = Vec::new();
    while off < data.len() {
        tries += 1;
        if tries > 50_000 {
            return viol("no-progress", format!("50000 writes moved {off} of {} bytes", data.len()));
        }
        let k = if tries > 500 { data.len() - off } else { (1 + if data.len() > LARGE { choose(*pick(&[200, 20_000, 100_000, 200_000])) } else { choose(*pick(&[1u64, 8, 200, 4000])) }).min((data.len() - off) as u64) as usize };
        let r = if chance(1, 6) && k > 1 {
            let cut = 1 + choose(k as u64 - 1) as usize;
            let (a, b) = data[off..off + k].split_at(cut);
            let bufs = [io::IoSlice::new(a), io::IoSlice::new(b)];
            Some(w.write_vectored(&bufs).await)
        } else if chance(1, 8) {
            exec::abandon(w.write(&data[off..off + k]), choose(3)).await
        } else {
            Some(w.write(&data[off..off + k]).await)
        };
        match r {
            None => {}
            Some(Ok(0)) => {
                log.borrow_mut().zeros += 1;
                ev("w", k as u64, 0);
            }
            Some(Ok(n)) => {
                check!(n <= k, "overlong-write", "write of {k} bytes reported {n}");
                ev("w", k as u64, n as u64);
                log.borrow_mut().accepted.extend_from_slice(&data[off..off + n]);
                sink.extend_from_slice(&data[off..off + n]);
                off += n;
            }
            Some(Err(e)) => {
                log.borrow_mut().errors.push(('w', e.kind(), e.to_string()));
                ev("w_err", e.kind() as u64, 0);
                if matches!(e.kind(), io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset) {
                    log.borrow_mut().gave_up = true;
                    return Ok(());
                }
            }
        }
        if chance(1, 4) {
            match w.flush().await {
                Ok(()) => {
                    ev("flushed", off as u64, 0);
                    let p = pipe.lock().unwrap();
                    check!(!staging || p.staged.is_empty(), "flush-lost", "flush succeeded with {} accepted bytes not on the transport", p.staged.len());
                    check!(p.accepted as usize == off, "flush-lost", "flush succeeded after {off} accepted bytes, the transport has {}", p.accepted);
                    probe("flush_checked");
                }
                Err(e) => {
                    log.borrow_mut().errors.push(('f', e.kind(), e.to_string()));
                    ev("f_err", e.kind() as u64, 0);
                    if matches!(e.kind(), io::ErrorKind::BrokenPipe | io::ErrorKind::ConnectionReset) {
                        log.borrow_mut().gave_up = true;
                        return Ok(());
                    }
                }
            }
        }
        if chance(1, 4) {
            exec::jitter().await;
        }
    }
    if do_close {
        for _ in 0..200 {
            match w.close().await {
                Ok(()) => {
                    log.borrow_mut().closed = true;
                    let p = pipe.lock().unwrap();
                    check!(p.closed, "close-lost", "close succeeded but the transport was not closed");
                    check!(p.staged.is_empty(), "flush-lost", "close succeeded with {} bytes unsent", p.staged.len());
                    ev("closed", off as u64, 0);
                    drop(p);
                    // What comes after the close is the transport's to answer, too.
                    for _ in 0..choose(3) {
                        match w.write(&[7; 3]).await {
                            Ok(0) => log.borrow_mut().zeros += 1,
                            Ok(n) => return viol("write-after-close", format!("{n} bytes were accepted by a closed transport")),
                            Err(e) => log.borrow_mut().errors.push(('w', e.kind(), e.to_string())),
                        }
                        probe("write_after_close");
                    }
                    return Ok(());
                }
                Err(e) => {
                    log.borrow_mut().errors.push(('c', e.kind(), e.to_string()));
                    ev("c_err", e.kind() as u64, 0);
                }
            }
        }
        log.borrow_mut().gave_up = true;
    }
    Ok(())
}
async fn reader<R: AsyncRead + Unpin>(mut r: R, log: DL, fails_after_end: bool) -> Res {
    let mut tries = 0;
    loop {
        tries += 1;
        if tries > 60_000 {
            return viol("no-progress", "60000 reads without an end");
        }
        let k = if tries > 500 { 4096 } else { *pick(&[1usize, 3, 64, 4096]) };
        // Reading nothing says nothing about the end.
        if chance(1, 16) {
            if let Some(r) = exec::abandon(r.read(&mut []), choose(3)).await {
                check!(matches!(r, Ok(0)), "empty-read", "a read of no bytes gives {r:?}");
                ev("r", 0, 0);
            }
        }
        let mut buf = vec![0u8; k];
        let res = match weighted(&[6, 1, 1]) {
            0 => Some(r.read(&mut buf).await),
            1 => exec::abandon(r.read(&mut buf), choose(3)).await,
            _ => {
                let cut = choose(k as u64 + 1) as usize;
                let (a, b) = buf.split_at_mut(cut);
                let mut bufs = [io::IoSliceMut::new(a), io::IoSliceMut::new(b)];
                Some(r.read_vectored(&mut bufs).await)
            }
        };
        match res {
            None => {}
            Some(Ok(0)) => {
                ev("eof", 0, 0);
                log.borrow_mut().eof = true;
                // the end stays the end, unless a further error is injected
                for _ in 0..choose(3) {
                    match r.read(&mut [0; 3]).await {
                        Ok(0) => check!(!fails_after_end, "read-after-end", "the transport fails after the end, the caller is told of an end"),
                        Ok(n) => return viol("read-after-end", format!("{n} bytes after the end")),
                        Err(e) => log.borrow_mut().errors.push(('r', e.kind(), e.to_string())),
                    }
                    probe("read_after_end");
                }
                return Ok(());
            }
            Some(Ok(n)) => {
                check!(n <= k, "overlong-read", "read of {k} returned {n}");
                ev("r", k as u64, n as u64);
                log.borrow_mut().read.extend_from_slice(&buf[..n]);
            }
            Some(Err(e)) => {
                ev("r_err", e.kind() as u64, 0);
                let reset = e.kind() == io::ErrorKind::ConnectionReset;
                log.borrow_mut().errors.push(('r', e.kind(), e.to_string()));
                if reset {
                    return Ok(());
                }
            }
        }
        if chance(1, 6) {
            exec::jitter().await;
        }
    }
}

pub fn c10() -> Res {
    exec::configure();
    competitor();
    let large = chance(1, 60);
    let cap_a = if large { *pick(&[65536usize, 1 << 20]) } else { *pick(&[1usize, 2, 16, 300, 65536]) };
    let cap_b = *pick(&[1usize, 2, 16, 300, 65536]);
    let behave = || {
        let b = Behave::draw();
        Behave { max_chunk: if large { b.max_chunk.max(3000) } else { b.max_chunk }, ..b }
    };
    let (mut a, mut b) = SimConn::pair(cap_a, cap_b, behave(), behave());
    let errs = chance(1, 2);
    let staging = [chance(1, 2), chance(1, 2)];
    let after_end = [chance(1, 3), chance(1, 3)];
    a.fail_after_end = after_end[0];
    b.fail_after_end = after_end[1];
    a.staging = staging[0];
    b.staging = staging[1];
    if errs {
        for c in [&mut a, &mut b] {
            c.werr = *pick(&[0, 1, 4]);
            c.rerr = *pick(&[0, 1, 4]);
            c.ferr = *pick(&[0, 1, 4]);
            c.wzero = *pick(&[0, 0, 1, 3]);
        }
    }
    let (pa, pb) = (a.wr.clone(), b.wr.clone());
    let clogs = [a.log.clone(), b.log.clone()];
    let reset = chance(1, 6);
    let len = |cap: usize| if cap < 16 { choose(60) as usize } else { gen_len().min(3000) };
    let la = if large { range(20_000, 200_000) as usize } else { len(cap_a) };
    let (da, db) = (gen_bytes(la), gen_bytes(len(cap_b)));
    note(|| format!("A sends {} bytes over capacity {cap_a}, B sends {} over {cap_b}; buffering transport {staging:?}, errors {errs}, reset {reset}", da.len(), db.len()));
    let (ca, cb) = (upgrade::Connection::new(a), upgrade::Connection::new(b));
    // Sometimes a connection travels inside another one.
    let ca = if chance(1, 6) { upgrade::Connection::new(ca) } else { ca };
    let logs: [DL; 2] = Default::default();
    let mut cells = Vec::new();
    for (i, (c, data)) in [(ca, da.clone()), (cb, db.clone())].into_iter().enumerate() {
        let (r, w) = futures_lite::io::split(c);
        let p = if i == 0 { pa.clone() } else { pb.clone() };
        cells.push(exec::spawn_res("writer", writer(w, data, logs[i].clone(), p, staging[i], true)).1);
        cells.push(exec::spawn_res("reader", reader(r, logs[i].clone(), after_end[i])).1);
    }
    if reset {
        let (pa, pb) = (pa.clone(), pb.clone());
        exec::spawn("reset", async move {
            exec::sleep(range(1, 20_000)).await;
            fault("connection_reset");
            ev("reset", 0, 0);
            for p in [pa, pb] {
                let mut p = p.lock().unwrap();
                p.reset = true;
                let ws: Vec<_> = p.rwaker.drain(..).collect();
                let ws2: Vec<_> = p.wwaker.drain(..).collect();
                for w in ws.into_iter().chain(ws2) {
                    w.wake();
                }
            }
        });
    }
    exec::run()?;
    for c in cells {
        match c.borrow_mut().take() {
            Some(r) => r?,
            None => return viol("stuck", "a task never finished"),
        }
    }
    let was_reset = pa.lock().unwrap().reset;
    for (from, to) in [(0usize, 1usize), (1, 0)] {
        let (f, t) = (logs[from].borrow(), logs[to].borrow());
        check!(f.accepted.starts_with(&t.read), "wrong-bytes", "end {to} read bytes that differ from what end {from} wrote (at offset {})", f.accepted.iter().zip(t.read.iter()).position(|(x, y)| x != y).unwrap_or(f.accepted.len()));
        if !was_reset {
            check!(t.eof, "no-end", "end {to} never saw the end of input");
            if f.closed {
                check!(t.read == f.accepted, "lost-bytes", "end {from} wrote {} bytes and closed; end {to} read {} before the end", f.accepted.len(), t.read.len());
                probe("complete_stream");
            }
            check!(f.closed, "no-close", "end {from} could not close");
        }
    }
    // Every error the transport reported reached the caller, and no other.
    for i in 0..2 {
        let l = logs[i].borrow();
        let c = clogs[i].lock().unwrap();
        for op in ['r', 'w', 'f', 'c'] {
            let mut got: Vec<(io::ErrorKind, String)> = l.errors.iter().filter(|e| e.0 == op).map(|e| (e.1, e.2.clone())).collect();
            let mut want: Vec<(io::ErrorKind, String)> = c.errors.iter().filter(|e| e.0 == op).map(|e| (e.1, format!("sim-fault-{}", e.2))).collect();
            got.sort_by(|a, b| a.1.cmp(&b.1));
            want.sort_by(|a, b| a.1.cmp(&b.1));
            check!(got == want, "wrong-error", "end {i}, operation {op:?}: the transport failed with {want:?}, the caller saw {got:?}");
        }
        check!(l.zeros == c.zeros, "zero-write", "end {i}: {} writes accepted nothing, the caller was told of {}", c.zeros, l.zeros);
        check!(c.dropped, "leak", "transport {i} outlives its connection");
    }
    Ok(())
}
