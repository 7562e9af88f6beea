//! C21: failures pass through layers of handlers with their status, cause and type.
use super::body::competitor;
use crate::engine::*;
use crate::exec;
use crate::io::{err_is, make_err, Behave, SimReader, SrcFault, ERR_KINDS};
use http_types::{bail, ensure, ensure_eq, format_err};
use http_types::{Body, Error, Request, Response, Status, StatusCode};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::fmt;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

type Live = Arc<Mutex<(BTreeSet<u32>, bool)>>;
/// A handler's own error; counted while it lives.
struct Boom {
    id: u32,
    n: u64,
    live: Live,
}
impl Boom {
    fn new(id: u32, live: &Live) -> Boom {
        live.lock().unwrap().0.insert(id);
        Boom { id, n: 0, live: live.clone() }
    }
}
impl Drop for Boom {
    fn drop(&mut self) {
        let mut l = self.live.lock().unwrap();
        if !l.0.remove(&self.id) {
            l.1 = true;
        }
    }
}
impl fmt::Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "boom-{}-{}", self.id, self.n)
    }
}
impl fmt::Debug for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Boom<{}>", self.id)
    }
}
impl StdError for Boom {}
/// Wraps another error as its source.
#[derive(Debug)]
struct Wrap(u32, io::Error);
impl fmt::Display for Wrap {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "wrap-{}", self.0)
    }
}
impl StdError for Wrap {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        Some(&self.1)
    }
}
/// A message that is no error type.
#[derive(Debug, PartialEq, Clone)]
struct Note(u32);
impl fmt::Display for Note {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "note-{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Cause {
    Boom(u32, u64),
    Io(io::ErrorKind, u32),
    Wrap(u32, io::ErrorKind),
    Note(u32),
    /// only a text
    Text,
}
/// What the error at hand must say.
#[derive(Clone, Debug)]
struct Model {
    status: u16,
    cause: Cause,
    /// what it displays as, if that is fixed
    text: Option<String>,
    /// its type's name, if that is fixed
    ty: Option<Option<&'static str>>,
}
const CODES: &[u16] = &[
    100, 101, 103, 200, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501,
    502, 503, 504, 505, 506, 507, 508, 510, 511,
];
fn code() -> u16 {
    *pick(CODES)
}
fn sc(c: u16) -> StatusCode {
    StatusCode::try_from(c).expect("a known status")
}
fn name<T>() -> Option<Option<&'static str>> {
    Some(Some(std::any::type_name::<T>()))
}

struct World {
    live: Live,
    next: Rc<Cell<u32>>,
    /// how many layers' lazy statuses were asked for
    asked: Rc<Cell<u64>>,
}
type Out = Result<Val, (Error, Model)>;
/// The value a chain of handlers ends with when nothing fails.
type Val = u64;

/// Checks one error against what it must be.
fn check(e: &Error, m: &Model, at: &str) -> Res {
    let s: &StatusCode = e.as_ref();
    check!(e.status() == m.status && *s == m.status && u16::from(e.status()) == m.status, "status-lost", "{at}: the failure has status {} ({s}), must be {} ({m:?})", e.status(), m.status);
    let boom = e.downcast_ref::<Boom>().map(|b| (b.id, b.n));
    let ioe = e.downcast_ref::<io::Error>();
    let wrap = e.downcast_ref::<Wrap>();
    let note = e.downcast_ref::<Note>();
    let ok = match &m.cause {
        Cause::Boom(i, n) => boom == Some((*i, *n)) && ioe.is_none() && note.is_none() && wrap.is_none(),
        Cause::Io(k, i) => ioe.map_or(false, |x| err_is(x, *k, *i)) && boom.is_none() && note.is_none() && wrap.is_none(),
        Cause::Wrap(i, k) => wrap.map_or(false, |w| w.0 == *i && err_is(&w.1, *k, *i)) && boom.is_none() && note.is_none() && ioe.is_none(),
        Cause::Note(i) => note == Some(&Note(*i)) && boom.is_none() && ioe.is_none() && wrap.is_none(),
        Cause::Text => boom.is_none() && note.is_none() && wrap.is_none(),
    };
    check!(ok, "cause-lost", "{at}: the failure {e:?} is not {:?} any more (own {boom:?}, io {ioe:?}, note {note:?})", m.cause);
    if let Some(t) = &m.text {
        let d = e.to_string();
        check!(d == *t, "text-changed", "{at}: the failure reads {d:?}, must read {t:?}");
        let std: &(dyn StdError + Send + Sync) = e.as_ref();
        let std2: &dyn StdError = e.as_ref();
        check!(std.to_string() == *t && std2.to_string() == *t, "text-changed", "{at}: as a standard error the failure reads {std}, must read {t:?}");
        // the cause below it
        if let Cause::Wrap(i, k) = &m.cause {
            let mut s: Option<&dyn StdError> = Some(std2);
            let mut found = false;
            while let Some(x) = s {
                found |= x.downcast_ref::<io::Error>().map_or(false, |x| err_is(x, *k, *i));
                s = x.source();
            }
            check!(found, "cause-lost", "{at}: the source below {e} is gone");
        }
    }
    if let Some(t) = &m.ty {
        check!(e.type_name() == *t, "type-lost", "{at}: the failure's type reads {:?}, must be {t:?}", e.type_name());
    }
    Ok(())
}

// One function per way a handler fails.
fn bail_plain(i: u32) -> http_types::Result<Val> {
    let own = String::from("plain text");
    match i % 8 {
        0 => bail!("plain text"),
        2 => bail!(own),
        4 => Err(format_err!(own)),
        1 | 5 => bail!("text {} of {}", i, "many"),
        6 => Err(format_err!("plain text")),
        _ => Err(format_err!("text {} of {}", i, "many")),
    }
}
fn ensure_plain(i: u32, ok: bool) -> http_types::Result<Val> {
    let own = String::from("plain text");
    match i % 8 {
        0 => ensure!(ok, "plain text"),
        2 => ensure!(ok, own),
        4 => ensure_eq!(i, i + !ok as u32, own),
        1 | 5 => ensure!(ok, "text {} of {}", i, "many"),
        6 => ensure_eq!(i, i + !ok as u32, "plain text"),
        _ => ensure_eq!(i, i + !ok as u32, "text {} of {}", i, "many"),
    }
    Ok(i as Val)
}
fn plain_text(i: u32) -> String {
    if i % 2 == 0 {
        "plain text".into()
    } else {
        format!("text {i} of many")
    }
}
fn with_literal(i: u32, ok: bool) -> http_types::Result<Val> {
    let own = String::from("plain text");
    match i % 9 {
        0 => http_types::bail_status!(404, "plain text"),
        1 => http_types::bail_status!(418, "text {} of {}", i, "many"),
        2 => http_types::ensure_status!(ok, 503, "plain text"),
        3 => http_types::ensure_status!(ok, 451, "text {} of {}", i, "many"),
        4 => http_types::ensure_eq_status!(i, i + !ok as u32, 422, "plain text"),
        5 => http_types::ensure_eq_status!(i, i + !ok as u32, 301, "text {} of {}", i, "many"),
        6 => http_types::bail_status!(410, own),
        7 => http_types::ensure_status!(ok, 507, own),
        _ => http_types::ensure_eq_status!(i, i + !ok as u32, 409, own),
    }
    Ok(i as Val)
}
const LITERALS: [u16; 9] = [404, 418, 503, 451, 422, 301, 410, 507, 409];

fn same<T>(v: Result<T, Error>, m: Model) -> Result<T, (Error, Model)> {
    v.map_err(|e| (e, m))
}
impl World {
    fn id(&self) -> u32 {
        self.next.set(self.next.get() + 1);
        self.next.get()
    }
    /// The innermost handler: it fails in one of many ways, or gives a value.
    async fn bottom(self: Rc<World>) -> Result<Out, Violation> {
        let id = self.id();
        let c = code();
        let asked = Rc::new(Cell::new(0));
        let a2 = asked.clone();
        let lazily = move || {
            a2.set(a2.get() + 1);
            sc(c)
        };
        let fails = chance(4, 5);
        let kind = *pick(ERR_KINDS);
        let how = choose(17);
        note(|| format!("bottom {how} id {id} code {c} fails {fails}"));
        let boom = |st: u16| Model { status: st, cause: Cause::Boom(id, 0), text: Some(format!("boom-{id}-0")), ty: name::<Boom>() };
        let ioe = |st: u16| Model { status: st, cause: Cause::Io(kind, id), text: Some(format!("sim-fault-{id}")), ty: name::<io::Error>() };
        let text = |st: u16, t: String| Model { status: st, cause: Cause::Text, text: Some(t), ty: Some(None) };
        let own = || if fails { Err(Boom::new(id, &self.live)) } else { Ok(id as Val) };
        let sys = || if fails { Err(make_err(kind, id)) } else { Ok(id as Val) };
        let mut lazy = 0;
        let out: Out = match how {
            0 => same((|| -> http_types::Result<Val> { Ok(own()?) })(), boom(500)),
            1 => same(own().status(sc(c)), boom(c)),
            2 => {
                lazy = fails as u64;
                same(own().with_status(lazily), boom(c))
            }
            3 => same(own().map_err(|e| Error::new(c, e)), boom(c)),
            4 => same((|| -> http_types::Result<Val> { Ok(sys()?) })(), ioe(500)),
            5 => same(sys().status(c), ioe(c)),
            6 => {
                lazy = fails as u64;
                same(sys().with_status(lazily), ioe(c))
            }
            7 if fails => match choose(3) {
                0 => same(Err(Error::from_str(c, "a text")), text(c, "a text".into())),
                1 => same(Err(Error::from_str(sc(c), format!("text-{id}"))), text(c, format!("text-{id}"))),
                _ => same(Err(Error::from_str(c, Note(id))), Model { status: c, cause: Cause::Note(id), text: Some(format!("note-{id}")), ty: Some(None) }),
            },
            8 if fails => same(bail_plain(id), text(500, plain_text(id))),
            9 => same(ensure_plain(id, !fails), text(500, plain_text(id))),
            10 if fails || ![0, 1, 6].contains(&(id % 9)) => {
                let t = if [1, 3, 5].contains(&(id % 9)) { format!("text {id} of many") } else { "plain text".into() };
                same(with_literal(id, !fails), text(LITERALS[id as usize % 9], t))
            }
            11 => {
                let o = if fails { None } else { Some(id as Val) };
                let m = Model { status: c, cause: Cause::Text, text: None, ty: None };
                if chance(1, 2) {
                    same(o.status(c), m)
                } else {
                    lazy = fails as u64;
                    same(o.with_status(lazily), m)
                }
            }
            12 if fails => {
                let m = |t: String| Model { status: 500, cause: Cause::Text, text: Some(t), ty: None };
                if chance(1, 2) {
                    same(Err(Error::from_display(Note(id))), m(format!("note-{id}")))
                } else {
                    same(Err(Error::from_debug(Note(id))), m(format!("Note({id})")))
                }
            }
            13 => {
                let w = || if fails { Err(Wrap(id, make_err(kind, id))) } else { Ok(id as Val) };
                let st = if chance(1, 2) { c } else { 500 };
                let m = Model { status: st, cause: Cause::Wrap(id, kind), text: Some(format!("wrap-{id}")), ty: name::<Wrap>() };
                same(if st == 500 { w().map_err(Error::from) } else { w().status(st) }, m)
            }
            14 => {
                // anything anyhow holds
                let a = own().map_err(anyhow::Error::new);
                same(a.map_err(|e| Error::new(c, e)), Model { ty: None, ..boom(c) })
            }
            15 if fails => {
                // what the client sent is refused for its content
                let mut q = Request::post("http://a.sim/?n=letters");
                let split = |b: &[u8]| Body::from_reader(SimReader::new(Arc::new(b.to_vec()), Behave::draw(), vec![]), None);
                let at = 400 + 22;
                let (r, st, ty) = match choose(5) {
                    0 => {
                        q.set_body(split(b"text \xff\xfe text"));
                        (q.body_string().await.map(drop), at, None)
                    }
                    1 => {
                        q.set_body(split(b"n=letters"));
                        (q.body_form::<std::collections::BTreeMap<String, u32>>().await.map(drop), at, None)
                    }
                    2 => {
                        q.set_body(split(b"[1, 2"));
                        (q.body_json::<Vec<u32>>().await.map(drop), at, name::<serde_json::Error>())
                    }
                    3 => {
                        q.set_body(split(b"{}"));
                        (q.take_body().into_json::<Vec<u32>>().await.map(drop), at, name::<serde_json::Error>())
                    }
                    _ => (q.query::<std::collections::BTreeMap<String, u32>>().map(drop), 400, None),
                };
                check!(r.is_err(), "failure-lost", "content that is refused was taken");
                probe("content_refused");
                same(r.map(|()| id as Val), Model { status: st, cause: Cause::Text, text: None, ty })
            }
            _ => {
                // the body of a request fails under a conversion
                let n = choose_usize(30);
                let data = Arc::new(vec![b'a'; n]);
                let faults = if fails { vec![SrcFault { pos: choose_usize(n + 1), kind, id, sticky: true }] } else { vec![] };
                if kind == io::ErrorKind::Interrupted && fails {
                    // callers retry interruptions for ever
                    return Ok(Ok(id as Val));
                }
                let mut q = Request::post("http://a.sim/");
                q.set_body(Body::from_reader(SimReader::new(data, Behave::draw(), faults), None));
                let typed = choose(6);
                if typed < 2 {
                    // read as JSON: a failing source is no fault of the client's, what it sent may be
                    let r = match typed {
                        0 => q.body_json::<Vec<u32>>().await.map(drop),
                        _ => q.take_body().into_json::<Vec<u32>>().await.map(drop),
                    };
                    probe("failed_json");
                    let bad = Model { status: 422, cause: Cause::Text, text: None, ty: name::<serde_json::Error>() };
                    check!(r.is_err(), "failure-lost", "a body of {n} letters was read as JSON");
                    let out = same(r.map(|()| id as Val), if fails { ioe(500) } else { bad });
                    if let Err((e, m)) = &out {
                        check(e, m, "at its origin")?;
                    }
                    return Ok(out);
                }
                let r = match choose(5) {
                    4 if fails => q.take_body().into_form::<Vec<(String, String)>>().await.map(drop),
                    0 | 4 => q.body_bytes().await.map(drop),
                    1 => q.body_string().await.map(drop),
                    2 => q.take_body().into_bytes().await.map(drop),
                    _ => q.take_body().into_string().await.map(drop),
                };
                probe("failed_conversion");
                same(r.map(|()| id as Val), ioe(422))
            }
        };
        check!(asked.get() == lazy, "lazy-status", "a lazy status was asked for {} times, must be {lazy}", asked.get());
        match &out {
            Err((e, m)) => {
                // (what is refused for its content is refused either way)
                check!(fails, "failure-invented", "nothing failed (bottom {how}), but it gives {e:?}");
                check(e, m, "at its origin")?;
                probe("failed");
            }
            Ok(v) => check!(!fails && *v == id as Val, "failure-lost", "bottom {how} gives {v}, must {}", if fails { "fail".into() } else { format!("give {id}") }),
        }
        Ok(out)
    }
    /// What one layer does with what comes from below.
    fn handle(&self, out: Out) -> Result<Out, Violation> {
        let c = code();
        let (r, mut m) = match out {
            Ok(v) => (Ok(v), None),
            Err((e, m)) => (Err(e), Some(m)),
        };
        let fails = r.is_err();
        let before_value = r.as_ref().ok().copied();
        let how = choose(11);
        note(|| format!("layer {how} code {c} {m:?}"));
        let before = self.asked.get();
        let mut lazy = 0;
        let set = |m: &mut Option<Model>| {
            if let Some(m) = m {
                m.status = c;
            }
        };
        let r: http_types::Result<Val> = match how {
            0 => (move || -> http_types::Result<Val> { Ok(r?) })(),
            1 => {
                set(&mut m);
                r.status(c)
            }
            2 => {
                set(&mut m);
                lazy = fails as u64;
                let asked = self.asked.clone();
                r.with_status(move || {
                    asked.set(asked.get() + 1);
                    c
                })
            }
            3 => {
                set(&mut m);
                r.map_err(|mut e| {
                    e.set_status(sc(c));
                    e
                })
            }
            4 => {
                set(&mut m);
                r.map_err(|mut e| {
                    let s: &mut StatusCode = e.as_mut();
                    *s = sc(c);
                    e
                })
            }
            5 => r.map_err(|e| match e.downcast::<fmt::Error>() {
                Ok(_) => Error::from_str(599 - 88, "taken for another type"),
                Err(e) => e,
            }),
            6 => {
                if let Some(m) = &mut m {
                    m.ty = None;
                }
                r.map_err(|e| {
                    let s = e.status();
                    Error::new(s, e.into_inner())
                })
            }
            7 => {
                if let Some(m) = &mut m {
                    m.ty = None;
                    m.text = Some(format!("while at it {c}"));
                    m.status = c;
                    if let Cause::Text = m.cause {
                    } else {
                        probe("context");
                    }
                }
                r.map_err(|e| Error::new(c, e.into_inner().context(format!("while at it {c}"))))
            }
            8 => match r {
                Err(mut e) => {
                    if let Some(b) = e.downcast_mut::<Boom>() {
                        b.n += 1;
                        let m = m.as_mut().unwrap();
                        if let Cause::Boom(i, n) = &mut m.cause {
                            *n += 1;
                            if m.text.as_ref().map_or(false, |t| t.starts_with("boom")) {
                                m.text = Some(format!("boom-{i}-{n}"));
                            }
                        }
                    }
                    Err(e)
                }
                v => v,
            },
            9 => match r {
                // taken out and raised again
                Err(e) if e.downcast_ref::<Boom>().is_none() && e.downcast_ref::<io::Error>().is_some() => {
                    let (s, k) = (e.status(), e.downcast_ref::<io::Error>().unwrap().kind());
                    match e.downcast::<io::Error>() {
                        Ok(x) => {
                            check!(x.kind() == k, "cause-lost", "taking out gives {:?}, must be {k:?}", x.kind());
                            let mm = m.as_mut().unwrap();
                            mm.ty = name::<io::Error>();
                            mm.text = Some(x.to_string());
                            mm.status = u16::from(s);
                            probe("taken_out");
                            Err(Error::new(s, x))
                        }
                        Err(e) => return viol("cause-lost", format!("{e} holds an I/O error that cannot be taken out")),
                    }
                }
                Err(e) => match e.downcast::<Boom>() {
                    Ok(b) => {
                        let mm = m.as_mut().unwrap();
                        check!(mm.cause == Cause::Boom(b.id, b.n), "cause-lost", "taking out gives {b}, must be {mm:?}");
                        mm.ty = name::<Boom>();
                        mm.text = Some(b.to_string());
                        mm.status = c;
                        probe("taken_out");
                        Err(Error::new(c, b))
                    }
                    Err(e) => {
                        check!(e.downcast_ref::<Boom>().is_none(), "cause-lost", "{e} holds a failure that cannot be taken out");
                        Err(e)
                    }
                },
                v => v,
            },
            _ => match r {
                Err(e) if chance(1, 4) => {
                    drop(e);
                    m = None;
                    probe("handled");
                    Ok(77)
                }
                v => v,
            },
        };
        check!(self.asked.get() == before + lazy, "lazy-status", "a lazy status was asked for {} times, must be {lazy}", self.asked.get() - before);
        match (r, m) {
            (Ok(v), None) => {
                check!(before_value.map_or(true, |b| b == v), "value-changed", "a layer turned the value {before_value:?} into {v}");
                Ok(Ok(v))
            }
            (Err(e), Some(m)) => {
                check(&e, &m, "after a layer")?;
                Ok(Err((e, m)))
            }
            (Ok(v), Some(m)) => viol("failure-lost", format!("a layer turned the failure {m:?} into the value {v}")),
            (Err(e), None) => viol("failure-invented", format!("a layer turned a value into the failure {e:?}")),
        }
    }
}
type Fut = Pin<Box<dyn Future<Output = Result<Out, Violation>>>>;
fn layer(w: Rc<World>, depth: u64) -> Fut {
    Box::pin(async move {
        if chance(1, 3) {
            exec::jitter().await;
        }
        if depth == 0 {
            return w.bottom().await;
        }
        let out = if chance(1, 4) {
            // on a task of its own, which may never answer
            let cell: Rc<RefCell<Option<Result<Out, Violation>>>> = Default::default();
            let c2 = cell.clone();
            let below = layer(w.clone(), depth - 1);
            let id = exec::spawn("layer", async move {
                let r = below.await;
                *c2.borrow_mut() = Some(r);
            });
            let gone = chance(1, 4);
            if gone {
                exec::cancel_after(id, choose(3));
            }
            while !exec::is_done(id) {
                exec::sleep(500).await;
            }
            let got = cell.borrow_mut().take();
            match got {
                Some(r) => r?,
                None => {
                    check!(gone, "stuck", "a layer ended without a result");
                    fault("layer_cancelled");
                    let m = Model { status: 504, cause: Cause::Text, text: None, ty: None };
                    same(None.status(504), m)
                }
            }
        } else {
            layer(w.clone(), depth - 1).await?
        };
        w.handle(out)
    })
}
async fn serve(w: Rc<World>) -> Res {
    for _ in 0..range(1, 4) {
        let depth = choose(6);
        match layer(w.clone(), depth).await? {
            Ok(_) => {}
            Err((e, m)) => {
                check(&e, &m, "at the top")?;
                // the failure becomes the response
                let mut r = if chance(1, 2) { Response::new(e.status()) } else { Response::new(200) };
                r.set_status(e.status());
                check!(r.status() == m.status, "status-lost", "the response has status {}, the failure had {}", r.status(), m.status);
                match choose(4) {
                    0 => {
                        let b: Box<dyn StdError + Send + Sync> = e.into();
                        if let Some(t) = &m.text {
                            check!(b.to_string() == *t, "text-changed", "boxed, the failure reads {b}, must read {t}");
                        }
                    }
                    1 => {
                        let b: Box<dyn StdError> = e.into();
                        if let Some(t) = &m.text {
                            check!(b.to_string() == *t, "text-changed", "boxed, the failure reads {b}, must read {t}");
                        }
                    }
                    2 => {
                        let a = e.into_inner();
                        if let Cause::Boom(i, n) = m.cause {
                            let b = a.downcast_ref::<Boom>().map(|b| (b.id, b.n));
                            check!(b == Some((i, n)), "cause-lost", "the inner error holds {b:?}, must hold {:?}", m.cause);
                        }
                    }
                    _ => drop(e),
                }
                probe("answered");
            }
        }
    }
    Ok(())
}
pub fn c21() -> Res {
    exec::configure();
    competitor();
    let live = Live::default();
    let w = Rc::new(World { live: live.clone(), next: Rc::new(Cell::new(choose(7) as u32)), asked: Default::default() });
    let r: Vec<_> = (0..range(1, 2)).map(|_| exec::spawn_res("server", serve_own(w.clone())).1).collect();
    exec::run()?;
    exec::teardown();
    for r in r {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    let l = live.lock().unwrap();
    check!(!l.1, "cause-dropped-twice", "a cause was destroyed twice");
    check!(l.0.is_empty(), "cause-leaked", "causes {:?} outlive every failure", l.0);
    Ok(())
}
/// Each server counts its own lazy statuses, so they don't mix.
async fn serve_own(w: Rc<World>) -> Res {
    serve(Rc::new(World { live: w.live.clone(), next: w.next.clone(), asked: Default::default() })).await
}
