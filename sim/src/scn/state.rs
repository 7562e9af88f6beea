//! C19: what a message holds besides its headers and body, through any history.
use super::body::competitor;
use crate::engine::*;
use crate::exec;
use http_types::{Body, Method, Request, Response, StatusCode, Url, Version};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Which tokens exist right now, and whether one was ever destroyed twice.
#[derive(Default, Debug)]
struct Reg {
    live: BTreeSet<u64>,
    twice: Option<u64>,
}
type SharedReg = Arc<Mutex<Reg>>;
/// A stored value: counted while it lives.
#[derive(Debug)]
struct Tok {
    id: u64,
    n: u64,
    reg: SharedReg,
}
impl Tok {
    fn new(id: u64, reg: &SharedReg) -> Tok {
        reg.lock().unwrap().live.insert(id);
        Tok { id, n: 0, reg: reg.clone() }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let mut r = self.reg.lock().unwrap();
        if !r.live.remove(&self.id) {
            r.twice = Some(self.id);
        }
    }
}
struct Tagged<T>(Tok, PhantomData<fn() -> T>);
#[repr(align(128))]
struct Wide([u8; 1000], Tok);
thread_local! {
    static MARKS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static MARKS_WANTED: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
/// A stored value without any content: only counted.
struct Mark;
impl Mark {
    fn new() -> Mark {
        MARKS.with(|m| m.set(m.get() + 1));
        Mark
    }
}
impl Drop for Mark {
    fn drop(&mut self) {
        MARKS.with(|m| m.set(m.get() - 1));
    }
}

trait Kind: Send + Sync + Sized + 'static {
    fn wrap(t: Tok) -> Self;
    fn tok(&mut self) -> &mut Tok;
    fn view(&self) -> &Tok;
    fn unwrap(self) -> Tok;
}
macro_rules! kind {
    ($t:ty, |$w:ident| $wrap:expr, |$s:ident| $place:expr, |$o:ident| $out:expr) => {
        impl Kind for $t {
            fn wrap($w: Tok) -> Self {
                $wrap
            }
            fn tok(&mut self) -> &mut Tok {
                let $s = self;
                &mut $place
            }
            fn view(&self) -> &Tok {
                let $s = self;
                &$place
            }
            fn unwrap(self) -> Tok {
                let $o = self;
                $out
            }
        }
    };
}
kind!(Tok, |w| w, |s| *s, |o| o);
kind!(Box<Tok>, |w| Box::new(w), |s| **s, |o| *o);
kind!((u8, Tok), |w| (7, w), |s| s.1, |o| o.1);
kind!([Tok; 1], |w| [w], |s| s[0], |o| {
    let [t] = o;
    t
});
kind!(Vec<Tok>, |w| vec![w], |s| s[0], |o| o.into_iter().next().unwrap());
kind!(Tagged<u8>, |w| Tagged(w, PhantomData), |s| s.0, |o| o.0);
kind!(Tagged<i8>, |w| Tagged(w, PhantomData), |s| s.0, |o| o.0);
kind!(Tagged<String>, |w| Tagged(w, PhantomData), |s| s.0, |o| o.0);
kind!(Wide, |w| Wide([0xa5; 1000], w), |s| s.1, |o| {
    assert!(o.0.iter().all(|b| *b == 0xa5));
    o.1
});
const KINDS: usize = 9;
macro_rules! by_kind {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => {
                type $t = Tok;
                $e
            }
            1 => {
                type $t = Box<Tok>;
                $e
            }
            2 => {
                type $t = (u8, Tok);
                $e
            }
            3 => {
                type $t = [Tok; 1];
                $e
            }
            4 => {
                type $t = Vec<Tok>;
                $e
            }
            5 => {
                type $t = Tagged<u8>;
                $e
            }
            6 => {
                type $t = Tagged<i8>;
                $e
            }
            7 => {
                type $t = Wide;
                $e
            }
            _ => {
                type $t = Tagged<String>;
                $e
            }
        }
    };
}

enum Obj {
    Q(Request),
    R(Response),
}
macro_rules! each {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Obj::Q($x) => $e,
            Obj::R($x) => $e,
        }
    };
}
#[derive(Clone, PartialEq, Debug)]
struct Meta {
    method: Method,
    status: u16,
    url: String,
    version: Option<Version>,
    peer: Option<String>,
    local: Option<String>,
    trailers: bool,
    upgrade: bool,
    len: Option<u64>,
}
type Expect = Rc<RefCell<BTreeSet<u64>>>;
/// A message with what it must hold. Tokens are expected for as long as this lives.
struct Held {
    o: Obj,
    m: Meta,
    ends: (bool, bool, bool),
    ext: [Option<(u64, u64)>; KINDS],
    mark: bool,
    expect: Expect,
}
fn marks_wanted(d: i64) {
    MARKS_WANTED.with(|m| m.set(m.get() + d));
}
impl Drop for Held {
    fn drop(&mut self) {
        if self.mark {
            marks_wanted(-1);
        }
        for (id, _) in self.ext.iter().flatten() {
            self.expect.borrow_mut().remove(id);
        }
    }
}
struct World {
    reg: SharedReg,
    expect: Expect,
    store: RefCell<Vec<Held>>,
    /// Values handed back and kept outside of any message.
    hand: RefCell<Vec<(u64, u64, Tok)>>,
    next: std::cell::Cell<u64>,
}
const URLS: &[&str] = &["http://node-a.sim/", "https://u:p@node-b.sim:8443/x/y?a=b#f", "http://[::1]/?", "data:text/plain,x"];
const METHODS: &[Method] = &[Method::Get, Method::Put, Method::MkCalendar, Method::Pri, Method::Trace];
const VERSIONS: &[Version] = &[Version::Http0_9, Version::Http1_0, Version::Http1_1, Version::Http2_0, Version::Http3_0];
const STATUS: &[u16] = &[100, 101, 200, 204, 226, 301, 304, 404, 418, 451, 500, 511];

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Q {
    name: String,
    n: u64,
    #[serde(default)]
    opt: Option<String>,
    tags: Vec<String>,
}
fn text() -> String {
    (0..count(1, 8, 3000)).map(|_| *pick(&['a', 'Z', '0', ' ', '&', '=', '+', '%', '#', '?', '[', ']', 'é', '💩', '/', '"', '\'', ';', '\n'])).collect()
}

impl World {
    fn new() -> World {
        World { reg: Default::default(), expect: Default::default(), store: Default::default(), hand: Default::default(), next: std::cell::Cell::new(1) }
    }
    fn make(&self) -> Tok {
        let id = self.next.get();
        self.next.set(id + 1);
        self.expect.borrow_mut().insert(id);
        Tok::new(id, &self.reg)
    }
    fn message(&self) -> Held {
        let u = *pick(URLS);
        let mut m = Meta { method: *pick(METHODS), status: *pick(STATUS), url: Url::parse(u).unwrap().to_string(), version: None, peer: None, local: None, trailers: false, upgrade: false, len: Some(0) };
        let o = if chance(1, 2) {
            m.status = 0;
            let parsed = Url::parse(u).unwrap();
            let (method, q) = match choose(12) {
                0 => (Method::Get, Request::get(u)),
                1 => (Method::Head, Request::head(parsed)),
                2 => (Method::Post, Request::post(u)),
                3 => (Method::Put, Request::put(parsed)),
                4 => (Method::Delete, Request::delete(u)),
                5 => (Method::Connect, Request::connect(parsed)),
                6 => (Method::Options, Request::options(u)),
                7 => (Method::Trace, Request::trace(parsed)),
                8 => (Method::Patch, Request::patch(u)),
                _ => (m.method, Request::new(m.method, u)),
            };
            m.method = method;
            Obj::Q(q)
        } else {
            m.url = String::new();
            m.method = Method::Get;
            let code = StatusCode::try_from(m.status).unwrap();
            Obj::R(match choose(6) {
                0 => Response::from(code),
                1 => Response::new(code),
                2 => {
                    m.status = 204;
                    Response::from(())
                }
                3 => {
                    m.status = 200;
                    m.len = Some(u.len() as u64);
                    Response::from(u)
                }
                _ => Response::new(m.status),
            })
        };
        Held { o, m, ends: (true, true, true), ext: Default::default(), mark: false, expect: self.expect.clone() }
    }
    fn census(&self, at: &str) -> Res {
        let r = self.reg.lock().unwrap();
        check!(r.twice.is_none(), "destroyed-twice", "{at}: value {:?} was destroyed twice", r.twice);
        let e = self.expect.borrow();
        check!(r.live == *e, "value-lost-or-leaked", "{at}: values {:?} live, must be {:?}", r.live, e);
        let (n, want) = (MARKS.with(|m| m.get()), MARKS_WANTED.with(|m| m.get()));
        check!(n == want, "value-lost-or-leaked", "{at}: {n} contentless values live, must be {want}");
        Ok(())
    }
    fn check(&self, h: &Held, at: &str) -> Res {
        self.census(at)?;
        let m = match &h.o {
            Obj::Q(q) => Meta { method: q.method(), status: 0, url: q.url().to_string(), version: q.version(), peer: q.peer_addr().map(Into::into), local: q.local_addr().map(Into::into), trailers: q.has_trailers(), upgrade: false, len: q.len() },
            Obj::R(r) => Meta { method: Method::Get, status: r.status() as u16, url: String::new(), version: r.version(), peer: r.peer_addr().map(Into::into), local: r.local_addr().map(Into::into), trailers: r.has_trailers(), upgrade: r.has_upgrade(), len: r.len() },
        };
        let empty = each!(&h.o, x => x.is_empty());
        check!(empty == h.m.len.map(|n| n == 0), "state-changed", "{at}: a message of length {:?} is empty: {empty:?}", h.m.len);
        check!(m == h.m, "state-changed", "{at}: the message has {m:?}, must have {:?}", h.m);
        let e = each!(&h.o, x => x.ext());
        for k in 0..KINDS {
            let (got, has) = by_kind!(k, T => (e.get::<T>().map(|v| (v.view().id, v.view().n)), e.contains::<T>()));
            check!(got == h.ext[k] && has == got.is_some(), "wrong-value", "{at}: the value of type {k} is {got:?} (present: {has}), must be {:?}", h.ext[k]);
        }
        check!(e.contains::<Mark>() == h.mark && e.get::<Mark>().is_some() == h.mark, "wrong-value", "{at}: the contentless value is there: {}, must be {}", e.contains::<Mark>(), h.mark);
        check!(!e.contains::<u64>() && e.get::<Option<Tok>>().is_none(), "wrong-value", "{at}: a value of a type never stored");
        Ok(())
    }
    /// A value that was handed back: the one expected, still alive; then kept or destroyed.
    fn back(&self, got: Option<Tok>, want: Option<(u64, u64)>, at: &str) -> Res {
        let g = got.as_ref().map(|t| (t.id, t.n));
        check!(g == want, "wrong-value", "{at} handed back {g:?}, must be {want:?}");
        if let Some(t) = got {
            if chance(1, 3) {
                self.hand.borrow_mut().push((t.id, t.n, t));
            } else {
                let id = t.id;
                drop(t);
                self.expect.borrow_mut().remove(&id);
            }
        }
        Ok(())
    }
    fn change(&self, h: &mut Held) -> Res {
        let k = choose_usize(KINDS);
        match weighted(&[8, 3, 5, 1, 2, 3, 2, 3, 2, 2, 2, 3]) {
            0 => {
                let t = match self.hand.borrow_mut().pop() {
                    Some((_, _, t)) if chance(2, 3) => t,
                    Some(x) => {
                        self.expect.borrow_mut().remove(&x.0);
                        drop(x);
                        self.make()
                    }
                    None => self.make(),
                };
                ev("insert", k as u64, t.id);
                let new = (t.id, t.n);
                let old = by_kind!(k, T => each!(&mut h.o, x => x.ext_mut()).insert(T::wrap(t)).map(|v| v.unwrap()));
                let want = h.ext[k].replace(new);
                self.back(old, want, "insert")?;
            }
            1 => {
                let e = each!(&mut h.o, x => x.ext_mut());
                let got = by_kind!(k, T => e.get_mut::<T>().map(|v| { v.tok().n += 1; v.tok().id }));
                check!(got == h.ext[k].map(|v| v.0), "wrong-value", "get_mut of type {k} gives {got:?}, must be {:?}", h.ext[k]);
                if let Some(v) = &mut h.ext[k] {
                    v.1 += 1;
                }
            }
            2 => {
                ev("remove", k as u64, 0);
                let old = by_kind!(k, T => each!(&mut h.o, x => x.ext_mut()).remove::<T>().map(|v| v.unwrap()));
                let want = h.ext[k].take();
                self.back(old, want, "remove")?;
            }
            3 => {
                ev("clear", 0, 0);
                each!(&mut h.o, x => x.ext_mut()).clear();
                if std::mem::replace(&mut h.mark, false) {
                    marks_wanted(-1);
                }
                for v in h.ext.iter_mut() {
                    if let Some((id, _)) = v.take() {
                        self.expect.borrow_mut().remove(&id);
                    }
                }
            }
            4 => {
                h.m.version = if chance(1, 4) { None } else { Some(*pick(VERSIONS)) };
                each!(&mut h.o, x => x.set_version(h.m.version));
            }
            5 => {
                let a = if chance(1, 4) { None } else { Some(format!("10.0.0.{}:80", choose(9))) };
                if chance(1, 2) {
                    h.m.peer = a.clone();
                    each!(&mut h.o, x => x.set_peer_addr(a));
                } else {
                    h.m.local = a.clone();
                    each!(&mut h.o, x => x.set_local_addr(a));
                }
            }
            6 => match &mut h.o {
                Obj::Q(q) => {
                    if chance(1, 2) {
                        h.m.method = *pick(METHODS);
                        q.set_method(h.m.method);
                    } else {
                        let u = Url::parse(*pick(URLS)).unwrap();
                        h.m.url = u.to_string();
                        *q.url_mut() = u;
                    }
                }
                Obj::R(r) => {
                    h.m.status = *pick(STATUS);
                    r.set_status(StatusCode::try_from(h.m.status).unwrap());
                }
            },
            7 => {
                // the body and the headers change
                match choose(4) {
                    0 => {
                        let n = choose(20);
                        each!(&mut h.o, x => x.set_body("x".repeat(n as usize)));
                        h.m.len = Some(n);
                    }
                    1 => {
                        let b = each!(&mut h.o, x => x.take_body());
                        check!(b.len() == h.m.len, "state-changed", "the body taken has length {:?}, must be {:?}", b.len(), h.m.len);
                        h.m.len = Some(0);
                    }
                    2 => {
                        let mut b = Body::from_reader(futures_lite::io::empty(), None);
                        each!(&mut h.o, x => x.swap_body(&mut b));
                        h.m.len = None;
                    }
                    _ => {
                        each!(&mut h.o, x => {
                            x.insert_header("x-a", "1").unwrap();
                            x.append_header("x-a", "2").unwrap();
                            x.remove_header("x-b");
                        });
                    }
                }
            }
            8 => {
                // ends of the message's channels are taken
                match choose(4) {
                    0 if h.ends.0 => {
                        drop(each!(&mut h.o, x => x.send_trailers()));
                        h.ends.0 = false;
                        h.m.trailers = true;
                    }
                    1 if h.ends.1 => {
                        drop(each!(&mut h.o, x => x.recv_trailers()));
                        h.ends.1 = false;
                    }
                    2 if h.ends.2 => {
                        if let Obj::R(r) = &mut h.o {
                            drop(r.send_upgrade());
                            h.ends.2 = false;
                            h.m.upgrade = true;
                        }
                    }
                    _ => {}
                }
            }
            9 => {
                if let Obj::Q(q) = &mut h.o {
                    if chance(1, 5) {
                        *q.url_mut() = Url::parse(*pick(&["http://a.sim/?name=x&n=y&tags[0]=z", "http://a.sim/?n=1", "http://a.sim/"])).unwrap();
                        h.m.url = q.url().to_string();
                        match q.query::<Q>() {
                            Ok(v) => return viol("query-invented", format!("{} reads as {v:?}", h.m.url)),
                            Err(e) => check!(e.status() == 400, "wrong-status", "an undecodable query gives status {}", e.status()),
                        }
                    } else if !q.url().cannot_be_a_base() {
                        let v = Q { name: text(), n: choose(1 << 40), opt: if chance(1, 2) { Some(text()) } else { None }, tags: (0..count(1, 4, 60)).map(|_| text()).collect() };
                        let before = q.url().clone();
                        if let Err(e) = q.set_query(&v) {
                            return viol("query-refused", format!("{v:?}: {e}"));
                        }
                        match q.query::<Q>() {
                            Ok(g) => check!(g == v, "query-changed", "query {v:?} reads back as {g:?} from {}", q.url()),
                            Err(e) => return viol("query-changed", format!("query {v:?} cannot be read back from {}: {e}", q.url())),
                        }
                        let mut u = q.url().clone();
                        u.set_query(before.query());
                        check!(u == before, "state-changed", "setting the query of {before} gives {}", q.url());
                        h.m.url = q.url().to_string();
                        probe("query");
                    }
                }
            }
            11 => {
                // a value of no size, so told apart by its presence only
                let e = each!(&mut h.o, x => x.ext_mut());
                check!(e.get_mut::<Mark>().is_some() == h.mark, "wrong-value", "the contentless value cannot be changed in place, or one is there that was never stored (must be there: {})", h.mark);
                let (got, want) = if chance(2, 3) {
                    marks_wanted(1);
                    (e.insert(Mark::new()), std::mem::replace(&mut h.mark, true))
                } else {
                    (e.remove::<Mark>(), std::mem::replace(&mut h.mark, false))
                };
                check!(got.is_some() == want, "wrong-value", "a contentless value was handed back: {}, must be {want}", got.is_some());
                if want {
                    marks_wanted(-1);
                }
            }
            _ => {
                // another message's values are exchanged with this one's
                let mut s = self.store.borrow_mut();
                if !s.is_empty() {
                    let j = choose_usize(s.len());
                    let o = &mut s[j];
                    std::mem::swap(each!(&mut h.o, x => x.ext_mut()), each!(&mut o.o, x => x.ext_mut()));
                    std::mem::swap(&mut h.ext, &mut o.ext);
                    std::mem::swap(&mut h.mark, &mut o.mark);
                    probe("exchanged");
                }
            }
        }
        Ok(())
    }
    fn copy(&self, h: &Held) -> Held {
        let mut m = h.m.clone();
        m.trailers = false;
        m.upgrade = false;
        m.len = Some(0);
        let o = match &h.o {
            Obj::Q(q) => Obj::Q(q.clone()),
            Obj::R(r) => Obj::R(r.clone()),
        };
        probe("copied");
        Held { o, m, ends: (false, false, false), ext: Default::default(), mark: false, expect: self.expect.clone() }
    }
}

/// Takes a message through a few steps; it may be cut short at any of them.
async fn handler(w: Rc<World>, mut h: Held) -> Res {
    for _ in 0..range(1, 8) {
        w.change(&mut h)?;
        w.check(&h, "in a handler")?;
        if chance(1, 2) {
            exec::jitter().await;
        }
    }
    if chance(1, 6) {
        // only the body goes on
        let len = h.m.len;
        let empty = match &h.o {
            Obj::Q(_) => Obj::Q(Request::get("http://x.sim/")),
            Obj::R(_) => Obj::R(Response::new(200)),
        };
        let o = std::mem::replace(&mut h.o, empty);
        let b: Body = match o {
            Obj::Q(q) => q.into(),
            Obj::R(r) => { let mut r = r; r.take_body() },
        };
        drop(h);
        check!(b.len() == len, "state-changed", "the message as a body has length {:?}, must be {len:?}", b.len());
        w.census("after turning a message into its body")?;
    } else if chance(5, 6) {
        w.store.borrow_mut().push(h);
    } else {
        drop(h);
        w.census("after dropping a message")?;
    }
    Ok(())
}
async fn owner(w: Rc<World>) -> Res {
    let mut rs = vec![];
    for _ in 0..range(1, 8) {
        let n = w.store.borrow().len();
        let h = if n > 0 && chance(2, 3) {
            w.store.borrow_mut().remove(choose_usize(n))
        } else if n > 0 && chance(1, 2) {
            let c = w.copy(&w.store.borrow()[choose_usize(n)]);
            w.check(&c, "a copy")?;
            c
        } else {
            w.message()
        };
        w.check(&h, "before a handler")?;
        let (id, r) = exec::spawn_res("handler", handler(w.clone(), h));
        if chance(1, 4) {
            exec::cancel_after(id, choose(4));
        }
        rs.push(r);
        exec::jitter().await;
        w.census("between handlers")?;
    }
    for _ in 0..200 {
        exec::yield_now().await;
        if rs.iter().all(|r| r.borrow().is_some()) {
            break;
        }
    }
    for r in rs {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    Ok(())
}
pub fn c19() -> Res {
    exec::configure();
    competitor();
    let w = Rc::new(World::new());
    let r: Vec<_> = (0..range(1, 2)).map(|_| exec::spawn_res("owner", owner(w.clone())).1).collect();
    exec::run()?;
    exec::teardown();
    for r in r {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    for h in w.store.borrow().iter() {
        w.check(h, "at the end")?;
    }
    w.store.borrow_mut().clear();
    for x in w.hand.borrow_mut().drain(..) {
        w.expect.borrow_mut().remove(&x.0);
    }
    w.census("after everything is gone")?;
    check!(w.reg.lock().unwrap().live.is_empty(), "value-lost-or-leaked", "values outlive every message");
    Ok(())
}
