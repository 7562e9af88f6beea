//! C06: bodies handed over between messages while they are being read.
use super::body::*;
use crate::engine::*;
use crate::exec;
use crate::io::*;
use futures_lite::io::AsyncReadExt;
use http_types::headers::{Headers, CONTENT_TYPE};
use http_types::{mime::Mime, Body, Response};
use std::sync::Arc;

/// A body and what it must yield from here on.
struct Slot {
    m: Model,
    pos: usize,
    mime: Option<Mime>,
}
/// Somewhere a body lives. `ct` is the message's content type (messages only).
struct Place {
    h: Holder,
    s: Slot,
    ct: Option<String>,
}
fn empty_slot() -> Slot {
    Slot { m: Model { data: Arc::new(vec![]), declared: 0, reported: Some(0), stats: None, faults: vec![] }, pos: 0, mime: Some(http_types::mime::BYTE_STREAM) }
}
fn new_body() -> (Body, Slot) {
    if chance(1, 10) {
        return (Body::empty(), empty_slot());
    }
    let n = match weighted(&[1, 8, 2]) {
        0 => 0,
        1 => range(1, 60),
        _ => range(60, 5000),
    } as usize;
    let data = gen_bytes(n);
    let (mut body, m) = if chance(1, 5) {
        let l = data.len() as u64;
        (in_memory(&data), Model { declared: l, reported: Some(l), data: Arc::new(data), stats: None, faults: vec![] })
    } else {
        let declared = gen_declared(n);
        let data = Arc::new(data);
        let src = SimReader::new(data.clone(), Behave::draw(), vec![]);
        let stats = src.stats.clone();
        (Body::from_reader(src, declared), Model { declared: declared.unwrap_or(u64::MAX), reported: declared, data, stats: Some(stats), faults: vec![] })
    };
    let mut mime = body.mime().cloned();
    if chance(1, 2) {
        mime = pick(MIMES)();
        body.set_mime(mime.clone());
    }
    (body, Slot { m, pos: 0, mime })
}
fn ct_of(h: &Holder) -> Option<String> {
    let v = match h {
        Holder::Q(q) => q.header(CONTENT_TYPE),
        Holder::R(r) => r.header(CONTENT_TYPE),
        Holder::B(_) => None,
    };
    v.map(|v| v.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>().join("\u{1}"))
}
fn is_msg(p: &Place) -> bool {
    !matches!(p.h, Holder::B(_))
}
/// The content type a message ends up with when this body is installed.
fn install_ct(old: &Option<String>, s: &Slot) -> Option<String> {
    old.clone().or_else(|| s.mime.as_ref().map(|m| m.to_string()))
}
/// The message states its own content type: a known one, or whatever a peer
/// may have sent, readable or not, on one line or several.
fn state_type(h: &mut Holder) -> String {
    let head: &mut Headers = match h {
        Holder::Q(q) => q.as_mut(),
        Holder::R(r) => r.as_mut(),
        Holder::B(_) => unreachable!(),
    };
    match weighted(&[3, 2, 1]) {
        0 => {
            let m = pick(MIMES)().unwrap_or(http_types::mime::CSS);
            let t = m.to_string();
            match h {
                Holder::Q(q) => drop(q.set_content_type(m)),
                Holder::R(r) => drop(r.set_content_type(m)),
                Holder::B(_) => {}
            }
            t
        }
        1 => {
            let v = *pick(RAW_TYPES);
            head.insert(CONTENT_TYPE, v).expect("ASCII");
            probe("unreadable_type");
            v.to_string()
        }
        _ => {
            let (a, b) = (*pick(RAW_TYPES), *pick(RAW_TYPES));
            head.insert(CONTENT_TYPE, a).expect("ASCII");
            head.append(CONTENT_TYPE, b).expect("ASCII");
            format!("{a}\u{1}{b}")
        }
    }
}
const RAW_TYPES: &[&str] = &["x-internal", "", "text/plain; charset", "text", "/", "TEXT/HTML", "text/html;charset=utf-8", "a b/c", "text/plain, text/html"];
fn verify(ps: &[Place], what: &str) -> Res {
    for (i, p) in ps.iter().enumerate() {
        check!(p.h.len() == p.s.m.reported, "wrong-length", "after {what}: holder {i} ({}) declares {:?}, its body declares {:?}", p.h.kind(), p.h.len(), p.s.m.reported);
        if is_msg(p) {
            let ct = ct_of(&p.h);
            check!(ct == p.ct, "wrong-type", "after {what}: message {i} has content type {ct:?}, expected {:?}", p.ct);
        } else if let Holder::B(b) = &p.h {
            check!(b.mime() == p.s.mime.as_ref(), "wrong-type", "after {what}: loose body {i} has type {:?}, expected {:?}", b.mime(), p.s.mime);
        }
        if let Some(s) = &p.s.m.stats {
            let s = s.lock().unwrap();
            check!(!s.dropped, "lost-body", "after {what}: the body of holder {i} was destroyed");
            check!(s.taken as u64 <= p.s.m.declared, "over-read", "after {what}: {} bytes taken, declared {}", s.taken, p.s.m.declared);
        }
    }
    Ok(())
}
fn must_be_dropped(s: &Slot, what: &str) -> Res {
    if let Some(st) = &s.m.stats {
        check!(st.lock().unwrap().dropped, "leak", "{what}: the replaced body still lives");
    }
    Ok(())
}
fn pick_where(ps: &[Place], f: impl Fn(&Place) -> bool) -> Option<usize> {
    let c: Vec<usize> = ps.iter().enumerate().filter(|(_, p)| f(p)).map(|(i, _)| i).collect();
    if c.is_empty() {
        None
    } else {
        Some(*pick(&c))
    }
}

async fn history() -> Result<Vec<Place>, Violation> {
    let mut ps: Vec<Place> = Vec::new();
    for _ in 0..range(1, 3) {
        let q = chance(1, 2);
        let mut ct = None;
        let h = if q {
            Holder::Q(new_req())
        } else {
            Holder::R(new_res())
        };
        let mut p = Place { h, s: empty_slot(), ct: None };
        if chance(1, 3) {
            ct = Some(state_type(&mut p.h));
        }
        p.ct = ct;
        ps.push(p);
    }
    for _ in 0..choose(3) {
        let (b, s) = new_body();
        ps.push(Place { h: Holder::B(b), s, ct: None });
    }
    verify(&ps, "set-up")?;
    for _ in 0..range(1, 14) {
        let op = weighted(&[8, 5, 3, 4, 4, 1, 1, 2, 1, 2, 2]);
        let what;
        match op {
            0 => {
                // part of a body is read where it is
                let i = choose_usize(ps.len());
                let p = &mut ps[i];
                let iface = *pick(&[Iface::Plain, Iface::Buffered, Iface::Mixed]);
                for _ in 0..range(1, 4) {
                    let mut d = Drive { m: &mut p.s.m, pos: p.s.pos, iface, stopped: false };
                    let end = d.op(&mut p.h, chance(1, 3)).await?;
                    p.s.pos = d.pos;
                    if end {
                        break;
                    }
                }
                what = "read";
            }
            1 | 2 => {
                // install a body: new, loose, or taken straight from another message
                let Some(i) = pick_where(&ps, is_msg) else { continue };
                let (b, s) = match choose(3) {
                    1 => match pick_where(&ps, |p| !is_msg(p)) {
                        Some(j) => {
                            let p = ps.remove(j);
                            let i2 = if j < i { i - 1 } else { i };
                            ev("move_loose", j as u64, i2 as u64);
                            let s = p.s;
                            let b = p.h.into_body();
                            install(&mut ps, i2, b, s, op == 1)?;
                            verify(&ps, "installing a loose body")?;
                            continue;
                        }
                        None => new_body(),
                    },
                    2 => match pick_where(&ps, is_msg).filter(|j| *j != i) {
                        Some(j) => {
                            let b = match &mut ps[j].h {
                                Holder::Q(q) => q.take_body(),
                                Holder::R(r) => r.take_body(),
                                _ => unreachable!(),
                            };
                            after_take(&mut ps[j])?;
                            let s = std::mem::replace(&mut ps[j].s, empty_slot());
                            ev("move_between", j as u64, i as u64);
                            (b, s)
                        }
                        None => new_body(),
                    },
                    _ => new_body(),
                };
                install(&mut ps, i, b, s, op == 1)?;
                what = "installing a body";
            }
            3 => {
                // swap with a loose body
                let (Some(i), Some(j)) = (pick_where(&ps, is_msg), pick_where(&ps, |p| !is_msg(p))) else { continue };
                let mut loose = std::mem::replace(&mut ps[j].h, Holder::B(Body::empty())).into_body();
                match &mut ps[i].h {
                    Holder::Q(q) => q.swap_body(&mut loose),
                    Holder::R(r) => r.swap_body(&mut loose),
                    _ => {}
                }
                ps[j].h = Holder::B(loose);
                let sj = std::mem::replace(&mut ps[j].s, empty_slot());
                let si = std::mem::replace(&mut ps[i].s, sj);
                ps[j].s = si;
                ps[i].ct = install_ct(&ps[i].ct, &ps[i].s);
                ev("swap", i as u64, j as u64);
                what = "swap_body";
            }
            4 => {
                let Some(i) = pick_where(&ps, is_msg) else { continue };
                let b = match &mut ps[i].h {
                    Holder::Q(q) => q.take_body(),
                    Holder::R(r) => r.take_body(),
                    _ => unreachable!(),
                };
                after_take(&mut ps[i])?;
                let s = std::mem::replace(&mut ps[i].s, empty_slot());
                ps.push(Place { h: Holder::B(b), s, ct: None });
                ev("take", i as u64, 0);
                what = "take_body";
            }
            5 => {
                let Some(i) = pick_where(&ps, |p| matches!(p.h, Holder::Q(_))) else { continue };
                let p = ps.remove(i);
                let Holder::Q(q) = p.h else { unreachable!() };
                ps.push(Place { h: Holder::B(q.into()), s: p.s, ct: None });
                ev("request_into_body", i as u64, 0);
                what = "turning a request into its body";
            }
            6 => {
                let Some(i) = pick_where(&ps, |p| !is_msg(p)) else { continue };
                let p = ps.remove(i);
                let r: Response = Response::from(p.h.into_body());
                let ct = install_ct(&None, &p.s);
                ps.push(Place { h: Holder::R(r), s: p.s, ct });
                ev("response_from_body", i as u64, 0);
                what = "making a response from a body";
            }
            7 => {
                // the message's own content type changes
                let Some(i) = pick_where(&ps, is_msg) else { continue };
                if chance(1, 2) {
                    match &mut ps[i].h {
                        Holder::Q(q) => drop(q.remove_header(CONTENT_TYPE)),
                        Holder::R(r) => drop(r.remove_header(CONTENT_TYPE)),
                        _ => {}
                    }
                    ps[i].ct = None;
                } else {
                    ps[i].ct = Some(state_type(&mut ps[i].h));
                }
                ev("content_type", i as u64, ps[i].ct.is_some() as u64);
                what = "changing the content type";
            }
            8 => {
                // a clone starts empty and leaves the original alone
                let Some(i) = pick_where(&ps, is_msg) else { continue };
                let (h, ct) = match &ps[i].h {
                    Holder::Q(q) => (Holder::Q(q.clone()), ps[i].ct.clone()),
                    Holder::R(r) => (Holder::R(r.clone()), ps[i].ct.clone()),
                    _ => unreachable!(),
                };
                ev("clone", i as u64, 0);
                if chance(1, 2) && ps.len() < 6 {
                    ps.push(Place { h, s: empty_slot(), ct });
                }
                what = "cloning a message";
            }
            9 => {
                // a loose body is taken down to its reader, which goes on where
                // reading had come to, and makes another body of what remains
                let Some(i) = pick_where(&ps, |p| !is_msg(p)) else { continue };
                let p = &mut ps[i];
                let left = p.s.m.reported.map(|_| p.s.m.declared - p.s.pos as u64);
                let r = std::mem::replace(&mut p.h, Holder::B(Body::empty())).into_body().into_reader();
                p.h = Holder::B(Body::from_reader(r, left));
                p.s.m.reported = left;
                p.s.mime = Some(http_types::mime::BYTE_STREAM);
                ev("into_reader", i as u64, 0);
                what = "taking a body down to its reader";
            }
            _ => {
                let Some(i) = pick_where(&ps, |p| !is_msg(p)) else { continue };
                let m = pick(MIMES)();
                ps[i].s.mime = m.clone();
                if let Holder::B(b) = &mut ps[i].h {
                    b.set_mime(m);
                }
                ev("set_mime", i as u64, 0);
                what = "set_mime";
            }
        }
        verify(&ps, what)?;
        if chance(1, 5) {
            exec::jitter().await;
        }
    }
    Ok(ps)
}
/// An emptied message without a content type may or may not take the empty
/// body's generic type; anything else is wrong.
fn after_take(p: &mut Place) -> Res {
    if p.ct.is_none() {
        let ct = ct_of(&p.h);
        check!(ct.is_none() || ct.as_deref() == Some("application/octet-stream"), "wrong-type", "taking the body left content type {ct:?}");
        p.ct = ct;
    }
    Ok(())
}
fn install(ps: &mut Vec<Place>, i: usize, b: Body, s: Slot, keep: bool) -> Res {
    ps[i].ct = install_ct(&ps[i].ct, &s);
    let old = std::mem::replace(&mut ps[i].s, s);
    if keep {
        let b = match &mut ps[i].h {
            Holder::Q(q) => q.replace_body(b),
            Holder::R(r) => r.replace_body(b),
            _ => unreachable!(),
        };
        ev("replace", i as u64, 0);
        ps.push(Place { h: Holder::B(b), s: old, ct: None });
    } else {
        match &mut ps[i].h {
            Holder::Q(q) => q.set_body(b),
            Holder::R(r) => r.set_body(b),
            _ => unreachable!(),
        }
        ev("set", i as u64, 0);
        must_be_dropped(&old, "set_body")?;
    }
    Ok(())
}

pub fn c06() -> Res {
    exec::configure();
    competitor();
    let out = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
    let o2 = out.clone();
    exec::run_root(async move {
        *o2.borrow_mut() = history().await?;
        Ok(())
    })?;
    let ps: Vec<Place> = std::mem::take(&mut *out.borrow_mut());
    if ps.len() >= 4 {
        probe("four_or_more_holders");
    }
    // Everything is read to its end, all holders at once.
    let mut cells = Vec::new();
    for mut p in ps {
        let iface = *pick(&[Iface::Plain, Iface::Buffered, Iface::Mixed]);
        let convert = chance(1, 4);
        let (_, c) = exec::spawn_res("reader", async move {
            if convert && p.s.m.reported.map(|l| l < 1 << 20).unwrap_or(true) {
                let want = &p.s.m.data[p.s.pos..p.s.m.limit()];
                let r = match &mut p.h {
                    Holder::Q(q) => q.body_bytes().await,
                    Holder::R(r) => r.body_bytes().await,
                    Holder::B(b) => std::mem::replace(b, Body::empty()).into_bytes().await,
                };
                return match r {
                    Ok(v) => {
                        check!(v == want, "wrong-bytes", "converted remainder: {}", diff(&v, want));
                        let mut rest = Vec::new();
                        let n = p.h.read_to_end(&mut rest).await.unwrap_or(usize::MAX);
                        check!(n == 0, "body-left", "{n} bytes left after the conversion");
                        Ok(())
                    }
                    Err(e) => viol("spurious-error", format!("converting the remainder: {e:?}")),
                };
            }
            let mut d = Drive { m: &mut p.s.m, pos: p.s.pos, iface, stopped: false };
            d.to_end(&mut p.h, chance(1, 2)).await
        });
        cells.push(c);
    }
    exec::run()?;
    for c in cells {
        c.borrow_mut().take().unwrap()?;
    }
    Ok(())
}
