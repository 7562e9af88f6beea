//! C18: who a request is from and where it is going, after a chain of proxies.
use super::body::competitor;
use super::nodes::{to_wire, Wire};
use crate::engine::*;
use crate::exec;
use http_types::headers::{Header, FORWARDED, HOST};
use http_types::proxies::Forwarded;
use http_types::{Method, Request, Url};
use std::convert::TryFrom;

const XF: &str = "x-forwarded-for";
const XH: &str = "x-forwarded-host";
const XP: &str = "x-forwarded-proto";
const XB: &str = "x-forwarded-by";

/// What the lines say, whatever their form.
#[derive(Clone, Default, Debug)]
struct Trail {
    any_fwd: bool,
    fors: Vec<String>,
    by: Option<String>,
    host: Option<String>,
    proto: Option<String>,
    xfor: Vec<String>,
    xhost: Vec<String>,
    xproto: Option<String>,
    xby: Option<String>,
    host_line: Option<String>,
    url_host: String,
    peer: Option<String>,
    local: Option<String>,
}
impl Trail {
    fn remote(&self) -> Option<&str> {
        self.fors.first().or(self.xfor.first()).or(self.peer.as_ref()).map(|s| s.as_str())
    }
    fn dest(&self) -> &str {
        self.host.as_ref().or(self.xhost.first()).or(self.host_line.as_ref()).unwrap_or(&self.url_host)
    }
    fn any_x(&self) -> bool {
        !self.xfor.is_empty() || !self.xhost.is_empty() || self.xproto.is_some() || self.xby.is_some()
    }
    /// The legacy lines as the standard header would say it.
    fn legacy(&self) -> Seen {
        Seen {
            fors: self.xfor.iter().map(|x| if x.parse::<std::net::Ipv6Addr>().is_ok() { format!("[{x}]") } else { x.clone() }).collect(),
            by: self.xby.clone(),
            host: if self.xhost.is_empty() { None } else { Some(self.xhost[0].clone()) },
            proto: self.xproto.clone(),
        }
    }
    fn standard(&self) -> Seen {
        Seen { fors: self.fors.clone(), by: self.by.clone(), host: self.host.clone(), proto: self.proto.clone() }
    }
    fn either(&self) -> Option<Seen> {
        if self.any_fwd {
            Some(self.standard())
        } else if self.any_x() {
            Some(self.legacy())
        } else {
            None
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
struct Seen {
    fors: Vec<String>,
    by: Option<String>,
    host: Option<String>,
    proto: Option<String>,
}
fn seen(f: &Forwarded<'_>) -> Seen {
    Seen { fors: f.forwarded_for().iter().map(|s| s.to_string()).collect(), by: f.by().map(Into::into), host: f.host().map(Into::into), proto: f.proto().map(Into::into) }
}
fn gen_host() -> String {
    match choose(4) {
        0 => format!("h{}.example", choose(30)),
        1 => format!("h{}.example:{}", choose(30), 1 + choose(65535)),
        2 => format!("[2001:db8::{:x}]:80", 1 + choose(99)),
        _ => format!("10.0.0.{}", choose(256)),
    }
}
/// A node's name as the standard header writes it.
fn gen_node() -> String {
    match choose(7) {
        0 => format!("192.0.2.{}", choose(256)),
        1 => format!("192.0.2.{}:{}", choose(256), choose(65536)),
        2 => match choose(5) {
            // loopback, an IPv4 address in IPv6 clothes, link-local, all eight groups
            0 => "[::1]".into(),
            1 => format!("[::ffff:192.0.2.{}]", choose(256)),
            2 => format!("[fe80::{:x}:1]", 1 + choose(0xffff)),
            3 => format!("[2001:db8:1:2:3:4:5:{:x}]", 1 + choose(0xffff)),
            _ => format!("[2001:db8::{:x}]", 1 + choose(0xffff)),
        },
        3 => format!("[2001:db8:cafe::{:x}]:{}", 1 + choose(0xffff), choose(65536)),
        4 => "unknown".into(),
        5 => format!("_hidden{}", choose(99)),
        _ => format!("client{}.example", choose(99)),
    }
}
fn token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}
fn quoted(s: &str) -> String {
    if token(s) && chance(3, 4) {
        s.into()
    } else {
        format!("\"{s}\"")
    }
}
fn key(k: &str) -> String {
    match choose(4) {
        0 => k.to_uppercase(),
        1 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
        _ => k.into(),
    }
}
/// An element another implementation writes: pairs in any order, case and quoting.
fn element(t: &mut Trail, name: Option<&str>) -> String {
    let mut ps = vec![];
    if let Some(n) = name {
        ps.push(format!("{}={}", key("for"), quoted(n)));
        t.fors.push(n.into());
    }
    let mut opt = |k: &str, slot: &mut Option<String>, v: String, must: bool| {
        if must || chance(1, 4) {
            ps.push(format!("{}={}", key(k), quoted(&v)));
            if slot.is_none() {
                *slot = Some(v);
            }
        }
    };
    opt("host", &mut t.host, gen_host(), name.is_none());
    opt("proto", &mut t.proto, pick(&["http", "https", "gopher"]).to_string(), false);
    opt("by", &mut t.by, gen_node(), false);
    for i in (1..ps.len()).rev() {
        let j = choose_usize(i + 1);
        ps.swap(i, j);
    }
    t.any_fwd = true;
    ps.join(";")
}
fn only_fors(line: &str) -> bool {
    !line.contains(';') && line.split(',').all(|p| p.trim().get(..4).map_or(false, |k| k.eq_ignore_ascii_case("for=")))
}
fn lines(q: &Request, n: &str) -> Vec<String> {
    q.header(n).map(|v| v.iter().map(|v| v.as_str().to_string()).collect()).unwrap_or_default()
}
fn put_lines(q: &mut Request, n: &str, ls: Vec<String>) {
    q.remove_header(n);
    for l in ls {
        q.append_header(n, l.as_str()).expect("ASCII");
    }
}
/// Adds one entry to a list header, on a line of its own or on the last line.
fn append_entry(q: &mut Request, n: &str, e: &str) {
    let mut ls = lines(q, n);
    match ls.last_mut() {
        Some(l) if chance(2, 3) => {
            l.push_str(*pick(&[", ", ","]));
            l.push_str(e);
            put_lines(q, n, ls);
        }
        _ => drop(q.append_header(n, e)),
    }
}

fn look(q: &Request, t: &Trail, at: &str) -> Res {
    let head = || to_wire(q.as_ref()).iter().map(|(n, v)| format!("{n}: {v}")).collect::<Vec<_>>().join(" | ");
    check!(q.peer_addr() == t.peer.as_deref() && q.local_addr() == t.local.as_deref(), "address-changed", "{at}: addresses {:?} {:?}, must be {:?} {:?}", q.peer_addr(), q.local_addr(), t.peer, t.local);
    check!(q.remote() == t.remote(), "wrong-remote", "{at}: remote is {:?}, must be {:?} ({})", q.remote(), t.remote(), head());
    check!(q.host() == Some(t.dest()), "wrong-host", "{at}: host is {:?}, must be {:?} ({})", q.host(), t.dest(), head());
    let ls = lines(q, "forwarded");
    let ways = [
        ("from_headers", Forwarded::from_headers(q), t.either()),
        ("from_forwarded_header", Forwarded::from_forwarded_header(q), if t.any_fwd { Some(t.standard()) } else { None }),
        ("try_from", if ls.len() == 1 { Forwarded::try_from(ls[0].as_str()).map(Some) } else { Forwarded::from_forwarded_header(q) }, if t.any_fwd { Some(t.standard()) } else { None }),
        ("from_x_headers", Forwarded::from_x_headers(q), if t.any_x() { Some(t.legacy()) } else { None }),
    ];
    for (tag, got, mut want) in ways {
        match got {
            Err(e) => return viol("refused", format!("{at}: {tag} says {e} ({})", head())),
            Ok(g) => {
                let mut g = g.map(|f| seen(&f));
                if t.xhost.len() > 1 {
                    // a list of hosts has no place in the standard header
                    for x in [&mut g, &mut want].into_iter().flatten() {
                        x.host = None;
                    }
                }
                check!(g == want, "wrong-trail", "{at}: {tag} reads {g:?}, must be {want:?} ({})", head());
            }
        }
    }
    Ok(())
}

/// A line that names a receiver, a host or a protocol twice has no single answer to give.
fn ambiguous(at: &str) -> Res {
    let k = *pick(&["by", "host", "proto"]);
    let mut ps = vec![format!("{}={}", key(k), quoted(&gen_host())), format!("{}={}", key(k), quoted(&gen_host()))];
    if chance(1, 2) {
        ps.insert(choose_usize(3), format!("{}={}", key(if k == "by" { "host" } else { "by" }), quoted(&gen_node())));
    }
    let mut line = ps.join(";");
    if chance(1, 2) {
        line = format!("{}={};{line}", key("for"), quoted(&gen_node()));
    }
    let mut q = Request::new(Method::Get, "http://here.example/");
    q.insert_header("forwarded", line.as_str()).unwrap();
    fault("stated_twice");
    for (tag, got) in [("from_headers", Forwarded::from_headers(&q)), ("from_forwarded_header", Forwarded::from_forwarded_header(&q)), ("parse", Forwarded::parse(&line).map(Some))] {
        if let Ok(f) = got {
            return viol("ambiguous-accepted", format!("{at}: {tag} reads {line:?} as {:?}", f.map(|f| seen(&f))));
        }
    }
    Ok(())
}

/// One proxy notes where it got the request from.
fn proxy(q: &mut Request, t: &mut Trail, me: &str) -> Res {
    match weighted(&[2, 5, 4, 3, 5]) {
        0 => probe("pass_through"),
        1 if t.xhost.len() < 2 => {
            // through this library
            let was = t.either();
            let mut f = match Forwarded::from_headers(&*q) {
                Ok(Some(f)) => f.into_owned(),
                Ok(None) => Forwarded::new(),
                Err(e) => return viol("refused", format!("a proxy cannot read its own kind of header: {e}")),
            };
            let mut s = was.unwrap_or(Seen { fors: vec![], by: None, host: None, proto: None });
            f.add_for(me.to_string());
            s.fors.push(me.into());
            if s.host.is_none() && chance(1, 3) {
                let h = gen_host();
                f.set_host(h.clone());
                s.host = Some(h);
            }
            if chance(1, 4) {
                f.set_proto("https");
                s.proto = Some("https".into());
            }
            if chance(1, 4) {
                let b = gen_node();
                f.set_by(b.clone());
                s.by = Some(b);
            }
            match choose(3) {
                0 => f.apply_header(&mut *q),
                1 => drop(q.insert_header(FORWARDED, f.header_value())),
                _ => drop(q.insert_header("forwarded", f.to_string().as_str())),
            }
            (t.any_fwd, t.fors, t.by, t.host, t.proto) = (true, s.fors, s.by, s.host, s.proto);
            if chance(1, 3) {
                for n in [XF, XH, XP, XB] {
                    q.remove_header(n);
                }
                (t.xfor, t.xhost, t.xproto, t.xby) = (vec![], vec![], None, None);
            }
            probe("library_proxy");
        }
        1 | 2 => {
            // by another implementation, on a line of its own
            let e = element(t, if chance(5, 6) { Some(me) } else { None });
            q.append_header("Forwarded", e.as_str()).expect("ASCII");
            probe("foreign_proxy");
        }
        3 => {
            // or on the last line, where that line can take it
            let mut ls = lines(q, "forwarded");
            let fits = ls.last().map_or(false, |l| only_fors(l));
            let e = element(t, Some(me));
            if fits && e.get(..4).map_or(false, |k| k.eq_ignore_ascii_case("for=")) {
                let l = ls.last_mut().unwrap();
                l.push_str(*pick(&[", ", ",", ",   "]));
                l.push_str(&e);
                put_lines(q, "forwarded", ls);
                probe("joined_line");
            } else {
                q.append_header("forwarded", e.as_str()).expect("ASCII");
            }
        }
        _ => {
            let n = me.trim_matches(|c| c == '[' || c == ']').to_string();
            let n = if n.contains("]:") { "unknown".to_string() } else { n };
            append_entry(q, XF, &n);
            t.xfor.push(n);
            if t.xhost.is_empty() && chance(1, 3) || chance(1, 20) {
                let h = gen_host();
                append_entry(q, XH, &h);
                t.xhost.push(h);
            }
            if t.xproto.is_none() && chance(1, 3) {
                q.insert_header(XP, "https").unwrap();
                t.xproto = Some("https".into());
            }
            if t.xby.is_none() && chance(1, 4) {
                let b = gen_node();
                q.insert_header(XB, b.as_str()).unwrap();
                t.xby = Some(b);
            }
            probe("legacy_proxy");
        }
    }
    Ok(())
}

/// The network carries the lines on; lists may be joined or split.
fn network(mut w: Wire, t: &mut Trail) -> Wire {
    if chance(1, 12) {
        let (f, x) = (chance(1, 2), chance(1, 2));
        w.retain(|(n, _)| !(f && n == "forwarded" || x && n.starts_with("x-forwarded")));
        if f {
            (t.any_fwd, t.fors, t.by, t.host, t.proto) = (false, vec![], None, None, None);
        }
        if x {
            (t.xfor, t.xhost, t.xproto, t.xby) = (vec![], vec![], None, None);
        }
        if f || x {
            fault("line_lost");
        }
    }
    if chance(1, 10) {
        // one name's lines only
        let n = *pick(&[XF, XF, XH, XP, XB]);
        w.retain(|l| l.0 != n);
        match n {
            XF => t.xfor.clear(),
            XH => t.xhost.clear(),
            XP => t.xproto = None,
            _ => t.xby = None,
        }
        fault("line_lost");
    }
    let mut out: Wire = vec![];
    for (n, v) in w {
        let list = n == XF || n == "forwarded" && only_fors(&v);
        if list && chance(1, 6) {
            fault("line_split");
            for p in v.split(',') {
                out.push((n.clone(), p.trim().into()));
            }
            continue;
        }
        if let Some(l) = out.last_mut().filter(|l| l.0 == n) {
            let fits = n == XF || n == "forwarded" && only_fors(&l.1) && v.get(..4).map_or(false, |k| k.eq_ignore_ascii_case("for="));
            if fits && chance(1, 6) {
                fault("lines_joined");
                l.1 = format!("{}, {v}", l.1);
                continue;
            }
        }
        out.push((n, v));
    }
    // names in any order and case; the lines of one name keep their order
    let mut names: Vec<String> = out.iter().map(|l| l.0.clone()).collect();
    names.dedup();
    for i in (1..names.len()).rev() {
        let j = choose_usize(i + 1);
        names.swap(i, j);
    }
    let mut r = vec![];
    for n in names {
        for l in out.iter().filter(|l| l.0 == n) {
            r.push((n.bytes().map(|b| if chance(1, 4) { b.to_ascii_uppercase() as char } else { b as char }).collect(), l.1.clone()));
        }
    }
    r
}

async fn travel() -> Res {
    let hosts = ["node-a.sim", "xn--bcher-kva.example", "10.1.2.3", "[2001:db8::5]"];
    let h = *pick(&hosts);
    let mut url = Url::parse(&format!("{}://{}{h}{}/a?b=c", pick(&["http", "https", "ws"]), pick(&["", "", "u:p@", "u@"]), pick(&["", "", ":8080", ":1"]))).unwrap();
    let mut t = Trail { url_host: h.into(), ..Default::default() };
    let mut q = Request::new(*pick(&[Method::Get, Method::Post]), url.clone());
    if chance(1, 2) {
        let v = gen_host();
        q.insert_header(HOST, v.as_str()).unwrap();
        t.host_line = Some(v);
    }
    look(&q, &t, "at the client")?;
    let mut last = gen_node();
    let n = count(0, 5, 24);
    for hop in 0..=n {
        exec::jitter().await;
        let w = network(to_wire(q.as_ref()), &mut t);
        // the next node has its own idea of where things come from
        if chance(1, 5) {
            let h = *pick(&hosts);
            url.set_host(Some(h)).unwrap();
            t.url_host = h.into();
        }
        q = Request::new(q.method(), url.clone());
        for (k, v) in &w {
            q.append_header(k.as_str(), v.as_str()).expect("ASCII");
        }
        t.peer = if chance(4, 5) { Some(last.clone()) } else { None };
        t.local = if chance(1, 2) { Some(format!("10.9.9.{hop}:80")) } else { None };
        q.set_peer_addr(t.peer.clone());
        q.set_local_addr(t.local.clone());
        ev("hop", hop, w.len() as u64);
        note(|| format!("{w:?} peer {:?}", t.peer));
        look(&q, &t, "on arrival")?;
        if chance(1, 8) {
            ambiguous("on arrival")?;
        }
        if chance(1, 4) {
            q = q.clone();
            look(&q, &t, "in a copy")?;
        }
        if hop < n {
            proxy(&mut q, &mut t, &last)?;
            look(&q, &t, "after a proxy")?;
            if chance(1, 8) {
                let v = gen_host();
                q.insert_header("host", v.as_str()).unwrap();
                t.host_line = Some(v);
            }
            last = gen_node();
        }
    }
    if t.fors.len() + t.xfor.len() >= 3 {
        probe("three_or_more_entries");
    }
    Ok(())
}
pub fn c18() -> Res {
    exec::configure();
    let mut rs = vec![];
    for _ in 0..range(1, 3) {
        rs.push(exec::spawn_res("request", travel()).1);
    }
    competitor();
    exec::run()?;
    for r in rs {
        match r.borrow_mut().take() {
            Some(Err(v)) => return Err(v),
            Some(Ok(())) => {}
            None => return viol("stuck", "a request never arrived"),
        }
    }
    Ok(())
}
