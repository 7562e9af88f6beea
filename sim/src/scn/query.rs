//! C25: a request's query, put in by its sender, on every node the request reaches.
use super::body::competitor;
use crate::engine::*;
use crate::exec;
use http_types::{Method, Request, Url};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::HashMap;
use std::convert::TryFrom;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
struct Inner {
    a: String,
    #[serde(default)]
    b: Option<u32>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Kind {
    A,
    #[serde(rename = "b c")]
    B,
    #[serde(rename = "ü&=")]
    C,
}
/// What is asked for: everything a query can hold, every field its own default.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
#[serde(default)]
struct Asked {
    s: String,
    n: u64,
    i: i64,
    #[serde(skip_serializing_if = "std::ops::Not::not")]
    t: bool,
    f: f64,
    o: Option<String>,
    c: Option<char>,
    k: Option<Kind>,
    l: Vec<String>,
    u: Vec<u16>,
    p: Option<(u8, String)>,
    r: Option<Inner>,
    rs: Vec<Inner>,
    /// written in the order of the process's hash seed
    m: HashMap<String, String>,
}
/// The same query, read by someone who borrows what they can and wants less.
#[derive(Deserialize, Debug)]
struct Part<'q> {
    #[serde(borrow, default)]
    s: Cow<'q, str>,
    #[serde(default)]
    n: u64,
}
#[derive(Deserialize, Debug)]
struct Needs {
    #[serde(rename = "never-there")]
    _x: String,
}
/// Refuses to be written.
struct Unwritable;
impl Serialize for Unwritable {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("half", "written")?;
        Err(serde::ser::Error::custom("unwritable"))
    }
}

fn text() -> String {
    let n = count(0, 6, 3000);
    (0..n)
        .map(|_| match weighted(&[6, 4, 2]) {
            0 => (b'a' + choose(26) as u8) as char,
            1 => *pick(&['&', '=', '+', ' ', '%', '#', '?', '/', '[', ']', ';', ':', '@', '"', '\'', '<', '\\', '.', '-', '~', '_', '*', ',', '0', '!', '(', '|', '^', '`', '{']),
            _ => *pick(&['é', '\0', '\n', '\t', '\u{7f}', '漢', '\u{1f600}', '\u{feff}', '\u{a0}', 'ß', '\u{202e}']),
        })
        .collect()
}
/// Not empty (an empty optional text cannot be told from none), no brackets (they are the structure).
fn some_text() -> String {
    let t: String = text().chars().filter(|c| !"[]".contains(*c)).collect();
    if t.is_empty() {
        "x".into()
    } else {
        t
    }
}
fn asked() -> Asked {
    let opt = |p: u64| chance(p, 3);
    Asked {
        s: text(),
        n: *pick(&[0, 1, 7, 255, 1 << 32, u64::MAX]),
        i: *pick(&[0, 1, -1, i64::MIN, i64::MAX]),
        t: chance(1, 2),
        f: *pick(&[0.0, 1.5, -2.25, 1e21]),
        o: if opt(1) { Some(some_text()) } else { None },
        c: if opt(1) { some_text().chars().next() } else { None },
        k: if opt(1) { Some([Kind::A, Kind::B, Kind::C][choose_usize(3)].clone()) } else { None },
        l: if opt(1) { (0..count(1, 12, 60)).map(|_| text()).collect() } else { vec![] },
        u: if opt(1) { (0..count(1, 4, 300)).map(|_| choose(1 << 16) as u16).collect() } else { vec![] },
        p: if opt(1) { Some((choose(256) as u8, text())) } else { None },
        r: if opt(1) { Some(Inner { a: text(), b: if opt(1) { Some(choose(9) as u32) } else { None } }) } else { None },
        rs: if opt(1) { (0..count(1, 3, 40)).map(|_| Inner { a: text(), b: if opt(1) { Some(3) } else { None } }).collect() } else { vec![] },
        m: if opt(1) { (0..count(1, 8, 80)).map(|i| (format!("k{}{i}", some_text()), text())).collect() } else { HashMap::new() },
    }
}
/// The field a part of the query belongs to.
fn field(part: &str) -> String {
    let b = part.split(['=', '[']).next().unwrap_or("").as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        match b.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()) {
            Some(c) if b[i] == b'%' => {
                out.push(c as char);
                i += 2;
            }
            _ => out.push(b[i] as char),
        }
        i += 1;
    }
    out
}
/// The same query as another implementation may write it.
fn respell(q: &str) -> String {
    let mut parts: Vec<String> = vec![];
    for p in q.split('&') {
        let mut out = String::new();
        let b = p.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'%' if chance(1, 2) => {
                    out += &p[i..i + 3].to_ascii_lowercase();
                    i += 2;
                }
                b'%' => {
                    out += &p[i..i + 3];
                    i += 2;
                }
                b'+' if chance(1, 2) => out += "%20",
                // what needs no escape may have one
                c if (c.is_ascii_alphabetic() || (c.is_ascii_digit() && p[..i].contains('='))) && chance(1, 6) => out += &format!("%{c:02X}"),
                c => out.push(c as char),
            }
            i += 1;
        }
        parts.push(out);
    }
    // fields in any order; what belongs to one field stays in order
    if chance(1, 2) {
        let names: Vec<String> = q.split('&').map(field).collect();
        let mut keys: Vec<&String> = names.iter().collect();
        keys.sort();
        keys.dedup();
        let mut order = vec![];
        while !keys.is_empty() {
            let k = keys.remove(choose_usize(keys.len()));
            order.extend((0..parts.len()).filter(|i| names[*i] == *k));
        }
        parts = order.into_iter().map(|i| parts[i].clone()).collect();
    }
    if chance(1, 4) {
        let more = *pick(&["utm=1", "zz[a]=1", "zy=%26", "unread"]);
        if !parts.iter().any(|p| field(p) == field(more)) {
            parts.insert(choose_usize(parts.len() + 1), more.into());
        }
    }
    if chance(1, 6) {
        parts.push(String::new());
    }
    parts.join("&")
}
fn damage(q: &str) -> String {
    let mut b: Vec<char> = q.chars().collect();
    for _ in 0..range(1, 3) {
        let at = choose_usize(b.len() + 1);
        match choose(7) {
            0 if at < b.len() => drop(b.remove(at)),
            1 => b.insert(at, *pick(&['&', '=', '%', '[', ']', '+', '0', '\u{e9}', ' ', '"', '\0', '\\'])),
            2 => b.truncate(at),
            3 if at < b.len() => b[at] = char::from_u32(b[at] as u32 ^ (1 << choose(8))).unwrap_or('x'),
            4 => {
                let c = b.clone();
                b.push('&');
                b.extend(&c[at..]);
            }
            5 => {
                for _ in 0..range(1, 40) {
                    b.insert(at, *pick(&['[', ']']));
                }
            }
            _ => b.extend(format!("&{}", pick(&["s=1", "n=x", "l[9999999999]=1", "l[0]=1&l[0]=2", "m=1", "r[a][b][c]=1", "s[]=1", "u[1]=70000", "k=none", "t=maybe", "s=%ff%fe", "=&=&=", "l[18446744073709551616]=1"])).chars()),
        }
    }
    b.into_iter().filter(|c| *c != '#').collect()
}

/// What this node must see.
#[derive(Clone)]
enum Want {
    Exactly(Box<Asked>),
    /// damaged: some value, or the sender's error
    Whatever,
}
fn look(q: &Request, w: &Want, rest: &str, at: &str) -> Res {
    let before = q.url().to_string();
    note(|| format!("{at}: {before}"));
    let got = q.query::<Asked>();
    let again = q.query::<Asked>();
    let same = match (&got, &again) {
        (Ok(a), Ok(b)) => a == b || a.f.is_nan(),
        (Err(a), Err(b)) => a.status() == b.status() && a.to_string() == b.to_string(),
        _ => false,
    };
    check!(same, "unsteady", "{at}: {before} reads as {got:?}, then as {again:?}");
    match (w, &got) {
        (Want::Exactly(w), Ok(g)) => check!(**w == *g, "query-changed", "{at}: {before} reads as {g:?}, {w:?} was asked"),
        (Want::Exactly(w), Err(e)) => return viol("query-lost", format!("{at}: {before} cannot be read ({e}), {w:?} was asked")),
        (Want::Whatever, Err(e)) => {
            check!(e.status() == 400, "wrong-status", "{at}: {before} is refused with {}", e.status());
            probe("damaged_refused");
        }
        (Want::Whatever, Ok(_)) => probe("damaged_read"),
    }
    match (w, q.query::<Part>()) {
        (Want::Exactly(w), Ok(p)) => check!(p.s == w.s && p.n == w.n, "query-changed", "{at}: {before} reads as {p:?}, {w:?} was asked"),
        (Want::Exactly(_), Err(e)) => return viol("query-lost", format!("{at}: part of {before} cannot be read ({e})")),
        (_, Err(e)) => check!(e.status() == 400, "wrong-status", "{at}: {before} is refused with {}", e.status()),
        _ => {}
    }
    match q.query::<Needs>() {
        Ok(v) => return viol("query-invented", format!("{at}: {before} reads as {v:?}")),
        Err(e) => check!(e.status() == 400, "wrong-status", "{at}: {before} lacks a field and is refused with {}", e.status()),
    }
    let u = q.url();
    check!(u.as_str() == before, "url-changed", "{at}: reading the query of {before} made it {u}");
    let mut bare = u.clone();
    bare.set_query(None);
    check!(bare.as_str() == rest, "url-changed", "{at}: besides its query the URL is {bare}, must be {rest}");
    Ok(())
}
/// One request from node to node.
async fn journey() -> Res {
    let start = *pick(&[
        "http://h.sim/",
        "http://h.sim/?old=1&s=old&l[7]=old",
        "https://us:pw@h.sim:8443/a%20b/c;d?x#frag?s=no",
        "http://[::1]:1/?",
        "http://h.sim/p?s=a#s=b",
        "http://h.sim",
        "foo:opaque?s=1",
    ]);
    let m = *pick(&[Method::Get, Method::Post, Method::Delete]);
    let mut q = match choose(3) {
        0 => Request::new(m, start),
        1 => Request::new(m, Url::parse(start).unwrap()),
        _ => {
            let mut q = Request::get("http://other.sim/z");
            *q.url_mut() = Url::parse(start).unwrap();
            q
        }
    };
    let mut rest = Url::parse(start).unwrap();
    rest.set_query(None);
    let rest = |r: &Url| r.to_string();
    let mut bare = Url::parse(start).unwrap();
    bare.set_query(None);
    let mut w = Want::Whatever;
    // a request without any query asks for nothing in particular
    if chance(1, 8) {
        q.url_mut().set_query(None);
        w = Want::Exactly(Box::default());
        look(&q, &w, &rest(&bare), "before anything was asked")?;
        probe("no_query");
    }
    for hop in 0..range(1, 6) {
        exec::jitter().await;
        let at = format!("node {hop}");
        ev("hop", hop, q.url().as_str().len() as u64);
        match weighted(&[5, 4, 2, 2, 2, 2]) {
            0 => {
                let a = asked();
                let before = q.url().to_string();
                if let Err(e) = q.set_query(&a) {
                    return viol("query-refused", format!("{at}: {a:?} for {before}: {e}"));
                }
                // as one reader of this very text sees it, it is all there
                check!(q.url().query().is_some(), "query-lost", "{at}: {a:?} was asked, {} holds no query", q.url());
                w = Want::Exactly(Box::new(a));
                probe("asked");
            }
            1 => {
                if let Some(t) = q.url().query().map(|t| t.to_string()) {
                    if matches!(w, Want::Exactly(_)) {
                        let t = respell(&t);
                        q.url_mut().set_query(Some(&t));
                        fault("query_respelled");
                    }
                }
            }
            2 => {
                if let Some(t) = q.url().query().map(|t| t.to_string()) {
                    q.url_mut().set_query(Some(&damage(&t)));
                    w = Want::Whatever;
                    fault("query_damaged");
                }
            }
            3 => {
                // a field is lost on the way: it reads as not asked for
                if let (Some(t), Want::Exactly(a)) = (q.url().query().map(|t| t.to_string()), &mut w) {
                    let keep = |n: &str| t.split('&').filter(|p| field(p) != n).collect::<Vec<_>>().join("&");
                    let none = Asked::default();
                    let left = match choose(5) {
                        0 => {
                            a.s = none.s;
                            keep("s")
                        }
                        1 => {
                            a.n = none.n;
                            keep("n")
                        }
                        2 => {
                            a.l = none.l;
                            keep("l")
                        }
                        3 => {
                            a.m = none.m;
                            keep("m")
                        }
                        _ => {
                            a.r = none.r;
                            keep("r")
                        }
                    };
                    q.url_mut().set_query(Some(&left));
                    fault("field_lost");
                }
            }
            4 => {
                // what cannot be written changes nothing
                let before = q.url().to_string();
                let e = match choose(3) {
                    0 => q.set_query(&Unwritable).err(),
                    1 => q.set_query(&7).err(),
                    _ => q.set_query(&"s=1").err(),
                };
                check!(e.is_some(), "query-invented", "{at}: what cannot be written was taken: {}", q.url());
                check!(q.url().as_str() == before, "url-changed", "{at}: a refused query changed {before} to {}", q.url());
                fault("query_refused");
            }
            _ => {
                // on to another process: as text, as a copy, or through the http crate
                match choose(3) {
                    0 => {
                        let t = q.url().to_string();
                        q = Request::new(q.method(), t.as_str());
                    }
                    1 => q = q.clone(),
                    _ => {
                        let uri = http::Uri::try_from(q.url().as_str());
                        if !q.url().cannot_be_a_base() && q.url().username().is_empty() && uri.is_ok() {
                            let h: http::Request<http_types::Body> = q.into();
                            q = match Request::try_from(h) {
                                Ok(q) => q,
                                Err(e) => return viol("query-lost", format!("{at}: the request does not come back from the http crate: {e}")),
                            };
                            bare.set_fragment(None);
                            probe("gateway");
                        }
                    }
                }
            }
        }
        look(&q, &w, &rest(&bare), &at)?;
    }
    Ok(())
}
pub fn c25() -> Res {
    exec::configure();
    competitor();
    let mut rs = vec![];
    for _ in 0..range(1, 2) {
        rs.push(exec::spawn_res("journey", journey()).1);
    }
    exec::run()?;
    exec::teardown();
    for r in rs {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    Ok(())
}
