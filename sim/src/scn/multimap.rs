//! C14: header collections against a multimap, over long histories and hops.
use super::body::{competitor, new_req, new_res};
use crate::engine::*;
use crate::exec;
use http_types::headers::{self as h, Header, HeaderName, HeaderValue, HeaderValues, Headers};
use http_types::trailers::Trailers;
use http_types::{mime, Request, Response};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::str::FromStr;

type Model = BTreeMap<String, Vec<String>>;
/// Every header name the library declares, with its registered spelling.
const CONSTS: &[(HeaderName, &str)] = &[
    (h::CONTENT_ENCODING, "content-encoding"),
    (h::CONTENT_LANGUAGE, "content-language"),
    (h::CONTENT_LENGTH, "content-length"),
    (h::CONTENT_LOCATION, "content-location"),
    (h::CONTENT_MD5, "content-md5"),
    (h::CONTENT_RANGE, "content-range"),
    (h::CONTENT_TYPE, "content-type"),
    (h::COOKIE, "cookie"),
    (h::SET_COOKIE, "set-cookie"),
    (h::TRANSFER_ENCODING, "transfer-encoding"),
    (h::DATE, "date"),
    (h::HOST, "host"),
    (h::ORIGIN, "origin"),
    (h::ACCESS_CONTROL_MAX_AGE, "access-control-max-age"),
    (h::ACCESS_CONTROL_ALLOW_ORIGIN, "access-control-allow-origin"),
    (h::ACCESS_CONTROL_ALLOW_HEADERS, "access-control-allow-headers"),
    (h::ACCESS_CONTROL_ALLOW_METHODS, "access-control-allow-methods"),
    (h::ACCESS_CONTROL_EXPOSE_HEADERS, "access-control-expose-headers"),
    (h::ACCESS_CONTROL_REQUEST_METHOD, "access-control-request-method"),
    (h::ACCESS_CONTROL_REQUEST_HEADERS, "access-control-request-headers"),
    (h::ACCESS_CONTROL_ALLOW_CREDENTIALS, "access-control-allow-credentials"),
    (h::ACCEPT, "accept"),
    (h::ACCEPT_CHARSET, "accept-charset"),
    (h::ACCEPT_ENCODING, "accept-encoding"),
    (h::ACCEPT_LANGUAGE, "accept-language"),
    (h::ACCEPT_RANGES, "accept-ranges"),
    (h::AGE, "age"),
    (h::ALLOW, "allow"),
    (h::AUTHORIZATION, "authorization"),
    (h::CACHE_CONTROL, "cache-control"),
    (h::CLEAR_SITE_DATA, "clear-site-data"),
    (h::CONNECTION, "connection"),
    (h::ETAG, "etag"),
    (h::EXPECT, "expect"),
    (h::EXPIRES, "expires"),
    (h::FORWARDED, "forwarded"),
    (h::FROM, "from"),
    (h::IF_MATCH, "if-match"),
    (h::IF_MODIFIED_SINCE, "if-modified-since"),
    (h::IF_NONE_MATCH, "if-none-match"),
    (h::IF_RANGE, "if-range"),
    (h::IF_UNMODIFIED_SINCE, "if-unmodified-since"),
    (h::LAST_MODIFIED, "last-modified"),
    (h::LOCATION, "location"),
    (h::MAX_FORWARDS, "max-forwards"),
    (h::PRAGMA, "pragma"),
    (h::PROXY_AUTHENTICATE, "proxy-authenticate"),
    (h::PROXY_AUTHORIZATION, "proxy-authorization"),
    (h::PROXY_CONNECTION, "proxy-connection"),
    (h::REFERER, "referer"),
    (h::RETRY_AFTER, "retry-after"),
    (h::SERVER, "server"),
    (h::SERVER_TIMING, "server-timing"),
    (h::SOURCE_MAP, "sourcemap"),
    (h::STRICT_TRANSPORT_SECURITY, "strict-transport-security"),
    (h::TE, "te"),
    (h::TIMING_ALLOW_ORIGIN, "timing-allow-origin"),
    (h::TRACEPARENT, "traceparent"),
    (h::TRAILER, "trailer"),
    (h::UPGRADE, "upgrade"),
    (h::USER_AGENT, "user-agent"),
    (h::VARY, "vary"),
    (h::VIA, "via"),
    (h::WARNING, "warning"),
    (h::WWW_AUTHENTICATE, "www-authenticate"),
];
/// Any of the registered names.
pub fn registered_name() -> &'static str {
    pick(CONSTS).1
}
const OWN: &[&str] = &["x-a", "x-ab", "x-b", "a", "x_a", "0", "x-aa", "accept", "set-cookie", "content-type", "via"];

enum Obj {
    H(Headers),
    Q(Request),
    R(Response),
    T(Trailers),
}
impl Obj {
    fn new() -> Obj {
        match choose(4) {
            0 => Obj::Q(new_req()),
            1 => Obj::R(new_res()),
            2 => Obj::T(Trailers::new()),
            _ => Obj::H((*Trailers::new()).clone()),
        }
    }
    fn headers(&self) -> &Headers {
        match self {
            Obj::H(x) => x.as_ref(),
            Obj::Q(x) => x.as_ref(),
            Obj::R(x) => x.as_ref(),
            Obj::T(x) => x,
        }
    }
    fn headers_mut(&mut self) -> &mut Headers {
        match self {
            Obj::H(x) => x.as_mut(),
            Obj::Q(x) => x.as_mut(),
            Obj::R(x) => x.as_mut(),
            Obj::T(x) => x,
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Obj::H(_) => "headers",
            Obj::Q(_) => "request",
            Obj::R(_) => "response",
            Obj::T(_) => "trailers",
        }
    }
    fn get(&self, n: HeaderName) -> Option<&HeaderValues> {
        match self {
            Obj::H(x) => x.get(n),
            Obj::Q(x) => x.header(n),
            Obj::R(x) => x.header(n),
            Obj::T(x) => x.get(n),
        }
    }
    fn get_mut(&mut self, n: HeaderName) -> Option<&mut HeaderValues> {
        match self {
            Obj::H(x) => x.get_mut(n),
            Obj::Q(x) => x.header_mut(n),
            Obj::R(x) => x.header_mut(n),
            Obj::T(x) => x.get_mut(n),
        }
    }
    fn remove(&mut self, n: HeaderName) -> Option<HeaderValues> {
        match self {
            Obj::H(x) => x.remove(n),
            Obj::Q(x) => x.remove_header(n),
            Obj::R(x) => x.remove_header(n),
            Obj::T(x) => x.remove(n),
        }
    }
    fn insert(&mut self, n: HeaderName, v: impl h::ToHeaderValues) -> http_types::Result<Option<HeaderValues>> {
        match self {
            Obj::H(x) => x.insert(n, v),
            Obj::Q(x) => x.insert_header(n, v),
            Obj::R(x) => x.insert_header(n, v),
            Obj::T(x) => x.insert(n, v),
        }
    }
    fn append(&mut self, n: HeaderName, v: impl h::ToHeaderValues) -> http_types::Result<()> {
        match self {
            Obj::H(x) => x.append(n, v),
            Obj::Q(x) => x.append_header(n, v),
            Obj::R(x) => x.append_header(n, v),
            Obj::T(x) => x.append(n, v),
        }
    }
    fn iter(&self) -> h::Iter<'_> {
        match self {
            Obj::H(x) => x.iter(),
            Obj::Q(x) => x.iter(),
            Obj::R(x) => x.iter(),
            Obj::T(x) => x.iter(),
        }
    }
    fn iter_mut(&mut self) -> h::IterMut<'_> {
        match self {
            Obj::H(x) => x.iter_mut(),
            Obj::Q(x) => x.iter_mut(),
            Obj::R(x) => x.iter_mut(),
            Obj::T(x) => x.iter_mut(),
        }
    }
    fn ref_mut(&mut self) -> h::IterMut<'_> {
        match self {
            Obj::H(x) => x.into_iter(),
            Obj::Q(x) => x.into_iter(),
            Obj::R(x) => x.into_iter(),
            Obj::T(x) => x.iter_mut(),
        }
    }
    fn names(&self) -> h::Names<'_> {
        match self {
            Obj::H(x) => x.names(),
            Obj::Q(x) => x.header_names(),
            Obj::R(x) => x.header_names(),
            Obj::T(x) => x.names(),
        }
    }
    fn values(&self) -> h::Values<'_> {
        match self {
            Obj::H(x) => x.values(),
            Obj::Q(x) => x.header_values(),
            Obj::R(x) => x.header_values(),
            Obj::T(x) => x.values(),
        }
    }
    fn into_pairs(self) -> Vec<(HeaderName, HeaderValues)> {
        match self {
            Obj::H(x) => x.into_iter().collect(),
            Obj::Q(x) => x.into_iter().collect(),
            Obj::R(x) => x.into_iter().collect(),
            Obj::T(x) => (*x).clone().into_iter().collect(),
        }
    }
    fn duplicate(&self) -> Obj {
        match self {
            Obj::H(x) => Obj::H(x.clone()),
            Obj::Q(x) => Obj::Q(x.clone()),
            Obj::R(x) => Obj::R(x.clone()),
            Obj::T(x) => Obj::T(x.clone()),
        }
    }
}
pub fn recase(n: &str) -> String {
    match choose(4) {
        0 => n.to_string(),
        1 => n.to_ascii_uppercase(),
        2 => {
            let mut up = true;
            n.chars()
                .map(|c| {
                    let r = if up { c.to_ascii_uppercase() } else { c };
                    up = c == '-';
                    r
                })
                .collect()
        }
        _ => n.bytes().map(|b| if chance(1, 2) { b.to_ascii_uppercase() as char } else { b as char }).collect(),
    }
}
/// A name and one of the ways to state it.
fn draw_name() -> String {
    if chance(1, 6) {
        CONSTS[choose_usize(CONSTS.len())].1.to_string()
    } else {
        pick(OWN).to_string()
    }
}
fn name(n: &str) -> HeaderName {
    let s = recase(n);
    match choose(7) {
        0 => HeaderName::from(s.as_str()),
        // (its one condition, ASCII, holds)
        6 => unsafe { HeaderName::from_bytes_unchecked(s.into_bytes()) },
        1 => HeaderName::from_str(&s).unwrap(),
        2 => HeaderName::from_string(s).unwrap(),
        3 => HeaderName::from_bytes(s.into_bytes()).unwrap(),
        4 => HeaderName::from(&HeaderName::from(s.as_str())),
        _ => match CONSTS.iter().find(|c| c.1 == n) {
            Some(c) => c.0.clone(),
            None => HeaderName::from((s.as_str(), "x")),
        },
    }
}
fn draw_value() -> String {
    match weighted(&[6, 2, 1, 1, 1]) {
        0 => format!("v{}", choose(6)),
        1 => format!("{}, {}", choose(3), choose(3)),
        2 => String::new(),
        3 => "A=b; \"Q\"\tx".into(),
        _ => (0..count(0, 19, 9000)).map(|_| (32 + choose(95) as u8) as char).collect(),
    }
}
fn texts(v: &HeaderValues) -> Vec<String> {
    v.iter().map(|x| x.as_str().to_string()).collect()
}
fn val(s: &str) -> HeaderValue {
    match choose(4) {
        0 => HeaderValue::from_bytes(s.as_bytes().to_vec()).unwrap(),
        1 => HeaderValue::from_str(s).unwrap(),
        2 => s.parse().unwrap(),
        _ => std::convert::TryFrom::try_from(s).unwrap(),
    }
}
fn vals(v: &[String]) -> HeaderValues {
    match choose(3) {
        0 => v.iter().map(|x| val(x)).collect(),
        1 => HeaderValues::from(v.iter().map(|x| val(x)).collect::<Vec<_>>()),
        _ => {
            let mut a: HeaderValues = val(&v[0]).into();
            let mut b: HeaderValues = v[1..].iter().map(|x| val(x)).collect();
            a.append(&mut b);
            a
        }
    }
}

struct Held {
    o: Obj,
    m: Model,
}
/// One look at one name.
fn look_at(o: &Obj, m: &Model, n: &str) -> Res {
    let want = m.get(n);
    let got = if chance(1, 2) { o.get(name(n)) } else { o.headers().get(recase(n).as_str()) };
    check!(got.map(texts).as_ref() == want, "wrong-lookup", "{}: {n:?} holds {:?}, must hold {want:?}", o.kind(), got.map(texts));
    let (got, want) = match (got, want) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    check!(got.last().as_str() == want.last().unwrap(), "wrong-lookup", "last of {n:?} is {:?}", got.last());
    check!(got.as_str() == want[0] && AsRef::<HeaderValue>::as_ref(got).as_str() == want[0], "wrong-lookup", "first of {n:?} is {:?}", got.as_str());
    for i in 0..=want.len() {
        check!(got.get(i).map(|v| v.as_str()) == want.get(i).map(|s| s.as_str()), "wrong-lookup", "value {i} of {n:?} is {:?}, must be {:?}", got.get(i), want.get(i));
    }
    let k = choose_usize(want.len());
    check!(got[k].as_str() == want[k], "wrong-lookup", "value {k} of {n:?} is {:?}", got[k]);
    check!(got.contains(&val(&want[k])), "wrong-lookup", "{n:?} does not contain its value {:?}", want[k]);
    check!(!got.contains(&val("never-put-in")), "wrong-lookup", "{n:?} contains a value never put in");
    let refs: Vec<&str> = want.iter().map(|s| s.as_str()).collect();
    check!(*got == refs[..], "wrong-lookup", "{n:?} does not equal its values {want:?}");
    // no other list is equal to it
    let mut other = refs.clone();
    match choose(5) {
        0 => {
            other.pop();
        }
        1 => other.push(refs[0]),
        2 => {
            other.insert(choose_usize(refs.len() + 1), "never-put-in");
        }
        3 => {
            other.remove(0);
        }
        _ => other.reverse(),
    }
    check!((*got == other[..]) == (other == refs), "wrong-lookup", "{n:?} holding {want:?} compared with {other:?}");
    check!((*got == *want[0].as_str()) == (want.len() == 1) && (*got == want[0]) == (want.len() == 1) && (*got == &want[0]) == (want.len() == 1) && (*got == want[0].as_str()) == (want.len() == 1), "wrong-lookup", "{n:?} with {} values compared with one text", want.len());
    let i = match o {
        Obj::Q(q) => &q[recase(n).as_str()],
        Obj::R(r) => &r[name(n)],
        Obj::T(t) => &t[recase(n).as_str()],
        Obj::H(x) => &x[name(n)],
    };
    check!(texts(i) == *want, "wrong-lookup", "indexing {n:?} gives {i:?}");
    let i = match o {
        Obj::Q(q) => &q[name(n)],
        Obj::R(r) => &r[recase(n).as_str()],
        Obj::T(t) => &t[name(n)],
        Obj::H(x) => &x[recase(n).as_str()],
    };
    check!(texts(i) == *want, "wrong-lookup", "indexing {n:?} gives {i:?}");
    check!(HeaderValue::from(got.clone()).as_str() == want[0], "wrong-lookup", "the one value taken from {want:?} is not the first");
    check!((&got).into_iter().count() == want.len(), "wrong-count", "{} values counted under {n:?}, must be {}", got.into_iter().count(), want.len());
    Ok(())
}
fn hint(it: (usize, Option<usize>), rest: usize, what: &str) -> Res {
    check!(it.0 <= rest && it.1.map_or(true, |u| u >= rest), "wrong-count", "{what} announces {it:?} items, {rest} remain");
    Ok(())
}
fn look(x: &mut Held) -> Res {
    let total: usize = x.m.values().map(|v| v.len()).sum();
    {
        let (o, m) = (&x.o, &x.m);
        let kind = o.kind();
        let as_model = |pairs: Vec<(String, Vec<String>)>, how: &str| -> Res {
            let n = pairs.len();
            let got: Model = pairs.into_iter().collect();
            check!(got == *m && n == m.len(), "wrong-iteration", "{kind}: {how} gives {n} entries {got:?}, must be {m:?}");
            Ok(())
        };
        let mut it = o.iter();
        let mut got = vec![];
        loop {
            hint(it.size_hint(), m.len() - got.len().min(m.len()), "iter")?;
            match it.next() {
                Some((n, v)) => got.push((n.as_str().to_string(), texts(v))),
                None => break,
            }
        }
        as_model(got, "iter")?;
        match choose(3) {
            0 => as_model(o.headers().into_iter().map(|(n, v)| (n.to_string(), v.into_iter().map(|v| v.to_string()).collect())).collect(), "&headers")?,
            1 => as_model(
                match o {
                    Obj::Q(q) => q.into_iter().map(|(n, v)| (n.to_string(), texts(v))).collect(),
                    Obj::R(q) => q.into_iter().map(|(n, v)| (n.to_string(), texts(v))).collect(),
                    Obj::T(q) => (&**q).into_iter().map(|(n, v)| (n.to_string(), texts(v))).collect(),
                    Obj::H(q) => q.into_iter().map(|(n, v)| (n.to_string(), texts(v))).collect(),
                },
                "&message",
            )?,
            _ => as_model(o.duplicate().into_pairs().into_iter().map(|(n, v)| (n.to_string(), v.into_iter().map(|v| v.as_str().to_string()).collect())).collect(), "into_iter")?,
        }
        let mut it = o.names();
        let mut names: Vec<String> = vec![];
        loop {
            hint(it.size_hint(), m.len() - names.len().min(m.len()), "names")?;
            match it.next() {
                Some(n) => names.push(n.as_str().to_string()),
                None => break,
            }
        }
        names.sort();
        check!(names.iter().eq(m.keys()), "wrong-iteration", "{kind}: names gives {names:?}, must be {:?}", m.keys().collect::<Vec<_>>());
        let mut it = o.values();
        let mut seen = vec![];
        loop {
            hint(it.size_hint(), total - seen.len().min(total), "values")?;
            match it.next() {
                Some(v) => seen.push(v.as_str().to_string()),
                None => break,
            }
        }
        // each name's values stand together and in order
        let want: Vec<String> = o.names().flat_map(|n| m[n.as_str()].clone()).collect();
        let (mut a, mut b) = (seen.clone(), want);
        a.sort();
        b.sort();
        check!(a == b, "wrong-iteration", "{kind}: values gives {seen:?}, must be those of {m:?}");
        check!(o.values().count() == total, "wrong-count", "{kind}: {} values counted, must be {total}", o.values().count());
        for n in m.keys() {
            look_at(o, m, n)?;
        }
        let n = draw_name();
        look_at(o, m, &n)?;
    }
    if chance(1, 3) {
        let m = &x.m;
        let mut n = 0;
        let mut it = x.o.iter_mut();
        loop {
            hint(it.size_hint(), m.len() - n.min(m.len()), "iter_mut")?;
            match it.next() {
                Some((k, v)) => {
                    n += 1;
                    check!(m.get(k.as_str()) == Some(&texts(v)), "wrong-iteration", "iter_mut gives {k}: {v:?}");
                }
                None => break,
            }
        }
        check!(n == m.len(), "wrong-iteration", "iter_mut gives {n} entries, must be {}", m.len());
    }
    Ok(())
}
fn held<T: std::fmt::Debug>(r: http_types::Result<T>) -> Result<T, Violation> {
    r.map_err(|e| Violation { class: "refused".into(), msg: format!("a valid header was refused: {e:?}") })
}
fn prior(got: Option<HeaderValues>, want: Option<Vec<String>>, what: &str) -> Res {
    check!(got.as_ref().map(texts) == want, "wrong-prior", "{what} returned {got:?}, the values before were {want:?}");
    Ok(())
}
/// The stock protections, on whatever is there.
fn protect(x: &mut Held) -> Res {
    use http_types::security as sec;
    let put = |m: &mut Model, n: &str, v: &str| {
        m.insert(n.into(), vec![v.into()]);
    };
    // What is there already may have come in any spelling.
    for n in ["x-powered-by", "referrer-policy", "x-frame-options"] {
        if chance(1, 3) {
            let v = draw_value();
            held(x.o.append(name(n), v.as_str()))?;
            x.m.entry(n.into()).or_default().push(v);
        }
    }
    let k = choose(8);
    ev("protect", k, x.m.len() as u64);
    let m = &mut x.m;
    let h = x.o.headers_mut();
    match k {
        0 => {
            sec::default(h);
            put(m, "x-dns-prefetch-control", "on");
            put(m, "x-content-type-options", "nosniff");
            put(m, "x-frame-options", "sameorigin");
            put(m, "strict-transport-security", "max-age=5184000");
            put(m, "x-xss-protection", "1; mode=block");
            m.remove("x-powered-by");
        }
        1 => {
            sec::dns_prefetch_control(h);
            put(m, "x-dns-prefetch-control", "on");
        }
        2 => {
            let (g, t) = *pick(&[(None, "sameorigin"), (Some(sec::FrameOptions::SameOrigin), "sameorigin"), (Some(sec::FrameOptions::Deny), "deny")]);
            sec::frameguard(h, g);
            put(m, "x-frame-options", t);
        }
        3 => {
            if chance(1, 2) {
                sec::powered_by(h, None);
                m.remove("x-powered-by");
            } else {
                let t = draw_value();
                sec::powered_by(h, Some(val(&t)));
                put(m, "x-powered-by", &t);
            }
        }
        4 => {
            sec::hsts(h);
            put(m, "strict-transport-security", "max-age=5184000");
        }
        5 => {
            sec::nosniff(h);
            put(m, "x-content-type-options", "nosniff");
        }
        6 => {
            sec::xss_filter(h);
            put(m, "x-xss-protection", "1; mode=block");
        }
        _ => {
            use sec::ReferrerOptions::*;
            let (p, t) = *pick(&[
                (None, "no-referrer"),
                (Some(NoReferrer), "no-referrer"),
                (Some(NoReferrerDowngrade), "no-referrer-when-downgrade"),
                (Some(SameOrigin), "same-origin"),
                (Some(Origin), "origin"),
                (Some(StrictOrigin), "strict-origin"),
                (Some(CrossOrigin), "origin-when-cross-origin"),
                (Some(StrictCrossOrigin), "strict-origin-when-cross-origin"),
                (Some(UnsafeUrl), "unsafe-url"),
            ]);
            sec::referrer_policy(h, p);
            m.entry("referrer-policy".into()).or_default().push(t.into());
        }
    }
    Ok(())
}
fn change(x: &mut Held) -> Res {
    let n = draw_name();
    let k = weighted(&[5, 7, 3, 2, 2, 2, 1, 1, 1, 2, 1, 1]);
    ev("change", k as u64, x.m.len() as u64);
    match k {
        0 | 1 => {
            // insert or append
            let insert = k == 0;
            let many: Vec<String> = (0..count(1, 3, 40)).map(|_| draw_value()).collect();
            let one = vec![many[0].clone()];
            let (hn, s) = (name(&n), many[0].clone());
            macro_rules! go {
                ($v:expr, $put:expr) => {{
                    let put: Vec<String> = $put;
                    if insert {
                        let was = held(x.o.insert(hn, $v))?;
                        prior(was, x.m.insert(n.clone(), put), "insert")?;
                    } else {
                        held(x.o.append(hn, $v))?;
                        x.m.entry(n.clone()).or_default().extend(put);
                    }
                }};
            }
            match choose(10) {
                8 => go!(mime::CSS, vec!["text/css;charset=utf-8".into()]),
                9 => {
                    let m = mime::Mime::from("a/b;c=\"d e\"");
                    if chance(1, 2) {
                        go!(HeaderValue::from(m.clone()), vec![m.to_string()])
                    } else {
                        go!(HeaderValue::from(&m), vec![m.to_string()])
                    }
                }
                0 => go!(s.as_str(), one),
                1 => go!(s, one),
                2 => go!(&s, one),
                3 => go!(Cow::Borrowed(s.as_str()), one),
                4 => go!(val(&s), one),
                5 => go!(&vals(&many), many.clone()),
                6 => {
                    let v: Vec<HeaderValue> = many.iter().map(|s| val(s)).collect();
                    go!(&v[..], many)
                }
                _ => go!(("x-other", s.as_str()), one),
            }
        }
        2 => {
            let was = x.o.remove(name(&n));
            prior(was, x.m.remove(&n), "remove")?;
        }
        3 => {
            // change in place
            let more: Vec<String> = (0..count(1, 2, 40)).map(|_| draw_value()).collect();
            let want = x.m.get_mut(&n);
            match (x.o.get_mut(name(&n)), want) {
                (None, None) => {}
                (Some(v), Some(w)) => match choose(5) {
                    0 => {
                        let mut other = vals(&more);
                        v.append(&mut other);
                        check!(other.iter().count() == 0, "wrong-count", "appended values stayed behind: {other:?}");
                        w.extend(more);
                    }
                    1 => {
                        let i = choose_usize(w.len() + 1);
                        match (v.get_mut(i), w.get_mut(i)) {
                            (Some(a), Some(b)) => {
                                *a = val(&more[0]);
                                *b = more[0].clone();
                            }
                            (None, None) => {}
                            (a, b) => return viol("wrong-lookup", format!("value {i} of {n:?} is {a:?}, must be {b:?}")),
                        }
                    }
                    2 => {
                        *v = vals(&more);
                        *w = more;
                    }
                    3 => {
                        **v = val(&more[0]);
                        w[0] = more[0].clone();
                    }
                    _ => {
                        let first: &mut HeaderValue = v.as_mut();
                        *first = val(&more[0]);
                        w[0] = more[0].clone();
                    }
                },
                (a, b) => return viol("wrong-lookup", format!("{n:?} to change is {a:?}, must be {b:?}")),
            }
        }
        4 => {
            // one pass over everything
            let p = choose(3);
            for (n, v) in if chance(1, 2) { x.o.iter_mut() } else { x.o.ref_mut() } {
                let w = match x.m.get_mut(n.as_str()) {
                    Some(w) => w,
                    None => return viol("wrong-iteration", format!("iter_mut gives {n}, which is not there")),
                };
                if p == 0 {
                    let t = format!("{}+", v.last());
                    v.append(&mut HeaderValues::from(val(&t)));
                    w.push(t);
                } else if let Some(a) = v.get_mut(0) {
                    *a = val("changed");
                    w[0] = "changed".into();
                }
            }
        }
        5 => {
            // refused lines leave everything as it was
            fault("line_refused");
            let bad = format!("{}\u{e9}", draw_value());
            let r = if chance(1, 2) { x.o.insert(name(&n), bad.as_str()).map(drop) } else { x.o.append(name(&n), bad.clone()) };
            check!(r.is_err(), "wrong-value", "non-ASCII value {bad:?} was accepted");
            // nor do names and values with other characters exist, or equal any that do
            let odd = format!("{n}\u{212a}");
            let r = match choose(3) {
                0 => HeaderName::from_str(&odd),
                1 => HeaderName::from_string(odd.clone()),
                _ => HeaderName::from_bytes(odd.clone().into_bytes()),
            };
            check!(r.is_err(), "wrong-name", "non-ASCII name {odd:?} was accepted as {r:?}");
            let h = name(&n);
            let same = [h == odd, h == &odd, h == odd.as_str(), h == *odd.as_str()];
            check!(same == [false; 4], "wrong-name", "{n:?} equals {odd:?}: {same:?}");
            let as_is = recase(&n);
            let same = [h == as_is, h == &as_is, h == as_is.as_str(), h == *as_is.as_str()];
            check!(same == [true; 4], "wrong-name", "{n:?} equals {as_is:?}: {same:?}");
            let other = format!("{n}a");
            let same = [h == other, h == &other, h == other.as_str(), h == *other.as_str()];
            check!(same == [false; 4], "wrong-name", "{n:?} equals {other:?}: {same:?}");
            check!(HeaderValue::from_bytes(bad.clone().into_bytes()).is_err() && HeaderValue::from_str(&bad).is_err(), "wrong-value", "non-ASCII value {bad:?} was accepted");
            let v = val("v");
            check!(v == "v" && v == *"v" && v == "v".to_string() && v == &"v".to_string() && v != "V" && v != *"V" && v != "V".to_string() && v != &"V".to_string(), "wrong-value", "comparing a value with text fails");
        }
        6 => {
            let d = http_types::cache::Age::from_secs(choose(1000));
            let t = d.duration().as_secs().to_string();
            match choose(3) {
                0 => d.apply_header(x.o.headers_mut()),
                1 => {
                    held(x.o.headers_mut().insert(&d, &d))?;
                }
                _ => {
                    held(x.o.insert(d.header_name(), d.header_value()))?;
                }
            }
            x.m.insert("age".into(), vec![t]);
        }
        7 => {
            let t = match &mut x.o {
                Obj::Q(q) => Some(q.set_content_type(mime::HTML)),
                Obj::R(q) => Some(q.set_content_type(mime::HTML)),
                _ => None,
            };
            if let Some(was) = t {
                prior(was, x.m.insert("content-type".into(), vec!["text/html;charset=utf-8".into()]), "set_content_type")?;
            }
        }
        8 => protect(x)?,
        9 => other_parts(x)?,
        11 => {
            // a list that turns out empty: no name is ever there without a value
            let none: Vec<HeaderValue> = vec![];
            let listed: HeaderValues = none.iter().cloned().collect();
            let hn = name(&n);
            let by_slice = chance(1, 2);
            if chance(1, 2) {
                let was = held(if by_slice { x.o.insert(hn, &none[..]) } else { x.o.insert(hn, &listed) })?;
                prior(was, x.m.remove(&n), "insert of no values")?;
            } else {
                held(if by_slice { x.o.append(hn, &none[..]) } else { x.o.append(hn, &listed) })?;
            }
            probe("empty_list");
        }
        _ => {
            // many names: the table grows and moves
            let base = choose(40);
            for i in 0..count(10, 60, 400) {
                let n = format!("x-many-{}", base + i);
                held(x.o.append(name(&n), "m"))?;
                x.m.entry(n).or_default().push("m".into());
            }
            probe("many_names");
        }
    }
    Ok(())
}
/// What a message holds besides its headers changes; of the headers only the
/// content type may, and only where there is none.
fn other_parts(x: &mut Held) -> Res {
    use http_types::{Body, Method, StatusCode, Url, Version};
    let body = match choose(6) {
        0 => Some(Body::from_string("s".into())),
        1 => Some(Body::from_bytes(vec![1, 2])),
        2 => Some(Body::from_reader(futures_lite::io::Cursor::new(vec![0u8; 4]), None)),
        3 => Some(Body::empty()),
        4 => {
            let mut b = Body::from_string("x".into());
            b.set_mime(None);
            Some(b)
        }
        _ => None,
    };
    let typed = body.as_ref().and_then(|b| b.mime().map(|m| m.to_string()));
    let how = choose(3);
    macro_rules! install {
        ($q:expr, $b:expr) => {
            match how {
                0 => $q.set_body($b),
                1 => drop($q.replace_body($b)),
                _ => {
                    let mut b = $b;
                    $q.swap_body(&mut b)
                }
            }
        };
    }
    let k = choose(4);
    let installed = body.is_some();
    match (&mut x.o, body) {
        (Obj::Q(q), Some(b)) => install!(q, b),
        (Obj::R(q), Some(b)) => install!(q, b),
        (Obj::Q(q), None) => match k {
            0 => drop(q.take_body()),
            1 => q.set_version(Some(*pick(&[Version::Http0_9, Version::Http1_0, Version::Http2_0, Version::Http3_0]))),
            2 => {
                q.set_method(*pick(&[Method::Head, Method::Connect, Method::Trace, Method::Post]));
                *q.url_mut() = Url::parse("http://other.sim:81/p").unwrap();
                q.set_query(&[("a", "b")]).map_err(|e| Violation { class: "refused".into(), msg: format!("set_query: {e}") })?;
            }
            _ => {
                q.ext_mut().insert(1u8);
                q.set_peer_addr(Some("1.2.3.4"));
                q.set_local_addr(None::<&str>);
            }
        },
        (Obj::R(q), None) => match k {
            0 => drop(q.take_body()),
            1 => q.set_version(Some(*pick(&[Version::Http0_9, Version::Http1_0, Version::Http2_0, Version::Http3_0]))),
            2 => q.set_status(*pick(&[StatusCode::NoContent, StatusCode::NotModified, StatusCode::SwitchingProtocols, StatusCode::Continue, StatusCode::Ok])),
            _ => {
                q.ext_mut().insert(1u8);
                q.set_peer_addr(Some("1.2.3.4"));
                q.set_local_addr(None::<&str>);
            }
        },
        _ => return Ok(()),
    }
    probe("other_parts");
    if !x.m.contains_key("content-type") {
        let now = x.o.headers().get("content-type").map(|v| v.as_str().to_string());
        let ok = match (&typed, installed) {
            (t, true) => now == *t,
            // an emptied message may take the empty body's generic type
            _ => now.is_none() || k == 0 && now.as_deref() == Some("application/octet-stream"),
        };
        check!(ok, "wrong-value", "a body of type {typed:?} went into a message without a content type, which now has {now:?}");
        if let Some(t) = now {
            x.m.insert("content-type".into(), vec![t]);
        }
    }
    Ok(())
}
/// Over the wire to another node: lines of different names in any order, names
/// in any case, some lost or repeated. Returns what arrives and what it must hold.
fn hop(x: &Held) -> Result<Held, Violation> {
    let mut lines: Vec<(String, String)> = Vec::new();
    for (n, vs) in x.o.iter() {
        for v in vs {
            lines.push((n.as_str().to_string(), v.as_str().to_string()));
        }
    }
    // order among one name's lines is kept, names interleave
    if chance(1, 2) && lines.len() > 1 {
        fault("lines_reordered");
        let mut queues: BTreeMap<String, std::collections::VecDeque<String>> = BTreeMap::new();
        for (n, v) in lines.drain(..) {
            queues.entry(n).or_default().push_back(v);
        }
        while !queues.is_empty() {
            let n = queues.keys().nth(choose_usize(queues.len())).unwrap().clone();
            let q = queues.get_mut(&n).unwrap();
            lines.push((n.clone(), q.pop_front().unwrap()));
            if q.is_empty() {
                queues.remove(&n);
            }
        }
    }
    let mut i = 0;
    while i < lines.len() && lines.len() < 80 {
        if chance(1, 25) {
            fault("line_lost");
            lines.remove(i);
            continue;
        }
        if chance(1, 25) {
            fault("line_duplicated");
            let l = lines[i].clone();
            lines.insert(i, l);
        }
        i += 1;
    }
    let mut m = Model::new();
    let mut o = Obj::new();
    for (n, v) in lines {
        m.entry(n.clone()).or_default().push(v.clone());
        let n = recase(&n);
        held(match choose(3) {
            0 => o.append(HeaderName::from(n.as_str()), v.as_str()),
            1 => o.headers_mut().append(n.as_str(), v),
            _ => o.headers_mut().append(n.as_str(), val(&v)),
        })?;
    }
    probe("hop");
    Ok(Held { o, m })
}
type Store = Rc<RefCell<Vec<Held>>>;
async fn worker(s: Store) -> Res {
    for _ in 0..range(2, 12) {
        {
            let mut s = s.borrow_mut();
            let i = choose_usize(s.len());
            match weighted(&[12, 2, 1, 1]) {
                0 => {
                    for _ in 0..range(1, 4) {
                        change(&mut s[i])?;
                    }
                }
                1 => {
                    let y = hop(&s[i])?;
                    if s.len() < 4 {
                        s.push(y);
                    } else {
                        s[i] = y;
                    }
                }
                2 => {
                    // a copy goes its own way
                    let y = Held { o: s[i].o.duplicate(), m: s[i].m.clone() };
                    probe("copied");
                    if s.len() < 4 {
                        s.push(y);
                    } else {
                        let j = choose_usize(s.len());
                        s[j] = y;
                    }
                }
                _ => {
                    // taken apart and put together in another collection
                    let y = std::mem::replace(&mut s[i], Held { o: Obj::new(), m: Model::new() });
                    let mut o = Obj::new();
                    for (n, v) in y.o.into_pairs() {
                        prior(held(o.insert(n, &v))?, None, "insert")?;
                    }
                    s[i] = Held { o, m: y.m };
                }
            }
            let j = choose_usize(s.len());
            for k in [i, j] {
                look(&mut s[k])?;
            }
        }
        exec::jitter().await;
    }
    Ok(())
}
pub fn c14() -> Res {
    exec::configure();
    let s: Store = Rc::new(RefCell::new((0..range(1, 2)).map(|_| Held { o: Obj::new(), m: Model::new() }).collect()));
    for (n, t) in CONSTS.iter().skip(choose_usize(CONSTS.len())).take(2) {
        check!(n.as_str() == *t && *n == *recase(t).as_str(), "wrong-name", "the constant for {t:?} reads {:?}", n.as_str());
    }
    let mut rs = vec![];
    for _ in 0..range(1, 3) {
        rs.push(exec::spawn_res("node", worker(s.clone())).1);
    }
    competitor();
    exec::run()?;
    for r in rs {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    for x in s.borrow_mut().iter_mut() {
        look(x)?;
    }
    Ok(())
}
