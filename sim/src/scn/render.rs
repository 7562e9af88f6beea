//! C16: headers rendered by nodes with different process randomness, and read back.
use super::body::{competitor, new_req, new_res};
use super::nodes::Msg;
use crate::engine::*;
use crate::exec;
use http_types::cache::{CacheControl, CacheDirective, ClearDirective, ClearSiteData};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::content::{Accept, AcceptEncoding, Encoding, EncodingProposal, MediaTypeProposal};
use http_types::headers::{Header, HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::proxies::Forwarded;
use http_types::security::{ContentSecurityPolicy, ReportTo, Source, StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{Metric, ServerTiming};
use http_types::transfer::{Encoding as TEncoding, EncodingProposal as TEncodingProposal, TE};
use http_types::{Method, Url};
use std::collections::BTreeMap;
use std::str::FromStr;
use std::time::Duration;

fn key() -> u64 {
    choose(1 << 16)
}
fn died<T>(tag: &str, r: std::thread::Result<T>) -> Result<T, Violation> {
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic().unwrap_or_default();
            Err(Violation { class: format!("panic@{loc}"), msg: format!("{tag}: panicked at {loc}: {msg}") })
        }
    }
}

/// A header made of members pushed one at a time.
trait Members: Sized {
    type C: Header + std::fmt::Debug + Send + 'static;
    type T: Clone + std::fmt::Debug + PartialEq + Send + 'static;
    const TAG: &'static str;
    /// Whether the members have a defined order.
    const ORDERED: bool = true;
    const WILD: bool = true;
    fn empty() -> Self::C;
    fn push(c: &mut Self::C, t: Self::T);
    fn set_wild(_c: &mut Self::C, _w: bool) {}
    fn wild(_c: &Self::C) -> bool {
        false
    }
    fn gen() -> Self::T;
    /// What a reader can tell about a member, weights and times rounded as written.
    fn canon(t: &Self::T) -> String;
    fn members(c: &Self::C) -> Vec<Self::T>;
    fn into_members(c: Self::C) -> Vec<Self::T>;
    fn read(h: &Headers) -> Result<Option<Self::C>, String>;
    /// Replaces members in place; false if the header has no way to.
    fn change(_c: &mut Self::C, _at: &[(usize, Self::T)], _by_ref: bool) -> bool {
        false
    }
    /// What else there is to look at.
    fn look(_c: &Self::C, _ts: &[Self::T]) -> Res {
        Ok(())
    }
}
macro_rules! members {
    ($k:ident, $tag:expr, $c:ty, $t:ty, gen: $gen:expr, canon: $canon:expr, push: $push:expr, wild: $wild:tt, ordered: $ord:tt) => {
        struct $k;
        impl Members for $k {
            type C = $c;
            type T = $t;
            const TAG: &'static str = $tag;
            members!(@ordered $ord);
            members!(@wild $wild);
            fn empty() -> $c {
                <$c>::new()
            }
            fn push(c: &mut $c, t: $t) {
                $push(c, t);
            }
            fn gen() -> $t {
                $gen()
            }
            fn canon(t: &$t) -> String {
                $canon(t)
            }
            fn members(c: &$c) -> Vec<$t> {
                let a: Vec<$t> = c.iter().cloned().collect();
                let b: Vec<$t> = (&*c).into_iter().cloned().collect();
                let hint = c.iter().size_hint();
                assert!(hint.0 <= a.len() && hint.1.map_or(true, |h| h >= a.len()) && b.len() == a.len(), "iterators disagree about {} members", a.len());
                a
            }
            fn into_members(c: $c) -> Vec<$t> {
                c.into_iter().collect()
            }
            fn read(h: &Headers) -> Result<Option<$c>, String> {
                <$c>::from_headers(h).map_err(|e| e.to_string())
            }
        }
    };
    (@wild yes) => {
        const WILD: bool = true;
        fn set_wild(c: &mut Self::C, w: bool) {
            c.set_wildcard(w)
        }
        fn wild(c: &Self::C) -> bool {
            c.wildcard()
        }
    };
    (@ordered no) => {
        const ORDERED: bool = false;
        fn look(c: &Self::C, ts: &[Self::T]) -> Res {
            for _ in 0..3 {
                let t = Self::gen();
                check!(c.contains(t) == ts.contains(&t), "members-differ", "{} with members {ts:?} says it holds {t:?}: {}", Self::TAG, c.contains(t));
            }
            check!(ts.iter().all(|t| c.contains(*t)), "members-differ", "{c:?} does not hold all of {ts:?}");
            Ok(())
        }
    };
    (@ordered yes) => {
        fn change(c: &mut Self::C, at: &[(usize, Self::T)], by_ref: bool) -> bool {
            let n = c.iter().count();
            let mut left = n;
            let mut it = if by_ref { c.into_iter() } else { c.iter_mut() };
            let mut i = 0;
            loop {
                let h = it.size_hint();
                assert!(h.0 <= left && h.1.map_or(true, |u| u >= left), "iter_mut announces {h:?} members, {left} remain");
                let m = match it.next() {
                    Some(m) => m,
                    None => break,
                };
                for (j, t) in at {
                    if *j == i {
                        *m = t.clone();
                    }
                }
                i += 1;
                left = left.saturating_sub(1);
            }
            assert!(i == n, "iter_mut gives {i} of {n} members");
            true
        }
    };
    (@wild no) => {
        const WILD: bool = false;
    };
}

fn gen_secs() -> Duration {
    Duration::from_secs(match choose(4) {
        0 => choose(10),
        1 => choose(100_000_000),
        2 => u64::MAX >> choose(64),
        _ => *pick(&[0, 60, 31_536_000, (1 << 31) - 1, 1 << 31, 1 << 32, u64::MAX]),
    })
}
fn gen_cache() -> CacheDirective {
    use CacheDirective::*;
    match choose(15) {
        0 => Immutable,
        1 => MaxAge(gen_secs()),
        2 => MaxStale(if chance(1, 2) { Some(gen_secs()) } else { None }),
        3 => MinFresh(gen_secs()),
        4 => MustRevalidate,
        5 => NoCache,
        6 => NoStore,
        7 => NoTransform,
        8 => OnlyIfCached,
        9 => Private,
        10 => ProxyRevalidate,
        11 => Public,
        12 => SMaxAge(gen_secs()),
        13 => StaleIfError(gen_secs()),
        _ => StaleWhileRevalidate(gen_secs()),
    }
}
fn gen_clear() -> ClearDirective {
    *pick(&[ClearDirective::Cache, ClearDirective::Cookies, ClearDirective::Storage, ClearDirective::ExecutionContexts])
}
fn gen_etag() -> ETag {
    let s = pick(&["", "a", "xyzzy", "r2d2xxxx", "a,b", "x, y", "W/", "*", "abc!#$%&'()*+-./:;<=>?@[]^_`{|}~", "0"]).replace(' ', "");
    if chance(1, 2) {
        ETag::new(s)
    } else {
        ETag::new_weak(s)
    }
}
const NAMES: &[&str] = &["accept", "Accept-Encoding", "origin", "X-Custom", "user-agent", "a", "cookie", "x_y.z~1"];
fn gen_weight() -> Option<f32> {
    match choose(3) {
        0 => None,
        1 => Some(*pick(&[0.0, 1.0, 0.5, 0.001, 0.999, 0.25])),
        _ => Some(choose(1001) as f32 / 1000.0),
    }
}
fn weight(w: Option<f32>) -> String {
    w.map(|w| format!("{:.3}", w)).unwrap_or_else(|| "-".into())
}
fn gen_mime() -> Mime {
    let s = pick(&[
        "text/html", "*/*", "text/*", "application/json", "text/plain;charset=utf-8", "image/svg+xml", "a/b;c=d", "a/b;c=\"f g\"", "a/b;c=\"f,g\"", "a/b;c=\"f;g\";h=\"\"", "x/x;x=\"\\\"\"", "x/x;x=\"\\\\\";y=\"a, b\"",
        "multipart/form-data;boundary=\"q=1\"", "a/b;level=1;charset=utf-8",
    ]);
    Mime::from_str(s).expect("a valid media type")
}
fn gen_media() -> MediaTypeProposal {
    let m = gen_mime();
    match gen_weight() {
        None if chance(1, 2) => m.into(),
        w => {
            let p = MediaTypeProposal::new(m.clone(), w).expect("a valid weight");
            assert!(p == m && &p == m && *p == m && *p.media_type() == m && Mime::from(p.clone()) == m && p.weight().unwrap_or(1.0) == w.unwrap_or(1.0), "a proposal of {m} at {w:?} is {p:?}");
            p
        }
    }
}
fn gen_enc() -> EncodingProposal {
    let e = *pick(&[Encoding::Gzip, Encoding::Deflate, Encoding::Brotli, Encoding::Zstd, Encoding::Identity]);
    match gen_weight() {
        None => e.into(),
        w => {
            let p = EncodingProposal::new(e, w).expect("a valid weight");
            assert!(p == e && &p == e && *p == e && *p.encoding() == e && p.weight() == w, "a proposal of {e} at {w:?} is {p:?}");
            p
        }
    }
}
fn gen_tenc() -> TEncodingProposal {
    let e = *pick(&[TEncoding::Chunked, TEncoding::Gzip, TEncoding::Deflate, TEncoding::Brotli, TEncoding::Zstd, TEncoding::Identity]);
    match gen_weight() {
        None => e.into(),
        w => {
            let p = TEncodingProposal::new(e, w).expect("a valid weight");
            assert!(p == e && &p == e && *p == e && *p.encoding() == e && p.weight() == w, "a proposal of {e} at {w:?} is {p:?}");
            p
        }
    }
}
fn gen_origin() -> Url {
    let s = pick(&["https://a.example", "http://b.example:8080", "https://[2001:db8::1]", "http://localhost:3000", "https://xn--nxasmq6b.example"]);
    Url::parse(s).expect("a valid origin")
}
const METHODS: &[&str] = &[
    "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "GET", "HEAD", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "OPTIONS",
    "ORDERPATCH", "PATCH", "POST", "PRI", "PROPFIND", "PROPPATCH", "PUT", "REBIND", "REPORT", "SEARCH", "TRACE", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL",
];
fn gen_method() -> Method {
    Method::from_str(pick(METHODS)).expect("a known method")
}
fn gen_metric() -> Metric {
    let name = pick(&["db", "cache", "app-1", "total_time", "x.y"]).to_string();
    let dur = match choose(6) {
        0 | 1 => None,
        5 => Some(Duration::from_nanos(choose(1 << range(1, 40)))),
        2 => Some(Duration::from_millis(choose(10_000_000))),
        3 => Some(Duration::from_micros(choose(1 << 40))),
        _ => Some(Duration::from_secs(choose(1 << 36))),
    };
    let desc = match choose(3) {
        0 | 1 => None,
        _ => Some(pick(&["", "a db", "a_db", "Cache Read", "a, b", "a;b", "k=v", "x,y;z=1", "say \"hi\"", "\"", "back\\slash", "\\", "end\\\"", "!#%"]).to_string()),
    };
    Metric::new(name, dur, desc).expect("an ASCII metric")
}
fn canon_metric(m: &Metric) -> String {
    // Durations travel as a decimal number of milliseconds, read into an f64: exact to the
    // nanosecond up to about 20 minutes, longer ones compared to one part in 10^9.
    let d = m.duration().map(|d| match d.as_nanos() {
        n if n < 1 << 40 => format!("{n} ns"),
        n => format!("{:.8e}", (n as f64 / 1e3).round()),
    });
    format!("{} {d:?} {:?}", m.name(), m.description())
}

members!(KCache, "cache-control", CacheControl, CacheDirective, gen: gen_cache, canon: |d: &CacheDirective| format!("{d:?}"), push: |c: &mut CacheControl, t| c.push(t), wild: no, ordered: yes);
members!(KClear, "clear-site-data", ClearSiteData, ClearDirective, gen: gen_clear, canon: |d: &ClearDirective| format!("{d:?}"), push: |c: &mut ClearSiteData, t| c.push(t), wild: yes, ordered: yes);
members!(KIfMatch, "if-match", IfMatch, ETag, gen: gen_etag, canon: |d: &ETag| format!("{d:?}"), push: |c: &mut IfMatch, t| c.push(t), wild: yes, ordered: yes);
members!(KIfNoneMatch, "if-none-match", IfNoneMatch, ETag, gen: gen_etag, canon: |d: &ETag| format!("{d:?}"), push: |c: &mut IfNoneMatch, t| c.push(t), wild: yes, ordered: yes);
members!(KVary, "vary", Vary, HeaderName, gen: || HeaderName::from_str(pick(NAMES)).expect("a name"), canon: |d: &HeaderName| d.as_str().to_string(), push: |c: &mut Vary, t: HeaderName| c.push(t).expect("a name is accepted"), wild: yes, ordered: yes);
members!(KAccept, "accept", Accept, MediaTypeProposal, gen: gen_media, canon: |d: &MediaTypeProposal| format!("{} {}", d.media_type(), weight(Some(d.weight().unwrap_or(1.0)))), push: |c: &mut Accept, t: MediaTypeProposal| c.push(t), wild: yes, ordered: yes);
members!(KAcceptEnc, "accept-encoding", AcceptEncoding, EncodingProposal, gen: gen_enc, canon: |d: &EncodingProposal| format!("{} {}", d.encoding(), weight(d.weight())), push: |c: &mut AcceptEncoding, t: EncodingProposal| c.push(t), wild: yes, ordered: yes);
members!(KTe, "te", TE, TEncodingProposal, gen: gen_tenc, canon: |d: &TEncodingProposal| format!("{} {}", d.encoding(), weight(d.weight())), push: |c: &mut TE, t: TEncodingProposal| c.push(t), wild: yes, ordered: yes);
members!(KTao, "timing-allow-origin", TimingAllowOrigin, Url, gen: gen_origin, canon: |d: &Url| d.to_string(), push: |c: &mut TimingAllowOrigin, t: Url| c.push(t), wild: yes, ordered: yes);
members!(KAllow, "allow", Allow, Method, gen: gen_method, canon: |d: &Method| d.to_string(), push: |c: &mut Allow, t| c.insert(t), wild: no, ordered: no);
members!(KTiming, "server-timing", ServerTiming, Metric, gen: gen_metric, canon: canon_metric, push: |c: &mut ServerTiming, t| c.push(t), wild: no, ordered: yes);

fn build<K: Members>(ts: &[K::T], wild: bool) -> K::C {
    let mut c = K::empty();
    if K::WILD && wild {
        K::set_wild(&mut c, true);
    }
    for t in ts {
        K::push(&mut c, t.clone());
    }
    c
}
fn canons<K: Members>(ts: &[K::T]) -> Vec<String> {
    let mut v: Vec<String> = ts.iter().map(K::canon).collect();
    if !K::ORDERED {
        v.sort();
        v.dedup();
    }
    v
}
/// Members of an unordered rendering, sorted.
fn parts(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split(',').map(|p| p.trim().to_string()).collect();
    v.sort();
    v
}
/// The same members as another implementation may spell them: white space where
/// the syntax has it, empty members, and letters in any case where case is free.
fn respell(tag: &str, line: &str) -> String {
    let ows = || *pick(&["", "", " ", "  ", "\t"]);
    let semi = matches!(tag, "accept" | "accept-encoding" | "te" | "server-timing");
    let free = matches!(tag, "cache-control" | "accept-encoding" | "te" | "vary");
    let (mut out, mut quoted, mut escaped, mut param) = (String::new(), false, false, false);
    let mut own = String::new();
    if tag == "cache-control" {
        // arguments may be quoted, and directives of others' stand between
        for m in line.split(',').map(str::trim).filter(|m| !m.is_empty()) {
            match m.split_once('=') {
                Some((n, v)) if chance(1, 4) => own += &format!("{n}=\"{v}\""),
                _ => own += m,
            }
            if chance(1, 10) {
                own += pick(&[", community=\"UCI\"", ", x=\"a, max-age=1\"", ", y=\"\\\", no-store\"", ", z", ", z=1", ", w=\"no-cache\""]);
            }
            own += ", ";
        }
    }
    for c in if tag == "cache-control" { own.trim_end_matches(", ") } else { line }.chars() {
        if quoted {
            out.push(c);
            if escaped {
                escaped = false;
            } else if c == '\\' {
                escaped = true;
            } else if c == '"' {
                quoted = false;
            }
            continue;
        }
        match c {
            ',' => {
                out.push_str(ows());
                out.push(',');
                if chance(1, 10) {
                    out.push_str(pick(&[",", " ,", "\t, ,"]));
                }
                out.push_str(ows());
                param = false;
            }
            ';' if semi => {
                out.push_str(ows());
                out.push(';');
                out.push_str(ows());
                param = true;
            }
            '"' => {
                quoted = true;
                out.push(c);
            }
            _ => {
                param &= c != '=';
                out.push(if (free || param) && chance(1, 3) { c.to_ascii_uppercase() } else { c });
            }
        }
    }
    out
}
async fn list_chain<K: Members>() -> Res {
    let mut ts: Vec<K::T> = (0..match weighted(&[1, 8, 2]) {
        0 => 0,
        1 => range(1, 5),
        _ => count(6, 30, 150),
    })
        .map(|_| K::gen())
        .collect();
    let mut wild = K::WILD && chance(1, 4);
    let hops = range(1, 3);
    for hop in 0..hops {
        exec::jitter().await;
        // Rendered on nodes with different process randomness; the members may go
        // out as one line or as several.
        let mut cuts = vec![0usize];
        if ts.len() > 1 && chance(1, 3) {
            for _ in 0..count(1, 2, 12) {
                cuts.push(1 + choose_usize(ts.len() - 1));
            }
            cuts.sort_unstable();
            cuts.dedup();
        }
        cuts.push(ts.len());
        let mut lines: Vec<HeaderValue> = Vec::new();
        let mut name = String::new();
        for (i, w) in cuts.windows(2).enumerate() {
            let g: Vec<K::T> = ts[w[0]..w[1]].to_vec();
            let wl = wild && i == 0;
            let go = move |g: Vec<K::T>| {
                let c = build::<K>(&g, wl);
                (c.header_name().as_str().to_string(), c.header_value(), format!("{c:?}"))
            };
            let (g1, g2) = (g.clone(), g.clone());
            let a = died(K::TAG, on_node(key(), move || go(g1)))?;
            let b = died(K::TAG, on_node(key(), move || go(g2)))?;
            let same = if K::ORDERED { a.1 == b.1 && a.2 == b.2 } else { parts(a.1.as_str()) == parts(b.1.as_str()) };
            check!(same && a.0 == b.0, "differs-between-nodes", "{} renders as {:?} on one node and {:?} on another", K::TAG, a.1, b.1);
            if a.1 != b.1 {
                probe("set_order_differs");
            }
            // A sender writes no empty members.
            let text = a.1.as_str().trim();
            check!(!text.starts_with(',') && !text.ends_with(','), "empty-member", "{} with {} members is written as {text:?}", K::TAG, g.len());
            ev(K::TAG, g.len() as u64, if K::ORDERED { a.1.as_str().len() as u64 } else { 0 });
            note(|| format!("{}: {}", a.0, a.1));
            name = a.0;
            lines.push(a.1);
        }
        check!(name == K::TAG, "wrong-name", "{} is written as {name}", K::TAG);
        // The network may join the lines; other headers travel along.
        if lines.len() > 1 && chance(1, 2) {
            let j = lines.iter().map(|l| l.as_str()).collect::<Vec<_>>().join(*pick(&[", ", ",", " ,\t"]));
            lines = vec![HeaderValue::from_bytes(j.into_bytes()).expect("ASCII")];
            fault("lines-joined");
        }
        // Or another implementation wrote them, in its own spelling.
        if chance(1, 4) {
            for l in lines.iter_mut() {
                *l = HeaderValue::from_bytes(respell(K::TAG, l.as_str()).into_bytes()).expect("ASCII");
            }
            fault("respelled");
        }
        let mut m = Msg::new();
        let junk = count(0, 2, 60);
        for i in 0..junk {
            m.as_mut().insert(format!("x-other-{i}").as_str(), "v").expect("plain header");
        }
        for l in lines.iter() {
            m.as_mut().append(name.as_str(), l.clone()).expect("rendered header line");
        }
        let shown = format!("{:?}", lines.iter().map(|l| l.as_str()).collect::<Vec<_>>());
        let mut got = match K::read(m.as_ref()) {
            Ok(Some(c)) => c,
            Ok(None) => return viol("lost", format!("{} written as {shown} reads back as nothing", K::TAG)),
            Err(e) => return viol("refused", format!("{} written as {shown} is refused when read back: {e}", K::TAG)),
        };
        let want = canons::<K>(&ts);
        let have = canons::<K>(&K::members(&got));
        check!(have == want, "members-differ", "{} with members {want:?} written as {shown} reads back as {have:?}", K::TAG);
        check!(!K::WILD || K::wild(&got) == wild, "members-differ", "{} with wildcard {wild} written as {shown} reads back with {}", K::TAG, K::wild(&got));
        K::look(&got, &ts)?;
        probe("read_back");
        if hop + 1 < hops {
            // A relay changes members where they stand, adds to what it read and passes it on.
            if chance(1, 3) {
                let at: Vec<(usize, K::T)> = (0..range(1, 3)).map(|_| (choose_usize(ts.len() + 1), K::gen())).collect();
                if K::change(&mut got, &at, chance(1, 2)) {
                    for (i, t) in at {
                        if i < ts.len() {
                            ts[i] = t;
                        }
                    }
                    let (want, have) = (canons::<K>(&ts), canons::<K>(&K::members(&got)));
                    check!(have == want, "members-differ", "{} changed in place holds {have:?}, expected {want:?}", K::TAG);
                    probe("changed_in_place");
                }
            }
            for _ in 0..choose(3) {
                let t = K::gen();
                K::push(&mut got, t);
            }
            if K::WILD && chance(1, 6) {
                wild = !wild;
                K::set_wild(&mut got, wild);
            }
            ts = K::members(&got);
            // Written by the relay itself: the same text as built afresh.
            let (l, again) = (got.header_value(), ts.clone());
            let w = wild;
            let fresh = died(K::TAG, on_node(key(), move || build::<K>(&again, w).header_value()))?;
            let same = if K::ORDERED { l == fresh } else { parts(l.as_str()) == parts(fresh.as_str()) };
            check!(same, "history-dependent", "{} with the same members renders as {l:?} after being read and as {fresh:?} when built", K::TAG);
            let taken = canons::<K>(&K::into_members(got));
            check!(taken == canons::<K>(&ts), "members-differ", "{} taken apart gives {taken:?}", K::TAG);
            probe("relay");
        }
    }
    Ok(())
}

// ---- content security policy ------------------------------------------------------
#[derive(Clone, Debug)]
enum Call {
    Dir(usize, String),
    /// a stock source, by its text form or as it is
    Own(usize, usize, bool),
    Mixed,
    Upgrade,
    Report(Vec<String>),
    ReportOnly,
    Apply,
}
const SOURCES: &[(Source, &str)] = &[
    (Source::SameOrigin, "'self'"),
    (Source::Src, "'src'"),
    (Source::None, "'none'"),
    (Source::UnsafeInline, "'unsafe-inline'"),
    (Source::Data, "data:"),
    (Source::Mediastream, "mediastream:"),
    (Source::Https, "https:"),
    (Source::Blob, "blob:"),
    (Source::Filesystem, "filesystem:"),
    (Source::StrictDynamic, "'strict-dynamic'"),
    (Source::UnsafeEval, "'unsafe-eval'"),
    (Source::Wildcard, "*"),
];
type DirFn = fn(&mut ContentSecurityPolicy, &str);
const DIRS: &[(&str, DirFn)] = &[
    ("base-uri", |c, s| drop(c.base_uri(s))),
    ("connect-src", |c, s| drop(c.connect_src(s))),
    ("default-src", |c, s| drop(c.default_src(s))),
    ("font-src", |c, s| drop(c.font_src(s))),
    ("form-action", |c, s| drop(c.form_action(s))),
    ("frame-ancestors", |c, s| drop(c.frame_ancestors(s))),
    ("frame-src", |c, s| drop(c.frame_src(s))),
    ("img-src", |c, s| drop(c.img_src(s))),
    ("media-src", |c, s| drop(c.media_src(s))),
    ("object-src", |c, s| drop(c.object_src(s))),
    ("plugin-types", |c, s| drop(c.plugin_types(s))),
    ("require-sri-for", |c, s| drop(c.require_sri_for(s))),
    ("report-uri", |c, s| drop(c.report_uri(s))),
    ("sandbox", |c, s| drop(c.sandbox(s))),
    ("script-src", |c, s| drop(c.script_src(s))),
    ("style-src", |c, s| drop(c.style_src(s))),
    ("worker-src", |c, s| drop(c.worker_src(s))),
];
fn gen_call() -> Call {
    match weighted(&[12, 1, 1, 1, 1, 2]) {
        0 => {
            let d = choose_usize(DIRS.len());
            if DIRS[d].0 == "sandbox" && chance(1, 3) {
                return Call::Dir(d, String::new());
            }
            match choose(3) {
                0 => Call::Own(d, choose_usize(SOURCES.len()), chance(1, 2)),
                1 => Call::Dir(d, pick(&["https://a.example", "areweasyncyet.rs", "'nonce-abc'", "*.example", "allow-forms"]).to_string()),
                _ => Call::Dir(d, format!("h{}.example", choose(40))),
            }
        }
        1 => Call::Mixed,
        2 => Call::Upgrade,
        3 => Call::Report(
            (0..count(0, 2, 20))
                .map(|_| {
                    let group = if chance(1, 2) { format!("\"group\":\"g{}\",", choose(3)) } else { String::new() };
                    let ends = (0..count(0, 2, 20)).map(|_| format!("{{\"url\":\"https://r{}.example/\"}}", choose(4))).collect::<Vec<_>>().join(",");
                    let sub = pick(&["", ",\"include_subdomains\":true", ",\"include_subdomains\":false"]);
                    format!("{{{group}\"max_age\":{},\"endpoints\":[{ends}]{sub}}}", choose(1 << 30))
                })
                .collect(),
        ),
        4 => Call::ReportOnly,
        _ => Call::Apply,
    }
}
/// Plays the calls and returns (header name, text) for every application.
fn play(calls: &[Call], default: bool) -> Vec<(String, String)> {
    let mut c = if default { ContentSecurityPolicy::default() } else { ContentSecurityPolicy::new() };
    let mut out = Vec::new();
    for k in calls {
        match k {
            Call::Dir(d, s) => (DIRS[*d].1)(&mut c, s),
            Call::Mixed => drop(c.block_all_mixed_content()),
            Call::Upgrade => drop(c.upgrade_insecure_requests()),
            Call::Own(d, i, text) => match text {
                true => (DIRS[*d].1)(&mut c, &SOURCES[*i].0.to_string()),
                false => (DIRS[*d].1)(&mut c, SOURCES[*i].0.as_ref()),
            },
            Call::Report(j) => {
                let r: Vec<ReportTo> = j.iter().map(|j| serde_json::from_str(j).expect("a report endpoint")).collect();
                c.report_to(r);
            }
            Call::ReportOnly => drop(c.report_only()),
            Call::Apply => {
                let mut h: Headers = http_types::Response::new(200).as_ref().clone();
                c.apply(&mut h);
                let mut n = 0;
                for (name, vs) in h.iter() {
                    for v in vs.iter() {
                        n += 1;
                        out.push((name.as_str().to_string(), v.as_str().to_string()));
                    }
                }
                assert_eq!(n, 1, "one policy header per application");
            }
        }
    }
    out
}
/// A sandbox without exceptions has a source without text; the white space around it says nothing.
fn words(directive: &mut String) {
    if directive.split(' ').next() == Some("sandbox") {
        *directive = directive.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
    }
}
fn model(calls: &[Call], default: bool) -> Vec<(String, Vec<String>)> {
    let mut plain: Vec<String> = if default { vec!["script-src 'self'".into(), "object-src 'self'".into()] } else { vec![] };
    let mut dirs: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut name = "content-security-policy";
    let mut out = Vec::new();
    for k in calls {
        match k {
            Call::Dir(d, s) => dirs.entry(*d).or_default().push(s.clone()),
            Call::Mixed => plain.push("block-all-mixed-content".into()),
            Call::Upgrade => plain.push("upgrade-insecure-requests".into()),
            Call::Own(d, i, _) => dirs.entry(*d).or_default().push(SOURCES[*i].1.into()),
            Call::Report(j) => plain.extend(j.iter().map(|j| format!("report-to {j}"))),
            Call::ReportOnly => name = "content-security-policy-report-only",
            Call::Apply => {
                let mut v = plain.clone();
                v.extend(dirs.iter().map(|(d, s)| format!("{} {}", DIRS[*d].0, s.join(" "))));
                v.iter_mut().for_each(words);
                v.sort();
                out.push((name.to_string(), v));
            }
        }
    }
    out
}
async fn policy() -> Res {
    let mut calls: Vec<Call> = (0..match weighted(&[1, 6, 3]) {
        0 => 0,
        1 => range(1, 8),
        _ => range(9, 40),
    })
        .map(|_| gen_call())
        .collect();
    calls.push(Call::Apply);
    let default = chance(1, 5);
    let want = model(&calls, default);
    let mut first: Option<Vec<(String, String)>> = None;
    for _ in 0..range(2, 3) {
        exec::jitter().await;
        let k = key();
        let cs = calls.clone();
        let got = died("content-security-policy", on_node(k, move || play(&cs, default)))?;
        match &first {
            None => {
                for ((n, t), (wn, w)) in got.iter().zip(want.iter()) {
                    let mut have: Vec<String> = t.split("; ").map(|s| s.to_string()).collect();
                    if t.is_empty() {
                        have.clear();
                    }
                    have.iter_mut().for_each(words);
                    have.sort();
                    check!(have == *w, "policy-differs", "the calls {calls:?} give {t:?}, expected the directives {w:?}");
                    check!(n == wn, "wrong-name", "the policy is written as {n}, expected {wn}");
                }
                check!(got.len() == want.len(), "policy-lost", "{} applications gave {} headers", want.len(), got.len());
                ev("csp", calls.len() as u64, got.last().map(|x| x.1.len()).unwrap_or(0) as u64);
                note(|| format!("{:?}", got.last()));
                first = Some(got);
            }
            Some(f) => {
                check!(*f == got, "differs-between-nodes", "the same calls give {f:?} on one node and {got:?} on another");
                probe("policy_compared");
            }
        }
    }
    Ok(())
}

// ---- forwarded, strict transport security ---------------------------------------------
fn gen_fwd() -> String {
    pick(&["192.0.2.60", "[2001:db8:cafe::17]:4711", "unknown", "_hidden", "a b", "say \"hi\"", "back\\slash", "x;y", "a, b=c", "wow!", "h.example:8080", "\\\\", "\"", "a!b c", "#@~", "tab\there"]).to_string()
}
#[derive(Clone, Debug, PartialEq)]
struct FwdModel {
    by: Option<String>,
    fors: Vec<String>,
    host: Option<String>,
    proto: Option<String>,
}
fn build_fwd(m: &FwdModel) -> Forwarded<'static> {
    let mut f = Forwarded::new();
    for x in &m.fors {
        f.add_for(x.clone());
    }
    if let Some(x) = &m.by {
        f.set_by(x.clone());
    }
    if let Some(x) = &m.host {
        f.set_host(x.clone());
    }
    if let Some(x) = &m.proto {
        f.set_proto(x.clone());
    }
    f
}
fn fwd_model(f: &Forwarded<'_>) -> FwdModel {
    FwdModel { by: f.by().map(String::from), fors: f.forwarded_for().iter().map(|s| s.to_string()).collect(), host: f.host().map(String::from), proto: f.proto().map(String::from) }
}
async fn forwarded() -> Res {
    let opt = || if chance(1, 2) { Some(gen_fwd()) } else { None };
    let mut m = FwdModel { by: opt(), fors: (0..count(0, 3, 40)).map(|_| gen_fwd()).collect(), host: opt(), proto: if chance(1, 2) { Some(pick(&["http", "https", "gopher"]).to_string()) } else { None } };
    if m.fors.is_empty() && m.by.is_none() && m.host.is_none() && m.proto.is_none() {
        m.fors.push("a".into());
    }
    for _ in 0..range(1, 3) {
        exec::jitter().await;
        let (a, b) = (m.clone(), m.clone());
        let x = died("forwarded", on_node(key(), move || build_fwd(&a).header_value()))?;
        let y = died("forwarded", on_node(key(), move || build_fwd(&b).header_value()))?;
        check!(x == y, "differs-between-nodes", "forwarded renders as {x:?} and {y:?}");
        let mut req = new_req();
        req.as_mut().insert("forwarded", x.clone()).expect("rendered header line");
        ev("forwarded", x.as_str().len() as u64, m.fors.len() as u64);
        note(|| x.to_string());
        let f = match Forwarded::from_headers(&req) {
            Ok(Some(f)) => f.into_owned(),
            Ok(None) => return viol("lost", format!("forwarded written as {x:?} reads back as nothing")),
            Err(e) => return viol("refused", format!("forwarded {m:?} written as {x:?} is refused when read back: {e}")),
        };
        let got = fwd_model(&f);
        check!(got == m, "members-differ", "forwarded {m:?} written as {x:?} reads back as {got:?}");
        let s = f.to_string();
        check!(s == x.as_str(), "history-dependent", "forwarded renders as {x:?} when built and {s:?} after being read");
        probe("read_back");
        m.fors.push(gen_fwd());
    }
    Ok(())
}
async fn hsts() -> Res {
    let age = gen_secs();
    let (sub, pre) = (chance(1, 2), chance(1, 2));
    let made = choose(4);
    let go = move || {
        let mut s = match made {
            0 => StrictTransportSecurity::new(age),
            1 => StrictTransportSecurity::from(age),
            2 => {
                let mut s = StrictTransportSecurity::default();
                s.set_max_age(age);
                s
            }
            _ => {
                let mut s = StrictTransportSecurity::new(Duration::from_secs(7));
                s.set_max_age(age);
                s
            }
        };
        s.set_include_subdomains(sub);
        s.set_preload(pre);
        s.header_value()
    };
    let x = died("hsts", on_node(key(), go))?;
    let y = died("hsts", on_node(key(), go))?;
    check!(x == y, "differs-between-nodes", "strict-transport-security renders as {x:?} and {y:?}");
    exec::jitter().await;
    let x = if chance(1, 4) {
        // as another implementation spells it: directives in any order and case, others among them
        let mut ds: Vec<String> = x
            .as_str()
            .split(';')
            .map(|d| {
                let d = super::multimap::recase(d.trim());
                match d.split_once('=') {
                    Some((k, v)) if chance(1, 3) => format!("{k}{}=\"{v}\"", pick(&["", " "])),
                    Some((k, v)) => format!("{k}{}={}{v}", pick(&["", " "]), pick(&["", "\t"])),
                    None => d,
                }
            })
            .collect();
        for _ in 0..count(0, 2, 20) {
            let i = choose_usize(ds.len() + 1);
            ds.insert(i, pick(&["", "unknown", "max-ages=5", "x=\"y\"", "report-uri=/a"]).to_string());
        }
        for i in (1..ds.len()).rev() {
            let j = choose_usize(i + 1);
            ds.swap(i, j);
        }
        fault("respelled");
        HeaderValue::from_bytes(ds.join(*pick(&[";", "; ", " ;\t"])).into_bytes()).expect("ASCII")
    } else {
        x
    };
    let mut res = new_res();
    res.as_mut().insert("strict-transport-security", x.clone()).expect("rendered header line");
    ev("hsts", sub as u64, pre as u64);
    match StrictTransportSecurity::from_headers(&res) {
        Ok(Some(s)) => {
            check!(s.max_age() == age && s.include_subdomains() == sub && s.preload() == pre, "members-differ", "max-age {age:?}, subdomains {sub}, preload {pre} written as {x:?} reads back as {s:?}");
            check!(Duration::from(s) == age, "members-differ", "{x:?} counts as another duration");
            probe("read_back");
            Ok(())
        }
        Ok(None) => viol("lost", format!("{x:?} reads back as nothing")),
        Err(e) => viol("refused", format!("{x:?} is refused when read back: {e}")),
    }
}

async fn one() -> Res {
    match choose(16) {
        0 => list_chain::<KCache>().await,
        1 => list_chain::<KClear>().await,
        2 => list_chain::<KIfMatch>().await,
        3 => list_chain::<KIfNoneMatch>().await,
        4 => list_chain::<KVary>().await,
        5 => list_chain::<KAccept>().await,
        6 => list_chain::<KAcceptEnc>().await,
        7 => list_chain::<KTe>().await,
        8 => list_chain::<KTao>().await,
        9 => list_chain::<KAllow>().await,
        10 => list_chain::<KTiming>().await,
        11 => forwarded().await,
        12 => hsts().await,
        _ => policy().await,
    }
}
pub fn c16() -> Res {
    exec::configure();
    let mut rs = vec![];
    for _ in 0..range(1, 2) {
        rs.push(exec::spawn_res("chain", one()).1);
    }
    competitor();
    exec::run()?;
    for r in rs {
        match r.borrow_mut().take() {
            Some(Err(v)) => return Err(v),
            Some(Ok(())) => {}
            None => return viol("stuck", "a chain never finished"),
        }
    }
    Ok(())
}
