//! C26: protections applied by layers to messages that already carry anything.
//! C27: cookies, from the node that sets them to every node that reads them.
use super::body::competitor;
use crate::engine::*;
use crate::exec;
use http_types::cookies::{time, Cookie, SameSite};
use http_types::headers::{HeaderName, HeaderValue, Headers, COOKIE, SET_COOKIE};
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, StrictTransportSecurity};
use http_types::{Method, Request, Response};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use std::time::Duration;

const PROTECTIVE: &[&str] = &[
    "x-dns-prefetch-control",
    "x-frame-options",
    "x-powered-by",
    "strict-transport-security",
    "x-content-type-options",
    "x-xss-protection",
    "referrer-policy",
    "content-security-policy",
    "content-security-policy-report-only",
];
const OTHER: &[&str] = &["server", "x-other", "content-type", "x-frame-option", "referer", "set-cookie", "x-powered-by-b"];
const TEXTS: &[&str] = &["on", "off", "deny", "SAMEORIGIN", "ALLOW-FROM https://a.sim", "max-age=0", "max-age=31536000; includeSubDomains", "nosniff", "0", "1; mode=block", "no-referrer", "unsafe-url", "Tide/Rust", "PHP/5.4", "", "a, b", "text/html", "default-src *"];

enum Msg {
    Q(Request),
    R(Response),
    H(Box<Headers>),
}
impl Msg {
    fn headers(&self) -> &Headers {
        match self {
            Msg::Q(q) => q.as_ref(),
            Msg::R(r) => r.as_ref(),
            Msg::H(h) => h,
        }
    }
    fn headers_mut(&mut self) -> &mut Headers {
        match self {
            Msg::Q(q) => q.as_mut(),
            Msg::R(r) => r.as_mut(),
            Msg::H(h) => h,
        }
    }
    fn fresh(kind: u64) -> Msg {
        match kind {
            0 => Msg::Q(Request::new(Method::Get, "http://h.sim/")),
            1 => Msg::R(Response::new(200)),
            _ => Msg::H(Box::new(Response::new(200).as_ref().clone())),
        }
    }
    fn kind(&self) -> u64 {
        match self {
            Msg::Q(_) => 0,
            Msg::R(_) => 1,
            Msg::H(_) => 2,
        }
    }
}
type Model = BTreeMap<String, Vec<String>>;

#[derive(Clone, Debug)]
enum Act {
    Dns,
    Sniff,
    Frame(Option<FrameOptions>),
    Powered(Option<String>),
    Hsts,
    Xss,
    Referrer(Option<ReferrerOptions>),
    All,
    Policy(bool, u64),
    Transport(u64),
}
fn gen_act() -> Act {
    match weighted(&[2, 2, 3, 3, 2, 2, 4, 5, 2, 1]) {
        0 => Act::Dns,
        1 => Act::Sniff,
        2 => Act::Frame(*pick(&[None, Some(FrameOptions::SameOrigin), Some(FrameOptions::Deny)])),
        3 => Act::Powered(pick(&[None, Some("Tide/Rust"), Some(""), Some("a, b")]).map(|s| s.to_string())),
        4 => Act::Hsts,
        5 => Act::Xss,
        6 => Act::Referrer(match choose(9) {
            0 => None,
            n => Some(REFERRERS[n as usize - 1].0),
        }),
        7 => Act::All,
        8 => Act::Policy(chance(1, 2), choose(3)),
        _ => Act::Transport(choose(1 << 33)),
    }
}
const REFERRERS: &[(ReferrerOptions, &str)] = &[
    (ReferrerOptions::NoReferrer, "no-referrer"),
    (ReferrerOptions::NoReferrerDowngrade, "no-referrer-when-downgrade"),
    (ReferrerOptions::SameOrigin, "same-origin"),
    (ReferrerOptions::Origin, "origin"),
    (ReferrerOptions::StrictOrigin, "strict-origin"),
    (ReferrerOptions::CrossOrigin, "origin-when-cross-origin"),
    (ReferrerOptions::StrictCrossOrigin, "strict-origin-when-cross-origin"),
    (ReferrerOptions::UnsafeUrl, "unsafe-url"),
];
/// What a protection is documented to leave.
fn record(w: &mut Model, a: &Act) {
    let mut one = |n: &str, v: &str| {
        w.insert(n.into(), vec![v.into()]);
    };
    match a {
        Act::Dns => one("x-dns-prefetch-control", "on"),
        Act::Sniff => one("x-content-type-options", "nosniff"),
        Act::Frame(f) => one("x-frame-options", if *f == Some(FrameOptions::Deny) { "deny" } else { "sameorigin" }),
        Act::Powered(Some(v)) => one("x-powered-by", v),
        Act::Powered(None) => {
            w.remove("x-powered-by");
        }
        Act::Hsts => one("strict-transport-security", "max-age=5184000"),
        Act::Xss => one("x-xss-protection", "1; mode=block"),
        Act::Referrer(o) => {
            let t = match o {
                None => "no-referrer",
                Some(o) => REFERRERS.iter().find(|r| r.0 == *o).unwrap().1,
            };
            w.entry("referrer-policy".into()).or_default().push(t.into());
        }
        Act::All => {
            for a in [Act::Dns, Act::Sniff, Act::Frame(None), Act::Powered(None), Act::Hsts, Act::Xss] {
                record(w, &a);
            }
        }
        Act::Policy(report, n) => one(if *report { "content-security-policy-report-only" } else { "content-security-policy" }, POLICIES[*n as usize].1),
        Act::Transport(s) => one("strict-transport-security", &format!("max-age={s}")),
    }
}
const POLICIES: &[(&[&str], &str)] = &[(&["'self'"], "default-src 'self'"), (&["'none'", "https:"], "default-src 'none' https:"), (&["a.sim", "*.b.sim", "'self'"], "default-src a.sim *.b.sim 'self'")];
/// The same call through the message, a reference to it, or its headers.
fn perform(m: &mut Msg, a: &Act) {
    macro_rules! on {
        ($h:ident => $e:expr) => {
            match m {
                Msg::Q($h) => $e,
                Msg::R($h) => $e,
                Msg::H(h) => {
                    let $h: &mut Headers = h;
                    $e
                }
            }
        };
    }
    match a.clone() {
        Act::Dns => on!(h => security::dns_prefetch_control(h)),
        Act::Sniff => on!(h => security::nosniff(h)),
        Act::Frame(f) => on!(h => security::frameguard(h, f)),
        Act::Powered(v) => {
            let v = v.map(|v| HeaderValue::from_str(&v).unwrap());
            on!(h => security::powered_by(h, v))
        }
        Act::Hsts => on!(h => security::hsts(h)),
        Act::Xss => on!(h => security::xss_filter(h)),
        Act::Referrer(o) => on!(h => security::referrer_policy(h, o)),
        Act::All => on!(h => security::default(h)),
        Act::Policy(report, n) => {
            let mut p = ContentSecurityPolicy::new();
            for s in POLICIES[n as usize].0 {
                p.default_src(s);
            }
            if report {
                p.report_only();
            }
            on!(h => p.apply(h))
        }
        Act::Transport(s) => {
            let p = StrictTransportSecurity::new(Duration::from_secs(s));
            m.headers_mut().insert(http_types::headers::STRICT_TRANSPORT_SECURITY, p).unwrap();
        }
    }
}
fn any_case(n: &str) -> String {
    let m = choose(4);
    n.chars().map(|c| if m == 1 || (m == 2 && chance(1, 2)) { c.to_ascii_uppercase() } else { c }).collect()
}
fn text_of(h: &Headers) -> Model {
    let mut got = Model::new();
    for (n, vs) in h.iter() {
        got.entry(n.as_str().to_string()).or_default().extend(vs.iter().map(|v| v.as_str().to_string()));
    }
    got
}
fn look(m: &Msg, w: &Model, at: &str) -> Res {
    let h = m.headers();
    let got = text_of(h);
    for n in w.keys().chain(got.keys()) {
        let (a, b) = (got.get(n), w.get(n));
        let shown = PROTECTIVE.contains(&n.as_str());
        check!(a == b, if shown { "protection-wrong" } else { "other-header-changed" }, "{at}: the message says {n}: {a:?}, must be {b:?}");
    }
    for n in PROTECTIVE {
        let name = any_case(n);
        let a = h.get(name.as_str()).map(|vs| vs.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>());
        check!(a.as_ref() == w.get(*n), "protection-unseen", "{at}: asked for {name}, the message says {a:?}, must be {:?}", w.get(*n));
    }
    if let Some(v) = w.get("strict-transport-security").filter(|v| v.len() == 1) {
        if let Some(s) = v[0].strip_prefix("max-age=").and_then(|s| s.parse::<u64>().ok()) {
            match StrictTransportSecurity::from_headers(h) {
                Ok(Some(p)) => check!(p.max_age() == Duration::from_secs(s) && !p.include_subdomains() && !p.preload(), "protection-misread", "{at}: {v:?} reads as {p:?}"),
                e => return viol("protection-misread", format!("{at}: {v:?} reads as {e:?}")),
            }
        }
    }
    Ok(())
}
/// A layer applies its protections one after the other, and may be cut short.
async fn layer(m: Rc<RefCell<Msg>>, w: Rc<RefCell<Model>>, acts: Vec<Act>) -> Res {
    for a in acts {
        {
            let mut m = m.borrow_mut();
            perform(&mut m, &a);
            record(&mut w.borrow_mut(), &a);
            look(&m, &w.borrow(), &format!("after {a:?}"))?;
        }
        exec::jitter().await;
    }
    Ok(())
}
/// On to another node: line by line, as a copy, or through the http crate.
fn travel(m: Msg, w: &mut Model) -> Result<Msg, Violation> {
    let kind = m.kind();
    match choose(3) {
        0 => {
            let mut lines: Vec<(String, String)> = w.iter().flat_map(|(n, vs)| vs.iter().map(move |v| (n.clone(), v.clone()))).collect();
            if !lines.is_empty() && chance(1, 4) {
                let i = choose_usize(lines.len());
                let (n, _) = lines.remove(i);
                fault("line_lost");
                let k = lines.iter().filter(|l| l.0 == n).map(|l| l.1.clone()).collect::<Vec<_>>();
                if k.is_empty() {
                    w.remove(&n);
                } else {
                    w.insert(n, k);
                }
            }
            // lines of different names arrive in any order
            let mut out = Msg::fresh(kind);
            while !lines.is_empty() {
                let i = choose_usize(lines.len());
                let i = lines.iter().position(|l| l.0 == lines[i].0).unwrap();
                let (n, v) = lines.remove(i);
                let n = any_case(&n);
                if let Err(e) = out.headers_mut().append(n.as_str(), v.as_str()) {
                    return viol("line-refused", format!("{n}: {v} is refused: {e}"));
                }
            }
            fault("lines_reordered");
            // (a media type comes from the line alone)
            Ok(out)
        }
        1 => Ok(match m {
            Msg::Q(q) => Msg::Q(q.clone()),
            Msg::R(r) => Msg::R(r.clone()),
            Msg::H(h) => Msg::H(h.clone()),
        }),
        _ => {
            let mut m = match m {
            Msg::Q(q) => {
                let h: http::Request<http_types::Body> = q.into();
                match Request::try_from(h) {
                    Ok(q) => Msg::Q(q),
                    Err(e) => return viol("message-lost", format!("the request does not come back: {e}")),
                }
            }
            Msg::R(r) => {
                let h: http::Response<http_types::Body> = r.into();
                match Response::try_from(h) {
                    Ok(r) => Msg::R(r),
                    Err(e) => return viol("message-lost", format!("the response does not come back: {e}")),
                }
            }
            h => h,
            };
            // (a message without a type takes that of the body put into it)
            if !w.contains_key("content-type") {
                m.headers_mut().remove("content-type");
            }
            Ok(m)
        }
    }
}
async fn guarded() -> Res {
    let m = Rc::new(RefCell::new(Msg::fresh(weighted(&[1, 4, 1]) as u64)));
    let w: Rc<RefCell<Model>> = Rc::default();
    for hop in 0..range(1, 5) {
        ev("hop", hop, w.borrow().len() as u64);
        match weighted(&[4, 6, 3]) {
            0 => {
                // the application, or another implementation, writes what it likes
                for _ in 0..count(1, 5, 60) {
                    let low = *if chance(2, 3) { pick(PROTECTIVE) } else { pick(OTHER) };
                    let n = any_case(low);
                    let v = *pick(TEXTS);
                    let mut m = m.borrow_mut();
                    let mut w = w.borrow_mut();
                    let h = m.headers_mut();
                    match weighted(&[4, 2, 1]) {
                        0 => {
                            h.append(n.as_str(), v).unwrap();
                            w.entry(low.into()).or_default().push(v.into());
                        }
                        1 => {
                            h.insert(n.as_str(), v).unwrap();
                            w.insert(low.into(), vec![v.into()]);
                        }
                        _ => {
                            h.remove(n.as_str());
                            w.remove(low);
                        }
                    }
                }
                look(&m.borrow(), &w.borrow(), "as written")?;
            }
            1 => {
                let acts: Vec<Act> = (0..range(1, 5)).map(|_| gen_act()).collect();
                note(|| format!("layer {acts:?}"));
                let (id, r) = exec::spawn_res("layer", layer(m.clone(), w.clone(), acts.clone()));
                let cut = chance(1, 3);
                if cut {
                    exec::cancel_after(id, choose(6));
                }
                while !exec::is_done(id) {
                    exec::sleep(100).await;
                }
                if let Some(Err(v)) = r.borrow_mut().take() {
                    return Err(v);
                }
                look(&m.borrow(), &w.borrow(), "after a layer")?;
                if exec::was_cancelled(id) || chance(1, 6) {
                    // again, from the start
                    layer(m.clone(), w.clone(), acts).await?;
                    probe("layer_repeated");
                }
            }
            _ => {
                let old = m.replace(Msg::fresh(2));
                let kept = match &old {
                    Msg::R(r) if chance(1, 4) => Some(r.clone()),
                    _ => None,
                };
                let mut new = travel(old, &mut w.borrow_mut())?;
                if let Some(mut k) = kept {
                    // what happens to a copy stays with the copy
                    security::default(&mut k);
                    security::referrer_policy(&mut k, None);
                    probe("copy_protected");
                }
                std::mem::swap(&mut *m.borrow_mut(), &mut new);
                look(&m.borrow(), &w.borrow(), "after a hop")?;
            }
        }
        exec::jitter().await;
    }
    // once more, on whatever it carries by now: the same for good
    let mut m = m.borrow_mut();
    let mut w = w.borrow_mut();
    for _ in 0..2 {
        perform(&mut m, &Act::All);
        record(&mut w, &Act::All);
        look(&m, &w, "at the end")?;
    }
    Ok(())
}
fn tasks(n: u64, f: impl Fn() -> std::pin::Pin<Box<dyn std::future::Future<Output = Res>>>) -> Res {
    exec::configure();
    competitor();
    let mut rs = vec![];
    for _ in 0..range(1, n) {
        rs.push(exec::spawn_res("message", f()).1);
    }
    exec::run()?;
    exec::teardown();
    for r in rs {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    Ok(())
}
pub fn c26() -> Res {
    tasks(2, || Box::pin(guarded()))
}

// ---------------------------------------------------------------- cookies

/// A cookie as its sender means it.
#[derive(Clone, Debug)]
struct Meant {
    c: Cookie<'static>,
    /// written with escapes
    escaped: bool,
}
fn cookie_name() -> String {
    match choose(3) {
        0 => pick(&["id", "SID", "a", "__Host-x", "__Secure-y", "path", "secure", "Max-Age", "$v", "a.b", "x!#$%&'*+-.^_`|~"]).to_string(),
        _ => (0..count(1, 6, 200)).map(|_| *pick(&['a', 'b', 'Z', '0', '-', '_', '.', '!'])).collect(),
    }
}
fn cookie_value() -> String {
    match weighted(&[2, 5, 3]) {
        0 => pick(&["", "\"", "a=b=c", "{\"k\":1}", "a, b", "1 2", "%41%zz%", "x\\y", "Path=/", "deleted", "==", "\"q\" x", "Thu, 01 Jan 1970 00:00:00 GMT"]).to_string(),
        1 => (0..count(0, 15, 5000)).map(|_| (0x21 + choose(0x5e) as u8) as char).filter(|c| *c != ';').collect(),
        _ => (0..count(1, 8, 1000)).map(|_| *pick(&['a', '0', 'é', 'ß', '漢', '\u{1f600}', '%', '=', '/', '\u{feff}', '+'])).collect(),
    }
}
fn gen_cookie() -> Meant {
    let mut v = cookie_value();
    // (quotes around the whole value are not part of it)
    if v.len() > 1 && v.starts_with('"') && v.ends_with('"') {
        v.push('x');
    }
    let mut c = Cookie::new(cookie_name(), v);
    if chance(1, 2) {
        c.set_path(*pick(&["/", "/a b/c", "/app", "/x=y", "/%20", "/caf\u{e9}"]));
    }
    if chance(1, 3) {
        c.set_domain(*pick(&["h.sim", "a.b.example.org", "localhost"]));
    }
    if chance(1, 3) {
        c.set_http_only(true);
    }
    if chance(1, 3) {
        c.set_secure(true);
    }
    if chance(1, 3) {
        c.set_same_site(*pick(&[SameSite::Lax, SameSite::Strict, SameSite::None]));
    }
    if chance(1, 3) {
        c.set_max_age(time::Duration::seconds(*pick(&[0, 1, 3600, 31_536_000, i64::MAX])));
    }
    if chance(1, 3) {
        c.set_expires(time::OffsetDateTime::from_unix_timestamp(*pick(&[0, 1, 86_399, 784_111_777, 4_102_444_800, 253_402_300_799])).unwrap());
    }
    let escaped = chance(1, 3);
    Meant { c, escaped }
}
fn plain_ascii(t: &str) -> String {
    t.bytes().map(|b| if b.is_ascii() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
/// Everything a cookie says.
fn tell(c: &Cookie) -> String {
    let secure = c.secure().unwrap_or(false) || c.same_site() == Some(SameSite::None);
    format!("{}={} path {:?} domain {:?} httponly {} secure {} samesite {:?} age {:?} expires {:?}", c.name(), c.value(), c.path().map(plain_ascii), c.domain(), c.http_only().unwrap_or(false), secure, c.same_site(), c.max_age(), c.expires_datetime().map(|t| t.unix_timestamp()))
}
fn line(m: &Meant) -> HeaderValue {
    if m.escaped {
        HeaderValue::from_str(&plain_ascii(&m.c.encoded().to_string())).expect("escaped text is ASCII")
    } else {
        m.c.clone().into()
    }
}
fn read(m: &Meant, t: &str) -> Result<String, String> {
    let plain = !m.escaped && m.c.to_string().is_ascii();
    let c = if plain { Cookie::parse(t.to_string()) } else { Cookie::parse_encoded(t.to_string()) };
    c.map(|c| tell(&c)).map_err(|e| e.to_string())
}
fn look_cookies(h: &Headers, name: &HeaderName, w: &[Meant], others: &Model, at: &str) -> Res {
    let lines: Vec<&str> = match h.get(name) {
        Some(vs) => vs.iter().map(|v| v.as_str()).collect(),
        None => vec![],
    };
    note(|| format!("{at}: {lines:?}"));
    check!(lines.len() == w.len(), "cookies-lost", "{at}: {} cookies were set, the message has {lines:?}", w.len());
    for (t, m) in lines.iter().zip(w) {
        check!(t.is_ascii(), "not-a-header", "{at}: the cookie {} is written as {t:?}, which no header line may hold", tell(&m.c));
        match read(m, t) {
            Ok(got) => check!(got == tell(&m.c), "cookie-changed", "{at}: {t:?} reads as {got}, set was {}", tell(&m.c)),
            Err(e) => return viol("cookie-unreadable", format!("{at}: {t:?} cannot be read ({e}), set was {}", tell(&m.c))),
        }
    }
    let mut got = text_of(h);
    got.remove(name.as_str());
    check!(got == *others, "other-header-changed", "{at}: besides its cookies the message says {got:?}, must be {others:?}");
    Ok(())
}
async fn cookies() -> Res {
    // a response sets cookies; a request carries one line of them
    let to_client = chance(3, 4);
    let name = if to_client { SET_COOKIE } else { COOKIE };
    let mut m = if to_client { Msg::R(Response::new(200)) } else { Msg::Q(Request::new(Method::Get, "http://h.sim/")) };
    let mut w: Vec<Meant> = vec![];
    let mut others = Model::new();
    for hop in 0..range(1, 6) {
        ev("hop", hop, w.len() as u64);
        match weighted(&[6, 1, 2, 4, 1]) {
            0 => {
                let mut c = gen_cookie();
                if !to_client {
                    c.c = Cookie::new(c.c.name().to_string(), c.c.value().to_string());
                }
                let v = line(&c);
                note(|| format!("set {} as {v}", tell(&c.c)));
                match (&mut m, choose(3)) {
                    (Msg::R(r), 0) => {
                        r.append_header(SET_COOKIE, v).unwrap();
                        w.push(c);
                    }
                    (Msg::Q(q), 0) => {
                        q.append_header(COOKIE, v).unwrap();
                        w.push(c);
                    }
                    (m, 1) => {
                        let n = any_case(name.as_str());
                        m.headers_mut().append(n.as_str(), v).unwrap();
                        w.push(c);
                    }
                    (m, _) => {
                        if chance(1, 4) {
                            m.headers_mut().insert(&name, v).unwrap();
                            w = vec![c];
                        } else {
                            m.headers_mut().append(&name, v).unwrap();
                            w.push(c);
                        }
                    }
                }
                probe("cookie_set");
            }
            1 => {
                let several: Vec<Meant> = (0..count(1, 3, 60)).map(|_| gen_cookie()).collect();
                if to_client {
                    let vs: Vec<HeaderValue> = several.iter().map(line).collect();
                    m.headers_mut().append(&name, vs.as_slice()).unwrap();
                    w.extend(several);
                }
            }
            2 => {
                let n = *pick(&["set-cookie2", "x-set-cookie", "vary", "server"]);
                let v = *pick(&["a=b", "cookie", "1"]);
                m.headers_mut().append(n, v).unwrap();
                others.entry(n.into()).or_default().push(v.into());
            }
            3 => {
                // lines are carried one by one, never joined
                let mut all: Model = others.clone();
                let lines: Vec<String> = m.headers().get(&name).map(|vs| vs.iter().map(|v| v.as_str().to_string()).collect()).unwrap_or_default();
                if !lines.is_empty() {
                    all.insert(name.as_str().to_string(), lines);
                }
                m = travel(m, &mut all)?;
                let left = all.remove(name.as_str()).unwrap_or_default();
                if left.len() < w.len() {
                    // whichever was lost, the others are still whole
                    let at = m.headers().get(&name).map(|vs| vs.iter().map(|v| v.as_str().to_string()).collect::<Vec<_>>()).unwrap_or_default();
                    let i = (0..w.len()).find(|i| w.iter().enumerate().filter(|(j, _)| j != i).map(|(_, m)| line(m).as_str().to_string()).eq(at.iter().cloned()));
                    match i {
                        Some(i) => drop(w.remove(i)),
                        None => return viol("cookies-lost", format!("of {} cookies the hop left {at:?}", w.len())),
                    }
                }
                others = all;
                probe("travelled");
            }
            _ => {
                m.headers_mut().remove(&name);
                w.clear();
            }
        }
        look_cookies(m.headers(), &name, &w, &others, &format!("node {hop}"))?;
        exec::jitter().await;
    }
    Ok(())
}
pub fn c27() -> Res {
    tasks(2, || Box::pin(cookies()))
}
