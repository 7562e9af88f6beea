//! C23: start lines and serialised records of messages, written on one node and
//! read on others, over damaged lines and torn logs.
use super::body::competitor;
use super::multimap::recase;
use crate::engine::*;
use crate::exec;
use crate::io::{make_err, Behave, SimReader, SrcFault, ERR_KINDS};
use http_types::{Body, Error, Method, Request, Response, StatusCode, Url, Version};
use serde::de::value::Error as ValueError;
use serde::de::{Deserialize, IntoDeserializer};
use serde::{Deserialize as De, Serialize as Ser};
use std::convert::TryFrom;
use std::io;
use std::str::FromStr;
use std::sync::Arc;

/// Every registered method: its value, its text, and whether it only reads.
const METHODS: &[(Method, &str, bool)] = &[
    (Method::Acl, "ACL", false),
    (Method::BaselineControl, "BASELINE-CONTROL", false),
    (Method::Bind, "BIND", false),
    (Method::Checkin, "CHECKIN", false),
    (Method::Checkout, "CHECKOUT", false),
    (Method::Connect, "CONNECT", false),
    (Method::Copy, "COPY", false),
    (Method::Delete, "DELETE", false),
    (Method::Get, "GET", true),
    (Method::Head, "HEAD", true),
    (Method::Label, "LABEL", false),
    (Method::Link, "LINK", false),
    (Method::Lock, "LOCK", false),
    (Method::Merge, "MERGE", false),
    (Method::MkActivity, "MKACTIVITY", false),
    (Method::MkCalendar, "MKCALENDAR", false),
    (Method::MkCol, "MKCOL", false),
    (Method::MkRedirectRef, "MKREDIRECTREF", false),
    (Method::MkWorkspace, "MKWORKSPACE", false),
    (Method::Move, "MOVE", false),
    (Method::Options, "OPTIONS", true),
    (Method::OrderPatch, "ORDERPATCH", false),
    (Method::Patch, "PATCH", false),
    (Method::Post, "POST", false),
    (Method::Pri, "PRI", true),
    (Method::PropFind, "PROPFIND", true),
    (Method::PropPatch, "PROPPATCH", false),
    (Method::Put, "PUT", false),
    (Method::Rebind, "REBIND", false),
    (Method::Report, "REPORT", true),
    (Method::Search, "SEARCH", true),
    (Method::Trace, "TRACE", true),
    (Method::Unbind, "UNBIND", false),
    (Method::Uncheckout, "UNCHECKOUT", false),
    (Method::Unlink, "UNLINK", false),
    (Method::Unlock, "UNLOCK", false),
    (Method::Update, "UPDATE", false),
    (Method::UpdateRedirectRef, "UPDATEREDIRECTREF", false),
    (Method::VersionControl, "VERSION-CONTROL", false),
];
/// Every registered status code: its value, its number and its reason.
const CODES: &[(StatusCode, u16, &str)] = &[
    (StatusCode::Continue, 100, "Continue"),
    (StatusCode::SwitchingProtocols, 101, "Switching Protocols"),
    (StatusCode::EarlyHints, 103, "Early Hints"),
    (StatusCode::Ok, 200, "OK"),
    (StatusCode::Created, 201, "Created"),
    (StatusCode::Accepted, 202, "Accepted"),
    (StatusCode::NonAuthoritativeInformation, 203, "Non Authoritative Information"),
    (StatusCode::NoContent, 204, "No Content"),
    (StatusCode::ResetContent, 205, "Reset Content"),
    (StatusCode::PartialContent, 206, "Partial Content"),
    (StatusCode::MultiStatus, 207, "Multi-Status"),
    (StatusCode::ImUsed, 226, "Im Used"),
    (StatusCode::MultipleChoice, 300, "Multiple Choice"),
    (StatusCode::MovedPermanently, 301, "Moved Permanently"),
    (StatusCode::Found, 302, "Found"),
    (StatusCode::SeeOther, 303, "See Other"),
    (StatusCode::NotModified, 304, "Not Modified"),
    (StatusCode::TemporaryRedirect, 307, "Temporary Redirect"),
    (StatusCode::PermanentRedirect, 308, "Permanent Redirect"),
    (StatusCode::BadRequest, 400, "Bad Request"),
    (StatusCode::Unauthorized, 401, "Unauthorized"),
    (StatusCode::PaymentRequired, 402, "Payment Required"),
    (StatusCode::Forbidden, 403, "Forbidden"),
    (StatusCode::NotFound, 404, "Not Found"),
    (StatusCode::MethodNotAllowed, 405, "Method Not Allowed"),
    (StatusCode::NotAcceptable, 406, "Not Acceptable"),
    (StatusCode::ProxyAuthenticationRequired, 407, "Proxy Authentication Required"),
    (StatusCode::RequestTimeout, 408, "Request Timeout"),
    (StatusCode::Conflict, 409, "Conflict"),
    (StatusCode::Gone, 410, "Gone"),
    (StatusCode::LengthRequired, 411, "Length Required"),
    (StatusCode::PreconditionFailed, 412, "Precondition Failed"),
    (StatusCode::PayloadTooLarge, 413, "Payload Too Large"),
    (StatusCode::UriTooLong, 414, "URI Too Long"),
    (StatusCode::UnsupportedMediaType, 415, "Unsupported Media Type"),
    (StatusCode::RequestedRangeNotSatisfiable, 416, "Requested Range Not Satisfiable"),
    (StatusCode::ExpectationFailed, 417, "Expectation Failed"),
    (StatusCode::ImATeapot, 418, "I'm a teapot"),
    (StatusCode::MisdirectedRequest, 421, "Misdirected Request"),
    (StatusCode::UnprocessableEntity, 422, "Unprocessable Entity"),
    (StatusCode::Locked, 423, "Locked"),
    (StatusCode::FailedDependency, 424, "Failed Dependency"),
    (StatusCode::TooEarly, 425, "Too Early"),
    (StatusCode::UpgradeRequired, 426, "Upgrade Required"),
    (StatusCode::PreconditionRequired, 428, "Precondition Required"),
    (StatusCode::TooManyRequests, 429, "Too Many Requests"),
    (StatusCode::RequestHeaderFieldsTooLarge, 431, "Request Header Fields Too Large"),
    (StatusCode::UnavailableForLegalReasons, 451, "Unavailable For Legal Reasons"),
    (StatusCode::InternalServerError, 500, "Internal Server Error"),
    (StatusCode::NotImplemented, 501, "Not Implemented"),
    (StatusCode::BadGateway, 502, "Bad Gateway"),
    (StatusCode::ServiceUnavailable, 503, "Service Unavailable"),
    (StatusCode::GatewayTimeout, 504, "Gateway Timeout"),
    (StatusCode::HttpVersionNotSupported, 505, "HTTP Version Not Supported"),
    (StatusCode::VariantAlsoNegotiates, 506, "Variant Also Negotiates"),
    (StatusCode::InsufficientStorage, 507, "Insufficient Storage"),
    (StatusCode::LoopDetected, 508, "Loop Detected"),
    (StatusCode::NotExtended, 510, "Not Extended"),
    (StatusCode::NetworkAuthenticationRequired, 511, "Network Authentication Required"),
];
/// Every version, oldest first.
const VERSIONS: &[(Version, &str)] = &[(Version::Http0_9, "HTTP/0.9"), (Version::Http1_0, "HTTP/1.0"), (Version::Http1_1, "HTTP/1.1"), (Version::Http2_0, "HTTP/2"), (Version::Http3_0, "HTTP/3")];
const URLS: &[&str] = &["http://a.sim/", "https://b.sim:8443/p/q?x=1&y=%20#frag", "http://user:pw@c.sim/%C3%A9", "http://[::1]:81/", "data:text/plain,hi", "http://d.sim/?q=\"\\"];

fn method_of(s: &str) -> Option<Method> {
    METHODS.iter().find(|m| m.1 == s.to_ascii_uppercase()).map(|m| m.0)
}
fn code_of(n: i128) -> Option<StatusCode> {
    CODES.iter().find(|c| c.1 as i128 == n).map(|c| c.0)
}
fn version_of(s: &str) -> Option<Version> {
    VERSIONS.iter().find(|v| v.1 == s).map(|v| v.0)
}

// ---- values ----------------------------------------------------------------------
fn check_method(m: Method, at: &str) -> Res {
    let t = METHODS.iter().find(|x| x.0 == m).unwrap();
    let shown = (m.to_string(), m.as_ref().to_string(), format!("{m:>0}"));
    check!(shown.0 == t.1 && shown.1 == t.1, "method-text", "{at}: {m:?} is written {shown:?}, must be {:?}", t.1);
    check!(m.is_safe() == t.2, "method-safety", "{at}: {m} counts as safe: {}, must be {}", m.is_safe(), t.2);
    Ok(())
}
fn check_code(c: StatusCode, n: u16, at: &str) -> Res {
    let t = CODES.iter().find(|x| x.1 == n).unwrap();
    check!(c == t.0 && u16::from(c) == n && c == n && n == c && c as u16 == n, "status-number", "{at}: {c:?} has number {}, must be {n}", u16::from(c));
    for other in [n + 1, n - 1, n ^ 256, 0] {
        check!(c != other && other != c, "status-number", "{at}: {n} compares equal to {other}");
    }
    check!(c.canonical_reason() == t.2, "status-reason", "{at}: {n} has reason {:?}, must be {:?}", c.canonical_reason(), t.2);
    let shown = (format!("{c}"), format!("{c:?}"));
    check!(shown.0 == format!("{n}: {}", t.2) && shown.1 == shown.0, "status-text", "{at}: {n} is written {shown:?}");
    let class = [c.is_informational(), c.is_success(), c.is_redirection(), c.is_client_error(), c.is_server_error()];
    let want: Vec<bool> = (1..=5).map(|k| n / 100 == k).collect();
    check!(class[..] == want[..], "status-class", "{at}: {n} has classes {class:?}");
    Ok(())
}
fn check_version(v: Version, at: &str) -> Res {
    let i = VERSIONS.iter().position(|x| x.0 == v).unwrap();
    let t = VERSIONS[i].1;
    let shown = (v.to_string(), v.as_ref().to_string());
    check!(shown.0 == t && shown.1 == t, "version-text", "{at}: {v:?} is written {shown:?}, must be {t}");
    for (j, o) in VERSIONS.iter().enumerate() {
        check!(v.cmp(&o.0) == i.cmp(&j) && (v < o.0) == (i < j), "version-order", "{at}: {v} and {} compare as {:?}", o.1, v.cmp(&o.0));
    }
    Ok(())
}

/// A text where a method should be, read by every way there is.
fn read_method(s: &str) -> Result<Option<Method>, Violation> {
    let want = method_of(s);
    let got: [Option<Method>; 7] = [
        Method::from_str(s).ok(),
        s.parse::<Method>().ok(),
        Method::try_from(s).ok(),
        serde_json::from_str(&serde_json::to_string(s).unwrap()).ok(),
        serde_json::from_value(serde_json::Value::String(s.into())).ok(),
        Method::deserialize(IntoDeserializer::<ValueError>::into_deserializer(s)).ok(),
        Method::deserialize(IntoDeserializer::<ValueError>::into_deserializer(s.to_string())).ok(),
    ];
    check!(got.iter().all(|g| *g == want), "method-read", "{s:?} reads as the methods {got:?}, must be {want:?}");
    if let Some(m) = want {
        check_method(m, "read")?;
    } else {
        probe("method_refused");
    }
    Ok(want)
}
fn read_version(s: &str) -> Result<Option<Version>, Violation> {
    let want = version_of(s);
    let got: [Option<Version>; 4] = [
        serde_json::from_str(&serde_json::to_string(s).unwrap()).ok(),
        serde_json::from_value(serde_json::Value::String(s.into())).ok(),
        Version::deserialize(IntoDeserializer::<ValueError>::into_deserializer(s)).ok(),
        Version::deserialize(IntoDeserializer::<ValueError>::into_deserializer(s.to_string())).ok(),
    ];
    check!(got.iter().all(|g| *g == want), "version-read", "{s:?} reads as the versions {got:?}, must be {want:?}");
    if let Some(v) = want {
        check_version(v, "read")?;
    } else {
        probe("version_refused");
    }
    Ok(want)
}
fn de<'de, D: IntoDeserializer<'de, ValueError>>(v: D) -> Option<StatusCode> {
    StatusCode::deserialize(v.into_deserializer()).ok()
}
/// A number where a status should be.
fn read_code(n: i128) -> Result<Option<StatusCode>, Violation> {
    let want = code_of(n);
    let mut got: Vec<Option<StatusCode>> = vec![];
    if let Ok(n) = u16::try_from(n) {
        got.push(StatusCode::try_from(n).ok());
        got.push(Error::new(500, io::Error::from(io::ErrorKind::Other)).status().eq(&n).then_some(StatusCode::InternalServerError));
        if want != Some(StatusCode::InternalServerError) {
            check!(got.pop() == Some(None), "status-number", "500 compares equal to {n}");
        }
    }
    macro_rules! widths {
        ($($t:ty)*) => { $( if let Ok(n) = <$t>::try_from(n) { got.push(de(n)); } )* };
    }
    widths!(u8 u16 u32 u64 i8 i16 i32 i64);
    got.push(serde_json::from_str(&n.to_string()).ok());
    if let Ok(n) = i64::try_from(n) {
        got.push(serde_json::from_value(n.into()).ok());
    }
    if let Ok(n) = u64::try_from(n) {
        got.push(serde_json::from_value(n.into()).ok());
    }
    check!(got.iter().all(|g| *g == want), "status-read", "{n} reads as the status codes {got:?}, must be {want:?}");
    // what is no whole number is no status
    check!(de(n as f64 + 0.5).is_none(), "status-read", "{}.5 reads as a status", n);
    check!(serde_json::from_str::<StatusCode>(&format!("\"{n}\"")).is_err(), "status-read", "the text {n} reads as a status");
    match want {
        Some(c) => check_code(c, n as u16, "read")?,
        None => probe("status_refused"),
    }
    Ok(want)
}

// ---- what is written ---------------------------------------------------------------
#[derive(Ser, De, Clone, PartialEq, Debug)]
struct Record {
    seq: u64,
    method: Method,
    url: Url,
    version: Version,
    status: StatusCode,
    versions: Option<Vec<Version>>,
    by_seq: std::collections::BTreeMap<String, (Method, StatusCode)>,
}
fn any_method() -> Method {
    pick(METHODS).0
}
fn any_code() -> StatusCode {
    pick(CODES).0
}
fn any_version() -> Version {
    pick(VERSIONS).0
}
fn record(seq: u64) -> Record {
    // as a handler would note what it saw
    let mut q = Request::new(any_method(), *pick(URLS));
    if chance(1, 2) {
        q.set_method(any_method());
    }
    let mut r = Response::new(any_code());
    if chance(1, 2) {
        r.set_status(any_code());
    }
    let v = any_version();
    q.set_version(Some(v));
    r.set_version(q.version());
    Record {
        seq,
        method: q.method(),
        url: q.url().clone(),
        version: r.version().unwrap(),
        status: r.status(),
        versions: chance(1, 2).then(|| (0..count(0, 3, 40)).map(|_| any_version()).collect()),
        by_seq: (0..count(0, 2, 40)).map(|i| (i.to_string(), (any_method(), any_code()))).collect(),
    }
}
/// The record as another implementation would write it.
fn foreign(r: &Record) -> String {
    let m = |m: &Method| recase(METHODS.iter().find(|x| x.0 == *m).unwrap().1);
    let c = |c: &StatusCode| CODES.iter().find(|x| x.0 == *c).unwrap().1;
    let v = |v: &Version| VERSIONS.iter().find(|x| x.0 == *v).unwrap().1;
    let sp = *pick(&["", " ", "\t"]);
    let mut parts = vec![
        format!("\"seq\":{sp}{}", r.seq),
        format!("\"method\":{sp}\"{}\"", m(&r.method)),
        format!("\"url\":{sp}{}", serde_json::to_string(r.url.as_str()).unwrap()),
        format!("\"version\":{sp}\"{}\"", v(&r.version)),
        format!("\"status\":{sp}{}", c(&r.status)),
        match &r.versions {
            None => "\"versions\":null".to_string(),
            Some(vs) => format!("\"versions\":[{}]", vs.iter().map(|x| format!("\"{}\"", v(x))).collect::<Vec<_>>().join(",")),
        },
        format!("\"by_seq\":{{{}}}", r.by_seq.iter().map(|(k, (a, b))| format!("\"{k}\":[\"{}\",{}]", m(a), c(b))).collect::<Vec<_>>().join(",")),
    ];
    let n = choose_usize(parts.len());
    parts.rotate_left(n);
    format!("{{{}}}", parts.join(&format!("{sp},{sp}")))
}
/// Reads `data`, giving pieces of any size, with interruptions and one failure.
struct Disk<'a> {
    data: &'a [u8],
    fail: Option<usize>,
    pos: usize,
}
impl io::Read for Disk<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fail == Some(self.pos) {
            fault("disk_error");
            return Err(make_err(io::ErrorKind::Other, 1));
        }
        if chance(1, 16) {
            fault("disk_interrupted");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let end = self.fail.unwrap_or(self.data.len()).min(self.data.len());
        let k = buf.len().min(end - self.pos).min(1 + choose_usize(9));
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
fn whole(r: &Record, want: &Record, at: &str) -> Res {
    check!(r == want, "record-changed", "{at}: {r:?} was read, {want:?} was written");
    check_method(r.method, at)?;
    check_version(r.version, at)?;
    let n = CODES.iter().find(|c| c.0 == want.status).unwrap().1;
    check_code(r.status, n, at)
}

/// A node that keeps a log of what passes, and may crash in the middle of writing.
async fn log(max: u64) -> Res {
    let mut disk: Vec<u8> = vec![];
    let mut wrote: Vec<Record> = vec![];
    let mut torn = 0;
    for seq in 0..range(1, max) {
        let r = record(seq);
        let mut line = match choose(4) {
            0 => serde_json::to_vec(&r).unwrap(),
            1 => serde_json::to_value(&r).unwrap().to_string().into_bytes(),
            2 => Body::from_json(&r).unwrap().into_bytes().await.unwrap(),
            _ => foreign(&r).into_bytes(),
        };
        exec::jitter().await;
        if chance(1, 5) {
            // the node dies while it writes; its next life begins a new line
            fault("torn_write");
            line.truncate(choose_usize(line.len()));
            torn += !line.is_empty() as u64;
        } else {
            wrote.push(r);
        }
        line.push(b'\n');
        disk.extend(line);
    }
    note(|| String::from_utf8_lossy(&disk).into_owned());
    let mut it = wrote.iter();
    let mut bad = 0;
    for line in disk.split(|b| *b == b'\n').filter(|l| !l.is_empty()) {
        let text = std::str::from_utf8(line).unwrap();
        let fail = chance(1, 8).then(|| choose_usize(line.len() + 1));
        let got: Option<Record> = match choose(5) {
            0 => serde_json::from_str(text).ok(),
            1 => serde_json::from_slice(line).ok(),
            2 => serde_json::from_str::<serde_json::Value>(text).ok().and_then(|v| serde_json::from_value(v).ok()),
            3 => {
                let r: Result<Record, _> = serde_json::from_reader(Disk { data: line, fail, pos: 0 });
                if fail.is_some() {
                    if let Ok(r) = r {
                        return viol("record-changed", format!("a record was read as {r:?} though the disk failed"));
                    }
                    // and again, from a sound disk
                    serde_json::from_reader(Disk { data: line, fail: None, pos: 0 }).ok()
                } else {
                    r.ok()
                }
            }
            _ => {
                let src = |faults| Body::from_reader(SimReader::new(Arc::new(line.to_vec()), Behave::draw(), faults), None);
                let kind = *pick(ERR_KINDS);
                if let Some(p) = fail.filter(|_| kind != io::ErrorKind::Interrupted) {
                    let r = src(vec![SrcFault { pos: p, kind, id: 7, sticky: true }]).into_json::<Record>().await;
                    check!(r.is_err(), "record-changed", "a record was read as {r:?} though its source failed");
                }
                src(vec![]).into_json().await.ok()
            }
        };
        match got {
            Some(r) => {
                let Some(want) = it.next() else { return viol("record-invented", format!("{r:?} was read, nothing of the kind was written")) };
                whole(&r, want, "in the log")?;
                probe("record_read");
            }
            None => bad += 1,
        }
    }
    check!(bad == torn, "record-lost", "{bad} of the lines were refused, {torn} were torn; {} were whole", wrote.len());
    if torn > 0 {
        probe("torn_refused");
    }
    Ok(())
}

/// The values of one start line, as they were sent.
#[derive(Clone, Debug)]
struct Line {
    method: Method,
    code: StatusCode,
    version: Version,
}
fn hurt(s: &mut String) -> bool {
    let before = s.clone();
    let mut b: Vec<char> = s.chars().collect();
    let at = choose_usize(b.len() + 1);
    match choose(8) {
        0 if at < b.len() => {
            b.remove(at);
        }
        1 => b.insert(at, *pick(&['A', 's', '1', '0', '9', ' ', '-', '_', '/', '.', '\0', 'ſ', 'K', 'é', '.'])),
        2 => b.truncate(at),
        3 if at < b.len() => b[at] = *pick(&['T', 'e', '2', '5', '-', '/', 'ı', 'K', '.', '\u{7f}']),
        4 if at < b.len() => b[at] = if b[at].is_ascii_uppercase() { b[at].to_ascii_lowercase() } else { b[at].to_ascii_uppercase() },
        5 if at + 1 < b.len() => b.swap(at, at + 1),
        6 => {
            let c = b.clone();
            b.extend(c);
        }
        _ if at < b.len() => b[at] = char::from_u32(b[at] as u32 ^ (1 << choose(7))).unwrap_or('x'),
        _ => {}
    }
    *s = b.into_iter().collect();
    if *s != before {
        fault("line_damaged");
        return true;
    }
    false
}
/// Start lines passing relays, each of which reads and writes them.
async fn wire(max: u64) -> Res {
    let l = Line { method: any_method(), code: any_code(), version: any_version() };
    // what is on the wire, and what the sender meant (while it is known)
    let mut m = recase(METHODS.iter().find(|x| x.0 == l.method).unwrap().1);
    let mut c = CODES.iter().find(|x| x.0 == l.code).unwrap().1.to_string();
    let mut v = VERSIONS.iter().find(|x| x.0 == l.version).unwrap().1.to_string();
    note(|| format!("{l:?}"));
    let mut sound = (true, true, true);
    for _ in 0..range(1, max) {
        exec::jitter().await;
        if chance(1, 3) {
            sound.0 &= !hurt(&mut m);
        }
        if chance(1, 4) {
            sound.1 &= !hurt(&mut c);
        }
        if chance(1, 4) {
            sound.2 &= !hurt(&mut v);
        }
        note(|| format!("{m:?} {c:?} {v:?}"));
        ev("hop", m.len() as u64, c.len() as u64);
        let got = read_method(&m)?;
        if let Some(got) = got {
            check!(!sound.0 || got == l.method, "method-read", "{m:?} reads as {got}, {:?} was sent", l.method);
            let mut q = Request::new(got, *pick(URLS));
            check!(q.method() == got, "method-read", "the request has method {}, must be {got}", q.method());
            q.set_method(got);
            m = if chance(1, 2) { q.method().to_string() } else { q.method().as_ref().to_string() };
        }
        // a relay reads the number as its integers allow
        if let Ok(n) = c.parse::<i128>() {
            if let Some(got) = read_code(n)? {
                check!(!sound.1 || got == l.code, "status-read", "{c} reads as {got}, {:?} was sent", l.code);
                let r = if chance(1, 2) { Response::new(n as u16) } else { Response::new(got) };
                check!(r.status() == got, "status-read", "the response has status {}, must be {got}", r.status());
                c = match choose(3) {
                    0 => u16::from(r.status()).to_string(),
                    1 => serde_json::to_string(&r.status()).unwrap(),
                    _ => r.status().to_string().split(':').next().unwrap().to_string(),
                };
            }
        }
        if let Some(got) = read_version(&v)? {
            check!(!sound.2 || got == l.version, "version-read", "{v} reads as {got}, {:?} was sent", l.version);
            let mut r = Response::new(200);
            r.set_version(Some(got));
            v = if chance(1, 2) { r.version().unwrap().to_string() } else { serde_json::from_str(&serde_json::to_string(&got).unwrap()).unwrap() };
        }
    }
    // and numbers no line would hold
    for _ in 0..choose(4) {
        let n = match choose(6) {
            0 => choose(70_000) as i128,
            1 => -(choose(70_000) as i128),
            2 => pick(CODES).1 as i128 + ((1 + choose(5) as i128) << pick(&[8, 16, 31, 32, 48])),
            3 => pick(CODES).1 as i128 - ((1 + choose(5) as i128) << pick(&[8, 16, 31, 32])),
            4 => choose(700) as i128,
            _ => *pick(&[0, 99, 102, 208, 305, 306, 419, 420, 430, 509, 599, 600, 999, 1000, u16::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, -1]),
        };
        read_code(n)?;
    }
    Ok(())
}
pub fn c23() -> Res {
    exec::configure();
    competitor();
    let mut rs = vec![];
    let n = range(1, 2);
    for _ in 0..n {
        rs.push(if chance(1, 2) { exec::spawn_res("relay", wire(6)).1 } else { exec::spawn_res("log", log(7)).1 });
    }
    exec::run()?;
    exec::teardown();
    for r in rs {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    Ok(())
}
