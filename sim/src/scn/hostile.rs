//! C15: header lines damaged in transit, read by every typed reader.
use super::body::{competitor, new_req, new_res};
use super::nodes::Msg;
use crate::engine::*;
use crate::exec;
use crate::sys;
use http_types::auth::{Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfModifiedSince, IfNoneMatch, IfUnmodifiedSince, LastModified, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType, Encoding};
use http_types::headers::{Header, HeaderValue, Headers};
use http_types::mime::{self, Mime};
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{ServerTiming, TraceContext};
use http_types::transfer::{Encoding as TEncoding, TransferEncoding, TE};
use http_types::{Request, Response, Url};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::str::FromStr;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const BASE: &str = "https://base.example/a/b?c";

/// A reader's error, and the status a server would answer with.
trait Refusal: std::fmt::Display {
    fn code(&self) -> Option<u16>;
}
impl Refusal for http_types::Error {
    fn code(&self) -> Option<u16> {
        Some(self.status().into())
    }
}
/// An error with no status of its own.
struct Plain<E>(E);
impl<E: std::fmt::Display> std::fmt::Display for Plain<E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<E: std::fmt::Display> Refusal for Plain<E> {
    fn code(&self) -> Option<u16> {
        None
    }
}
/// What a reader made of a message, as text that can be compared.
fn outcome<T, E: Refusal>(r: Result<Option<T>, E>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(Some(v)) => format!("value {}", f(v)),
        Ok(None) => "nothing".into(),
        Err(e) => format!("error {} {e}", e.code().map_or("-".into(), |c| c.to_string())),
    }
}
/// Writes a value that was read: its text, and onto other messages by each way there is.
fn write_back(v: &impl Header) -> String {
    let name = v.header_name();
    let value = v.header_value();
    let text = value.as_str().to_string();
    let mut res = Response::new(200);
    v.apply_header(&mut res);
    let mut req = Request::get("https://x.example/");
    req.insert_header(name.as_str(), value.clone()).ok();
    let mut h: Headers = res.as_ref().clone();
    h.append(name, value).ok();
    let _ = format!("{h:?} {res:?}");
    text
}
fn shown(v: &(impl Header + Debug)) -> String {
    format!("{v:?} = {}", write_back(v))
}

struct Reader {
    tag: &'static str,
    /// Every header name this reader looks at.
    names: &'static [&'static str],
    read: fn(&Headers) -> String,
}
macro_rules! plain {
    ($tag:expr, $name:expr, $t:ty) => {
        Reader { tag: $tag, names: &[$name], read: |h| outcome(<$t>::from_headers(h), |v| shown(&v)) }
    };
}
const FWD: &[&str] = &["forwarded", "x-forwarded-for", "x-forwarded-proto", "x-forwarded-by", "x-forwarded-host"];
fn mimes() -> Vec<Mime> {
    vec![mime::HTML, mime::JSON, mime::PLAIN, mime::BYTE_STREAM]
}

macro_rules! fwd {
    ($r:expr) => {
        outcome($r.map_err(Plain), |v| {
            let s = format!("{v:?} {v} {:?} {:?} {:?} {:?}", v.forwarded_for(), v.by(), v.host(), v.proto());
            let o = v.into_owned();
            format!("{s} {}", write_back(&o))
        })
    };
}
fn later() -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(1_700_000_000)
}
const READERS: &[Reader] = &[
    plain!("age", "age", Age),
    Reader {
        tag: "cache-control",
        names: &["cache-control"],
        read: |h| {
            outcome(CacheControl::from_headers(h), |v| {
                for d in v.iter() {
                    let _ = (d.valid_in_req(), d.valid_in_res(), HeaderValue::from(d.clone()));
                }
                let s = shown(&v);
                format!("{s} {}", v.into_iter().count())
            })
        },
    },
    Reader {
        tag: "clear-site-data",
        names: &["clear-site-data"],
        read: |h| {
            outcome(ClearSiteData::from_headers(h), |v| {
                let s = format!("{:?} {}", v.iter().map(|d| d.to_string()).collect::<Vec<_>>(), v.wildcard());
                format!("{s} {}", shown(&v))
            })
        },
    },
    plain!("expires", "expires", Expires),
    plain!("if-modified-since", "if-modified-since", IfModifiedSince),
    plain!("if-unmodified-since", "if-unmodified-since", IfUnmodifiedSince),
    plain!("last-modified", "last-modified", LastModified),
    plain!("etag", "etag", ETag),
    Reader {
        tag: "if-match",
        names: &["if-match"],
        read: |h| outcome(IfMatch::from_headers(h), |v| format!("{:?} {} {}", v.iter().map(|e| e.is_weak()).collect::<Vec<_>>(), v.wildcard(), shown(&v))),
    },
    Reader {
        tag: "if-none-match",
        names: &["if-none-match"],
        read: |h| outcome(IfNoneMatch::from_headers(h), |v| format!("{:?} {} {}", v.iter().map(|e| e.is_strong()).collect::<Vec<_>>(), v.wildcard(), shown(&v))),
    },
    Reader {
        tag: "vary",
        names: &["vary"],
        read: |h| outcome(Vary::from_headers(h), |v| format!("{:?} {} {}", v.iter().map(|e| e.as_str().to_string()).collect::<Vec<_>>(), v.wildcard(), shown(&v))),
    },
    Reader {
        tag: "accept",
        names: &["accept"],
        read: |h| {
            outcome(Accept::from_headers(h), |mut v| {
                let s = format!("{} {}", shown(&v), v.wildcard());
                let n = v.negotiate(&mimes());
                let n = n.map(|t| write_back(&t)).map_err(|e| e.to_string());
                v.sort();
                for m in v.iter() {
                    let _ = (m.weight(), m.media_type().essence().len(), m.media_type().param("charset").cloned());
                }
                format!("{s} {n:?} {}", shown(&v))
            })
        },
    },
    Reader {
        tag: "accept-encoding",
        names: &["accept-encoding"],
        read: |h| {
            outcome(AcceptEncoding::from_headers(h), |mut v| {
                let s = format!("{} {}", shown(&v), v.wildcard());
                let n = v.negotiate(&[Encoding::Brotli, Encoding::Gzip, Encoding::Identity]);
                let n = n.map(|t| write_back(&t)).map_err(|e| e.to_string());
                v.sort();
                format!("{s} {n:?} {}", shown(&v))
            })
        },
    },
    Reader {
        tag: "te",
        names: &["te"],
        read: |h| {
            outcome(TE::from_headers(h), |mut v| {
                let s = format!("{} {}", shown(&v), v.wildcard());
                let n = v.negotiate(&[TEncoding::Chunked, TEncoding::Gzip]);
                let n = n.map(|t| write_back(&t)).map_err(|e| e.to_string());
                v.sort();
                format!("{s} {n:?} {}", shown(&v))
            })
        },
    },
    Reader { tag: "content-encoding", names: &["content-encoding"], read: |h| outcome(ContentEncoding::from_headers(h), |v| format!("{} {:?}", shown(&v), v.encoding())) },
    Reader { tag: "transfer-encoding", names: &["transfer-encoding"], read: |h| outcome(TransferEncoding::from_headers(h), |v| format!("{} {:?}", shown(&v), v.encoding())) },
    Reader { tag: "content-length", names: &["content-length"], read: |h| outcome(ContentLength::from_headers(h), |v| format!("{} {}", shown(&v), v.len())) },
    Reader { tag: "content-location", names: &["content-location"], read: |h| outcome(ContentLocation::from_headers(Url::parse(BASE).unwrap(), h), |v| format!("{} {}", shown(&v), v.location())) },
    plain!("content-type", "content-type", ContentType),
    plain!("date", "date", Date),
    plain!("expect", "expect", Expect),
    Reader { tag: "referer", names: &["referer"], read: |h| outcome(Referer::from_headers(Url::parse(BASE).unwrap(), h), |v| format!("{} {}", shown(&v), v.location())) },
    Reader { tag: "sourcemap", names: &["sourcemap"], read: |h| outcome(SourceMap::from_headers(Url::parse(BASE).unwrap(), h), |v| format!("{} {}", shown(&v), v.location())) },
    Reader {
        tag: "retry-after",
        names: &["retry-after"],
        read: |h| {
            outcome(RetryAfter::from_headers(h), |v| {
                // Spans to the node's own clock differ between looks; only their making counts.
                let _ = v.duration_since(later()).map_err(|e| e.to_string());
                let _ = v.duration_since(UNIX_EPOCH).map_err(|e| e.to_string());
                let s = shown(&v);
                let _: SystemTime = v.into();
                s
            })
        },
    },
    Reader { tag: "forwarded", names: FWD, read: |h| fwd!(Forwarded::from_headers(h)) },
    Reader { tag: "forwarded-only", names: FWD, read: |h| fwd!(Forwarded::from_forwarded_header(h)) },
    Reader { tag: "x-forwarded", names: FWD, read: |h| fwd!(Forwarded::from_x_headers(h)) },
    Reader {
        tag: "forwarded-text",
        names: FWD,
        read: |h| {
            let mut s = String::new();
            for n in FWD {
                for v in h.get(*n).into_iter().flatten() {
                    s += &fwd!(Forwarded::parse(v.as_str()).map(Some));
                }
            }
            s
        },
    },
    Reader { tag: "hsts", names: &["strict-transport-security"], read: |h| outcome(StrictTransportSecurity::from_headers(h), |v| format!("{} {:?}", shown(&v), Duration::from(v))) },
    Reader {
        tag: "timing-allow-origin",
        names: &["timing-allow-origin"],
        read: |h| outcome(TimingAllowOrigin::from_headers(h), |v| format!("{} {} {}", shown(&v), v.wildcard(), v.iter().count())),
    },
    Reader {
        tag: "allow",
        names: &["allow"],
        read: |h| {
            outcome(Allow::from_headers(h), |v| {
                let mut m: Vec<String> = v.iter().map(|m| m.to_string()).collect();
                m.sort();
                let mut t: Vec<String> = write_back(&v).split(", ").map(|x| x.to_string()).collect();
                t.sort();
                let _ = format!("{v:?}");
                format!("{m:?} {t:?}")
            })
        },
    },
    Reader {
        tag: "server-timing",
        names: &["server-timing"],
        read: |h| {
            outcome(ServerTiming::from_headers(h), |v| {
                for m in v.iter() {
                    let _ = (m.name().len(), m.duration(), m.description().map(|d| d.len()), HeaderValue::from(m.clone()));
                }
                shown(&v)
            })
        },
    },
    Reader {
        tag: "traceparent",
        names: &["traceparent"],
        read: |h| outcome(TraceContext::from_headers(h), |v| format!("{} {} {:x} {:?} {}", v.id() == 0, v.version(), v.trace_id(), v.parent_id(), v.sampled())),
    },
    Reader {
        tag: "traceparent-child",
        names: &["traceparent"],
        read: |h| outcome(TraceContext::from_headers(h), |v| format!("{}{}", write_back(&v).len() > 0, write_back(&v.child()).len() > 0)),
    },
    plain!("authorization", "authorization", Authorization),
    Reader { tag: "basic-auth", names: &["authorization"], read: |h| outcome(BasicAuth::from_headers(h), |v| format!("{} {} {}", shown(&v), v.username(), v.password())) },
    Reader { tag: "www-authenticate", names: &["www-authenticate"], read: |h| outcome(WwwAuthenticate::from_headers(h), |v| format!("{} {} {:?}", shown(&v), v.realm(), v.scheme())) },
    Reader {
        tag: "request accessors",
        names: &["content-type", "forwarded", "x-forwarded-for", "x-forwarded-host", "host"],
        read: |h| {
            let mut q = Request::get(BASE);
            put(q.as_mut(), h);
            let t = q.content_type();
            format!("{t:?} {:?} {:?} {:?}", q.host(), q.remote(), q.len())
        },
    },
    Reader {
        tag: "response accessors",
        names: &["content-type"],
        read: |h| {
            let mut r = Response::new(200);
            put(r.as_mut(), h);
            let t = r.content_type();
            let parsed: Vec<_> = h.get("content-type").into_iter().flatten().map(|v| Mime::from_str(v.as_str()).map(|m| m.to_string()).map_err(|e| e.to_string())).collect();
            format!("{:?} {parsed:?}", t.map(|m| (m.to_string(), m.essence().to_string(), m.subset_eq(&mime::HTML), mime::HTML.subset_eq(&m))))
        },
    },
];
fn put(to: &mut Headers, from: &Headers) {
    for (n, vs) in from.iter() {
        for v in vs.iter() {
            to.append(n.clone(), v.clone()).ok();
        }
    }
}

// ---- sound lines ---------------------------------------------------------------
type Line = (String, Vec<u8>);
fn token() -> String {
    const T: &[&str] = &["a", "db", "text", "x-1", "GET", "cache", "gzip", "proto", "for", "~", "!#$%&'*+-.^_`|~", "0", "long-token-with-many-parts.and.dots", "W/"];
    pick(T).to_string()
}
fn quoted() -> String {
    const T: &[&str] = &["\"\"", "\"a db\"", "\"a\\\"b\"", "\"\\\\\"", "\"[::1]:80\"", "\"x,y;z\"", "\"tab\\there\""];
    pick(T).to_string()
}
fn number() -> String {
    match choose(6) {
        0 => "0".into(),
        1 => choose(100_000).to_string(),
        2 => u64::MAX.to_string(),
        3 => (u64::MAX >> choose(64)).to_string(),
        4 => format!("{}", choose(1 << 20) as f64 / 64.0),
        _ => pick(&["1", "00017", "4294967296", "2147483648", "9223372036854775807", "9223372036854775808", "253402300800", "18446744073709551616"]).to_string(),
    }
}
fn date() -> String {
    pick(&["Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "Thu, 01 Jan 1970 00:00:00 GMT", "Wed, 31 Dec 1969 23:59:59 GMT", "Fri, 31 Dec 9999 23:59:59 GMT", "Thu, 29 Feb 2024 12:00:00 GMT"]).to_string()
}
fn url() -> String {
    pick(&["https://example.com/", "http://[::1]:8080/a?b#c", "/rel/path", "../x", "//other.example/z", "?q", "", "https://user:pw@h.example:99/%20", "data:text/plain,x", "mailto:a@b.example", "https://xn--nxasmq6b/"]).to_string()
}
fn weight() -> String {
    if chance(1, 2) {
        return String::new();
    }
    format!(";q={}", pick(&["0", "1", "0.5", "0.001", "1.0", "0.333", "1e-9", "0.0001"]))
}
fn list(min: u64, f: impl Fn() -> String) -> String {
    let n = match weighted(&[6, 2, 1]) {
        0 => min + choose(4),
        1 => choose(12),
        _ => 20 + choose(60),
    };
    let sep = *pick(&[", ", ",", " , "]);
    (0..n).map(|_| f()).collect::<Vec<_>>().join(sep)
}
fn etag() -> String {
    format!("{}\"{}\"", if chance(1, 3) { "W/" } else { "" }, pick(&["", "xyzzy", "r2d2/xxxx", "a-b"]))
}
fn b64() -> String {
    pick(&["QWxhZGRpbjpvcGVuIHNlc2FtZQ==", "dTpw", "Og==", "dQ==", "////", "YTo6Yg=="]).to_string()
}
fn media() -> String {
    format!("{}{}", pick(&["text/html", "*/*", "text/*", "application/json", "text/plain; charset=utf-8", "a/b;c=d;e=\"f g\"", "x/x;x=\"\\\"\""]), weight())
}
const KINDS: &[&str] = &[
    "age", "cache-control", "clear-site-data", "expires", "if-modified-since", "if-unmodified-since", "last-modified", "etag", "if-match", "if-none-match", "vary", "accept", "accept-encoding", "te",
    "content-encoding", "transfer-encoding", "content-length", "content-location", "content-type", "date", "expect", "referer", "sourcemap", "retry-after", "forwarded", "x-forwarded-for", "x-forwarded-proto",
    "x-forwarded-by", "x-forwarded-host", "strict-transport-security", "timing-allow-origin", "allow", "server-timing", "traceparent", "authorization", "www-authenticate", "host",
];
fn value_for(kind: &str) -> String {
    match kind {
        "age" | "content-length" => number(),
        "cache-control" => list(1, || match choose(7) {
            0 => format!("max-age={}", number()),
            1 => format!("s-maxage={}", number()),
            2 => format!("max-stale={}", number()),
            3 => format!("stale-while-revalidate={}", number()),
            _ => pick(&["no-cache", "no-store", "public", "private", "immutable", "max-stale", "must-revalidate", "only-if-cached", "no-transform", "proxy-revalidate", "unknown"]).to_string(),
        }),
        "clear-site-data" => list(1, || pick(&["\"cache\"", "\"cookies\"", "\"storage\"", "\"executionContexts\"", "\"*\""]).to_string()),
        "expires" | "if-modified-since" | "if-unmodified-since" | "last-modified" | "date" => date(),
        "etag" => etag(),
        "if-match" | "if-none-match" => {
            if chance(1, 5) {
                "*".into()
            } else {
                list(1, etag)
            }
        }
        "vary" => list(1, || if chance(1, 8) { "*".into() } else { token() }),
        "accept" => list(0, || if chance(1, 8) { "*".into() } else { media() }),
        "accept-encoding" => list(0, || format!("{}{}", pick(&["gzip", "br", "deflate", "identity", "zstd", "*"]), weight())),
        "te" => list(0, || format!("{}{}", pick(&["gzip", "deflate", "chunked", "trailers", "compress", "identity", "*"]), weight())),
        "content-encoding" => pick(&["gzip", "br", "deflate", "identity", "zstd"]).to_string(),
        "transfer-encoding" => pick(&["gzip", "deflate", "chunked", "identity", "compress"]).to_string(),
        "content-location" | "referer" | "sourcemap" => url(),
        "content-type" => media(),
        "expect" => "100-continue".into(),
        "retry-after" => {
            if chance(1, 2) {
                number()
            } else {
                date()
            }
        }
        "forwarded" => {
            let mut parts = Vec::new();
            if chance(1, 3) {
                parts.push(format!("by={}", token()));
            }
            if chance(3, 4) {
                parts.push(list(1, || format!("{}={}", pick(&["for", "For", "FOR"]), if chance(1, 2) { token() } else { quoted() })));
            }
            if chance(1, 2) {
                parts.push(format!("host={}", if chance(1, 2) { token() } else { quoted() }));
            }
            if chance(1, 2) {
                parts.push(format!("proto={}", token()));
            }
            if chance(1, 4) {
                parts.push(format!("{}={}", token(), quoted()));
            }
            parts.join(";")
        }
        "x-forwarded-for" => list(1, || pick(&["10.0.0.1", "::1", "2001:db8::17", "unknown", "_hidden", "[::1]", "", "a b"]).to_string()),
        "x-forwarded-proto" => pick(&["http", "https"]).to_string(),
        "x-forwarded-by" | "x-forwarded-host" | "host" => list(1, || pick(&["h.example", "h.example:8080", "[::1]:443", ""]).to_string()),
        "strict-transport-security" => format!("max-age={}{}{}", number(), if chance(1, 2) { ";includeSubdomains" } else { "" }, if chance(1, 2) { "; preload" } else { "" }),
        "timing-allow-origin" => list(1, || pick(&["*", "https://a.example", "\"null\"", "http://b.example:81/"]).to_string()),
        "allow" => list(1, || pick(&["GET", "PUT", "DELETE", "M-SEARCH", "UPDATEREDIRECTREF"]).to_string()),
        "server-timing" => list(1, || {
            let mut s = token();
            if chance(1, 2) {
                s += &format!(";dur={}", number());
            }
            if chance(1, 2) {
                s += &format!("; desc={}", quoted());
            }
            s
        }),
        "traceparent" => pick(&["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-00000000000000000000000000000000-0000000000000000-00", "cc-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-ff-extra"]).to_string(),
        "authorization" => format!("{} {}", pick(&["Basic", "Bearer", "Digest", "basic"]), b64()),
        "www-authenticate" => format!("{} realm=\"{}\"{}", pick(&["Basic", "Bearer"]), pick(&["", "a b", "x"]), pick(&["", ", charset=\"UTF-8\""])),
        _ => token(),
    }
}

// ---- damage ----------------------------------------------------------------------
const HOSTILE: &[&str] = &[
    "\"", "\\", "=", ";", ",", "", " ", "\t", "*", "/", "%", "%zz", "-", "-1", "+1", ".", ":", "inf", "-inf", "NaN", "1e999", "1e308", "1e19", "1e-400", "-0.0", "18446744073709551616", "99999999999999999999999999", "\"\"",
    "W/\"", "realm=\"", "for=", "for", "FOR=\"", "desc=\"", "desc=", "dur=", "dur=-1", "dur=1e30", "dur=inf", "q=", "q=nan", "q=-0", "q=2", ";q=1e39", "max-age=", "max-age=-1", "\"unknown\"", "\u{7f}", "\0", "://", "[", "]", "[::", "@", "#",
    "GMT", "Feb 30", "00:60:61", "24:00:00", "99999", "Sun Nov", "-94 ", "\r\n",
];
/// Alters a non-empty line's bytes; names the fault.
fn damage(v: &mut Vec<u8>, other: &[u8]) -> &'static str {
    match weighted(&[3, 4, 2, 2, 2, 4, 2, 2, 1, 4]) {
        9 => {
            // what follows a separator, up to the next one or all of it, is something else
            let cuts: Vec<usize> = (0..v.len()).filter(|i| b"=,;: \"/-".contains(&v[*i])).map(|i| i + 1).collect();
            let i = if cuts.is_empty() { 0 } else { *pick(&cuts) };
            let end = v[i..].iter().position(|b| b",; ".contains(b)).map_or(v.len(), |k| i + k);
            let t = pick(HOSTILE).as_bytes();
            if chance(1, 3) {
                v.truncate(i);
                v.extend_from_slice(t);
            } else {
                v.splice(i..end, t.iter().copied());
            }
            "bad-argument"
        }
        0 => {
            v.truncate(choose_usize(v.len() + 1));
            "truncate"
        }
        1 => {
            for _ in 0..1 + choose(3) {
                if !v.is_empty() {
                    let i = choose_usize(v.len());
                    v[i] ^= 1 << choose(7);
                }
            }
            "bit-flip"
        }
        2 => {
            let i = choose_usize(v.len() + 1);
            let j = choose_usize(other.len() + 1);
            v.truncate(i);
            v.extend_from_slice(&other[j..]);
            "splice"
        }
        3 => {
            let i = choose_usize(v.len() + 1);
            let j = (i + choose_usize(8)).min(v.len());
            v.drain(i..j);
            "bytes-lost"
        }
        4 => {
            // a stretch sent over and over
            let i = choose_usize(v.len() + 1);
            let j = (i + 1 + choose_usize(16)).min(v.len());
            let seg = v[i..j].to_vec();
            let n = match weighted(&[6, 3, 1]) {
                0 => 1 + choose(4),
                1 => choose(60),
                _ => choose(600),
            };
            let mut w = v[..j].to_vec();
            for _ in 0..n {
                w.extend_from_slice(&seg);
            }
            w.extend_from_slice(&v[j..]);
            *v = w;
            "stutter"
        }
        5 => {
            let i = choose_usize(v.len() + 1);
            let t = pick(HOSTILE).as_bytes();
            let j = if chance(1, 2) { (i + choose_usize(12)).min(v.len()) } else { i };
            v.splice(i..j, t.iter().copied());
            "hostile-bytes"
        }
        6 => {
            for b in v.iter_mut() {
                *b = if chance(1, 2) { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
            }
            "re-case"
        }
        7 => {
            v.clear();
            for _ in 0..choose(4) {
                v.extend_from_slice(pick(HOSTILE).as_bytes());
            }
            "hostile-line"
        }
        _ => {
            if v.is_empty() {
                v.push(0x80);
            } else {
                let i = choose_usize(v.len());
                v[i] |= 0x80;
            }
            "beyond-ascii"
        }
    }
}

fn receive(lines: &[Line]) -> (Msg, usize) {
    let mut m = Msg::new();
    let mut refused = 0;
    for (n, v) in lines {
        let ok = match HeaderValue::from_bytes(v.clone()) {
            Ok(v) => m.as_mut().append(n.as_str(), v).is_ok(),
            Err(_) => false,
        };
        if !ok {
            refused += 1;
        }
    }
    (m, refused)
}
fn read_guarded(r: &Reader, h: &Headers, bytes: usize) -> Result<String, Violation> {
    // Generous: a typed value may well cost hundreds of bytes per list member,
    // several times over in the texts made here.
    let cap = (4 << 20) + bytes * 4096;
    crate::alloc::arm_total(cap, cap as i64);
    let s = (r.read)(h);
    let a = crate::alloc::disarm();
    check!(a.failed == 0, "memory", "reading {} from {bytes} bytes of header lines asked for more than {cap} bytes", r.tag);
    Ok(s)
}

pub fn c15() -> Res {
    exec::configure();
    competitor();
    exec::run_root(network())
}
async fn network() -> Res {
    // The sender's lines, sound and grouped by what they say.
    sys::clock_set(choose(4_000_000_000) as i64, 0);
    let n = 1 + choose_usize(7);
    let mut sent: Vec<Line> = Vec::new();
    for _ in 0..n {
        let k = *pick(KINDS);
        for _ in 0..if chance(1, 4) { 2 + choose(2) } else { 1 } {
            sent.push((k.to_string(), value_for(k).into_bytes()));
        }
    }
    // Lines of names that have nothing to do with these.
    if chance(1, 2) {
        for _ in 0..1 + choose(2) {
            let k = if chance(1, 3) { pick(&["pragma", "warning", "x-forwarded-port", "accept-charset", "content-range", "if-range", "x-real-ip", "tracestate", "trailer", "proxy-authorization"]).to_string() } else { super::multimap::registered_name().to_string() };
            if !sent.iter().any(|l| l.0 == k) && !KINDS.contains(&k.as_str()) {
                let v = value_for(&sent[choose_usize(sent.len())].0);
                sent.insert(choose_usize(sent.len() + 1), (k, v.into_bytes()));
            }
        }
    }
    // One or two hops, each of which may hurt some of the lines.
    let mut lines = sent.clone();
    let mut hurt: BTreeMap<String, u32> = BTreeMap::new();
    for _ in 0..1 + choose(2) {
        exec::jitter().await;
        for _ in 0..choose(4) {
            if lines.is_empty() {
                break;
            }
            let i = choose_usize(lines.len());
            *hurt.entry(lines[i].0.clone()).or_insert(0) += 1;
            let kind = match weighted(&[12, 1, 1, 1, 1]) {
                0 => {
                    let other = lines[choose_usize(lines.len())].1.clone();
                    damage(&mut lines[i].1, &other)
                }
                1 => {
                    let l = lines[i].clone();
                    lines.insert(choose_usize(lines.len() + 1), l);
                    "line-duplicated"
                }
                2 => {
                    lines.remove(i);
                    "line-lost"
                }
                3 => {
                    let j = choose_usize(lines.len());
                    *hurt.entry(lines[j].0.clone()).or_insert(0) += 1;
                    lines.swap(i, j);
                    "lines-reordered"
                }
                _ => {
                    // the value arrives under another header's name
                    let k = pick(KINDS).to_string();
                    *hurt.entry(k.clone()).or_insert(0) += 1;
                    lines[i].0 = k;
                    "line-misnamed"
                }
            };
            fault(kind);
            note(|| format!("{kind}: {:?}", lines.get(i).map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).into_owned()))));
        }
    }
    let (m, refused) = receive(&lines);
    ev("received", lines.len() as u64, refused as u64);
    if refused > 0 {
        probe("line_refused");
    }
    let bytes: usize = lines.iter().map(|(n, v)| n.len() + v.len()).sum();
    let order: usize = choose_usize(READERS.len());
    for k in 0..READERS.len() {
        let r = &READERS[(k + order) % READERS.len()];
        let got = read_guarded(r, m.as_ref(), bytes)?;
        let touched = r.names.iter().any(|n| hurt.contains_key(*n));
        if got.starts_with("error") {
            // What the sender got wrong is the sender's error. (These two report a
            // location that is none as the server's.)
            let own = ["referer", "sourcemap"].contains(&r.tag);
            let code = got.trim_start_matches("error ").split(' ').next().unwrap_or("");
            check!(own || code == "400" || code == "-", "status", "{} refuses the lines with status {code}: {got}", r.tag);
            probe("refused_with_error");
        } else if got.starts_with("value") {
            probe(if touched { "value_from_damaged" } else { "value_from_intact" });
        }
        ev(r.tag, got.len() as u64, touched as u64);
        // What did not arrive at all reads as absent.
        if !r.tag.ends_with("accessors") && r.tag != "forwarded-text" && r.names.iter().all(|n| m.as_ref().get(*n).is_none()) {
            check!(got == "nothing", "invented", "{} reads as {got}, but there is no such line", r.tag);
            probe("absent");
        }
        // What arrived unharmed reads as if it were alone, as on the sender's side.
        if !touched && r.names.iter().any(|n| sent.iter().any(|(k, _)| k == n)) {
            let alone: Vec<Line> = sent.iter().filter(|(k, _)| r.names.contains(&k.as_str())).cloned().collect();
            let (a, _) = receive(&alone);
            let want = read_guarded(r, a.as_ref(), bytes)?;
            check!(got == want, "isolation", "{} reads as {got} in the damaged message but as {want} on its own", r.tag);
            probe("isolation_compared");
        }
    }
    // A relay sends on what it could not read: the lines still move.
    if chance(1, 4) {
        let mut q = new_req();
        put(q.as_mut(), m.as_ref());
        let mut p = new_res();
        put(p.as_mut(), q.as_ref());
        let h: Headers = p.as_ref().clone();
        for (n, vs) in m.as_ref().iter() {
            let same = h.get(n).map(|w| w.iter().eq(vs.iter())).unwrap_or(false);
            check!(same || n.as_str() == "content-type", "relay", "header {n} changed from {vs:?} to {:?}", h.get(n));
        }
        probe("relayed");
    }
    Ok(())
}
