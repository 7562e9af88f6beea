//! C24: media types on their way between nodes, against the WHATWG algorithm.
use super::body::{competitor, new_req, new_res};
use super::multimap::recase;
use super::nodes::{from_wire, to_wire, Msg, Wire};
use crate::engine::*;
use crate::exec;
use http_types::content::ContentType;
use http_types::headers::{Header, HeaderValue, CONTENT_TYPE};
use http_types::mime::{self, Mime, ParamName};
use http_types::Body;
use std::str::FromStr;

/// What a text says by https://mimesniff.spec.whatwg.org/#parsing-a-mime-type
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Said {
    ty: String,
    sub: String,
    /// in order; the names are unique
    params: Vec<(String, String)>,
}
fn token(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c)
}
fn quotable(c: char) -> bool {
    c == '\t' || (c >= ' ' && c <= '~') || (c >= '\u{80}' && c <= '\u{ff}')
}
fn space(c: &char) -> bool {
    [' ', '\t', '\r', '\n'].contains(c)
}
pub fn said(text: &str) -> Option<Said> {
    let mut s: &[char] = &text.chars().collect::<Vec<_>>();
    while s.first().map_or(false, space) {
        s = &s[1..];
    }
    while s.last().map_or(false, space) {
        s = &s[..s.len() - 1];
    }
    let mut at = 0;
    let until = |at: &mut usize, stop: &[char]| -> String {
        let from = *at;
        while *at < s.len() && !stop.contains(&s[*at]) {
            *at += 1;
        }
        s[from..*at].iter().collect()
    };
    let trim = |t: String| t.trim_end_matches(|c| space(&c)).to_string();
    let ty = until(&mut at, &['/']);
    if ty.is_empty() || !ty.chars().all(token) || at == s.len() {
        return None;
    }
    at += 1;
    let sub = trim(until(&mut at, &[';']));
    if sub.is_empty() || !sub.chars().all(token) {
        return None;
    }
    let mut out = Said { ty: ty.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), params: vec![] };
    while at < s.len() {
        at += 1;
        while at < s.len() && space(&s[at]) {
            at += 1;
        }
        let name = until(&mut at, &[';', '=']).to_ascii_lowercase();
        if at < s.len() {
            if s[at] == ';' {
                continue;
            }
            at += 1;
        }
        if at == s.len() {
            break;
        }
        let value = if s[at] == '"' {
            let mut v = String::new();
            at += 1;
            loop {
                v += &until(&mut at, &['"', '\\']);
                if at == s.len() {
                    break;
                }
                let c = s[at];
                at += 1;
                if c == '"' {
                    break;
                }
                if at == s.len() {
                    v.push('\\');
                    break;
                }
                v.push(s[at]);
                at += 1;
            }
            until(&mut at, &[';']);
            v
        } else {
            let v = trim(until(&mut at, &[';']));
            if v.is_empty() {
                continue;
            }
            v
        };
        if !name.is_empty() && name.chars().all(token) && value.chars().all(quotable) && !out.params.iter().any(|p| p.0 == name) {
            out.params.push((name, value));
        }
    }
    Some(out)
}
impl Said {
    fn get(&self, name: &str) -> Option<&str> {
        self.params.iter().find(|p| p.0 == name).map(|p| &p.1[..])
    }
    /// Written by the standard. (The library writes a charset of utf-8 first.)
    fn text(&self) -> String {
        let mut out = format!("{}/{}", self.ty, self.sub);
        let utf8 = |p: &&(String, String)| p.0 == "charset" && p.1 == "utf-8";
        for (n, v) in self.params.iter().filter(utf8).chain(self.params.iter().filter(|p| !utf8(p))) {
            if !v.is_empty() && v.chars().all(token) {
                out += &format!(";{n}={v}");
            } else {
                let v: String = v.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect();
                out += &format!(";{n}=\"{v}\"");
            }
        }
        out
    }
    /// Whether `range` covers this.
    fn within(&self, range: &Said) -> bool {
        (range.ty == "*" || range.ty == self.ty) && (range.sub == "*" || range.sub == self.sub) && range.params.iter().all(|(n, v)| self.get(n) == Some(v))
    }
}
/// The library's own media types, and how each is written.
const KNOWN: &[(Mime, &str)] = &[
    (mime::JAVASCRIPT, "text/javascript;charset=utf-8"),
    (mime::CSS, "text/css;charset=utf-8"),
    (mime::HTML, "text/html;charset=utf-8"),
    (mime::PLAIN, "text/plain;charset=utf-8"),
    (mime::XML, "application/xml;charset=utf-8"),
    (mime::RSS, "application/rss+xml;charset=utf-8"),
    (mime::ATOM, "application/atom+xml;charset=utf-8"),
    (mime::ANY, "*/*"),
    (mime::JSON, "application/json"),
    (mime::SSE, "text/event-stream"),
    (mime::BYTE_STREAM, "application/octet-stream"),
    (mime::FORM, "application/x-www-form-urlencoded"),
    (mime::MULTIPART_FORM, "multipart/form-data"),
    (mime::WASM, "application/wasm"),
    (mime::BMP, "image/bmp"),
    (mime::JPEG, "image/jpeg"),
    (mime::PNG, "image/png"),
    (mime::SVG, "image/svg+xml"),
    (mime::WEBP, "image/webp"),
    (mime::MIDI, "audio/midi"),
    (mime::MP3, "audio/mpeg"),
    (mime::OGG, "audio/ogg"),
    (mime::OPUS, "audio/opus"),
    (mime::M4A, "audio/mp4"),
    (mime::MP4, "video/mp4"),
    (mime::MPEG, "video/mpeg"),
    (mime::WEBM, "video/webm"),
    (mime::AVI, "video/x-msvideo"),
    (mime::ICO, "image/x-icon"),
    (mime::OTF, "font/otf"),
    (mime::TTF, "font/ttf"),
    (mime::WOFF, "font/woff"),
    (mime::WOFF2, "font/woff2"),
    (mime::ZIP, "application/zip"),
    (mime::SEVENZIP, "application/x-7z-compressed"),
];
const EXT: &[(&str, &str)] = &[
    ("7z", "application/x-7z-compressed"),
    ("atom", "application/atom+xml;charset=utf-8"),
    ("avi", "video/x-msvideo"),
    ("bin", "application/octet-stream"),
    ("exe", "application/octet-stream"),
    ("dll", "application/octet-stream"),
    ("iso", "application/octet-stream"),
    ("img", "application/octet-stream"),
    ("bmp", "image/bmp"),
    ("css", "text/css;charset=utf-8"),
    ("html", "text/html;charset=utf-8"),
    ("ico", "image/x-icon"),
    ("js", "text/javascript;charset=utf-8"),
    ("mjs", "text/javascript;charset=utf-8"),
    ("jsonp", "text/javascript;charset=utf-8"),
    ("json", "application/json"),
    ("m4a", "audio/mp4"),
    ("mid", "audio/midi"),
    ("midi", "audio/midi"),
    ("kar", "audio/midi"),
    ("mp3", "audio/mpeg"),
    ("mp4", "video/mp4"),
    ("mpeg", "video/mpeg"),
    ("mpg", "video/mpeg"),
    ("ogg", "audio/ogg"),
    ("otf", "font/otf"),
    ("rss", "application/rss+xml;charset=utf-8"),
    ("svg", "image/svg+xml"),
    ("svgz", "image/svg+xml"),
    ("ttf", "font/ttf"),
    ("txt", "text/plain;charset=utf-8"),
    ("wasm", "application/wasm"),
    ("webm", "video/webm"),
    ("webp", "image/webp"),
    ("woff", "font/woff"),
    ("woff2", "font/woff2"),
    ("xml", "application/xml;charset=utf-8"),
    ("zip", "application/zip"),
];
const TYPES: &[&str] = &["text", "text", "application", "image", "*", "x-own", "a!#$%&'*+-.^_`|~"];
const SUBS: &[&str] = &["html", "plain", "json", "svg+xml", "*", "vnd.own.v2+json", "x"];
const NAMES: &[&str] = &["charset", "charset", "charset", "q", "boundary", "a", "b", "level", "x-y", "charset*"];
const VALUES: &[&str] = &["utf-8", "utf-8", "UTF-8", "gbk", "1", "0.5", "a b", "", "\"", "\\", "a\\\"b", ";", "a=b", ",", "tab\there", "'x'", "--simboundary", "utf-8 "];

fn gen() -> Said {
    let mut s = Said { ty: pick(TYPES).to_string(), sub: pick(SUBS).to_string(), params: vec![] };
    for i in 0..count(0, 4, 60) {
        let n = if i < 4 { pick(NAMES).to_string() } else { format!("p{i}") };
        if s.get(&n).is_none() {
            let v = if i < 4 { pick(VALUES).to_string() } else { long(pick(VALUES)) };
            s.params.push((n, v));
        }
    }
    s
}
/// Now and then a very long value.
fn long(v: &str) -> String {
    if chance(1, 10) {
        v.repeat(range(2, 300) as usize)
    } else {
        v.into()
    }
}
fn ows() -> &'static str {
    pick(&["", "", " ", "\t", "  "])
}
/// As another implementation may write it, with parameters nobody can read in between.
fn spell(s: &Said) -> String {
    let mut out = format!("{}{}/{}", ows(), recase(&s.ty), recase(&s.sub));
    let mut seen: Vec<&str> = vec![];
    for (n, v) in &s.params {
        out += &format!("{};{}{}=", if seen.is_empty() { ows() } else { "" }, ows(), recase(n));
        if !v.is_empty() && v.chars().all(token) && chance(2, 3) {
            out += v;
        } else {
            let any = chance(1, 4);
            let v: String = v.chars().flat_map(|c| if c == '"' || c == '\\' || (any && chance(1, 4)) { vec!['\\', c] } else { vec![c] }).collect();
            out += &format!("\"{v}\"{}", if chance(1, 8) { "junk" } else { "" });
        }
        seen.push(n);
        match choose(12) {
            0 => out += &format!(";{}=again", recase(n)),
            1 => out += &format!(";{}=\"utf-8\"", recase(n)),
            2 => out += ";",
            3 => out += "; =x",
            4 => out += ";name",
            5 => out += ";bad name=x",
            6 => out += ";e=",
            _ => {}
        }
    }
    out + ows()
}
fn damage(v: &mut String) {
    let mut b: Vec<u8> = v.bytes().collect();
    let at = choose_usize(b.len() + 1);
    match choose(8) {
        0 if at < b.len() => {
            b.remove(at);
        }
        1 => b.insert(at, *pick(b";;==\"\"\\\\/ \t,*qQ")),
        2 => b.truncate(at),
        3 if at < b.len() => b[at] ^= 1 << choose(7),
        4 => {
            let c = b.clone();
            b.extend(&c[at..]);
        }
        5 if at < b.len() => {
            b.drain(..at);
        }
        6 if at < b.len() => b[at] = *pick(b";=\"\\/"),
        _ => {
            let j = choose_usize(b.len() + 1);
            let (i, j) = (at.min(j), at.max(j));
            b[i..j].reverse();
        }
    }
    let t = String::from_utf8(b).expect("ASCII");
    if t != *v {
        fault("text_damaged");
        *v = t;
    }
}

/// Everything a media type says, compared with what it must say.
fn check(m: &Mime, s: &Said, at: &str) -> Res {
    check!(m.basetype() == s.ty && m.subtype() == s.sub && m.essence() == format!("{}/{}", s.ty, s.sub), "wrong-type", "{at}: {m:?} is {} {} {}, must be {s:?}", m.basetype(), m.subtype(), m.essence());
    for n in NAMES.iter().chain(["e", "again", "none"].iter()).copied().chain(s.params.iter().map(|p| &p.0[..])) {
        let got = if chance(1, 2) { m.param(recase(n).as_str()) } else { m.param(ParamName::from_str(n).unwrap()) };
        check!(got.map(|v| v.as_str()) == s.get(n), "wrong-parameter", "{at}: {m} has {n} {got:?}, must be {:?} ({s:?})", s.get(n));
        if let (Some(g), Some(w)) = (got, s.get(n)) {
            check!(g == w && g == &w && g.to_string() == w, "wrong-parameter", "{at}: {g} is not equal to {w:?}");
        }
    }
    let t = m.to_string();
    check!(t == s.text(), "wrong-text", "{at}: written as {t:?}, must be {:?}", s.text());
    Ok(())
}
/// Taking parameters out of a copy.
fn strip(m: &Mime, s: &Said, at: &str) -> Res {
    let (mut m2, mut s2) = (m.clone(), s.clone());
    for _ in 0..range(1, 4) {
        let n = *pick(NAMES);
        let got = m2.remove_param(recase(n).as_str()).map(|v| v.to_string());
        let want = s2.get(n).map(|v| v.to_string());
        check!(got == want, "wrong-parameter", "{at}: removing {n} from {m} gives {got:?}, must give {want:?}");
        s2.params.retain(|p| p.0 != n);
        check(&m2, &s2, "with a parameter removed")?;
        probe("parameter_removed");
    }
    check(m, s, "after a copy was changed")
}
fn compare(a: (&Mime, &Said), b: (&Mime, &Said), at: &str) -> Res {
    let sub = a.0.subset_eq(b.0);
    check!(sub == a.1.within(b.1), "wrong-range", "{at}: {} within {}: {sub}, must be {}", a.0, b.0, a.1.within(b.1));
    check!((a.0 == b.0) == (a.1.text() == b.1.text()), "wrong-equality", "{at}: {:?} equals {:?}: {}", a.0, b.0, a.0 == b.0);
    if sub {
        probe("within");
    }
    Ok(())
}
/// One text, read by each way there is.
fn read(t: &str, at: &str) -> Result<Option<(Mime, Said)>, Violation> {
    let want = said(t);
    let got = if chance(1, 2) { Mime::from_str(t) } else { t.parse() };
    match (got, want) {
        (Ok(m), Some(s)) => {
            check(&m, &s, at)?;
            if chance(1, 4) {
                check!(Mime::from(t) == m && ContentType::new(t) == m, "wrong-equality", "{at}: {t:?} reads differently by From");
            }
            // its own text reads as the same
            let again = Mime::from_str(&m.to_string());
            check!(matches!(&again, Ok(a) if *a == m), "not-stable", "{at}: {m:?} is written {m} and reads as {again:?}");
            Ok(Some((m, s)))
        }
        (Err(_), None) => {
            probe("refused");
            Ok(None)
        }
        (Ok(m), None) => viol("malformed-taken", format!("{at}: {t:?} reads as {m:?}, it is no media type")),
        (Err(e), Some(s)) => viol("wellformed-refused", format!("{at}: {t:?} is refused ({e}), it means {s:?}")),
    }
}
/// Every reader of a message must agree with its last line.
fn look(m: &mut Msg, at: &str) -> Result<Option<(Mime, Said)>, Violation> {
    let last = m.as_ref().get("content-type").map(|v| v.last().as_str().to_string());
    note(|| format!("{at}: {last:?}"));
    let ct = ContentType::from_headers(m.as_ref());
    let short = match m {
        Msg::Q(q) => Some(q.content_type()),
        Msg::R(r) => Some(r.content_type()),
        Msg::H(_) => None,
    };
    let Some(t) = last else {
        check!(matches!(ct, Ok(None)) && short.as_ref().map_or(true, |s| s.is_none()), "invented", "{at}: without a line the media type reads {ct:?} {short:?}");
        return Ok(None);
    };
    let got = read(&t, at)?;
    match &got {
        Some((m, _)) => {
            check!(matches!(&ct, Ok(Some(c)) if *c == *m && *c == &*m && c.header_value().as_str() == m.to_string()), "wrong-reader", "{at}: {t:?} reads as {ct:?}, must be {m:?}");
            if let Some(s) = &short {
                check!(s.as_ref() == Some(m), "wrong-reader", "{at}: {t:?} reads as {s:?}, must be {m:?}");
            }
        }
        None => {
            let ok = match &ct {
                Err(e) => e.status() == 400,
                _ => false,
            };
            check!(ok && short.map_or(true, |s| s.is_none()), "malformed-taken", "{at}: {t:?} reads as {ct:?}");
        }
    }
    Ok(got)
}
/// Writes a media type onto a message in one of the ways there are.
fn write(m: &mut Msg, v: &Mime) {
    let extra = |m: &mut Msg| {
        if chance(1, 2) {
            ContentType::from(v.clone()).apply_header(m.as_mut());
        } else {
            m.as_mut().insert(CONTENT_TYPE, v.clone()).unwrap();
        }
    };
    match (choose(5), &mut *m) {
        (0, Msg::Q(q)) => drop(q.set_content_type(v.clone())),
        (0, Msg::R(r)) => drop(r.set_content_type(v.clone())),
        (1, Msg::Q(q)) => {
            q.remove_header(CONTENT_TYPE);
            let mut b = Body::from_string("x".into());
            b.set_mime(Some(v.clone()));
            q.set_body(b);
        }
        (1, Msg::R(r)) => {
            r.remove_header(CONTENT_TYPE);
            let mut b = Body::from_string("x".into());
            b.set_mime(Some(v.clone()));
            r.set_body(b);
        }
        (2, m) => drop(m.as_mut().insert("content-type", HeaderValue::from(v)).unwrap()),
        (3, m) => drop(m.as_mut().insert("Content-Type", v.to_string().as_str()).unwrap()),
        (_, m) => extra(m),
    }
}
fn any() -> (Mime, Said) {
    match choose(8) {
        0 => {
            let k = pick(KNOWN);
            (k.0.clone(), said(k.1).unwrap())
        }
        1 => {
            let k = pick(EXT);
            (Mime::from_extension(k.0).expect("a known extension"), said(k.1).unwrap())
        }
        _ => {
            let s = gen();
            let t = if chance(1, 3) { s.text() } else { spell(&s) };
            match (Mime::from_str(&t), said(&t)) {
                (Ok(m), Some(s)) => (m, s),
                (a, b) => panic!("{t:?} reads as {a:?}, must be {b:?}"),
            }
        }
    }
}
async fn journey(max: u64) -> Res {
    let mut m = match choose(3) {
        0 => Msg::Q(new_req()),
        1 => Msg::R(new_res()),
        _ => Msg::new(),
    };
    let (v, s) = any();
    check(&v, &s, "at the sender")?;
    write(&mut m, &v);
    look(&mut m, "written")?;
    let mut kept: Vec<(Mime, Said)> = vec![(v, s)];
    for hop in 0..range(1, max) {
        let at = format!("node {hop}");
        exec::jitter().await;
        let mut w: Wire = to_wire(m.as_ref());
        if let Some(l) = w.iter_mut().find(|l| l.0 == "content-type") {
            if chance(1, 3) {
                damage(&mut l.1);
            }
        }
        match choose(10) {
            0 => {
                fault("line_repeated");
                let t = spell(&gen());
                w.push(("Content-Type".into(), t));
            }
            1 => {
                fault("line_lost");
                w.retain(|l| l.0 != "content-type");
            }
            2 => {
                fault("line_respelled");
                let t = spell(&kept[choose_usize(kept.len())].1);
                w.retain(|l| l.0 != "content-type");
                w.push((recase("content-type"), t));
            }
            _ => {}
        }
        ev("hop", hop, w.len() as u64);
        m = from_wire(&w);
        let got = look(&mut m, &at)?;
        if let Some((v, s)) = got {
            strip(&v, &s, &at)?;
            for k in &kept {
                compare((&v, &s), (&k.0, &k.1), &at)?;
                compare((&k.0, &k.1), (&v, &s), &at)?;
            }
            compare((&v, &s), (&mime::ANY, &said("*/*").unwrap()), &at)?;
            if chance(1, 2) {
                // a relay that writes what it read
                write(&mut m, &v);
                let again = look(&mut m, "rewritten")?;
                check!(again.as_ref().map(|a| &a.0) == Some(&v), "not-stable", "{at}: {v:?} was written, {again:?} is there");
                probe("rewritten");
            }
            kept.push((v, s));
        }
        if chance(1, 3) {
            let (v, s) = any();
            write(&mut m, &v);
            look(&mut m, "set anew")?;
            kept.push((v, s));
        }
    }
    for (m, s) in &kept {
        check(m, s, "at the end")?;
    }
    Ok(())
}
pub fn c24() -> Res {
    exec::configure();
    competitor();
    let r: Vec<_> = (0..range(1, 2)).map(|_| exec::spawn_res("journey", journey(6)).1).collect();
    exec::run()?;
    exec::teardown();
    for r in r {
        if let Some(Err(v)) = r.borrow_mut().take() {
            return Err(v);
        }
    }
    Ok(())
}
