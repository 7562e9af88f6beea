//! C22: what is negotiated does not depend on who negotiates, how often, or how
//! the request's lines travelled.
use super::body::competitor;
use super::nodes::Msg;
use crate::engine::*;
use crate::exec;
use http_types::content::{Accept, AcceptEncoding, ContentType, Encoding, EncodingProposal, MediaTypeProposal};
use http_types::headers::Header;
use http_types::mime::Mime;
use http_types::transfer::{Encoding as TEncoding, EncodingProposal as TProposal, TE};
use std::str::FromStr;

/// One member of a list: what it covers, and its weight in thousandths.
#[derive(Clone, Debug, PartialEq)]
struct Member {
    what: String,
    q: Option<u64>,
}
/// The header as the client meant it: members in order, over its lines.
type Lines = Vec<Vec<Member>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Media,
    Content,
    Transfer,
}
const MEDIA: &[&str] = &["text/html", "text/plain", "text/css", "text/html;level=1", "text/html;level=2", "text/html;level=1;v=2", "application/json", "image/png", "image/svg+xml", "text/html;charset=utf-8", "text/plain;charset=utf-8"];
const RANGES: &[&str] = &["*/*", "text/*", "image/*", "application/*"];
const CODINGS: &[&str] = &["gzip", "deflate", "br", "zstd", "identity"];
const TCODINGS: &[&str] = &["gzip", "deflate", "br", "zstd", "identity", "chunked"];
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Kind::Media => "accept",
            Kind::Content => "accept-encoding",
            Kind::Transfer => "te",
        }
    }
    fn pool(self) -> &'static [&'static str] {
        match self {
            Kind::Media => MEDIA,
            Kind::Content => CODINGS,
            Kind::Transfer => TCODINGS,
        }
    }
    /// How closely `what` covers `have`, if it does.
    fn covers(self, what: &str, have: &str) -> Option<usize> {
        if self != Kind::Media {
            return (what == have).then_some(1);
        }
        if what == "*/*" {
            return Some(0);
        }
        let (ht, hp) = have.split_once(';').unwrap_or((have, ""));
        if let Some(base) = what.strip_suffix("/*") {
            return (ht.split('/').next() == Some(base)).then_some(1);
        }
        let (wt, wp) = what.split_once(';').unwrap_or((what, ""));
        let hp: Vec<&str> = hp.split(';').filter(|p| !p.is_empty()).collect();
        let wp: Vec<&str> = wp.split(';').filter(|p| !p.is_empty()).collect();
        (wt == ht && wp.iter().all(|p| hp.contains(p))).then_some(2 + wp.len())
    }
    /// The weight a member counts with: this library ranks codings without a
    /// weight below those with one; media types without one weigh 1.
    fn rank(self, m: &Member) -> i64 {
        match (m.q, self) {
            (Some(q), _) => q as i64,
            (None, Kind::Media) => 1000,
            (None, _) => -1,
        }
    }
}
/// The reference: which of `have` the request wants most. `Err` if it wants none.
fn choice(k: Kind, ms: &[Member], have: &[&str]) -> Result<String, ()> {
    let mut best: Option<((i64, usize), &str)> = None;
    let mut open = vec![];
    for h in have {
        let mut by: Option<(usize, i64, usize)> = None;
        for (i, m) in ms.iter().enumerate().filter(|(_, m)| m.what != "*") {
            if let Some(c) = k.covers(&m.what, h) {
                by = by.max(Some((c, k.rank(m), i)));
            }
        }
        match by {
            None => open.push(*h),
            Some((_, 0, _)) => {}
            // later members win ties; then the server's order counts
            Some((_, r, i)) => {
                if best.map_or(true, |b| (r, i) > b.0) {
                    best = Some(((r, i), h));
                }
            }
        }
    }
    if let Some(b) = best {
        return Ok(b.1.to_string());
    }
    if ms.iter().any(|m| m.what == "*" && m.q != Some(0)) {
        if let Some(h) = open.first() {
            return Ok(h.to_string());
        }
    }
    Err(())
}
fn weight() -> Option<u64> {
    match choose(6) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(1000),
        4 => Some(*pick(&[100, 500, 500, 999, 1])),
        _ => Some(choose(1001)),
    }
}
fn gen(k: Kind) -> Vec<Member> {
    let mut v: Vec<Member> = vec![];
    let mut star = false;
    // long lists hold many members that weigh the same
    let long = chance(1, 12);
    for _ in 0..if long { 21 + choose(40) } else { choose(7) } {
        if chance(1, 8) {
            if !star {
                star = true;
                v.push(Member { what: "*".into(), q: if chance(1, 2) { None } else { weight() } });
            }
            continue;
        }
        let what = if k == Kind::Media && chance(1, 3) { pick(RANGES).to_string() } else { pick(k.pool()).to_string() };
        let q = if long { *pick(&[None, None, Some(500), Some(500), Some(300), Some(1000)]) } else { weight() };
        // a list that says of one thing both what it weighs and that it is refused says nothing
        if v.iter().any(|m| m.what == what && (m.q == Some(0)) != (q == Some(0))) {
            continue;
        }
        v.push(Member { what, q });
    }
    v
}
fn rnd_case(s: &str) -> String {
    if chance(1, 5) {
        super::multimap::recase(s)
    } else {
        s.into()
    }
}
fn ows() -> &'static str {
    pick(&["", "", "", " ", "\t", "  "])
}
/// One line as any implementation may write it.
fn spell(k: Kind, ms: &[Member]) -> String {
    let mut out = String::new();
    for (i, m) in ms.iter().enumerate() {
        if i > 0 {
            out += ows();
            out += ",";
            if chance(1, 10) {
                out += " ,";
            }
            out += ows();
            if k != Kind::Media && chance(1, 12) {
                // codings nobody here knows offer nothing and refuse nothing
                out += pick(&["exi", "x-own;q=0.7", "aes128gcm; Q=1", "pack200-gzip;q=0", "x*", "gzip2", "x-br;q=1.0"]);
                out += ",";
                probe("unknown_coding");
            }
        }
        // parameter values keep their case
        let what = match (k, m.what.split_once(';')) {
            (Kind::Media, Some((t, p))) => format!("{};{}", rnd_case(t), p),
            _ => rnd_case(&m.what),
        };
        out += &what;
        if let Some(q) = m.q {
            let mut t = match q {
                1000 => pick(&["1", "1.0", "1.000"]).to_string(),
                0 => pick(&["0", "0.0", "0.000"]).to_string(),
                q => format!("0.{q:03}"),
            };
            if q != 0 && q != 1000 && chance(1, 2) {
                t = t.trim_end_matches('0').into();
            }
            out += &format!("{}{};{}{}={t}", "", ows(), ows(), pick(&["q", "q", "Q"]));
        }
    }
    out
}
fn q(m: &Member) -> Option<f32> {
    m.q.map(|q| q as f32 / 1000.0)
}
fn cenc(s: &str) -> Encoding {
    match s {
        "gzip" => Encoding::Gzip,
        "deflate" => Encoding::Deflate,
        "br" => Encoding::Brotli,
        "zstd" => Encoding::Zstd,
        _ => Encoding::Identity,
    }
}
fn tenc(s: &str) -> TEncoding {
    match s {
        "gzip" => TEncoding::Gzip,
        "deflate" => TEncoding::Deflate,
        "br" => TEncoding::Brotli,
        "zstd" => TEncoding::Zstd,
        "chunked" => TEncoding::Chunked,
        _ => TEncoding::Identity,
    }
}
enum Typed {
    A(Accept),
    C(AcceptEncoding),
    T(TE),
}
use Typed::*;
impl Typed {
    fn read(k: Kind, m: &Msg) -> http_types::Result<Option<Typed>> {
        Ok(match k {
            Kind::Media => Accept::from_headers(m)?.map(A),
            Kind::Content => AcceptEncoding::from_headers(m)?.map(C),
            Kind::Transfer => TE::from_headers(m)?.map(T),
        })
    }
    /// Built by the library's own calls; `None` if it has no call for a member.
    fn build(k: Kind, ms: &[Member]) -> Option<Typed> {
        if ms.iter().any(|m| m.what == "*" && m.q.is_some()) {
            return None;
        }
        let star = ms.iter().any(|m| m.what == "*");
        let rest = ms.iter().filter(|m| m.what != "*");
        Some(match k {
            Kind::Media => {
                let mut a = Accept::new();
                a.set_wildcard(star);
                for m in rest {
                    let t = Mime::from_str(&m.what).expect("a media range");
                    match m.q {
                        None if chance(1, 2) => a.push(t),
                        _ => a.push(MediaTypeProposal::new(t, q(m)).expect("a weight")),
                    }
                }
                A(a)
            }
            Kind::Content => {
                let mut a = AcceptEncoding::new();
                a.set_wildcard(star);
                for m in rest {
                    match m.q {
                        None if chance(1, 2) => a.push(cenc(&m.what)),
                        _ => a.push(EncodingProposal::new(cenc(&m.what), q(m)).expect("a weight")),
                    }
                }
                C(a)
            }
            Kind::Transfer => {
                let mut a = TE::new();
                a.set_wildcard(star);
                for m in rest {
                    match m.q {
                        None if chance(1, 2) => a.push(tenc(&m.what)),
                        _ => a.push(TProposal::new(tenc(&m.what), q(m)).expect("a weight")),
                    }
                }
                T(a)
            }
        })
    }
    fn line(&self) -> String {
        match self {
            A(a) => a.header_value(),
            C(a) => a.header_value(),
            T(a) => a.header_value(),
        }
        .to_string()
    }
    fn sort(&mut self) {
        match self {
            A(a) => a.sort(),
            C(a) => a.sort(),
            T(a) => a.sort(),
        }
    }
    fn weights(&self) -> Vec<Option<f32>> {
        match self {
            A(a) => a.iter().map(|p| Some(p.weight().unwrap_or(1.0))).collect(),
            C(a) => a.iter().map(|p| p.weight()).collect(),
            T(a) => a.iter().map(|p| p.weight()).collect(),
        }
    }
    fn negotiate(&mut self, have: &[&str]) -> http_types::Result<String> {
        match self {
            A(a) => {
                let have: Vec<Mime> = have.iter().map(|h| Mime::from_str(h).unwrap()).collect();
                let c: ContentType = a.negotiate(&have)?;
                Ok(c.header_value().to_string())
            }
            C(a) => {
                let have: Vec<Encoding> = have.iter().map(|h| cenc(h)).collect();
                Ok(a.negotiate(&have)?.header_value().to_string())
            }
            T(a) => {
                let have: Vec<TEncoding> = have.iter().map(|h| tenc(h)).collect();
                Ok(a.negotiate(&have)?.header_value().to_string())
            }
        }
    }
}
/// Any node negotiates with what it has, once or several times.
fn look(k: Kind, t: &mut Typed, ms: &[Member], at: &str) -> Res {
    for n in 0..range(1, 3) {
        let mut have: Vec<&str> = vec![];
        for _ in 0..choose(5) {
            let h = *pick(k.pool());
            // what everyone accepts without saying so is offered only if spoken of
            let silent = k != Kind::Media && ["identity", "chunked"].contains(&h) && !ms.iter().any(|m| m.what == h);
            if !silent && !have.contains(&h) {
                have.push(h);
            }
        }
        let want = choice(k, ms, &have);
        for again in 0..range(1, 3) {
            let got = t.negotiate(&have);
            ev("negotiated", n, again);
            match (&got, &want) {
                (Ok(g), Ok(w)) => check!(g == w, "wrong-choice", "{at}: of {have:?} {g} was chosen (try {again}), must be {w}, for {ms:?}"),
                (Err(e), Err(())) => check!(e.status() == 406, "wrong-status", "{at}: nothing of {have:?} is acceptable, status {} ({ms:?})", e.status()),
                (Ok(g), Err(())) => return viol("unacceptable-chosen", format!("{at}: of {have:?} {g} was chosen (try {again}), nothing is acceptable by {ms:?}")),
                (Err(e), Ok(w)) => return viol("acceptable-refused", format!("{at}: of {have:?} nothing was chosen ({e}, try {again}), must be {w}, for {ms:?}")),
            }
        }
        probe(if want.is_ok() { "chosen" } else { "none_acceptable" });
    }
    Ok(())
}
async fn client(k: Kind) -> Res {
    let ms = gen(k);
    let mut lines: Lines = vec![];
    let mut wire: Vec<String> = vec![];
    note(|| format!("{k:?} {ms:?}"));
    // The client writes the header its own way.
    match Typed::build(k, &ms) {
        Some(mut t) if chance(1, 2) => {
            let mut l: Vec<Member> = ms.iter().filter(|m| m.what != "*").cloned().collect();
            l.extend(ms.iter().filter(|m| m.what == "*").cloned());
            look(k, &mut t, &l, "at the client")?;
            wire.push(t.line());
            lines.push(l);
        }
        _ => {
            let mut rest = &ms[..];
            while !rest.is_empty() {
                let (a, b) = rest.split_at(range(1, rest.len() as u64) as usize);
                wire.push(spell(k, a));
                lines.push(a.to_vec());
                rest = b;
            }
        }
    }
    for hop in 0..range(1, 4) {
        // The network.
        for _ in 0..choose(3) {
            if wire.is_empty() {
                break;
            }
            let i = choose_usize(wire.len());
            match choose(3) {
                0 if chance(1, 3) => {
                    wire.remove(i);
                    lines.remove(i);
                    fault("line_lost");
                }
                1 if i + 1 < wire.len() => {
                    let b = wire.remove(i + 1);
                    wire[i] = format!("{}{}{b}", wire[i], pick(&[",", ", ", " , "]));
                    let b = lines.remove(i + 1);
                    lines[i].extend(b);
                    fault("lines_joined");
                }
                2 if lines[i].len() > 1 && !wire[i].contains('"') => {
                    // split between two members
                    let parts: Vec<&str> = wire[i].split(',').filter(|p| !p.trim().is_empty()).collect();
                    if parts.len() == lines[i].len() {
                        let c = range(1, parts.len() as u64 - 1) as usize;
                        let (a, b) = (parts[..c].join(","), parts[c..].join(","));
                        let tail = lines[i].split_off(c);
                        wire[i] = a;
                        wire.insert(i + 1, b);
                        lines.insert(i + 1, tail);
                        fault("line_split");
                    }
                }
                _ => {}
            }
        }
        exec::jitter().await;
        // The next node: a relay, or the server.
        let mut m = Msg::new();
        for l in &wire {
            if m.as_mut().append(k.name(), l.as_str()).is_err() {
                return viol("refused", format!("the line {l:?} was refused"));
            }
        }
        let all: Vec<Member> = lines.iter().flatten().cloned().collect();
        let at = format!("node {hop}");
        let read = match Typed::read(k, &m) {
            Ok(r) => r,
            Err(e) => return viol("unreadable", format!("{at}: {wire:?} cannot be read: {e}")),
        };
        check!(read.is_some() == !wire.is_empty(), "presence", "{at}: {} lines read as present: {}", wire.len(), read.is_some());
        if let Some(mut t) = read {
            if chance(1, 4) {
                // ordering shows the weights in falling order
                let mut t = Typed::read(k, &m).unwrap().unwrap();
                let mut want: Vec<i64> = all.iter().filter(|m| m.what != "*").map(|m| k.rank(m)).collect();
                want.sort_by(|a, b| b.cmp(a));
                t.sort();
                let got: Vec<i64> = t.weights().into_iter().map(|w| w.map_or(-1, |w| (w * 1000.0).round() as i64)).collect();
                check!(got == want, "wrong-order", "{at}: sorted, the weights are {got:?}, must be {want:?}");
            }
            look(k, &mut t, &all, &at)?;
            if chance(1, 3) {
                // rewritten by its type, whether or not this node has negotiated
                let mut l: Vec<Member> = all.iter().filter(|m| m.what != "*").cloned().collect();
                l.extend(all.iter().filter(|m| m.what == "*" && m.q != Some(0)).map(|m| Member { what: m.what.clone(), q: None }));
                wire = vec![t.line()];
                lines = vec![l];
                probe("rewritten");
            }
        }
    }
    Ok(())
}
pub fn c22() -> Res {
    exec::configure();
    competitor();
    exec::run_root(async {
        for _ in 0..range(1, 3) {
            client(*pick(&[Kind::Media, Kind::Content, Kind::Transfer])).await?;
        }
        Ok(())
    })
}
