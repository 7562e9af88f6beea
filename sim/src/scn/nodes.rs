//! C11 clocks, C12 trace contexts: small networks of nodes exchanging messages.
use super::body::{competitor, new_req, new_res};
use crate::engine::*;
use crate::exec;
use crate::sys;
use http_types::cache::{Age, Expires};
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers::{Header, Headers};
use http_types::other::{Date, RetryAfter};
use http_types::trace::TraceContext;
use http_types::{Request, Response};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// A message in any of the shapes that carry headers.
pub enum Msg {
    H(Headers),
    Q(Request),
    R(Response),
}
impl Msg {
    pub fn new() -> Msg {
        match choose(3) {
            0 => Msg::R(new_res()),
            1 => Msg::Q(new_req()),
            _ => Msg::H(Response::new(200).as_ref().clone()),
        }
    }
}
impl AsRef<Headers> for Msg {
    fn as_ref(&self) -> &Headers {
        match self {
            Msg::H(h) => h,
            Msg::Q(q) => q.as_ref(),
            Msg::R(r) => r.as_ref(),
        }
    }
}
impl AsMut<Headers> for Msg {
    fn as_mut(&mut self) -> &mut Headers {
        match self {
            Msg::H(h) => h,
            Msg::Q(q) => q.as_mut(),
            Msg::R(r) => r.as_mut(),
        }
    }
}
/// Header lines as they go over the wire (order between names is not kept).
pub type Wire = Vec<(String, String)>;
pub fn to_wire(h: &Headers) -> Wire {
    let mut w: Wire = Vec::new();
    for (n, vs) in h.iter() {
        for v in vs.iter() {
            w.push((n.as_str().to_string(), v.as_str().to_string()));
        }
    }
    w.sort_by(|a, b| a.0.cmp(&b.0)); // stable: values of one name keep their order
    w
}
pub fn from_wire(w: &[(String, String)]) -> Msg {
    let mut m = Msg::new();
    for (n, v) in w {
        m.as_mut().append(n.as_str(), v.as_str()).expect("ASCII header line");
    }
    m
}

// ---- C11 -------------------------------------------------------------------------
const MAX_SEC: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z
/// Civil date from days since 1970-01-01 (proleptic Gregorian, era arithmetic).
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
const DAY: [&str; 7] = ["Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"];
const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Imf,
    Rfc850,
    Asctime,
}
fn render(sec: i64, form: Form) -> String {
    let (y, m, d) = civil(sec.div_euclid(86_400));
    let wd = DAY[sec.div_euclid(86_400).rem_euclid(7) as usize];
    let mon = MON[m as usize - 1];
    let t = sec.rem_euclid(86_400);
    let hms = format!("{:02}:{:02}:{:02}", t / 3600, t / 60 % 60, t % 60);
    match form {
        Form::Imf => format!("{}, {d:02} {mon} {y:04} {hms} GMT", &wd[..3]),
        Form::Rfc850 => format!("{wd}, {d:02}-{mon}-{:02} {hms} GMT", y % 100),
        Form::Asctime => format!("{} {mon} {d:>2} {hms} {y:04}", &wd[..3]),
    }
}
/// What a damaged text says.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Says {
    This(i64),
    /// this, or nothing: readers differ (leap seconds, signs, the name of another day)
    Perhaps(i64),
    Nothing,
}
fn month_len(y: i64, m: usize) -> i64 {
    match m {
        1 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        1 => 28,
        3 | 5 | 8 | 10 => 30,
        _ => 31,
    }
}
fn says(text: &str) -> Says {
    let b = text.trim().as_bytes();
    let mut loose = false;
    let mut num = |t: &[u8]| -> Option<i64> {
        let t = match t.strip_prefix(b"+") {
            Some(r) if !r.is_empty() => {
                loose = true;
                r
            }
            _ => t,
        };
        if t.is_empty() || !t.iter().all(u8::is_ascii_digit) {
            return None;
        }
        std::str::from_utf8(t).ok()?.parse().ok()
    };
    let mon = |t: &[u8]| MON.iter().position(|m| m.as_bytes() == t);
    // (day of the week, year, month, day, time)
    let mut fields = || -> Option<(usize, i64, usize, i64, [u8; 8])> {
        let time = |t: &[u8]| -> [u8; 8] { t.try_into().unwrap() };
        let short = |t: &[u8]| DAY.iter().position(|d| d.as_bytes()[..3] == *t);
        if b.len() == 29 && &b[3..5] == b", " && b[7] == b' ' && b[11] == b' ' && b[16] == b' ' && &b[25..] == b" GMT" {
            return Some((short(&b[..3])?, num(&b[12..16])?, mon(&b[8..11])?, num(&b[5..7])?, time(&b[17..25])));
        }
        if b.len() == 24 && b[3] == b' ' && b[7] == b' ' && b[10] == b' ' && b[19] == b' ' {
            let d = if b[8] == b' ' { &b[9..10] } else { &b[8..10] };
            return Some((short(&b[..3])?, num(&b[20..])?, mon(&b[4..7])?, num(d)?, time(&b[11..19])));
        }
        let comma = b.iter().position(|c| *c == b',')?;
        let wd = DAY.iter().position(|d| d.as_bytes() == &b[..comma])?;
        let b = &b[comma + 1..];
        if b.len() == 23 && b[0] == b' ' && b[3] == b'-' && b[7] == b'-' && b[10] == b' ' && &b[19..] == b" GMT" {
            let y = num(&b[8..10])?;
            return Some((wd, if y < 70 { 2000 + y } else { 1900 + y }, mon(&b[4..7])?, num(&b[1..3])?, time(&b[11..19])));
        }
        None
    };
    let Some((wd, y, m, d, t)) = fields() else { return Says::Nothing };
    if t[2] != b':' || t[5] != b':' {
        return Says::Nothing;
    }
    let (Some(h), Some(mi), Some(s)) = (num(&t[..2]), num(&t[3..5]), num(&t[6..])) else { return Says::Nothing };
    if h > 23 || mi > 59 || s > 60 || d < 1 || d > month_len(y, m) || !(1970..=9999).contains(&y) {
        return Says::Nothing;
    }
    let days: i64 = (1970..y).map(|y| 337 + month_len(y, 1)).sum::<i64>() + (0..m).map(|m| month_len(y, m)).sum::<i64>() + d - 1;
    let sec = days * 86_400 + h * 3600 + mi * 60 + s;
    if loose || s == 60 || days.rem_euclid(7) as usize != wd {
        Says::Perhaps(sec)
    } else {
        Says::This(sec)
    }
}
/// Damage on the way, often of the kind that leaves a text looking like a date.
fn damage_date(v: &str) -> String {
    let mut t: Vec<char> = v.chars().collect();
    match choose(6) {
        0 => {
            let i = choose_usize(t.len());
            t[i] = *pick(&['0', '1', '3', '6', '9', ' ', '+', '-', ':', 'x', 'J', 'n']);
        }
        1 => t.truncate(choose_usize(t.len())),
        2 => {
            let i = choose_usize(t.len());
            t.remove(i);
        }
        3 => {
            let i = choose_usize(t.len() + 1);
            t.insert(i, *pick(&['0', '9', ' ', ',', ':', 'G']));
        }
        4 => {
            let ds: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_digit()).collect();
            let i = *pick(&ds);
            t[i] = (b'0' + choose(10) as u8) as char;
        }
        _ => {
            // one field, anything it has room for
            let s = v.to_string();
            if chance(1, 4) {
                // another year, also outside those a date can have
                let at = if v.ends_with("GMT") { v.len().checked_sub(17) } else { v.len().checked_sub(4) };
                if let Some(at) = at.filter(|at| v.len() > 23 && v.as_bytes()[*at..at + 4].iter().all(u8::is_ascii_digit)) {
                    return format!("{}{}{}", &v[..at], pick(&["1969", "1968", "0000", "1601", "1900", "9999", "2000", "2100"]), &v[at + 4..]);
                }
            }
            let (from, to) = *pick(&[(" Feb ", " Jun "), ("Jan", "Feb"), ("-Mar-", "-Feb-"), ("Oct", "Nov"), ("GMT", "UTC"), (" 31", " 32"), (" 0", " 3"), (":5", ":6"), (":0", ":6"), (" 1", " 2"), (":1", ":9"), ("19", "15")]);
            return s.replacen(from, to, 1);
        }
    }
    t.into_iter().collect()
}
fn gen_instant() -> i64 {
    match weighted(&[4, 3, 3, 1, 2]) {
        0 => 1_600_000_000 + choose(200_000_000) as i64,
        1 => choose(MAX_SEC as u64 + 1) as i64,
        2 => {
            // around turns of day, month and year, leap days included
            let day = *pick(&[0i64, 59, 365, 789, 10_956, 11_016, 11_017, 11_322, 19_782, 24_836, 24_855, 36_525, 47_540, 47_541, 49_709, 84_006, 157_113, 2_932_896, 2_932_895]);
            (day * 86_400 + *pick(&[0i64, 1, 59, 3_599, 3_600, 86_399]) - *pick(&[0i64, 1])).clamp(0, MAX_SEC)
        }
        3 => *pick(&[0i64, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, MAX_SEC - 1, MAX_SEC]),
        _ => {
            let era = choose(20) as i64 * 146_097;
            ((era + choose(146_097) as i64 - 5_000).max(0) * 86_400 + choose(86_400) as i64).clamp(0, MAX_SEC)
        }
    }
}
struct Clk {
    base: Cell<i64>,
    ns: i64,
    ppm: i64,
    tick: i64,
}
impl Clk {
    fn draw() -> Clk {
        Clk { base: Cell::new(gen_instant().clamp(1000, MAX_SEC - 100_000)), ns: choose(1_000_000_000) as i64, ppm: *pick(&[0i64, 0, -200, 500, 100_000]), tick: *pick(&[0i64, 0, 1, 700_000_000]) }
    }
    /// Makes this node's clock the visible one; a clock may also jump.
    fn enter(&self) {
        if chance(1, 12) {
            let j = *pick(&[-1i64, 1, -3_600, 3_600, -86_400 * 400, 86_400 * 400, -37, 2]);
            self.base.set((self.base.get() + j).clamp(1000, MAX_SEC - 100_000));
            fault("clock_jump");
            ev("clock_jump", j as u64, 0);
        }
        let us = now_us() as i64;
        let us = us + us * self.ppm / 1_000_000;
        let n = self.ns + (us % 1_000_000) * 1000;
        sys::clock_set(self.base.get() + us / 1_000_000 + n / 1_000_000_000, n % 1_000_000_000);
        sys::clock_tick(self.tick);
    }
}
fn at(sec: i64) -> SystemTime {
    UNIX_EPOCH + Duration::from_secs(sec as u64)
}
fn now_exact() -> SystemTime {
    let (s, n) = sys::clock_peek();
    UNIX_EPOCH + Duration::new(s as u64, n as u32)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    DateNow,
    DateAt,
    ExpiresIn,
    ExpiresAt,
    RetryIn,
    RetryAt,
    LastModified,
    IfModified,
    IfUnmodified,
    Age,
}
const KINDS: &[Kind] = &[Kind::DateNow, Kind::DateAt, Kind::ExpiresIn, Kind::ExpiresAt, Kind::RetryIn, Kind::RetryAt, Kind::LastModified, Kind::IfModified, Kind::IfUnmodified, Kind::Age];
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Kind::DateNow | Kind::DateAt => "date",
            Kind::ExpiresIn | Kind::ExpiresAt => "expires",
            Kind::RetryIn | Kind::RetryAt => "retry-after",
            Kind::LastModified => "last-modified",
            Kind::IfModified => "if-modified-since",
            Kind::IfUnmodified => "if-unmodified-since",
            Kind::Age => "age",
        }
    }
}
struct Letter {
    kind: Kind,
    wire: Wire,
    /// allowed instants (seconds), or the delay for relative values
    lo: i64,
    hi: i64,
    form: Form,
    /// damaged on the way: what the text says now
    says: Option<Says>,
}
fn send(kind: Kind, clk: &Clk) -> Result<Option<Letter>, Violation> {
    clk.enter();
    let mut m = Msg::new();
    let before = now_exact();
    let sub = if chance(1, 2) { choose(1_000_000_000) as u32 } else { 0 };
    let inst = gen_instant();
    let room = MAX_SEC - sys::clock_peek().0 - 10;
    let dur = match weighted(&[4, 2, 1]) {
        0 => choose(100_000),
        1 => choose(room.max(1) as u64),
        _ => 0,
    };
    let dur = dur.min(room.max(0) as u64);
    let d = Duration::new(dur, sub);
    let t = at(inst) + Duration::from_nanos(sub as u64);
    let secs = |t: SystemTime| t.duration_since(UNIX_EPOCH).unwrap().as_secs() as i64;
    // (made now, written later: the clock moves or jumps in between)
    enum V {
        D(Date),
        E(Expires),
        R(RetryAfter),
        L(LastModified),
        M(IfModifiedSince),
        U(IfUnmodifiedSince),
        A(Age),
    }
    let (v, lo, hi) = match kind {
        Kind::DateNow => {
            let v = Date::now();
            (V::D(v), secs(before), secs(now_exact()))
        }
        Kind::DateAt => (V::D(if chance(1, 2) { Date::new(t) } else { Date::from(t) }), inst, inst),
        Kind::ExpiresIn => {
            let v = Expires::new(d);
            let (a, b) = (before + d, now_exact() + d);
            check!(v.expiration() >= a && v.expiration() <= b, "wrong-instant", "expiry made for {d:?} from now is not between {a:?} and {b:?}: {:?}", v.expiration());
            (V::E(v), secs(a), secs(b))
        }
        Kind::ExpiresAt => {
            let v = Expires::new_at(t);
            check!(v.expiration() == t, "wrong-instant", "expiry made for {t:?} says {:?}", v.expiration());
            (V::E(v), inst, inst)
        }
        Kind::RetryIn => (V::R(RetryAfter::new(d)), dur as i64, dur as i64),
        Kind::RetryAt => (V::R(RetryAfter::new_at(t)), inst, inst),
        Kind::LastModified => {
            let v = LastModified::new(t);
            check!(v.modified() == t, "wrong-instant", "made for {t:?}, says {:?}", v.modified());
            (V::L(v), inst, inst)
        }
        Kind::IfModified => (V::M(IfModifiedSince::new(t)), inst, inst),
        Kind::IfUnmodified => (V::U(IfUnmodifiedSince::new(t)), inst, inst),
        Kind::Age => {
            let big = if chance(1, 8) { choose(i64::MAX as u64) } else { dur };
            (V::A(if chance(1, 2) { Age::new(Duration::new(big, sub)) } else { Age::from_secs(big) }), big as i64, big as i64)
        }
    };
    advance_us(*pick(&[0u64, 1, 1_000_000, 5_000_000]));
    clk.enter();
    fn put<H: Header>(m: &mut Msg, h: H) {
        match choose(3) {
            0 => h.apply_header(m.as_mut()),
            1 => {
                m.as_mut().insert(h.header_name(), h.header_value()).unwrap();
            }
            _ => {
                m.as_mut().append(h.header_name(), h.header_value()).unwrap();
            }
        }
    }
    match v {
        V::D(v) => put(&mut m, v),
        V::E(v) => put(&mut m, v),
        V::R(v) => put(&mut m, v),
        V::L(v) => put(&mut m, v),
        V::M(v) => put(&mut m, v),
        V::U(v) => put(&mut m, v),
        V::A(v) => put(&mut m, v),
    }
    let mut wire = to_wire(m.as_ref());
    let lines: Vec<&mut (String, String)> = wire.iter_mut().filter(|l| l.0 == kind.name()).collect();
    check!(lines.len() == 1, "wrong-header", "{kind:?} wrote {} lines named {}", lines.len(), kind.name());
    let mut form = Form::Imf;
    for l in lines {
        let ok = match kind {
            Kind::RetryIn | Kind::Age => l.1 == lo.to_string(),
            _ => (lo..=hi).any(|t| l.1 == render(t, Form::Imf)),
        };
        check!(ok, "wrong-text", "{kind:?} for {lo}..{hi} ({} .. {}) reads {:?}", render(lo.clamp(0, MAX_SEC), Form::Imf), render(hi.clamp(0, MAX_SEC), Form::Imf), l.1);
        // an old intermediary writes dates in an old form
        if !matches!(kind, Kind::RetryIn | Kind::Age) && lo == hi && chance(1, 4) {
            form = *pick(&[Form::Asctime, Form::Rfc850]);
            let y = civil(lo.div_euclid(86_400)).0;
            if form == Form::Rfc850 && !(1970..2070).contains(&y) {
                form = Form::Asctime;
            }
            l.1 = render(lo, form);
            fault("date_form_rewritten");
        }
    }
    let mut now_says = None;
    if !matches!(kind, Kind::RetryIn | Kind::Age) && chance(1, 6) {
        for l in wire.iter_mut().filter(|l| l.0 == kind.name()) {
            let t = damage_date(&l.1);
            if t != l.1 {
                fault("date_damaged");
                l.1 = t;
            }
            now_says = Some(says(&l.1));
        }
    }
    // the network may deliver a line twice
    if chance(1, 10) {
        let l = wire.iter().find(|l| l.0 == kind.name()).unwrap().clone();
        wire.push(l);
        fault("line_duplicated");
    }
    Ok(Some(Letter { kind, wire, lo, hi, form, says: now_says }))
}
#[derive(Default)]
struct Seen {
    expires: Vec<(i64, Expires)>,
    modified: Vec<(i64, LastModified)>,
}
fn receive(l: &Letter, clk: &Clk, seen: &mut Seen) -> Res {
    clk.enter();
    let m = from_wire(&l.wire);
    if let Some(w) = l.says {
        let got: http_types::Result<Option<SystemTime>> = match l.kind {
            Kind::DateNow | Kind::DateAt => Date::from_headers(&m).map(|v| v.map(|v| v.into())),
            Kind::ExpiresIn | Kind::ExpiresAt => Expires::from_headers(&m).map(|v| v.map(|v| v.expiration())),
            Kind::LastModified => LastModified::from_headers(&m).map(|v| v.map(|v| v.modified())),
            Kind::IfModified => IfModifiedSince::from_headers(&m).map(|v| v.map(|v| v.modified())),
            Kind::IfUnmodified => IfUnmodifiedSince::from_headers(&m).map(|v| v.map(|v| v.modified())),
            _ => RetryAfter::from_headers(&m).map(|v| v.map(|v| v.into())),
        };
        let line = l.wire.iter().find(|x| x.0 == l.kind.name()).map(|x| &x.1);
        return match (w, got) {
            (Says::This(s) | Says::Perhaps(s), Ok(Some(t))) => {
                check!(t == at(s), "wrong-instant", "{:?} damaged to {line:?} reads as {t:?}, it says {s}", l.kind);
                probe("damaged_read");
                Ok(())
            }
            (Says::This(s), g) => viol("unreadable", format!("{:?} {line:?} says {s} and reads as {g:?}", l.kind)),
            (Says::Nothing, Ok(Some(t))) => viol("wrong-instant", format!("{:?} damaged to {line:?} says nothing and reads as {t:?}", l.kind)),
            (_, Err(e)) => {
                check!(e.status() == 400, "wrong-status", "{:?} damaged to {line:?} is refused with {}", l.kind, e.status());
                probe("damaged_refused");
                Ok(())
            }
            (_, Ok(None)) => Ok(()),
        };
    }
    let fail = |e: http_types::Error| Violation { class: "unreadable".into(), msg: format!("{:?} sent as {:?} cannot be read: {e:?}", l.kind, l.wire) };
    let missing = || Violation { class: "unreadable".into(), msg: format!("{:?} sent as {:?} reads as absent", l.kind, l.wire) };
    let okay = |t: SystemTime| -> Result<i64, Violation> {
        let d = t.duration_since(UNIX_EPOCH).map_err(|_| Violation { class: "wrong-instant".into(), msg: "before 1970".into() })?;
        let s = d.as_secs() as i64;
        check!(d.subsec_nanos() == 0 && s >= l.lo && s <= l.hi, "wrong-instant", "{:?} ({:?}) sent for {}..{} reads back as {d:?}", l.kind, l.form, l.lo, l.hi);
        Ok(s)
    };
    match l.kind {
        Kind::DateNow | Kind::DateAt => {
            let v = Date::from_headers(&m).map_err(fail)?.ok_or_else(missing)?;
            let text = v.header_value();
            let t: SystemTime = v.into();
            let s = okay(t)?;
            check!(Date::from(t) == at(s) && !(Date::from(t) == at(s) + Duration::from_secs(1)), "wrong-instant", "a date does not compare equal to its own instant");
            check!(text.as_str() == render(s, Form::Imf), "wrong-text", "forwarding {:?} writes {:?}", l.wire, text.as_str());
        }
        Kind::ExpiresIn | Kind::ExpiresAt => {
            let v = Expires::from_headers(&m).map_err(fail)?.ok_or_else(missing)?;
            let s = okay(v.expiration())?;
            for (o, w) in &seen.expires {
                check!(v.cmp(w) == s.cmp(o), "wrong-order", "expiry {s} against {o} compares as {:?}", v.cmp(w));
            }
            seen.expires.push((s, v));
        }
        Kind::LastModified => {
            let v = LastModified::from_headers(&m).map_err(fail)?.ok_or_else(missing)?;
            let s = okay(v.modified())?;
            for (o, w) in &seen.modified {
                check!(v.cmp(w) == s.cmp(o), "wrong-order", "instant {s} against {o} compares as {:?}", v.cmp(w));
            }
            check!(v.header_value().as_str() == render(s, Form::Imf), "wrong-text", "forwarding {:?} writes {:?}", l.wire, v.header_value());
            seen.modified.push((s, v));
        }
        Kind::IfModified => {
            okay(IfModifiedSince::from_headers(&m).map_err(fail)?.ok_or_else(missing)?.modified())?;
        }
        Kind::IfUnmodified => {
            okay(IfUnmodifiedSince::from_headers(&m).map_err(fail)?.ok_or_else(missing)?.modified())?;
        }
        Kind::Age => {
            let v = Age::from_headers(&m).map_err(fail)?.ok_or_else(missing)?;
            check!(v.duration() == Duration::from_secs(l.lo as u64), "wrong-instant", "age of {} s reads back as {:?}", l.lo, v.duration());
        }
        Kind::RetryAt | Kind::RetryIn => {
            let v = RetryAfter::from_headers(&m).map_err(fail)?.ok_or_else(missing)?;
            for _ in 0..range(1, 3) {
                // asked about at different moments
                advance_us(choose(3_000_000));
                clk.enter();
                let before = now_exact();
                if sys::clock_peek().0 + l.lo > MAX_SEC && l.kind == Kind::RetryIn {
                    continue;
                }
                let t: SystemTime = v.clone().into();
                let after = now_exact();
                if l.kind == Kind::RetryAt {
                    okay(t)?;
                } else {
                    let d = Duration::from_secs(l.lo as u64);
                    check!(t >= before + d && t <= after + d, "wrong-instant", "retry in {d:?} asked at {before:?} gives {t:?}");
                }
                let earlier = if chance(1, 2) { now_exact() } else { at(gen_instant()) };
                let before = now_exact();
                let r = v.duration_since(earlier);
                let after = now_exact();
                let (a, b) = if l.kind == Kind::RetryAt { (t, t) } else { (before + Duration::from_secs(l.lo as u64), after + Duration::from_secs(l.lo as u64)) };
                let ok = match &r {
                    Ok(x) => earlier + *x >= a && earlier + *x <= b,
                    Err(e) => earlier - e.duration() >= a && earlier - e.duration() <= b,
                };
                check!(ok, "wrong-instant", "time to retry since {earlier:?} is {r:?}, expected the span to {a:?}..{b:?}");
                probe("retry_asked");
            }
        }
    }
    probe("read_back");
    Ok(())
}
pub fn c11() -> Res {
    exec::configure();
    let nodes: Rc<Vec<Clk>> = Rc::new((0..range(2, 4)).map(|_| Clk::draw()).collect());
    let net: Rc<RefCell<Vec<(usize, Letter)>>> = Default::default();
    let open = Rc::new(Cell::new(nodes.len()));
    let errs: Rc<RefCell<Option<Violation>>> = Default::default();
    for n in 0..nodes.len() {
        let (nodes, net, open, errs) = (nodes.clone(), net.clone(), open.clone(), errs.clone());
        exec::spawn("sender", async move {
            for _ in 0..range(1, 4) {
                exec::sleep(range(1, 4_000_000)).await;
                let k = *pick(KINDS);
                match send(k, &nodes[n]) {
                    Ok(Some(l)) => {
                        ev("sent", k as u64, l.lo as u64);
                        let mut to = choose_usize(nodes.len() - 1);
                        if to >= n {
                            to += 1;
                        }
                        let net = net.clone();
                        let delay = *pick(&[0u64, 10, 100_000, 9_000_000]);
                        if delay > 0 {
                            fault("message_delayed");
                        }
                        exec::sleep(delay).await;
                        net.borrow_mut().push((to, l));
                    }
                    Ok(None) => {}
                    Err(v) => {
                        errs.borrow_mut().get_or_insert(v);
                        break;
                    }
                }
            }
            open.set(open.get() - 1);
        });
    }
    let (nodes2, net2, open2, errs2) = (nodes.clone(), net.clone(), open.clone(), errs.clone());
    exec::spawn("network", async move {
        let mut seen: Vec<Seen> = nodes2.iter().map(|_| Seen::default()).collect();
        loop {
            let next = {
                let mut q = net2.borrow_mut();
                if q.is_empty() {
                    None
                } else {
                    let i = choose_usize(q.len());
                    if i > 0 {
                        fault("message_reordered");
                    }
                    Some(q.swap_remove(i))
                }
            };
            match next {
                Some((to, l)) => {
                    if let Err(v) = receive(&l, &nodes2[to], &mut seen[to]) {
                        errs2.borrow_mut().get_or_insert(v);
                        return;
                    }
                    exec::jitter().await;
                }
                None if open2.get() == 0 => return,
                None => exec::sleep(50_000).await,
            }
        }
    });
    exec::run()?;
    let e = errs.borrow_mut().take();
    match e {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

// ---- C12 -------------------------------------------------------------------------
#[derive(Clone, Copy, Debug)]
struct Sent {
    version: u8,
    trace: u128,
    span: u64,
    sampled: bool,
}
struct Tree {
    ids: RefCell<Vec<u64>>,
    budget: Cell<u64>,
    err: RefCell<Option<Violation>>,
}
impl Tree {
    fn fail(&self, v: Violation) {
        self.err.borrow_mut().get_or_insert(v);
    }
    fn new_id(&self, id: u64) -> Res {
        check!(!self.ids.borrow().contains(&id), "span-id-reused", "span id {id:016x} was given to two spans");
        self.ids.borrow_mut().push(id);
        Ok(())
    }
}
fn write_ctx(c: &TraceContext, m: &mut Msg) {
    match choose(4) {
        0 => c.apply_header(m.as_mut()),
        1 => {
            m.as_mut().insert(c.header_name(), c.header_value()).unwrap();
        }
        2 => {
            m.as_mut().insert("TraceParent", c.to_string().as_str()).unwrap();
        }
        _ => {
            m.as_mut().insert("traceparent", c).unwrap();
        }
    }
}
/// Damage that cannot pass for another well-formed context: everything except
/// exchanging one hexadecimal digit for another, or losing or gaining digits
/// inside a field (the header has no checksum and short fields are accepted).
fn damage(s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    match choose(7) {
        6 => {
            // a digit too many at the start of a field: no longer fits
            let starts: Vec<usize> = (0..b.len()).filter(|i| *i == 0 || b[i - 1] == b'-').collect();
            b.insert(*pick(&starts), *pick(b"1289abfF"));
            fault("digit_inserted");
        }
        0 => {
            // cut off before the flags field begins to have content
            let k = choose(b.len() as u64 - 2) as usize;
            b.truncate(k);
            fault("line_truncated");
        }
        1 => {
            let i = choose_usize(b.len());
            b[i] = *pick(b"+gzGZ .,;:_/\\xX\"'\t~\x7f\0=");
            fault("byte_corrupted");
        }
        2 => {
            let d: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'-').collect();
            b.remove(*pick(&d));
            fault("separator_lost");
        }
        3 => {
            let i = choose_usize(b.len() + 1);
            b.insert(i, *pick(b"-+ g"));
            fault("byte_inserted");
        }
        4 => {
            let i = choose_usize(b.len());
            b[i] = b'-';
            fault("byte_corrupted");
        }
        _ => {
            // fields in the wrong order, or lost
            let mut p: Vec<Vec<u8>> = b.split(|c| *c == b'-').map(|x| x.to_vec()).collect();
            match choose(3) {
                0 => {
                    p.remove(choose(4) as usize);
                }
                1 => {
                    p.remove(3);
                    p.remove(2);
                }
                _ => p.truncate(1),
            }
            b = p.join(&b'-');
            fault("field_lost");
        }
    }
    String::from_utf8(b).unwrap()
}
/// Is a damaged line still a context with the same trace, parent and flags?
fn same_value(c: &TraceContext, s: Sent) -> bool {
    c.trace_id() == s.trace && c.parent_id() == Some(s.span)
}
fn hop(t: Rc<Tree>, wire: Wire, sent: Sent, depth: u64) {
    exec::spawn("hop", async move {
        exec::jitter().await;
        if let Err(v) = hop_inner(&t, wire, sent, depth).await {
            t.fail(v);
        }
    });
}
async fn hop_inner(t: &Rc<Tree>, wire: Wire, sent: Sent, depth: u64) -> Res {
    let mut wire = wire;
    let fate = weighted(&[12, 3, 2, 2]);
    match fate {
        // (a later version's line may have lost or gained a field and still be read)
        1 if sent.version > 0 => {}
        1 => {
            // damaged on the way
            let l = wire.iter_mut().find(|l| l.0 == "traceparent").unwrap();
            let was = l.1.clone();
            l.1 = damage(&was);
            let now = l.1.clone();
            let m = from_wire(&wire);
            match TraceContext::from_headers(&m) {
                Err(e) => {
                    let st = e.status() as u16;
                    check!((400..500).contains(&st), "wrong-status", "damaged context {now:?} gives status {st}");
                    probe("damage_rejected");
                }
                Ok(Some(c)) => {
                    check!(same_value(&c, sent), "joined-wrong-trace", "context {was:?} damaged to {now:?} was accepted as trace {:032x} parent {:016x?}", c.trace_id(), c.parent_id());
                    probe("damage_harmless");
                }
                Ok(None) => return viol("lost", format!("damaged context {now:?} reads as absent")),
            }
            return Ok(());
        }
        2 => {
            // lost on the way
            wire.retain(|l| l.0 != "traceparent");
            fault("line_lost");
            let m = from_wire(&wire);
            match TraceContext::from_headers(&m) {
                Ok(None) => probe("absent"),
                r => return viol("invented", format!("no traceparent line, but reading gives {r:?}")),
            }
            return Ok(());
        }
        3 => {
            let l = wire.iter().find(|l| l.0 == "traceparent").unwrap().clone();
            wire.push(l);
            fault("line_duplicated");
        }
        _ => {}
    }
    let m = from_wire(&wire);
    let mut c = match TraceContext::from_headers(&m) {
        Ok(Some(c)) => c,
        r => return viol("unreadable", format!("context {wire:?} reads as {r:?}")),
    };
    t.new_id(c.id())?;
    check!(c.trace_id() == sent.trace, "trace-changed", "trace {:032x} arrived as {:032x}", sent.trace, c.trace_id());
    check!(c.parent_id() == Some(sent.span), "wrong-parent", "sent by span {:016x}, but the parent reads {:016x?}", sent.span, c.parent_id());
    check!(c.sampled() == sent.sampled, "sampling-changed", "sampled={} arrived as {}", sent.sampled, c.sampled());
    check!(c.version() == sent.version, "version-changed", "version {} arrived as {}", sent.version, c.version());
    probe("hop");
    if chance(1, 4) {
        let s = chance(1, 2);
        c.set_sampled(s);
        check!(c.sampled() == s, "sampling-changed", "set_sampled({s}) had no effect");
        check!(c.trace_id() == sent.trace && c.parent_id() == Some(sent.span), "trace-changed", "choosing sampling changed the context");
    }
    spread(t, c, depth).await
}
/// Makes child spans of `c` and calls further nodes from them.
async fn spread(t: &Rc<Tree>, c: TraceContext, depth: u64) -> Res {
    let mut spans = vec![c];
    for _ in 0..count(0, 2, 30) {
        exec::jitter().await;
        let p = choose_usize(spans.len());
        let k = spans[p].child();
        t.new_id(k.id())?;
        let p = &spans[p];
        check!(k.trace_id() == p.trace_id(), "trace-changed", "a child is in trace {:032x}, its parent in {:032x}", k.trace_id(), p.trace_id());
        check!(k.parent_id() == Some(p.id()), "wrong-parent", "a child of span {:016x} names {:016x?} as its parent", p.id(), k.parent_id());
        check!(k.sampled() == p.sampled(), "sampling-changed", "a child of a span with sampled={} has {}", p.sampled(), k.sampled());
        check!(k.version() == p.version(), "version-changed", "child version {} of {}", k.version(), p.version());
        let mut k = k;
        if chance(1, 5) {
            let s = chance(1, 2);
            k.set_sampled(s);
            check!(k.sampled() == s, "sampling-changed", "set_sampled({s}) had no effect");
        }
        spans.push(k);
    }
    if depth == 0 {
        return Ok(());
    }
    for _ in 0..choose(4) {
        if t.budget.get() == 0 {
            break;
        }
        t.budget.set(t.budget.get() - 1);
        let s = &spans[choose_usize(spans.len())];
        let mut m = Msg::new();
        write_ctx(s, &mut m);
        let wire = to_wire(m.as_ref());
        let lines: Vec<&(String, String)> = wire.iter().filter(|l| l.0 == "traceparent").collect();
        check!(lines.len() == 1, "wrong-header", "{} traceparent lines", lines.len());
        // A context of a later version may be passed on under it or as version 0.
        let version = if lines[0].1.starts_with("00-") { 0 } else { s.version() };
        let sent = Sent { version, trace: s.trace_id(), span: s.id(), sampled: s.sampled() };
        let want = format!("{version:02x}-{:032x}-{:016x}-", sent.trace, sent.span);
        check!(lines[0].1.starts_with(&want) && lines[0].1.len() == 55, "wrong-text", "context of span {:016x} is written {:?}", sent.span, lines[0].1);
        exec::jitter().await;
        hop(t.clone(), wire.clone(), sent, depth - 1);
        if chance(1, 10) {
            fault("message_duplicated");
            hop(t.clone(), wire, sent, depth - 1);
        }
    }
    Ok(())
}
pub fn c12() -> Res {
    exec::configure();
    competitor();
    let t = Rc::new(Tree { ids: Default::default(), budget: Cell::new(24), err: Default::default() });
    for _ in 0..range(1, 2) {
        let t = t.clone();
        if chance(1, 3) {
            // a trace begun by some other implementation
            let b = |n: usize| -> u128 { (0..n).fold(0, |a, _| a << 1 | choose(2) as u128) };
            let trace = match choose(3) {
                0 => b(128),
                1 => b(60).max(1),
                _ => u128::MAX - choose(5) as u128,
            };
            let span = match choose(3) {
                0 => b(64) as u64,
                1 => 1 + choose(255),
                _ => u64::MAX,
            };
            let sampled = chance(1, 2);
            let flags = choose(128) << 1 | sampled as u64;
            // Later versions keep these four fields and may add more.
            let version = if chance(1, 4) { 1 + choose(254) as u8 } else { 0 };
            let mut text = format!("{version:02x}-{trace:032x}-{span:016x}-{flags:02x}");
            if version > 0 {
                probe("later_version");
                for _ in 0..count(0, 2, 40) {
                    text.push('-');
                    text.push_str(pick(&["00", "what-the-future-will-be-like", "+", "x y", "deadbeefdeadbeefdeadbeefdeadbeefdeadbeef"]));
                }
            }
            let wire = vec![("traceparent".to_string(), text)];
            probe("foreign_root");
            hop(t, wire, Sent { version, trace, span, sampled }, range(1, 4));
        } else {
            exec::spawn("root", async move {
                let mut c = TraceContext::new();
                let r = (|| {
                    t.new_id(c.id())?;
                    check!(c.parent_id().is_none(), "wrong-parent", "a new trace has parent {:?}", c.parent_id());
                    check!(c.sampled(), "sampling-changed", "a new trace is not sampled");
                    Ok(())
                })();
                if let Err(v) = r {
                    return t.fail(v);
                }
                if chance(1, 3) {
                    c.set_sampled(false);
                }
                let d = range(1, 4);
                if let Err(v) = spread(&t, c, d).await {
                    t.fail(v);
                }
            });
        }
    }
    exec::run()?;
    let e = t.err.borrow_mut().take();
    match e {
        Some(v) => Err(v),
        None => Ok(()),
    }
}
