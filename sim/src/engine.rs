//! One simulated run: a stream of integer choices decides everything.
//! In generation mode the choices come from a PRNG seeded by one integer; in
//! replay mode from a recorded list (past its end every choice is 0, the
//! simplest / no-fault alternative). Logging never draws a choice.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};

pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub enum Mode {
    Gen(u64),
    Replay(Vec<u64>),
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable identification of the kind of failure (used when minimising).
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { return $crate::engine::viol($class, format!($($fmt)*)); }
    };
}

struct Ctx {
    rng: Option<Rng>,
    list: Vec<u64>,
    pos: usize,
    choices: Vec<u64>,
    verbose: bool,
    log: Vec<String>,
    hash: u64,
    sched_hash: u64,
    events: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
    steps: u64,
    switches: u64,
    dump: Option<std::fs::File>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    pub static HASH_KEY: Cell<Option<u64>> = const { Cell::new(None) };
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub choices: Vec<u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub events: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub switches: u64,
    pub log: Vec<String>,
}

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no simulation context on this thread")))
}

/// A choice in 0..n; 0 is the simplest alternative.
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    with(|c| {
        let v = match &mut c.rng {
            Some(r) => {
                // unbiased enough, and independent of word size
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
            None => {
                let v = c.list.get(c.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
        };
        c.pos += 1;
        c.choices.push(v);
        if let Some(d) = &mut c.dump {
            let _ = d.write_all(&v.to_le_bytes());
        }
        v
    })
}
pub fn choose_usize(n: usize) -> usize {
    choose(n as u64) as usize
}
/// Inclusive range, low end simplest.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + choose(hi - lo + 1)
}
/// How many of something: mostly few, now and then far more than anyone has tried.
pub fn count(lo: u64, hi: u64, huge: u64) -> u64 {
    if chance(1, 40) {
        probe("very_many");
        range(hi, huge)
    } else {
        range(lo, hi)
    }
}
/// True with probability num/den; "false" is simplest.
pub fn chance(num: u64, den: u64) -> bool {
    num > 0 && choose(den) >= den - num.min(den)
}
/// Index drawn with the given weights; the first is simplest.
pub fn weighted(w: &[u64]) -> usize {
    let total: u64 = w.iter().sum();
    let mut v = choose(total);
    for (i, x) in w.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= x;
    }
    w.len() - 1
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[choose_usize(xs.len())]
}
pub fn fault(kind: &'static str) {
    with(|c| *c.faults.entry(kind).or_insert(0) += 1);
}
pub fn fault_n(kind: &'static str, n: u64) {
    if n > 0 {
        with(|c| *c.faults.entry(kind).or_insert(0) += n);
    }
}
pub fn probe(kind: &'static str) {
    with(|c| *c.probes.entry(kind).or_insert(0) += 1);
}
pub fn advance_us(us: u64) {
    with(|c| c.sim_us = c.sim_us.saturating_add(us));
}
pub fn now_us() -> u64 {
    with(|c| c.sim_us)
}
pub fn set_now_us(us: u64) {
    with(|c| c.sim_us = us);
}
pub fn count_step(switched: bool) -> u64 {
    with(|c| {
        c.steps += 1;
        if switched {
            c.switches += 1;
        }
        c.steps
    })
}
fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ 0xA5A5
}
fn mix_str(mut h: u64, s: &str) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h.rotate_left(17)
}
/// Records an event (always hashed; rendered only when replaying verbosely).
pub fn ev(name: &str, a: u64, b: u64) {
    with(|c| {
        c.hash = mix(mix(mix_str(c.hash, name), a), b);
        c.events += 1;
        if c.verbose {
            let t = c.sim_us;
            c.log.push(format!("[{t}us] {name} {a} {b}"));
        }
    })
}
/// Event that is part of the interleaving (who ran, what it returned).
pub fn ev_sched(name: &str, a: u64, b: u64) {
    with(|c| c.sched_hash = mix(mix(mix_str(c.sched_hash, name), a), b));
    ev(name, a, b);
}
/// Free-form event text: hashed, so it must be deterministic.
pub fn note(f: impl FnOnce() -> String) {
    let s = f();
    with(|c| {
        c.hash = mix_str(c.hash, &s);
        c.events += 1;
        if c.verbose {
            let t = c.sim_us;
            c.log.push(format!("[{t}us] {s}"));
        }
    })
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}
pub fn take_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub type Scenario = fn() -> Res;

/// Executes one run on a fresh thread.
pub fn run_one(scn: Scenario, mode: Mode, verbose: bool, dump: Option<std::fs::File>) -> Outcome {
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            let (rng, list) = match mode {
                Mode::Gen(seed) => (Some(Rng::new(seed)), Vec::new()),
                Mode::Replay(l) => (None, l),
            };
            CTX.with(|c| {
                *c.borrow_mut() = Some(Ctx {
                    rng,
                    list,
                    pos: 0,
                    choices: Vec::with_capacity(256),
                    verbose,
                    log: Vec::new(),
                    hash: 0xcbf2_9ce4_8422_2325,
                    sched_hash: 0xcbf2_9ce4_8422_2325,
                    events: 0,
                    faults: BTreeMap::new(),
                    probes: BTreeMap::new(),
                    sim_us: 0,
                    steps: 0,
                    switches: 0,
                    dump,
                })
            });
            // Process-level randomness of this node.
            let hk = choose(1 << 20);
            HASH_KEY.with(|k| k.set(Some(hk)));
            fastrand::seed(hk ^ 0x5eed);
            let r = panic::catch_unwind(AssertUnwindSafe(scn));
            let mut violation = match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some((v.class, v.msg)),
                Err(_) => {
                    let (loc, msg) = take_panic().unwrap_or_default();
                    Some((format!("panic@{loc}"), format!("panicked at {loc}: {msg}")))
                }
            };
            crate::alloc::disarm();
            // Tear-down is part of the run: a panic while dropping counts.
            let r = panic::catch_unwind(AssertUnwindSafe(crate::exec::teardown));
            if r.is_err() && violation.is_none() {
                let (loc, msg) = take_panic().unwrap_or_default();
                violation = Some((format!("panic@{loc}"), format!("panicked while dropping at {loc}: {msg}")));
            }
            let c = CTX.with(|c| c.borrow_mut().take()).unwrap();
            Outcome {
                violation,
                choices: c.choices,
                hash: c.hash,
                sched_hash: c.sched_hash,
                events: c.events,
                faults: c.faults,
                probes: c.probes,
                sim_us: c.sim_us,
                steps: c.steps,
                switches: c.switches,
                log: c.log,
            }
        })
        .expect("spawn run thread");
    h.join().expect("run thread")
}

/// Runs `f` as another node: a fresh thread with its own process randomness.
pub fn on_node<T: Send + 'static>(hash_key: u64, f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    let h = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || {
            HASH_KEY.with(|k| k.set(Some(hash_key)));
            fastrand::seed(hash_key ^ 0x5eed);
            let r = panic::catch_unwind(AssertUnwindSafe(f));
            (r, take_panic())
        })
        .expect("spawn node thread");
    let (r, p) = h.join().expect("node thread");
    if r.is_err() {
        PANIC.with(|q| *q.borrow_mut() = p);
    }
    r
}

/// Greedy choice-sequence minimisation: keeps any simpler sequence that fails
/// with the same class.
pub fn minimise(scn: Scenario, choices: Vec<u64>, class: &str, budget: std::time::Duration, test: Option<&mut dyn FnMut(&[u64]) -> bool>) -> (Vec<u64>, u64) {
    let start = std::time::Instant::now();
    let mut tries = 0u64;
    let mut inproc = |c: &[u64]| {
        let o = run_one(scn, Mode::Replay(c.to_vec()), false, None);
        matches!(&o.violation, Some((k, _)) if k == class)
    };
    let test: &mut dyn FnMut(&[u64]) -> bool = match test {
        Some(t) => t,
        None => &mut inproc,
    };
    let mut best = choices;
    let trim = |v: &mut Vec<u64>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    trim(&mut best);
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        // shorter prefixes
        let mut cut = best.len() / 2;
        while cut > 0 && start.elapsed() < budget {
            if best.len() > cut {
                let c = best[..best.len() - cut].to_vec();
                tries += 1;
                if test(&c) {
                    best = c;
                    trim(&mut best);
                    improved = true;
                    continue;
                }
            }
            cut /= 2;
        }
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                let mut c = best.clone();
                c.drain(i..i + size);
                tries += 1;
                if test(&c) {
                    best = c;
                    trim(&mut best);
                    improved = true;
                } else {
                    let mut c = best.clone();
                    if c[i..i + size].iter().any(|x| *x != 0) {
                        c[i..i + size].iter_mut().for_each(|x| *x = 0);
                        tries += 1;
                        if test(&c) {
                            best = c;
                            trim(&mut best);
                            improved = true;
                        }
                    }
                    i += 1;
                }
            }
        }
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let mut lo = 0u64;
            let mut hi = best[i];
            while lo < hi && start.elapsed() < budget {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                tries += 1;
                if test(&c) {
                    hi = mid;
                    best = c;
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        trim(&mut best);
    }
    (best, tries)
}
