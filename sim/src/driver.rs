//! Batch runner: worker processes run seeds, the parent merges results, writes
//! evidence, minimises and reports violations.
use crate::engine::*;
use crate::scn::{self, Prop};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
const HANG: Duration = Duration::from_secs(60);

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
pub fn run_seed(base: u64, i: u64) -> u64 {
    let mut x = base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51D5;
    let a = splitmix(&mut x);
    let mut y = a ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut y)
}

struct Known {
    property: String,
    class: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            // finding: property=C00 class=<class> <what fails>
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let c = it.next().unwrap_or("").strip_prefix("class=").unwrap_or("").to_string();
                let t = it.next().unwrap_or("").to_string();
                out.push(Known { property: p, class: c, text: t });
            }
        }
    }
    out
}

pub fn main() -> i32 {
    install_panic_hook();
    // A run that never stops allocating ends its worker, not the machine.
    unsafe {
        let l = libc::rlimit { rlim_cur: 7 << 29, rlim_max: 7 << 29 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => check(&args[2], args.get(3).map(|s| s.as_str())),
        "worker" => worker(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap(), args[7].parse().unwrap()),
        "replay" => replay(&args[2], args.iter().any(|a| a == "-q")),
        "one" => one(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        "hashes" => hashes(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap()),
        "try" => try_choices(&args[2], &args[3]),
        "dump" => {
            // re-executes one seed, recording choices as they are drawn
            let p = scn::find(&args[2]).unwrap();
            let f = std::fs::File::create(&args[4]).unwrap();
            run_one(p.run, Mode::Gen(args[3].parse().unwrap()), false, Some(f));
            0
        }
        "list" => {
            for p in scn::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: simcheck check <property> | replay <file> | one <property> <base> <i> | list");
            2
        }
    }
}

/// Verbose single run by index.
fn one(id: &str, base: u64, i: u64) -> i32 {
    let p = scn::find(id).expect("property");
    let o = run_one(p.run, Mode::Gen(run_seed(base, i)), true, None);
    for l in &o.log {
        println!("{l}");
    }
    println!("choices {:?}", o.choices);
    println!("hash {:016x} faults {:?} probes {:?} steps {} violation {:?}", o.hash, o.faults, o.probes, o.steps, o.violation);
    o.violation.is_some() as i32
}
fn hashes(id: &str, base: u64, from: u64, to: u64) -> i32 {
    let p = scn::find(id).expect("property");
    for i in from..to {
        let o = run_one(p.run, Mode::Gen(run_seed(base, i)), false, None);
        println!("{i} {:016x} {}", o.hash, o.events);
    }
    0
}
/// Exit 3 if the recorded choices end in a violation (used for crash classes).
fn try_choices(id: &str, file: &str) -> i32 {
    let p = scn::find(id).expect("property");
    let v: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let o = run_one(p.run, Mode::Replay(v), false, None);
    if o.violation.is_some() {
        3
    } else {
        0
    }
}

fn replay(file: &str, quiet: bool) -> i32 {
    let v: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let p = match scn::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let class = v["class"].as_str().unwrap_or("");
    let o = if v["mode"] == "seed" {
        run_one(p.run, Mode::Gen(v["seed"].as_str().unwrap_or("0").parse().unwrap_or(0)), !quiet, None)
    } else {
        run_one(p.run, Mode::Replay(choices), !quiet, None)
    };
    for l in &o.log {
        println!("{l}");
    }
    match &o.violation {
        Some((c, m)) => {
            println!("{c}: {m}");
            println!("event-hash {:016x}", o.hash);
            println!("VIOLATION property={id} replay={file}");
            if c != class {
                println!("note: class differs from the recorded {class}");
            }
            1
        }
        None => {
            println!("no violation on replay");
            0
        }
    }
}

// worker <prop> <base> <start> <stride> <count> <seconds>
fn worker(id: &str, base: u64, start: u64, stride: u64, count: u64, secs: u64) -> i32 {
    let p = scn::find(id).expect("property");
    let known: Vec<String> = known_findings().into_iter().filter(|k| k.property == id).map(|k| k.class).collect();
    let out = std::io::stdout();
    let mut out = out.lock();
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut faulty_runs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut sim_us, mut steps, mut switches, mut events) = (0u64, 0u64, 0u64, 0u64);
    let mut known_hits = 0u64;
    let mut i = start;
    while runs < count && (secs == 0 || t0.elapsed().as_secs() < secs) {
        let seed = run_seed(base, i);
        let _ = writeln!(out, "B {i}");
        let _ = out.flush();
        let o = run_one(p.run, Mode::Gen(seed), false, None);
        runs += 1;
        sim_us = sim_us.saturating_add(o.sim_us);
        steps += o.steps;
        switches += o.switches;
        events += o.events;
        inter.insert(o.sched_hash);
        if o.events >= 3 && (!o.faults.is_empty() || o.switches >= 2) {
            nontrivial.insert(o.hash);
        }
        for (k, v) in &o.faults {
            *faults.entry(k).or_insert(0) += v;
            *faulty_runs.entry(k).or_insert(0) += 1;
        }
        for (k, v) in &o.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if let Some((class, msg)) = o.violation {
            if known.iter().any(|k| *k == class) {
                known_hits += 1;
            } else {
                let (min, tries) = if std::env::var_os("VERIF_NO_MINIMISE").is_some() {
                    (o.choices.clone(), 0)
                } else {
                    minimise(p.run, o.choices.clone(), &class, Duration::from_secs(20), None)
                };
                let _ = writeln!(
                    out,
                    "V {}",
                    json!({"index": i, "seed": seed.to_string(), "class": class, "msg": msg, "choices": min, "original_choices": o.choices.len(), "minimise_tries": tries})
                );
                let _ = out.flush();
                break;
            }
        }
        i += stride;
    }
    let _ = writeln!(
        out,
        "E {}",
        json!({"runs": runs, "faults": faults, "faulty_runs": faulty_runs, "probes": probes, "sim_us": sim_us, "steps": steps, "switches": switches, "events": events, "known": known_hits})
    );
    for (tag, set) in [("N", &nontrivial), ("I", &inter)] {
        let mut s = String::with_capacity(set.len() * 17 + 2);
        s.push_str(tag);
        for h in set.iter() {
            s.push_str(&format!(" {h:x}"));
        }
        let _ = writeln!(out, "{s}");
    }
    let _ = out.flush();
    0
}

enum Msg {
    Begin(usize, u64),
    Violation(Value),
    End(Value),
    Hashes(char, Vec<u64>),
    Exit(usize),
}

fn check(id: &str, tier_arg: Option<&str>) -> i32 {
    let p = match scn::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let tier = tier_arg.map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    println!("seed {base} tier {tier} property {id}");
    let (count, secs) = if thorough {
        (u64::MAX, std::env::var("VERIF_THOROUGH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600))
    } else {
        // A fixed number of runs; the time limit only guards a starved machine.
        (p.quick_runs, 300)
    };
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids = Vec::new();
    for w in 0..WORKERS {
        let per = if thorough { u64::MAX } else { count / WORKERS + 1 };
        let mut c = Command::new(&exe)
            .args(["worker", id, &base.to_string(), &w.to_string(), &WORKERS.to_string(), &per.to_string(), &secs.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        let wi = w as usize;
        std::thread::spawn(move || {
            let mut r = BufReader::with_capacity(1 << 16, so);
            let mut line = String::new();
            loop {
                line.clear();
                match r.read_line(&mut line) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {}
                }
                let (tag, rest) = line.trim_end().split_at(1.min(line.len()));
                let rest = rest.trim_start();
                let m = match tag {
                    "B" => Msg::Begin(wi, rest.parse().unwrap_or(0)),
                    "V" => Msg::Violation(serde_json::from_str(rest).unwrap_or(Value::Null)),
                    "E" => Msg::End(serde_json::from_str(rest).unwrap_or(Value::Null)),
                    "N" | "I" => Msg::Hashes(tag.chars().next().unwrap(), rest.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok()).collect()),
                    _ => continue,
                };
                if tx.send(m).is_err() {
                    break;
                }
            }
            let _ = tx.send(Msg::Exit(wi));
        });
        kids.push(c);
    }
    drop(tx);
    let mut current: Vec<Option<u64>> = vec![None; WORKERS as usize];
    let mut last: Vec<Instant> = vec![Instant::now(); WORKERS as usize];
    let mut exited = vec![false; WORKERS as usize];
    let mut ended = 0usize;
    let mut violation: Option<Value> = None;
    let mut crash: Option<(u64, String)> = None;
    let mut runs = 0u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut faulty_runs: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    'outer: loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Begin(w, i)) => {
                current[w] = Some(i);
                last[w] = Instant::now();
            }
            Ok(Msg::Violation(v)) => {
                violation = Some(v);
                break 'outer;
            }
            Ok(Msg::End(v)) => {
                ended += 1;
                runs += v["runs"].as_u64().unwrap_or(0);
                for (dst, key) in [(&mut faults, "faults"), (&mut faulty_runs, "faulty_runs"), (&mut probes, "probes")] {
                    if let Some(o) = v[key].as_object() {
                        for (k, x) in o {
                            *dst.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                        }
                    }
                }
                for k in ["sim_us", "steps", "switches", "events", "known"] {
                    let e = tot.entry(k).or_insert(0);
                    *e = e.saturating_add(v[k].as_u64().unwrap_or(0));
                }
            }
            Ok(Msg::Hashes('N', v)) => nontrivial.extend(v),
            Ok(Msg::Hashes(_, v)) => inter.extend(v),
            Ok(Msg::Exit(w)) => {
                exited[w] = true;
                let st = kids[w].wait();
                let ok = matches!(&st, Ok(s) if s.success());
                if !ok {
                    crash = Some((current[w].unwrap_or(0), format!("the process died ({st:?}) during this run")));
                    break 'outer;
                }
                if exited.iter().all(|x| *x) {
                    break 'outer;
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break 'outer,
        }
        for w in 0..WORKERS as usize {
            // Workers minimising a violation are silent for up to ~20 s.
            if !exited[w] && current[w].is_some() && last[w].elapsed() > HANG {
                crash = Some((current[w].unwrap(), format!("the run made no end within {HANG:?} of real time")));
                break 'outer;
            }
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    let _ = ended;
    let wall = t0.elapsed().as_secs_f64();

    // Determinism: re-execute a sample of this batch in a fresh process.
    let sample_n = if thorough { 400 } else { 60 };
    let mut det = json!(null);
    if violation.is_none() && crash.is_none() {
        let h = |from: u64, to: u64| -> Vec<String> {
            let o = Command::new(&exe)
                .args(["hashes", id, &base.to_string(), &from.to_string(), &to.to_string()])
                .stderr(Stdio::null())
                .output();
            o.map(|o| String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()).unwrap_or_default()
        };
        let a = h(0, sample_n);
        let mut b = h(0, sample_n / 3);
        b.extend(h(sample_n / 3, sample_n));
        let bad = a.iter().zip(b.iter()).filter(|(x, y)| x != y).count();
        det = json!({"seeds": a.len(), "processes": 3, "mismatches": bad + (a.len() as i64 - b.len() as i64).unsigned_abs() as usize});
    }

    // Samples: the event logs of the first runs.
    let mut samples = Vec::new();
    if violation.is_none() && crash.is_none() {
        let mut i = 0;
        while samples.len() < 3 && i < 40 {
            let o = run_one(p.run, Mode::Gen(run_seed(base, i)), true, None);
            if o.events >= 6 && !o.faults.is_empty() {
                let mut l = o.log.clone();
                if l.len() > 40 {
                    let n = l.len();
                    l.truncate(40);
                    l.push(format!("... {} more events", n - 40));
                }
                samples.push(json!({"run": i, "seed": run_seed(base, i).to_string(), "faults": o.faults, "events": l}));
            }
            i += 1;
        }
    }

    let mut status = 0;
    let mut nviol = 0;
    let replay_dir = root().join("target").join("replays");
    let _ = std::fs::create_dir_all(&replay_dir);
    if let Some(v) = &violation {
        status = report(p, base, v, &replay_dir, &exe);
        nviol = 1;
    } else if let Some((i, what)) = &crash {
        status = report_crash(p, base, *i, what, &replay_dir, &exe);
        nviol = 1;
    }
    for k in known_findings().iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": p.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial.len(),
            "rule": format!("{} One evaluation = one simulated run decided by one derived seed. A run counts as non-trivial when at least one fault fired or at least two task switches happened, and it logged at least three events; two runs are distinct when their event hashes (operations, results, scheduling decisions, faults) differ.", p.rule),
            "samples": samples,
            "seeds_per_hour": if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 },
            "simulated_seconds": tot.get("sim_us").copied().unwrap_or(0) as f64 / 1e6,
            "scheduler_steps": tot.get("steps").copied().unwrap_or(0),
            "task_switches": tot.get("switches").copied().unwrap_or(0),
            "events": tot.get("events").copied().unwrap_or(0),
            "distinct_interleavings": inter.len(),
            "interleaving_measure": "hash of the ordered sequence of (task polled, ready/pending), stream chunk boundaries, errors and cancellations of a run",
            "faults_injected": faults,
            "runs_with_fault": faulty_runs,
            "probes": probes,
            "components_real": p.real,
            "components_simulated": p.stub,
            "determinism_check": det,
            "known_finding_hits": tot.get("known").copied().unwrap_or(0),
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    let tmp = evd.join(format!(".{id}.tmp"));
    if std::fs::write(&tmp, serde_json::to_string_pretty(&ev).unwrap()).is_ok() {
        let _ = std::fs::rename(&tmp, evd.join(format!("{id}.json")));
    }
    println!("{id}: {runs} runs, {} distinct non-trivial, {} interleavings, {:.1}s", nontrivial.len(), inter.len(), wall);
    if status == 0 && runs == 0 {
        eprintln!("no run completed");
        return 2;
    }
    status
}

fn write_replay(path: &Path, v: &Value) {
    let _ = std::fs::write(path, serde_json::to_string_pretty(v).unwrap());
}

fn report(p: &Prop, base: u64, v: &Value, dir: &Path, exe: &Path) -> i32 {
    let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let class = v["class"].as_str().unwrap_or("");
    let o = run_one(p.run, Mode::Replay(choices.clone()), true, None);
    let path = dir.join(format!("{}-{}.json", p.id, v["index"]));
    let msg = o.violation.as_ref().map(|x| x.1.clone()).unwrap_or_else(|| v["msg"].as_str().unwrap_or("").to_string());
    write_replay(
        &path,
        &json!({
            "property": p.id, "mode": "choices", "base_seed": base, "run": v["index"], "seed": v["seed"], "class": class,
            "message": msg, "choices": choices, "original_choices": v["original_choices"], "minimise_tries": v["minimise_tries"],
            "faults": o.faults, "trace": o.log,
        }),
    );
    println!("{class}: {msg}");
    for l in o.log.iter().take(60) {
        println!("  {l}");
    }
    let rep = Command::new(exe).args(["replay", path.to_str().unwrap(), "-q"]).stdout(Stdio::null()).stderr(Stdio::null()).status();
    println!("replay in a fresh process: {}", if matches!(rep, Ok(s) if s.code() == Some(1)) { "reproduced" } else { "NOT reproduced" });
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

/// A run that killed or hung its process: minimised in child processes.
fn report_crash(p: &Prop, base: u64, i: u64, what: &str, dir: &Path, exe: &Path) -> i32 {
    let seed = run_seed(base, i);
    let dump = dir.join(format!("{}-{}.choices", p.id, i));
    let wait = |mut c: std::process::Child, limit: Duration| -> Option<i32> {
        let t = Instant::now();
        loop {
            match c.try_wait() {
                Ok(Some(s)) => return Some(s.code().unwrap_or(-1)),
                Ok(None) => {}
                Err(_) => return Some(-1),
            }
            if t.elapsed() > limit {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    };
    let c = Command::new(exe).args(["dump", p.id, &seed.to_string(), dump.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    if let Ok(c) = c {
        wait(c, Duration::from_secs(10));
    }
    let mut bytes = Vec::new();
    if let Ok(mut f) = std::fs::File::open(&dump) {
        let _ = f.read_to_end(&mut bytes);
    }
    let choices: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let tmp = dir.join(format!("{}-{}.try", p.id, i));
    let mut test = |c: &[u64]| -> bool {
        let _ = std::fs::write(&tmp, serde_json::to_string(c).unwrap());
        match Command::new(exe).args(["try", p.id, tmp.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            Ok(c) => !matches!(wait(c, Duration::from_secs(5)), Some(0) | Some(2) | Some(3)),
            Err(_) => false,
        }
    };
    let reproduced = test(&choices);
    let (min, tries) = if reproduced { minimise(p.run, choices.clone(), "crash", Duration::from_secs(60), Some(&mut test)) } else { (choices, 0) };
    let path = dir.join(format!("{}-{}.json", p.id, i));
    write_replay(
        &path,
        &json!({
            "property": p.id, "mode": if reproduced { "choices" } else { "seed" }, "base_seed": base, "run": i, "seed": seed.to_string(),
            "class": "crash-or-hang", "message": what, "choices": min, "minimise_tries": tries, "reproduced": reproduced,
        }),
    );
    let _ = std::fs::remove_file(&tmp);
    let _ = std::fs::remove_file(&dump);
    println!("crash-or-hang: {what} (seed {seed})");
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}
