//! Supervisor, workers, replay and minimisation.

use crate::core::{self, Stats, Tape, Viol};
use crate::scen::{self, Scenario};
use crate::sys;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Outcome {
    pub tape: Tape,
    pub hash: u64,
    pub trace: Vec<String>,
    pub stats: Stats,
    pub viol: Option<Viol>,
}

/// Runs one simulation in a thread of its own, so that its hash keys come from the tape.
pub fn run_one(s: &Scenario, tape: Option<Tape>, seed: u64, tracing: bool) -> Outcome {
    let run = s.run;
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            core::install(tape, seed, tracing);
            let r = match core::guard(run) {
                Ok(Ok(())) => None,
                Ok(Err(v)) | Err(v) => Some(v),
            };
            sys::stop_if_running();
            let (tape, hash, trace, stats) = core::uninstall();
            Outcome {
                tape,
                hash,
                trace,
                stats,
                viol: r,
            }
        })
        .expect("a thread")
        .join()
        .expect("guarded")
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut r = core::Rng::new(seed ^ core::fnv(id.as_bytes()));
    let a = r.next();
    core::Rng::new(a ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next()
}

fn tape_json(t: &Tape) -> Value {
    json!([t.0[0], t.0[1], t.0[2]])
}
fn tape_from(v: &Value) -> Tape {
    let g = |i: usize| {
        v[i].as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect())
            .unwrap_or_default()
    };
    Tape([g(0), g(1), g(2)])
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("FCBSIM_DIR")
        .unwrap_or_else(|_| "/verif".into())
        .into()
}

// ---------------------------------------------------------------- worker

/// The library prints to standard output; results travel on a copy of it.
fn protocol() -> std::fs::File {
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        std::fs::File::from_raw_fd(fd)
    }
}

fn worker(a: &[String]) -> i32 {
    let s = scen::find(&a[0]).expect("scenario");
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let end: u64 = a[4].parse().unwrap();
    let mut out = protocol();
    core::install_panic_hook();
    let mut i = start;
    while i < end {
        let _ = writeln!(out, "S {}", i);
        let o = run_one(&s, None, run_seed(seed, s.id, i), false);
        let mut rep = json!({
            "i": i, "h": o.hash, "nt": o.stats.nontrivial, "f": o.stats.faults, "p": o.stats.probes,
            "ns": o.stats.sim_ns, "io": o.stats.io_ops, "d": o.stats.desc,
        });
        if i % 97 == 0 {
            // determinism: the tape alone gives the same run
            let again = run_one(&s, Some(o.tape.clone()), 0, false);
            rep["again"] = json!(again.hash == o.hash && again.viol.is_some() == o.viol.is_some());
        }
        if let Some(v) = &o.viol {
            rep["v"] = json!({"class": v.class, "msg": v.msg, "tape": tape_json(&o.tape)});
        }
        let _ = writeln!(out, "R {}", rep);
        i += stride;
    }
    let _ = writeln!(out, "E");
    0
}

// ---------------------------------------------------------------- replay and minimisation

fn load(path: &str) -> (Scenario, Option<Tape>, u64, String) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay JSON");
    let s = scen::find(v["property"].as_str().unwrap()).expect("scenario");
    let tape = if v["tape"].is_array() {
        Some(tape_from(&v["tape"]))
    } else {
        None
    };
    (
        s,
        tape,
        v["run_seed"].as_u64().unwrap_or(0),
        v["class"].as_str().unwrap_or("").to_string(),
    )
}

/// Exit 1 when the file still shows a violation (of the same class, if it names one).
fn replay(a: &[String]) -> i32 {
    let (s, tape, seed, class) = load(&a[0]);
    let mut out = protocol();
    core::install_panic_hook();
    let o = run_one(&s, tape, seed, true);
    if a.len() < 2 {
        for l in &o.trace {
            let _ = writeln!(out, "{}", l);
        }
    }
    let _ = writeln!(out, "run: {}", o.stats.desc);
    let _ = writeln!(out, "event hash {:016x}", o.hash);
    match o.viol {
        Some(v) => {
            let _ = writeln!(out, "violation {}", v);
            if class.is_empty() || v.class == class {
                1
            } else {
                3
            }
        }
        None => {
            let _ = writeln!(out, "no violation");
            0
        }
    }
}

fn simpler(a: &Tape, b: &Tape) -> bool {
    (a.len(), a.0.iter().flatten().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>())
        < (b.len(), b.0.iter().flatten().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>())
}

/// Shrinks the tape while the violation class stays the same.
fn minimise_tape(s: &Scenario, tape: Tape, class: &str, budget: Duration) -> (Tape, u64) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut tried = 0u64;
    let test = |cand: &Tape, best: &mut Tape, tried: &mut u64| -> bool {
        *tried += 1;
        let o = run_one(s, Some(cand.clone()), 0, false);
        match o.viol {
            Some(v) if v.class == class => {
                // the recorded tape is the normal form
                let mut norm = o.tape;
                for st in norm.0.iter_mut() {
                    while st.last() == Some(&0) {
                        st.pop();
                    }
                }
                if simpler(&norm, best) {
                    *best = norm;
                    true
                } else {
                    false
                }
            }
            _ => false,
        }
    };
    // hash keys first: usually irrelevant
    let mut c = best.clone();
    c.0[2].clear();
    test(&c, &mut best, &mut tried);
    loop {
        let before = best.clone();
        for st in [1usize, 0, 2] {
            let mut size = best.0[st].len().max(1).next_power_of_two();
            while size >= 1 {
                // from the end, delete chunks
                let mut at = best.0[st].len() as i64 - size as i64;
                loop {
                    if t0.elapsed() > budget {
                        return (best, tried);
                    }
                    let lo = at.max(0) as usize;
                    let hi = ((at + size as i64).max(0) as usize).min(best.0[st].len());
                    if hi > lo {
                        let mut c = best.clone();
                        c.0[st].drain(lo..hi);
                        if !test(&c, &mut best, &mut tried) && best.0[st][lo..hi].iter().any(|x| *x != 0) {
                            let mut c = best.clone();
                            c.0[st][lo..hi].iter_mut().for_each(|x| *x = 0);
                            test(&c, &mut best, &mut tried);
                        }
                    }
                    if at <= 0 {
                        break;
                    }
                    at -= size as i64;
                    let len = best.0[st].len() as i64;
                    if at > len - size as i64 {
                        at = len - size as i64;
                    }
                }
                size /= 2;
            }
            let mut i = 0;
            while i < best.0[st].len() {
                if t0.elapsed() > budget {
                    return (best, tried);
                }
                let v = best.0[st][i];
                if v > 0 {
                    let (mut lo, mut hi) = (0u64, v);
                    while lo < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.0[st].len() {
                            break;
                        }
                        c.0[st][i] = mid;
                        if test(&c, &mut best, &mut tried) {
                            hi = mid;
                        } else {
                            lo = mid + 1;
                        }
                        if t0.elapsed() > budget {
                            return (best, tried);
                        }
                    }
                }
                i += 1;
            }
        }
        if best == before {
            return (best, tried);
        }
    }
}

fn minimise(a: &[String]) -> i32 {
    let (s, tape, _, class) = load(&a[0]);
    let mut out = protocol();
    core::install_panic_hook();
    let secs: u64 = a[1].parse().unwrap();
    let Some(tape) = tape else { return 2 };
    let (t, tried) = minimise_tape(&s, tape, &class, Duration::from_secs(secs));
    let o = run_one(&s, Some(t.clone()), 0, true);
    let Some(v) = o.viol else { return 2 };
    let _ = writeln!(
        out,
        "{}",
        json!({"tape": tape_json(&o.tape), "msg": v.msg, "class": v.class, "desc": o.stats.desc, "trace": o.trace,
               "faults": o.stats.faults, "tried": tried, "hash": o.hash})
    );
    0
}

// ---------------------------------------------------------------- supervisor

enum Msg {
    Line(usize, String),
    Closed(usize),
}

struct Found {
    class: String,
    msg: String,
    tape: Option<Value>,
    run: u64,
}

struct Known {
    line: String,
    class: String,
    text: String,
}

/// Lines `finding: property=<id> class=<class> text=<part of the message> :: <what fails>`.
fn known_findings(id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (sig, what) = l.split_once(" :: ")?;
            let sig = sig.strip_prefix(&format!("property={} class=", id))?;
            let (class, text) = sig.split_once(" text=")?;
            Some(Known {
                line: what.to_string(),
                class: class.to_string(),
                text: text.to_string(),
            })
        })
        .collect()
}

fn check(a: &[String]) -> i32 {
    let Some(s) = scen::find(&a[0]) else {
        eprintln!("unknown property {}", a[0]);
        return 2;
    };
    let tier = a.get(1).cloned().unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(1);
    println!("property {} tier {} VERIF_SEED={}", s.id, tier, seed);
    let thorough = tier == "thorough";
    let wall_limit = Duration::from_secs(
        std::env::var("FCBSIM_SECS")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(if thorough { 1800 } else { 420 }),
    );
    let runs: u64 = std::env::var("FCBSIM_RUNS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { u64::MAX / 2 } else { s.quick });
    let silence = Duration::from_secs(150);
    let nw = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16) as u64;
    let exe = std::env::current_exe().expect("own path");
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel::<Msg>();
    let spawn = |k: u64, from: u64| {
        let mut c = Command::new(&exe)
            .args(["worker", s.id, &seed.to_string(), &from.to_string(), &nw.to_string(), &runs.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("a worker");
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(k as usize, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Closed(k as usize));
        });
        c
    };
    let mut kids: Vec<_> = (0..nw).map(|k| spawn(k, k)).collect();
    let mut open: Vec<bool> = vec![true; nw as usize];
    let mut cur: Vec<Option<u64>> = vec![None; nw as usize];
    let mut ended: Vec<bool> = vec![false; nw as usize];
    let mut heard: Vec<Instant> = vec![Instant::now(); nw as usize];
    let mut evaluations = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut distinct_nt = 0u64;
    let mut nontrivial = 0u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sim_ns, mut io_ops) = (0u128, 0u64);
    let (mut again, mut again_bad) = (0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut found: Vec<Found> = vec![];
    let mut harness: Vec<String> = vec![];
    let known = known_findings(s.id);
    let mut known_hit = vec![0u64; known.len()];
    let mut stop_at: Option<Instant> = None;
    let mut restarts = 0;
    while open.iter().any(|o| *o) {
        let now = Instant::now();
        if now.duration_since(t0) > wall_limit || stop_at.is_some_and(|t| now > t) {
            break;
        }
        for k in 0..nw as usize {
            if open[k] && now.duration_since(heard[k]) > silence {
                found.push(Found {
                    class: "hang".into(),
                    msg: format!("no progress for {} s of real time", silence.as_secs()),
                    tape: None,
                    run: cur[k].unwrap_or(0),
                });
                let _ = kids[k].kill();
                ended[k] = true;
                stop_at.get_or_insert(now);
            }
        }
        let m = match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(m) => m,
            Err(_) => continue,
        };
        match m {
            Msg::Line(k, l) => {
                heard[k] = Instant::now();
                if let Some(n) = l.strip_prefix("S ") {
                    cur[k] = n.parse().ok();
                } else if l == "E" {
                    ended[k] = true;
                } else if let Some(r) = l.strip_prefix("R ") {
                    let Ok(v) = serde_json::from_str::<Value>(r) else { continue };
                    evaluations += 1;
                    let nt = v["nt"] == json!(true);
                    nontrivial += nt as u64;
                    if hashes.insert(v["h"].as_u64().unwrap_or(0)) && nt {
                        distinct_nt += 1;
                        if samples.len() < 12 && (evaluations % 37 == 1) {
                            samples.push(json!({"run": v["i"], "workload": v["d"], "faults": v["f"], "event_hash": format!("{:016x}", v["h"].as_u64().unwrap_or(0))}));
                        }
                    }
                    for (src, dst) in [("f", &mut faults), ("p", &mut probes)] {
                        if let Some(o) = v[src].as_object() {
                            for (k, n) in o {
                                *dst.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
                            }
                        }
                    }
                    sim_ns += v["ns"].as_u64().unwrap_or(0) as u128;
                    io_ops += v["io"].as_u64().unwrap_or(0);
                    if let Some(b) = v["again"].as_bool() {
                        again += 1;
                        again_bad += !b as u64;
                    }
                    if let Some(x) = v.get("v") {
                        let class = x["class"].as_str().unwrap_or("").to_string();
                        let msg = x["msg"].as_str().unwrap_or("").to_string();
                        if class.starts_with("harness") {
                            harness.push(format!("run {}: {} {}", v["i"], class, msg));
                            stop_at.get_or_insert(Instant::now() + Duration::from_secs(2));
                        } else if let Some(n) = known.iter().position(|f| f.class == class && msg.contains(&f.text)) {
                            known_hit[n] += 1;
                        } else {
                            if found.len() < 200 {
                                found.push(Found {
                                    class,
                                    msg,
                                    tape: Some(x["tape"].clone()),
                                    run: v["i"].as_u64().unwrap_or(0),
                                });
                            }
                            stop_at.get_or_insert(Instant::now() + Duration::from_secs(
                                std::env::var("FCBSIM_GRACE").ok().and_then(|x| x.parse().ok()).unwrap_or(4)));
                        }
                    }
                }
            }
            Msg::Closed(k) => {
                open[k] = false;
                let status = kids[k].wait().ok();
                if !ended[k] {
                    // the worker died inside a run
                    let run = cur[k].unwrap_or(k as u64);
                    found.push(Found {
                        class: "process died".into(),
                        msg: format!("the process ended during the run: {:?}", status),
                        tape: None,
                        run,
                    });
                    stop_at.get_or_insert(Instant::now() + Duration::from_secs(4));
                    restarts += 1;
                    if restarts < 4 {
                        kids[k] = spawn(k as u64, run + nw);
                        open[k] = true;
                        heard[k] = Instant::now();
                        cur[k] = None;
                    }
                }
            }
        }
    }
    for c in kids.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
        let _ = std::fs::remove_dir_all(scen::cli::Scratch::name(c.id()));
    }
    let wall = t0.elapsed().as_secs_f64();

    // distinct classes, smallest tape first
    let mut by_class: BTreeMap<String, Vec<&Found>> = BTreeMap::new();
    for f in &found {
        by_class.entry(f.class.clone()).or_default().push(f);
    }
    let size = |f: &Found| f.tape.as_ref().map_or(0, |t| t.to_string().len());
    for v in by_class.values_mut() {
        v.sort_by_key(|f| (size(f), f.run));
    }
    let rdir = verif_dir().join("replays");
    let mut reported = vec![];
    for (n, (class, fs)) in by_class.iter().enumerate() {
        if n >= 6 {
            println!("(more classes of violation: {})", class);
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let f = fs[0];
        let path = rdir.join(format!("{}-{:08x}.json", s.id, core::fnv(class.as_bytes()) as u32));
        let mut doc = json!({
            "property": s.id, "class": class, "message": f.msg, "VERIF_SEED": seed, "run": f.run,
            "run_seed": run_seed(seed, s.id, f.run), "tape": f.tape,
        });
        let save = |doc: &Value| {
            let _ = std::fs::write(&path, serde_json::to_string_pretty(doc).unwrap());
        };
        save(&doc);
        let p = path.to_str().unwrap().to_string();
        let mut msg = f.msg.clone();
        if f.tape.is_some() && n < 3 {
            let min = Command::new(&exe)
                .args(["minimise", &p, if n == 0 { "40" } else { "20" }])
                .stdin(Stdio::null())
                .stderr(Stdio::null())
                .output();
            if let Ok(m) = min {
                if let Ok(v) = serde_json::from_slice::<Value>(&m.stdout) {
                    doc["tape"] = v["tape"].clone();
                    doc["message"] = v["msg"].clone();
                    doc["workload"] = v["desc"].clone();
                    doc["trace"] = v["trace"].clone();
                    doc["faults"] = v["faults"].clone();
                    doc["minimisation_runs"] = v["tried"].clone();
                    doc["event_hash"] = json!(format!("{:016x}", v["hash"].as_u64().unwrap_or(0)));
                    msg = v["msg"].as_str().unwrap_or("").to_string();
                    save(&doc);
                }
            }
        }
        let mut code = None;
        if f.class != "hang" || f.tape.is_some() {
            code = Command::new(&exe)
                .args(["replay", &p, "quiet"])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .ok()
                .and_then(|s| s.code());
            println!("replay in a fresh process: exit {:?}", code);
        }
        println!("{} runs violate [{}], e.g. run {}: {}", fs.len(), class, f.run, msg);
        println!("VIOLATION property={} replay={}", s.id, p);
        reported.push(json!({"class": class, "message": msg, "replay": p, "replay_exit": code, "runs": fs.len()}));
    }
    for (k, n) in known.iter().zip(&known_hit) {
        println!("KNOWN-FINDING: property={} {} ({} runs)", s.id, k.line, n);
    }
    let ev = json!({
        "property": s.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": s.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct_nt,
            "rule": format!("{}; distinct: by the hash of the run's event history", s.rule),
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "distinct_event_histories": hashes.len(),
            "runs_per_hour": (evaluations as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_seconds": sim_ns as f64 / 1e9,
            "simulated_io_operations": io_ops,
            "faults_injected": faults,
            "rare_conditions_reached": probes,
            "replayed_from_tape": again,
            "replays_that_differed": again_bad,
            "workers": nw,
            "real_components": s.real,
            "stubs": s.stub,
            "violations_found": reported,
        },
        "assumptions": ["sampled, not enumerated: a clean batch is evidence, not proof",
                        "the compiler, the standard library and cached dependencies behave as documented"],
        "wall_s": wall,
        "violations": reported.len(),
    });
    let edir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{}.json", s.id)), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{} runs, {} distinct non-trivial, {:.1} s, faults {:?}, probes {:?}, replays {}/{} equal",
        evaluations, distinct_nt, wall, faults, probes, again - again_bad, again
    );
    for h in harness.iter().take(3) {
        println!("HARNESS ERROR {}", h);
    }
    if !reported.is_empty() {
        1
    } else if !harness.is_empty() {
        2
    } else if evaluations == 0 {
        println!("HARNESS ERROR no run finished");
        2
    } else {
        0
    }
}

/// Debugging: one run of a check, with its event log.
fn one(a: &[String]) -> i32 {
    let s = scen::find(&a[0]).expect("scenario");
    let seed: u64 = a[1].parse().unwrap();
    let i: u64 = a[2].parse().unwrap();
    let mut out = protocol();
    core::install_panic_hook();
    let o = run_one(&s, None, run_seed(seed, s.id, i), true);
    for l in &o.trace {
        let _ = writeln!(out, "{}", l);
    }
    let _ = writeln!(out, "{} {:?}", o.stats.desc, o.viol);
    o.viol.is_some() as i32
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = if a.is_empty() { &[][..] } else { &a[1..] };
    if a.first().is_some_and(|s| ["worker", "replay", "minimise", "one"].contains(&s.as_str())) {
        // what never ends ends here, not when the machine has no memory left
        let most = 6 << 30;
        let _ = unsafe { libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: most, rlim_max: most }) };
    }
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(rest),
        Some("worker") => worker(rest),
        Some("replay") => replay(rest),
        Some("minimise") => minimise(rest),
        Some("one") => one(rest),
        Some("corpus") => scen::format::generate(rest),
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("fcbsim check <property> <tier> | replay <file> | one <property> <seed> <run>");
            2
        }
    }
}
