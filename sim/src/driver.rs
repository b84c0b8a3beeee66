//! Running many plans in worker processes, collecting what they covered, reporting violations.
use crate::plan::*;
use crate::{gen, shrink};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var("PANACEA_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn scratch_root() -> PathBuf {
    PathBuf::from(format!("/tmp/panacea-sim-{}", std::process::id()))
}

pub struct Worker {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

pub enum Answer {
    Done(Outcome),
    /// the process ended; why
    Died(String),
}

impl Worker {
    pub fn new(prop: &str, seed: u64) -> Worker {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", prop, &seed.to_string()])
            .env("PANACEA_SIM_SCRATCH", scratch_root())
            .env("RUST_MIN_STACK", "16777216")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Worker { child, stdin, stdout }
    }
    /// One plan; the process is gone afterwards if the answer is Died or `limit` passes.
    pub fn ask(&mut self, line: &str, limit: Duration) -> Answer {
        let pid = self.child.id() as i32;
        let done = AtomicBool::new(false);
        let timed_out = AtomicBool::new(false);
        std::thread::scope(|s| {
            let watch = s.spawn(|| {
                let t = Instant::now();
                while !done.load(SeqCst) {
                    if t.elapsed() > limit {
                        timed_out.store(true, SeqCst);
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        return;
                    }
                    std::thread::park_timeout(Duration::from_millis(200));
                }
            });
            let r = (|| {
                if self.stdin.write_all(line.as_bytes()).and_then(|_| self.stdin.write_all(b"\n")).and_then(|_| self.stdin.flush()).is_err() {
                    return None;
                }
                let mut buf = String::new();
                loop {
                    buf.clear();
                    match self.stdout.read_line(&mut buf) {
                        Ok(0) | Err(_) => return None,
                        Ok(_) => {
                            // anything the code under test prints is not ours
                            if let Ok((_, o)) = serde_json::from_str::<(u64, Outcome)>(&buf) {
                                return Some(o);
                            }
                        }
                    }
                }
            })();
            done.store(true, SeqCst);
            watch.thread().unpark();
            match r {
                Some(o) => Answer::Done(o),
                None => {
                    let st = self.child.wait();
                    if timed_out.load(SeqCst) {
                        return Answer::Died("hang".into());
                    }
                    use std::os::unix::process::ExitStatusExt;
                    Answer::Died(match st {
                        Ok(s) => match s.signal() {
                            Some(n) => format!("crash-signal{n}"),
                            None => format!("exit-status{}", s.code().unwrap_or(-1)),
                        },
                        Err(_) => "gone".into(),
                    })
                }
            }
        })
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// One plan in a process of its own.
pub fn run_alone(p: &Plan, limit: Duration) -> Outcome {
    let mut w = Worker::new(&p.prop, p.seed);
    match w.ask(&serde_json::to_string(p).unwrap(), limit) {
        Answer::Done(o) => o,
        Answer::Died(why) => died(&why),
    }
}

/// The last of these plans, after the others, in one process.
pub fn run_after(before: &[Plan], p: &Plan, limit: Duration) -> Outcome {
    let t = Instant::now();
    let mut w = Worker::new(&p.prop, p.seed);
    for b in before {
        if let Answer::Died(why) = w.ask(&serde_json::to_string(b).unwrap(), limit.saturating_sub(t.elapsed())) {
            return died(&format!("before the last run: {why}"));
        }
    }
    match w.ask(&serde_json::to_string(p).unwrap(), limit.saturating_sub(t.elapsed()).max(Duration::from_secs(20))) {
        Answer::Done(o) => o,
        Answer::Died(why) => died(&why),
    }
}

fn died(why: &str) -> Outcome {
    Outcome { violation: Some((why.to_string(), format!("the process executing the run ended: {why}"))), ..Default::default() }
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub index: u64,
    pub event_hash: String,
    pub note: String,
    /// runs that came first in the same process, when the violation needs them
    #[serde(default)]
    pub before: Vec<Plan>,
    pub plan: Plan,
}

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // (runs, seconds)
    let quick = match prop {
        "C01" => 1000,
        "C02" => 900,
        "C03" => 1100,
        "C04" => 5000,
        "C05" => 700,
        "C06" => 10000,
        "C07" => 1000,
        "C08" => 8000,
        "C09" => 8000,
        "C10" => 3000,
        "C11" => 800,
        "C12" => 30000,
        "C13" => 20000,
        "C14" => 1000,
        "C15" => 3000,
        "C16" => 2000,
        "C17" => 40000,
        "C19" => 5000,
        "C20" => 5000,
        "C22" => 20000,
        "C23" => 1500,
        _ => 200,
    };
    let cap = std::env::var("PANACEA_SIM_SECONDS").ok().and_then(|s| s.parse().ok());
    if tier == "thorough" {
        (quick * 40, cap.unwrap_or(660))
    } else {
        (quick * 2, cap.unwrap_or(90))
    }
}

struct Known {
    property: String,
    class: String,
    text: String,
}
/// Lines "finding: property=<id> class=<class> <text>".
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (p, r) = l.split_once(" class=\"")?;
            let (c, text) = r.split_once("\" ")?;
            Some(Known { property: p.into(), class: c.into(), text: text.into() })
        })
        .collect()
}

struct Tally {
    runs: u64,
    sims: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    checks: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    gauges: BTreeMap<String, f64>,
    /// (run, what happened, earlier runs of the same process)
    fail: Vec<(u64, Outcome, Vec<u64>)>,
    known: BTreeMap<String, u64>,
    by_threads: BTreeMap<u32, u64>,
    slowest: (f64, u64),
}

pub fn check(prop: &str, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    if !["quick", "thorough"].contains(&tier) || !(prop.len() == 3 && prop.starts_with('C')) {
        eprintln!("unknown property or tier");
        return 2;
    }
    let (runs, secs) = budget(prop, tier);
    let _ = std::fs::create_dir_all(scratch_root());
    let workers = std::env::var("PANACEA_SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let known = known();
    let tally = Mutex::new(Tally {
        runs: 0, sims: 0, steps: 0, switches: 0, sim_ns: 0, checks: 0, nontrivial: 0, hashes: HashSet::new(), counts: BTreeMap::new(),
        gauges: BTreeMap::new(), fail: vec![], known: BTreeMap::new(), by_threads: BTreeMap::new(), slowest: (0.0, 0),
    });
    let firsts: Mutex<BTreeMap<u64, (u64, u64, Option<String>)>> = Mutex::new(BTreeMap::new());
    let limit = Duration::from_secs(90);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| {
                let mut w = Worker::new(prop, seed);
                let mut past: Vec<u64> = vec![];
                loop {
                    if stop.load(SeqCst) || t0.elapsed().as_secs() >= secs {
                        return;
                    }
                    let i = next.fetch_add(1, SeqCst);
                    if i >= runs {
                        return;
                    }
                    let t1 = Instant::now();
                    let earlier = past.clone();
                    past.push(i);
                    let mut o = match w.ask(&i.to_string(), limit) {
                        Answer::Done(o) => {
                            if matches!(&o.violation, Some((c, _)) if c == "deadlock" || c == "step-limit") {
                                w = Worker::new(prop, seed);
                                past.clear();
                            }
                            o
                        }
                        Answer::Died(why) => {
                            w = Worker::new(prop, seed);
                            past.clear();
                            died(&why)
                        }
                    };
                    // a death is only believed when it repeats in a process of its own
                    if matches!(&o.violation, Some((c, _)) if c == "hang" || c.starts_with("crash") || c.starts_with("exit") || c == "gone") {
                        let p = gen::plan(prop, seed, i);
                        o = run_alone(&p, Duration::from_secs(150));
                        if o.violation.is_none() && !earlier.is_empty() {
                            let before: Vec<Plan> = earlier.iter().map(|k| gen::plan(prop, seed, *k)).collect();
                            let o2 = run_after(&before, &p, Duration::from_secs(150));
                            if !matches!(&o2.violation, Some((c, _)) if c.starts_with("before") || c == "hang") {
                                o = o2;
                            }
                        }
                    }
                    if past.len() >= 400 {
                        // bounded histories, so that a violation that needs one can be found again
                        w = Worker::new(prop, seed);
                        past.clear();
                    }
                    let took = t1.elapsed().as_secs_f64();
                    let mut t = tally.lock().unwrap();
                    t.runs += 1;
                    t.sims += o.runs;
                    t.steps += o.steps;
                    t.switches += o.switches;
                    t.sim_ns += o.sim_ns;
                    t.checks += o.checks;
                    *t.by_threads.entry(o.threads).or_insert(0) += 1;
                    if took > t.slowest.0 {
                        t.slowest = (took, i);
                    }
                    if o.nontrivial {
                        t.nontrivial += 1;
                        t.hashes.insert(if by_plan(prop) { o.hash ^ plan_hash(&gen::plan(prop, seed, i)) } else { o.hash });
                    }
                    for (k, n) in &o.counts {
                        *t.counts.entry(k.clone()).or_insert(0) += n;
                    }
                    for (k, v) in &o.gauges {
                        let e = t.gauges.entry(k.clone()).or_insert(f64::NEG_INFINITY);
                        *e = e.max(*v);
                    }
                    firsts.lock().unwrap().insert(i, (o.hash, o.steps, o.violation.as_ref().map(|x| x.0.clone())));
                    if let Some((c, _)) = &o.violation {
                        match known.iter().find(|k| k.property == prop && k.class == *c) {
                            Some(k) => *t.known.entry(k.text.clone()).or_insert(0) += 1,
                            None => {
                                t.fail.push((i, o, earlier));
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                }
            });
        }
    });
    let mut t = tally.into_inner().unwrap();
    let explored = t0.elapsed().as_secs_f64();
    // the same seeds again, elsewhere: must be the same executions
    let mut again = 0u64;
    let mut differ = vec![];
    if t.fail.is_empty() {
        let firsts = firsts.into_inner().unwrap();
        let n = firsts.len();
        let sample: Vec<u64> = firsts.keys().rev().cloned().step_by((n / 24).max(1)).collect();
        let pos = AtomicU64::new(0);
        let res = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| {
                    let mut w = Worker::new(prop, seed);
                    loop {
                        let k = pos.fetch_add(1, SeqCst) as usize;
                        if k >= sample.len() || t0.elapsed().as_secs() >= secs + 15 {
                            return;
                        }
                        if let Answer::Done(o) = w.ask(&sample[k].to_string(), limit) {
                            res.lock().unwrap().push((sample[k], (o.hash, o.steps, o.violation.map(|x| x.0))));
                        } else {
                            w = Worker::new(prop, seed);
                        }
                    }
                });
            }
        });
        for (i, x) in res.into_inner().unwrap() {
            again += 1;
            if firsts[&i] != x {
                differ.push(i);
            }
        }
        if !differ.is_empty() {
            eprintln!("note: {} of {again} repeated runs did not repeat exactly: {differ:?}", differ.len());
        }
    }
    for (text, n) in &t.known {
        println!("KNOWN-FINDING: property={prop} {text} ({n} runs)");
    }
    let mut code = 0;
    let violations = t.fail.len();
    t.fail.sort_by_key(|x| x.0);
    if let Some((i, o, earlier)) = t.fail.into_iter().next() {
        let p = gen::plan(prop, seed, i);
        let (class, detail) = o.violation.clone().unwrap();
        eprintln!("{prop}: run {i} (seed {seed}): {class}: {detail}");
        let room = if tier == "quick" { 90 } else { 180 };
        let before = earlier.iter().map(|k| gen::plan(prop, seed, *k)).collect();
        let (before, p2, o2, note) = shrink::minimise(before, p, o, Duration::from_secs(room));
        let path = write_replay(before, &p2, &o2, seed, i, &note);
        let (c2, d2) = o2.violation.clone().unwrap();
        println!("{prop}: {c2}: {d2}");
        println!("VIOLATION property={prop} replay={}", path.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<_, _> = t.counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let points: BTreeMap<_, _> = t.counts.iter().filter(|(k, _)| k.starts_with("point.")).map(|(k, v)| (k[6..].to_string(), *v)).collect();
    let other: BTreeMap<_, _> = t.counts.iter().filter(|(k, _)| !k.starts_with("point.") && !k.starts_with("fault.")).map(|(k, v)| (k.clone(), *v)).collect();
    let samples: Vec<_> = [0u64, 1, 2].iter().map(|i| sample_text(&gen::plan(prop, seed, *i))).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.hashes.len(),
            "rule": rule(prop),
            "samples": samples,
            "simulated_executions": t.sims,
            "nontrivial_runs": t.nontrivial,
            "oracle_comparisons": t.checks,
            "runs_per_hour": (t.runs as f64 / explored * 3600.0).round(),
            "seeds_per_hour": (t.runs as f64 / explored * 3600.0).round(),
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "scheduling_steps": t.steps,
            "context_switches": t.switches,
            "scheduling_points_by_kind": points,
            "faults_injected": faults,
            "other_counts": other,
            "threads_per_run": t.by_threads.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "gauges_max": t.gauges,
            "distinct_measure": if by_plan(prop) {
                "distinct hashes of (complete event sequence of the run, inputs, fault sequence): little or no concurrency is involved, so the event sequence alone says little"
            } else {
                "distinct hashes of the complete sequence of (thread, scheduling point, object) events of a run"
            },
            "runs_repeated_in_another_process": again,
            "runs_that_did_not_repeat_exactly": differ.len(),
            "slowest_run": { "seconds": t.slowest.0, "index": t.slowest.1 },
            "runs_planned": runs,
            "known_findings_met": t.known,
            "real_components": real(prop),
            "stub_components": STUBS,
        },
        "assumptions": ASSUME,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(scratch_root());
    println!("{prop} {tier}: {} runs ({} simulated executions, {} distinct), {} comparisons, {:.1} s", t.runs, t.sims, t.hashes.len(), t.checks, wall);
    code
}

fn write_replay(before: Vec<Plan>, p: &Plan, o: &Outcome, seed: u64, index: u64, note: &str) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let (class, detail) = o.violation.clone().unwrap();
    let path = dir.join(format!("{}-seed{seed}-run{index}.json", p.prop));
    let r = Replay { property: p.prop.clone(), class, detail, seed, index, event_hash: format!("{:016x}", o.hash), note: note.into(), before, plan: p.clone() };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
    path
}

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(Path::new(file)) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let _ = std::fs::create_dir_all(scratch_root());
    let o = run_after(&r.before, &r.plan, Duration::from_secs(300));
    let _ = std::fs::remove_dir_all(scratch_root());
    match o.violation {
        Some((c, d)) => {
            println!("{}: {c}: {d}", r.property);
            println!("recorded: {}; same class: {}; same event sequence: {}", r.class, c == r.class, format!("{:016x}", o.hash) == r.event_hash);
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        None => {
            println!("{}: the recorded run does not violate the property on this tree", r.property);
            0
        }
    }
}

/// Run the same plans in two processes, in different orders; report any difference.
pub fn determinism(prop: &str, seed: u64, n: u64) -> i32 {
    let _ = std::fs::create_dir_all(scratch_root());
    let go = |rev: bool| -> BTreeMap<u64, String> {
        let m = Mutex::new(BTreeMap::new());
        let k = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..(if rev { 3 } else { 8 }) {
                s.spawn(|| {
                    let mut w = Worker::new(prop, seed);
                    loop {
                        let i = k.fetch_add(1, SeqCst);
                        if i >= n {
                            return;
                        }
                        let i = if rev { n - 1 - i } else { i };
                        let r = match w.ask(&i.to_string(), Duration::from_secs(120)) {
                            Answer::Done(o) => {
                                let r = format!("{:016x} {} {} {} {:?} {:?} {:?}", o.hash, o.steps, o.sim_ns, o.checks, o.violation, o.counts, o.gauges);
                                if o.violation.is_some() {
                                    w = Worker::new(prop, seed);
                                }
                                r
                            }
                            Answer::Died(e) => {
                                w = Worker::new(prop, seed);
                                e
                            }
                        };
                        m.lock().unwrap().insert(i, r);
                    }
                });
            }
        });
        m.into_inner().unwrap()
    };
    let (a, b) = (go(false), go(true));
    let bad: Vec<u64> = a.keys().filter(|i| a[i] != b[i]).cloned().collect();
    println!("{prop}: {} runs twice (8 processes in order, 3 in reverse), {} differ {bad:?}", a.len(), bad.len());
    for i in bad.iter().take(2) {
        println!("  {i}:\n    {}\n    {}", a[i], b[i]);
    }
    let _ = std::fs::remove_dir_all(scratch_root());
    (!bad.is_empty()) as i32
}

fn sample_text(p: &Plan) -> serde_json::Value {
    let mut v = serde_json::to_value(p).unwrap();
    fn cut(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Array(a) => {
                a.truncate(12);
                a.iter_mut().for_each(cut)
            }
            serde_json::Value::Object(o) => {
                o.retain(|_, x| !x.is_null() && !matches!(x, serde_json::Value::Array(a) if a.is_empty()));
                o.values_mut().for_each(cut)
            }
            serde_json::Value::String(s) if s.len() > 300 => s.truncate((0..=300).rev().find(|&i| s.is_char_boundary(i)).unwrap()),
            _ => {}
        }
    }
    cut(&mut v);
    v
}

fn by_plan(prop: &str) -> bool {
    ["C09", "C12", "C13", "C17"].contains(&prop)
}
fn plan_hash(p: &Plan) -> u64 {
    let s = serde_json::to_string(&(&p.body, &p.faults, &p.clock, &p.geo, &p.tfhe)).unwrap();
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "a history of single reads and writes against one database, with client restarts; non-trivial when at least one request's answer was compared with the reference array",
        "C02" => "a history of parallel multi-query requests; non-trivial when at least one answer was compared with the reference array",
        "C03" => "a history of batch requests against a random geometry and random hash tables; non-trivial when at least one batch item was compared with the reference array",
        "C04" => "a history of write-heavy batches with whole-database comparisons; non-trivial when stored copies were compared with the reference array",
        "C05" => "one request list executed under the sequential schedule and several seeded schedules, pool sizes and call sites; non-trivial when ciphertexts were compared and threads interleaved",
        "C06" => "request lists from one or more concurrent servers under a seeded schedule with stalls and spurious wake-ups; non-trivial when at least one request was processed",
        "C07" => "clients and a server over a network with loss, duplication, delay, reordering, partitions and client crashes; non-trivial when at least one such fault happened",
        "C08" => "two request lists of the same shape under one schedule, comparing the server's event and allocation traces; non-trivial when the lists differ",
        "C09" => "queries for different requests, clients and restarts, taken apart; non-trivial when at least two queries were compared",
        "C10" => "malformed requests between well-formed ones; non-trivial when a request was examined",
        "C11" => "long histories with the noise of every response measured; non-trivial when at least one response was measured",
        "C12" => "several key-generation contexts under faults of clock and entropy sources; non-trivial when at least two contexts came up",
        "C13" => "the tool's configuration step with a parameter file that is valid, damaged, torn or fails to open or read; non-trivial when a fault fired or the file was damaged",
        "C14" => "a random decision tree and feature vectors, evaluated encrypted in parallel; non-trivial when a prediction was compared",
        "C15" => "the whole tool on small parameters; non-trivial when it ran to its report",
        "C16" => "two or three independent systems at once in one process; non-trivial when answers of at least two were compared",
        "C17" => "a feature file read under faults; non-trivial when a fault fired",
        "C23" => "the same requests, refused requests, client restarts, tree evaluations and short-lived systems 20 to 48 times over, with the memory the library holds after each time; non-trivial when a request was processed",
        _ => "",
    };
    format!("plan number k is generated from (VERIF_SEED, property, k): parameters, geometry, requests, schedule policy and seed, pool size, call site, clock, entropy and fault positions; {what}. Distinct: see distinct_measure.")
}

fn real(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["panacea library (all of /repo/src, built with --cfg panacea_sim)", "concrete-core, concrete-csprng and concrete-fft", "rayon's iterators, splitting and join logic"];
    match prop {
        "C13" | "C15" => v.extend(["the command-line tool (/repo/src/main.rs), clap, serde_json", "std's file and standard-output buffering"]),
        "C14" => v.push("serde_json tree parsing"),
        "C17" => v.push("csv crate and std's file reading"),
        _ => {}
    }
    v
}

const STUBS: &[&str] = &[
    "std::sync, std::thread and parking: replaced by primitives of the deterministic scheduler",
    "rayon-core's registry, deques, latches and sleep module: same algorithm with simulated primitives; victim order and idle rounds come from the seed",
    "clock_gettime, getrandom, /dev/random, file and standard-output system calls of simulated threads: answered by the simulated world",
    "network and client processes (C07): event queue in the harness; the repository has no transport",
];
const ASSUME: &[&str] = &[
    "sequentially consistent memory: weak-memory reorderings are not simulated",
    "code between scheduling points (locks, condition variables, pool operations, thread start and end) runs without interruption",
    "parameter sets have a decryption-failure probability far below one in the number of decryptions made",
];
