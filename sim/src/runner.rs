//! Command line, worker processes, minimiser, replays and evidence.

use std::{
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Read, Write},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
        mpsc::{Receiver, RecvTimeoutError, channel},
    },
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::{
    cx::{Cx, Violation},
    jobs::{self, BuildSpec},
    plan::{self, Check, Plan},
    util,
};

/// The result of one run, as the worker tells it.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Outcome {
    index: u64,
    log_hash: u64,
    sched_hash: u64,
    events: u64,
    violations: Vec<Violation>,
    counts: BTreeMap<String, u64>,
    states: Vec<u64>,
    sim_us: u64,
    faults: u64,
    checks: u64,
    lines: Option<Vec<String>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    seed: u64,
    index: u64,
    log_hash: u64,
    /// Parts of the plan before and after minimising.
    parts_before: usize,
    parts_after: usize,
    /// Plans that ran before in the same process and without which the violation does not appear.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    before: Vec<Plan>,
    plan: Plan,
    trace: Vec<String>,
}

#[derive(Clone, Debug, Deserialize)]
struct Known {
    property: String,
    class: String,
    /// Must be part of the violation's message.
    matches: String,
    what: String,
}

/// Stands for a stage that panicked, among the hashes of a build.
pub const PANICKED: u64 = u64::MAX;

const HANG: Duration = Duration::from_secs(120);

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["list"] => {
            for c in plan::checks() {
                println!("{} {}", c.id, c.title);
            }
            0
        }
        ["check", id, rest @ ..] => check(id, rest),
        ["worker", id, seed] => worker(id, seed.parse().unwrap()),
        ["exec"] => exec(),
        ["solo"] => solo_main(),
        ["replay", path] => replay(Path::new(path)),
        ["show", id, seed, index] => {
            show(id, seed.parse().unwrap(), index.parse().unwrap(), false)
        }
        ["plan", id, seed, index] => show(id, seed.parse().unwrap(), index.parse().unwrap(), true),
        _ => {
            eprintln!(
                "rrsim check ID [--seed N] [--runs N] [--wall SECONDS] [--jobs N] [--tier quick|thorough] [--evidence FILE] [--known FILE] [--replays DIR]\nrrsim replay FILE\nrrsim show|plan ID SEED INDEX\nrrsim list"
            );
            2
        }
    }
}

fn outcome(index: u64, cx: Cx) -> Outcome {
    let mut states: Vec<u64> = cx.states.iter().copied().collect();
    states.sort();
    Outcome {
        index,
        log_hash: cx.log_hash(),
        sched_hash: cx.sched_hash(),
        events: cx.events,
        violations: cx.violations,
        counts: cx.counts,
        states,
        sim_us: cx.sim_us,
        faults: cx.fault_count,
        checks: cx.checks,
        lines: cx.lines,
    }
}

fn run_plan(plan: &Plan, owned: Option<Vec<String>>, verbose: bool, index: u64) -> Outcome {
    let mut cx = Cx::new(verbose);
    cx.owned = owned;
    util::reset_random();
    plan.run(&mut cx);
    util::real_clock();
    outcome(index, cx)
}

fn owned(c: &Check) -> Vec<String> {
    // Also for looking into what a check sees of other properties.
    let also = std::env::var("RRSIM_ALSO").unwrap_or_default();
    let also = also.split(',').filter(|s| !s.is_empty());
    c.classes.iter().copied().chain(also).map(|s| s.to_string()).collect()
}

fn show(id: &str, seed: u64, index: u64, only_plan: bool) -> i32 {
    let Some(c) = plan::check(id) else { return 2 };
    let p = plan::generate(&c, seed, index);
    println!("{}", serde_json::to_string_pretty(&p).unwrap());
    if only_plan {
        return 0;
    }
    let t = Instant::now();
    let o = run_plan(&p, Some(owned(&c)), true, index);
    for l in o.lines.as_deref().unwrap_or_default() {
        println!("{l}");
    }
    println!(
        "{:?}\nhash {:x}, {} events, {} checks, {} ms, {} us simulated",
        o.counts,
        o.log_hash,
        o.events,
        o.checks,
        t.elapsed().as_millis(),
        o.sim_us
    );
    for v in &o.violations {
        println!("VIOLATION {}: {}", v.class, v.msg);
    }
    0
}

fn worker(id: &str, seed: u64) -> i32 {
    let c = plan::check(id).expect("check");
    let own = owned(&c);
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(i) = line.trim().parse::<u64>() else { break };
        let p = plan::generate(&c, seed, i);
        let o = run_plan(&p, Some(own.clone()), false, i);
        let mut out = out.lock();
        let _ = writeln!(out, "{}", serde_json::to_string(&o).unwrap());
        let _ = out.flush();
    }
    0
}

/// Runs the plan on standard input.
fn exec() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let (before, p, own): (Vec<Plan>, Plan, Vec<String>) =
        serde_json::from_str(&s).expect("plan");
    for b in &before {
        run_plan(b, Some(own.clone()), false, 0);
    }
    let o = run_plan(&p, Some(own), true, 0);
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}

fn solo_main() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let spec: BuildSpec = serde_json::from_str(&s).expect("spec");
    println!("{}", serde_json::to_string(&jobs::solo(&spec)).unwrap());
    0
}

/// Builds in a process that does nothing else, and gives the hashes of all stages.
pub fn solo(spec: &BuildSpec) -> Vec<u64> {
    let mut child = Command::new(exe())
        .arg("solo")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let _ = child.stdin.take().unwrap().write_all(&serde_json::to_vec(spec).unwrap());
    let out = child.wait_with_output().expect("wait");
    serde_json::from_slice(&out.stdout).unwrap_or_else(|_| vec![PANICKED])
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// Runs a plan in a process of its own, after some others.
fn exec_plan(before: &[Plan], p: &Plan, own: &[String], hang: Duration) -> Outcome {
    let mut child = Command::new(exe())
        .arg("exec")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let input = serde_json::to_vec(&(before, p, own)).unwrap();
    let _ = child.stdin.take().unwrap().write_all(&input);
    let mut stdout = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = stdout.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let class = match rx.recv_timeout(hang) {
        Ok(s) => {
            let st = child.wait();
            if let Ok(o) = serde_json::from_str::<Outcome>(&s) {
                return o;
            }
            ("process-abort", format!("the process ended: {st:?}"))
        }
        Err(_) => {
            let _ = child.kill();
            let _ = child.wait();
            ("hang", format!("no end within {} s", hang.as_secs()))
        }
    };
    Outcome {
        violations: vec![Violation {
            class: class.0.into(),
            msg: class.1,
        }],
        ..Default::default()
    }
}

// ---------------------------------------------------------------- worker handling

struct Worker {
    child: Child,
    rx: Receiver<String>,
    /// The runs so far.
    runs: Vec<u64>,
}

impl Worker {
    fn spawn(id: &str, seed: u64) -> Worker {
        let mut child = Command::new(exe())
            .args(["worker", id, &seed.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Worker { child, rx, runs: Vec::new() }
    }

    fn run(&mut self, i: u64) -> Result<Outcome, &'static str> {
        self.runs.push(i);
        let stdin = self.child.stdin.as_mut().unwrap();
        if writeln!(stdin, "{i}").and_then(|_| stdin.flush()).is_err() {
            return Err("process-abort");
        }
        match self.rx.recv_timeout(HANG) {
            Ok(l) => serde_json::from_str(&l).map_err(|_| "process-abort"),
            Err(RecvTimeoutError::Timeout) => Err("hang"),
            Err(_) => Err("process-abort"),
        }
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    hashes: BTreeMap<u64, u64>,
    scheds: HashSet<u64>,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    sim_us: u64,
    events: u64,
    checks: u64,
    faulty_runs: u64,
    foreign: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

fn check(id: &str, rest: &[&str]) -> i32 {
    let Some(c) = plan::check(id) else {
        eprintln!("no check {id}");
        return 2;
    };
    let opt = |name: &str| {
        rest.iter()
            .position(|a| *a == name)
            .and_then(|i| rest.get(i + 1))
            .map(|s| s.to_string())
    };
    let tier = opt("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt("--runs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { c.thorough } else { c.quick });
    let wall: u64 = opt("--wall")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 300 });
    let jobs: usize = opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
    });
    let evidence = opt("--evidence").unwrap_or(format!("/verif/evidence/{id}.json"));
    let replays = PathBuf::from(opt("--replays").unwrap_or("/verif/evidence/replays".into()));
    let known: Vec<Known> = opt("--known")
        .map(|p| {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(p).expect("known findings"))
                    .expect("known findings");
            v["findings"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(|f| serde_json::from_value(f.clone()).ok())
                .filter(|k: &Known| k.property == id)
                .collect()
        })
        .unwrap_or_default();

    let own = owned(&c);
    let start = Instant::now();
    let deadline = start + Duration::from_secs(wall);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let totals = Arc::new(Mutex::new(Totals::default()));
    let found: Arc<Mutex<Vec<(u64, Violation, Vec<u64>)>>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut w = Worker::spawn(c.id, seed);
                loop {
                    if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= runs {
                        break;
                    }
                    if w.runs.len() > 400 {
                        w = Worker::spawn(c.id, seed);
                    }
                    let earlier = w.runs.len();
                    let mut history = Vec::new();
                    let o = match w.run(i) {
                        Ok(o) => o,
                        Err(class) => {
                            history = w.runs[..earlier].to_vec();
                            w = Worker::spawn(c.id, seed);
                            Outcome {
                                index: i,
                                violations: vec![Violation {
                                    class: class.into(),
                                    msg: "see the replay".into(),
                                }],
                                ..Default::default()
                            }
                        }
                    };
                    for v in &o.violations {
                        if !is_own(&own, &v.class) {
                            *totals
                                .lock()
                                .unwrap()
                                .foreign
                                .entry(v.class.clone())
                                .or_default() += 1;
                        } else if let Some(k) = known
                            .iter()
                            .find(|k| k.class == v.class && v.msg.contains(&k.matches))
                        {
                            *totals.lock().unwrap().known.entry(k.what.clone()).or_default() += 1;
                        } else {
                            if !w.runs.is_empty() {
                                history = w.runs[..earlier].to_vec();
                            }
                            found.lock().unwrap().push((i, v.clone(), history));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    add(&mut totals.lock().unwrap(), &c, o);
                }
            });
        }
    });
    let mut t = std::mem::take(&mut *totals.lock().unwrap());
    let explored = start.elapsed();

    // Exact repeatability: some of the runs again, in fresh processes.
    let again: Vec<(u64, u64)> = {
        let n = if thorough { 40 } else { 8 };
        let k = t.hashes.len();
        let step = (k / n).max(1);
        t.hashes.iter().step_by(step).take(n).map(|(a, b)| (*a, *b)).collect()
    };
    let mut repeated = (0u64, 0u64, Vec::new());
    if found.lock().unwrap().is_empty() {
        let mut w = Worker::spawn(c.id, seed);
        for (i, h) in again {
            repeated.0 += 1;
            match w.run(i) {
                Ok(o) if o.log_hash == h => repeated.1 += 1,
                _ => repeated.2.push(i),
            }
        }
    }

    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut violation = serde_json::Value::Null;
    if let Some((i, v, history)) = found.first() {
        code = 1;
        let r = minimise(&c, seed, *i, v, history, &own);
        let _ = std::fs::create_dir_all(&replays);
        let path = replays.join(format!("{id}-seed{seed}-run{i}.json"));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("replay file");
        for l in &r.trace {
            println!("  {l}");
        }
        println!(
            "run {i} of seed {seed}: {}: {} (minimised from {} to {} steps)",
            r.class, r.message, r.parts_before, r.parts_after
        );
        println!("VIOLATION property={id} replay={}", path.display());
        violation = json!({ "class": r.class, "message": r.message, "replay": path, "run": i });
    }
    for (k, n) in &t.known {
        println!("KNOWN-FINDING: property={id} {k} ({n} times in this check)");
    }
    let h = explored.as_secs_f64().max(0.001) / 3600.0;
    let faults: BTreeMap<String, u64> = t
        .counts
        .iter()
        .filter_map(|(k, v)| k.strip_prefix("fault:").map(|k| (k.to_string(), *v)))
        .collect();
    let others: BTreeMap<String, u64> = t
        .counts
        .iter()
        .filter(|(k, _)| !k.starts_with("fault:"))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    t.samples.truncate(3);
    let e = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": start.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.distinct.len(),
            "rule": format!("{}; distinct by the hash of the complete event log", c.rule),
            "samples": t.samples,
            "nontrivial_runs": t.nontrivial,
            "runs_planned": runs,
            "runs_per_hour": (t.runs as f64 / h) as u64,
            "seeds_per_hour": (t.runs as f64 / h) as u64,
            "simulated_s": t.sim_us as f64 / 1e6,
            "events": t.events,
            "oracle_checks": t.checks,
            "faults_injected": faults,
            "runs_with_faults": t.faulty_runs,
            "actions": others,
            "distinct_schedules": t.scheds.len(),
            "distinct_schedules_measure": "hash of the order of scheduling decisions of a run",
            "distinct_states": t.states.len(),
            "distinct_states_measure": "hash of the abstract situation after each frame or answer",
            "repeated_in_another_process": repeated.0,
            "repeated_identically": repeated.1,
            "not_repeated_identically": repeated.2,
            "real_components": c.real,
            "stubbed_components": c.stubs,
            "other_observations": t.foreign,
            "known_findings_met": t.known,
        },
        "violation": violation,
    });
    if let Some(d) = Path::new(&evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&evidence, serde_json::to_vec_pretty(&e).unwrap()).expect("evidence file");
    println!(
        "{id} ({}): {} runs ({} distinct non-trivial), {} checks, {} faults, {} schedules, {} situations, {:.0} simulated s in {:.0} s; {}/{} repeated identically{}",
        c.title,
        t.runs,
        t.distinct.len(),
        t.checks,
        faults.values().sum::<u64>(),
        t.scheds.len(),
        t.states.len(),
        t.sim_us as f64 / 1e6,
        explored.as_secs_f64(),
        repeated.1,
        repeated.0,
        if t.foreign.is_empty() {
            String::new()
        } else {
            format!("; seen, but of other properties: {:?}", t.foreign)
        }
    );
    if code == 0 && t.distinct.len() < 2 {
        if !t.foreign.is_empty() && std::env::var_os("RRSIM_ALSO").is_none() {
            // Something else is so broken that this property cannot even come up: report that.
            let classes: Vec<&str> = t.foreign.keys().map(|k| k.as_str()).collect();
            let again = std::process::Command::new(std::env::current_exe().expect("own path"))
                .args(["check", id])
                .args(rest)
                .env("RRSIM_ALSO", classes.join(","))
                .status();
            return again.ok().and_then(|s| s.code()).unwrap_or(2);
        }
        eprintln!("{id}: nothing was explored");
        return 2;
    }
    code
}

fn is_own(own: &[String], class: &str) -> bool {
    class == "hang" || class == "process-abort" || own.iter().any(|c| c == class)
}

fn add(t: &mut Totals, c: &Check, o: Outcome) {
    t.runs += 1;
    t.hashes.insert(o.index, o.log_hash);
    t.scheds.insert(o.sched_hash);
    t.sim_us += o.sim_us;
    t.events += o.events;
    t.checks += o.checks;
    t.faulty_runs += u64::from(o.faults > 0);
    let nontrivial = c.nontrivial.iter().any(|k| o.counts.contains_key(*k));
    if nontrivial {
        t.nontrivial += 1;
        t.distinct.insert(o.log_hash);
        if t.samples.len() < 3 {
            t.samples.push(json!({
                "run": o.index,
                "events": o.events,
                "counts": o.counts,
                "log_hash": format!("{:016x}", o.log_hash),
            }));
        }
    }
    for (k, v) in o.counts {
        *t.counts.entry(k).or_default() += v;
    }
    t.states.extend(o.states);
}

// ---------------------------------------------------------------- minimising

fn reproduces(before: &[Plan], p: &Plan, own: &[String], class: &str, hang: Duration) -> Option<Outcome> {
    let o = exec_plan(before, p, own, hang);
    o.violations.iter().any(|v| v.class == class).then_some(o)
}

fn minimise(c: &Check, seed: u64, i: u64, v: &Violation, history: &[u64], own: &[String]) -> Replay {
    let full = plan::generate(c, seed, i);
    let budget = Instant::now() + Duration::from_secs(if v.class == "hang" { 60 } else { 90 });
    let hang = Duration::from_secs(if v.class == "hang" { 20 } else { 60 });
    let mut best = full.clone();
    let mut last = reproduces(&[], &best, own, &v.class, HANG);
    let mut before = Vec::new();
    if last.is_none() && !history.is_empty() {
        // Something is left over from earlier runs: as few of them as possible.
        let long = Duration::from_secs(300);
        let mut keep: Vec<Plan> = history.iter().map(|k| plan::generate(c, seed, *k)).collect();
        if let Some(o) = reproduces(&keep, &best, own, &v.class, long) {
            last = Some(o);
            let mut n = (keep.len() / 2).max(1);
            'shrink: while Instant::now() < budget {
                let mut at = 0;
                while at < keep.len() && Instant::now() < budget {
                    let mut fewer = keep.clone();
                    fewer.drain(at..(at + n).min(keep.len()));
                    if let Some(o) = reproduces(&fewer, &best, own, &v.class, long) {
                        keep = fewer;
                        last = Some(o);
                    } else {
                        at += n;
                    }
                }
                if n == 1 {
                    break 'shrink;
                }
                n /= 2;
            }
            before = keep;
        }
    }
    let before = &before[..];
    let mut progress = last.is_some();
    while progress && Instant::now() < budget {
        progress = false;
        // Leave out parts, larger pieces first.
        let mut n = (best.len() / 2).max(1);
        while n >= 1 && Instant::now() < budget {
            let mut at = 0;
            let mut any = false;
            while at < best.len() && Instant::now() < budget {
                // Several at once, the first that works is taken.
                let starts: Vec<usize> = (0..8).map(|k| at + k * n).filter(|a| *a < best.len()).collect();
                let hits: Vec<Option<(Plan, Outcome)>> = std::thread::scope(|s| {
                    let hs: Vec<_> = starts
                        .iter()
                        .map(|a| {
                            let mask: Vec<bool> =
                                (0..best.len()).map(|k| k < *a || k >= a + n).collect();
                            let p = best.keep(&mask);
                            let class = v.class.clone();
                            s.spawn(move || {
                                if p.len() >= mask.len() {
                                    return None;
                                }
                                reproduces(before, &p, own, &class, hang).map(|o| (p, o))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                match hits.into_iter().enumerate().find_map(|(k, h)| h.map(|h| (k, h))) {
                    Some((k, (p, o))) => {
                        best = p;
                        last = Some(o);
                        any = true;
                        progress = true;
                        at = starts[k];
                    }
                    None => at += starts.len() * n,
                }
            }
            if n == 1 && !any {
                break;
            }
            if n > 1 || !any {
                n /= 2;
            }
        }
        let mut again = true;
        while again && Instant::now() < budget {
            again = false;
            let cands = best.simpler();
            for chunk in cands.chunks(8) {
                let hits: Vec<Option<Outcome>> = std::thread::scope(|s| {
                    let hs: Vec<_> = chunk
                        .iter()
                        .map(|p| s.spawn(|| reproduces(before, p, own, &v.class, hang)))
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                if let Some((k, o)) = hits.into_iter().enumerate().find_map(|(k, h)| h.map(|h| (k, h))) {
                    best = chunk[k].clone();
                    last = Some(o);
                    again = true;
                    progress = true;
                    break;
                }
                if Instant::now() > budget {
                    break;
                }
            }
        }
    }
    let o = last.unwrap_or_default();
    let found = o.violations.iter().find(|x| x.class == v.class).unwrap_or(v);
    Replay {
        property: c.id.into(),
        class: v.class.clone(),
        message: found.msg.clone(),
        seed,
        index: i,
        log_hash: o.log_hash,
        parts_before: full.len(),
        parts_after: best.len(),
        before: before.to_vec(),
        plan: best,
        trace: o.lines.unwrap_or_default(),
    }
}

fn replay(path: &Path) -> i32 {
    let r: Replay = match std::fs::read(path).map(|b| serde_json::from_slice(&b)) {
        Ok(Ok(r)) => r,
        e => {
            eprintln!("{}: {e:?}", path.display());
            return 2;
        }
    };
    let Some(c) = plan::check(&r.property) else { return 2 };
    let mut own = owned(&c);
    own.push(r.class.clone());
    let o = exec_plan(&r.before, &r.plan, &own, HANG.max(Duration::from_secs(if r.before.is_empty() { 0 } else { 300 })));
    for l in o.lines.as_deref().unwrap_or_default() {
        println!("  {l}");
    }
    let hit = o.violations.iter().find(|v| v.class == r.class);
    println!(
        "{} events, log {}",
        o.events,
        if o.log_hash == r.log_hash { "identical to the recorded one" } else { "DIFFERENT from the recorded one" }
    );
    match hit {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", r.property, path.display());
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}
