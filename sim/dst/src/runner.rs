//! Running cases in child processes, collecting what they report, shrinking and replaying.

use crate::case::{Prop, Rep, case_seed};
use crate::rng::Rng;
use crate::shrink;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};

pub const CASE_TIMEOUT: u64 = 90;

pub fn make_case(p: &Prop, base: u64, i: u64) -> Value {
    let seed = case_seed(p.id, base, i);
    let mut r = Rng::new(seed);
    let mut c = (p.make)(&mut r, i);
    c["prop"] = json!(p.id);
    c["seed"] = json!(seed);
    c["index"] = json!(i);
    c
}

/// Takes over fd 1: what libraries print goes nowhere, what we print goes to the returned file.
fn private_stdout() -> std::fs::File {
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(keep)
    }
}

pub fn prepare_process() {
    // Pools and tables that live as long as the process are made before any world starts.
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1).build_global();
    let df = polars::prelude::DataFrame::empty();
    let _ = df.height();
    let sc = crate::world::Scratch::new();
    let _ = std::env::set_current_dir(&sc.0);
    // Kept until the process ends; the parent removes the directories of its children.
    let dir = sc.0.clone();
    std::mem::forget(sc);
    // Whatever libraries do only once per process happens now.
    let m = json!({"metadata": {"title": "warm-up"}, "time": {"start": "2020-01-01", "end": "2020-01-03", "timestep": {"type": "Days", "days": 1}},
        "scenarios": {"groups": [{"name": "g", "size": 5}]},
        "network": {"nodes": [
            {"meta": {"name": "a"}, "type": "Input", "max_flow": {"type": "Timeseries", "name": "ts", "columns": {"type": "Column", "name": "x"}}},
            {"meta": {"name": "b"}, "type": "Output", "max_flow": {"type": "Literal", "value": 2.0}, "cost": {"type": "Literal", "value": -1.0}}],
            "edges": [{"from_node": "a", "to_node": "b"}],
            "timeseries": [{"meta": {"name": "ts"}, "type": "Polars", "time_col": "date", "url": "warm.csv"}],
            "metric_sets": [{"name": "obs", "metrics": [{"type": "Node", "name": "a", "attribute": "Outflow"}]}],
            "outputs": [{"type": "CSV", "name": "c", "filename": "warm-out.csv", "format": "Long", "metric_set": "obs"},
                {"type": "HDF5", "name": "h", "filename": "warm.h5", "metric_set": "obs"},
                {"type": "Memory", "name": "m", "metric_set": "obs"}]}});
    let _ = std::fs::write(format!("{dir}/warm.csv"), "date,x\n2020-01-01,1.0\n2020-01-02,2.0\n2020-01-03,3.0\n");
    let (r, _) = crate::world::run_in(&crate::world::World::calm(1), |ctx| {
        let b = crate::sut::load(&m, &dir, &dir)?;
        for t in [0, 2] {
            crate::sut::whole::<pywr_core::solvers::HighsSolver>(ctx, &b, &m, &crate::sut::highs(t))?;
            crate::sut::whole::<pywr_core::solvers::MicroLpSolver>(ctx, &b, &m, &crate::sut::microlp(t))?;
        }
        crate::sut::whole_ipm(ctx, &b, &m, &crate::sut::ipm(2))
    });
    if let Ok(Err(e)) | Err(e) = r {
        eprintln!("warm-up run: {e}");
    }
    crate::sut::watch_solvers();
    crate::sut::watch_highs();
}

fn run_one(p: &Prop, case: &Value) -> Rep {
    let mut rep = Rep::default();
    (p.run)(case, &mut rep);
    rep
}

pub fn worker(p: &Prop, base: u64, start: u64, stride: u64, count: u64) {
    let mut out = private_stdout();
    prepare_process();
    let mut i = start;
    while i < count {
        let _ = writeln!(out, "S {i}");
        let t = Instant::now();
        let c = make_case(p, base, i);
        let r = run_one(p, &c);
        let mut v = r.json(false);
        v["ms"] = json!(t.elapsed().as_millis() as u64);
        let _ = writeln!(out, "R {i} {v}");
        i += stride;
    }
    let _ = writeln!(out, "E");
}

pub fn one(p: &Prop, file: &str, out: &str) {
    let _keep = private_stdout();
    let case: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    prepare_process();
    let r = run_one(p, &case);
    std::fs::write(out, r.json(true).to_string()).unwrap();
}

fn clean_child(pid: u32) {
    for base in ["/dev/shm", "/tmp"] {
        if let Ok(d) = std::fs::read_dir(base) {
            for e in d.flatten() {
                if e.file_name().to_string_lossy().starts_with(&format!("dst-{pid}-")) {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    let mut nap = 1;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {}
            Err(_) => return None,
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(10);
    }
}

fn ending(s: Option<std::process::ExitStatus>, stderr: &str) -> (String, String) {
    let tail: String = stderr.lines().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
    if stderr.contains("DST-DEAD") {
        let l = stderr.lines().find(|l| l.contains("DST-DEAD")).unwrap_or("").to_string();
        return ("hang".into(), format!("the run never ends: {l}"));
    }
    match s {
        None => ("hang".into(), format!("no answer after the time limit; {tail}")),
        Some(s) => ("crash".into(), format!("the process died ({s}); {tail}")),
    }
}

/// Whether endings put down to the solver library count: set once there are far too many of them.
static STRICT: AtomicBool = AtomicBool::new(false);

/// Runs a case in a fresh process.
pub fn run_isolated(p: &Prop, case: &Value, timeout: u64) -> Value {
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = crate::world::Scratch::new();
    let k = N.fetch_add(1, SeqCst);
    let f = format!("{}/case{k}.json", dir.0);
    let o = format!("{}/out{k}.json", dir.0);
    let e = format!("{}/err{k}", dir.0);
    std::fs::write(&f, case.to_string()).unwrap();
    let mut c = Command::new(exe())
        .args(["one", p.id, &f, &o])
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .unwrap();
    let pid = c.id();
    let st = wait_timeout(&mut c, Duration::from_secs(timeout));
    clean_child(pid);
    if let (Some(s), Ok(t)) = (st, std::fs::read_to_string(&o)) {
        if s.success() {
            if let Ok(v) = serde_json::from_str(&t) {
                return v;
            }
        }
    }
    let err = std::fs::read_to_string(&e).unwrap_or_default();
    let strict = STRICT.load(SeqCst) || case["violation"]["sig"] == "solver-broken";
    if strict && (err.contains(crate::sut::STUCK) || err.contains(crate::sut::DIED)) {
        return json!({"viol": [["solver-broken", format!("the solver library {} in this case and in many others", if err.contains(crate::sut::DIED) { "died" } else { "never ended" })]], "cov": {}, "traces": {}});
    }
    if err.contains(crate::sut::STUCK) {
        return json!({"viol": [], "cov": {"solver_never_ended": 1}, "traces": {}, "skip": "one solve of the solver library never ended"});
    }
    if err.contains(crate::sut::DIED) {
        return json!({"viol": [], "cov": {"solver_died": 1}, "traces": {}, "skip": "the presolve of the solver library read outside its memory and died"});
    }
    let (sig, msg) = ending(st, &err);
    json!({"viol": [[sig, msg]], "cov": {}, "traces": {}})
}

/// Set when so many cases were refused that each of them counts.
pub const REFUSED: &str = "DST_REFUSED_COUNTS";

pub fn sigs(v: &Value) -> Vec<(String, String)> {
    v["viol"]
        .as_array()
        .map(|a| a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect())
        .unwrap_or_default()
}

#[derive(Default)]
struct Sum {
    done: u64,
    skipped: BTreeMap<String, u64>,
    cov: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    state_total: u64,
    scheds: BTreeSet<u64>,
    sched_total: u64,
    nontrivial: BTreeSet<u64>,
    sim_minutes: f64,
    viol: BTreeMap<u64, Vec<(String, String)>>,
    samples: Vec<Value>,
    max_ms: u64,
    digests: BTreeMap<u64, String>,
    broken: u64,
    broke: Vec<u64>,
    refused: Vec<u64>,
}

impl Sum {
    fn add(&mut self, i: u64, v: &Value) {
        self.done += 1;
        for (k, n) in v["cov"].as_object().into_iter().flatten() {
            *self.cov.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        let mut h = 0u64;
        for s in v["states"].as_array().into_iter().flatten() {
            let x = s.as_u64().unwrap_or(0);
            h = crate::rng::mix(h ^ x);
            self.state_total += 1;
            if self.states.len() < 4_000_000 {
                self.states.insert(x);
            }
        }
        for s in v["scheds"].as_array().into_iter().flatten() {
            self.sched_total += 1;
            self.scheds.insert(s.as_u64().unwrap_or(0));
        }
        self.sim_minutes += v["sim_minutes"].as_f64().unwrap_or(0.0);
        if let Some(s) = v["skip"].as_str() {
            *self.skipped.entry(s.to_string()).or_insert(0) += 1;
            if v["cov"]["solver_died"] == 1 || v["cov"]["solver_never_ended"] == 1 {
                self.broke.push(i);
            }
        } else if v["nontrivial"].as_bool().unwrap_or(false) {
            self.nontrivial.insert(h);
        }
        if v["cov"]["solver_gave_up"].as_u64().unwrap_or(0) > 0 {
            self.refused.push(i);
        }
        let sg = sigs(v);
        if !sg.is_empty() {
            self.viol.insert(i, sg);
        }
        self.max_ms = self.max_ms.max(v["ms"].as_u64().unwrap_or(0));
        if let Some(n) = v["note"].as_str() {
            if !n.is_empty() && self.samples.len() < 3 && v["skip"].is_null() {
                self.samples.push(json!({"case": i, "what": n, "states": v["states"].as_array().map(|a| a.len())}));
            }
        }
        if i < 6 {
            self.digests.insert(i, digest(v));
        }
    }
}

/// What a repetition of a case has to reproduce.
fn digest(v: &Value) -> String {
    json!([v["viol"], v["cov"], v["states"], v["scheds"], v["skip"], v["sim_minutes"]]).to_string()
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub contains: String,
    pub what: String,
}

pub fn known(root: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.json")) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|f| Known {
            property: f["property"].as_str().unwrap().into(),
            sig: f["sig"].as_str().unwrap().into(),
            contains: f["contains"].as_str().unwrap_or("").into(),
            what: f["what"].as_str().unwrap().into(),
        })
        .collect()
}

fn is_known<'a>(k: &'a [Known], p: &Prop, sig: &str, msg: &str) -> Option<&'a Known> {
    k.iter().find(|k| k.property == p.id && k.sig == sig && msg.contains(&k.contains))
}

pub fn check(p: &'static Prop, tier: &str, base: u64, root: &str, count: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let count = count.unwrap_or(if thorough { p.cases.1 } else { p.cases.0 });
    let cap = Duration::from_secs(if thorough { 5 * 3600 } else { 420 });
    let jobs = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(1, 16);
    let knowns = Arc::new(known(root));
    let sum = Arc::new(Mutex::new(Sum::default()));
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    // Blocks of case numbers are handed to fresh processes.
    let block = (count / (jobs * 3)).clamp(1, 250);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            let (sum, stop, next, knowns) = (sum.clone(), stop.clone(), next.clone(), knowns.clone());
            s.spawn(move || {
                loop {
                    let from = next.fetch_add(block, SeqCst);
                    if from >= count || stop.load(SeqCst) || t0.elapsed() > cap {
                        return;
                    }
                    let to = (from + block).min(count);
                    let mut at = from;
                    while at < to && !stop.load(SeqCst) {
                        at = slot(p, base, at, to, &sum, &stop, &knowns, t0, cap);
                    }
                }
            });
        }
    });
    let mut sum = Arc::try_unwrap(sum).ok().unwrap().into_inner().unwrap();
    // The same cases again, in other processes: one seed is one execution.
    let mut repeated = 0u64;
    let mut unrepeatable: Vec<(u64, String)> = vec![];
    if sum.viol.is_empty() {
        let ids: Vec<u64> = sum.digests.keys().copied().collect();
        for i in ids {
            let c = make_case(p, base, i);
            let v = run_isolated(p, &c, 2 * CASE_TIMEOUT);
            if digest(&v) == sum.digests[&i] {
                repeated += 1;
            } else {
                unrepeatable.push((i, first_difference(&sum.digests[&i], &digest(&v))));
            }
        }
    }
    if p.id == "C02" {
        for (i, d) in &unrepeatable {
            sum.viol.entry(*i).or_default().push(("unrepeatable".into(), format!("the same case in another process went differently: {d}")));
        }
    }
    if sum.broke.len() as u64 > 5 + sum.done / 200 {
        STRICT.store(true, SeqCst);
        let i = sum.broke[0];
        sum.viol.entry(i).or_default().push(("solver-broken".into(), format!("the solver library died or never ended in {} of {} cases", sum.broke.len(), sum.done)));
    }
    if sum.refused.len() as u64 > 5 + sum.done * 15 / 100 {
        // SAFETY: all the worker threads have ended.
        unsafe { std::env::set_var(REFUSED, "1") };
        let i = sum.refused[0];
        sum.viol.entry(i).or_default().push(("solver-gives-up".into(), format!("the solver gave up on {} of {} cases", sum.refused.len(), sum.done)));
    }
    // Report.
    let mut code = 0;
    let mut reported: BTreeSet<String> = BTreeSet::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut nviol = 0;
    for (i, v) in &sum.viol {
        for (sig, msg) in v {
            if let Some(k) = is_known(&knowns, p, sig, msg) {
                *known_seen.entry(k.what.clone()).or_insert(0) += 1;
                continue;
            }
            if !reported.insert(sig.clone()) || reported.len() > 3 {
                continue;
            }
            nviol += 1;
            code = 1;
            let budget = if thorough { 300 } else if reported.len() == 1 { 75 } else { 20 };
            let file = shrink::report(p, base, *i, sig, msg, root, Duration::from_secs(budget), &knowns_pred(&knowns, p));
            println!("{} {} (case {i}): {msg}", p.id, sig);
            println!("VIOLATION property={} replay={}", p.id, file);
        }
    }
    for k in knowns.iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    if sum.done < 1 || sum.broken > 0 {
        eprintln!("the check could not run its cases ({} done, {} workers broken)", sum.done, sum.broken);
        if code == 0 {
            code = 2;
        }
    }
    if p.id != "C02" && !unrepeatable.is_empty() {
        eprintln!("warning: cases that did not repeat exactly: {unrepeatable:?}");
    }
    evidence(p, tier, base, root, &sum, count, repeated, nviol, &known_seen, t0.elapsed());
    code
}

fn knowns_pred<'a>(k: &'a [Known], p: &'a Prop) -> impl Fn(&str, &str) -> bool + 'a {
    move |s, m| is_known(k, p, s, m).is_some()
}

fn first_difference(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let f = k.saturating_sub(40);
        s.get(f..(k + 60).min(s.len())).unwrap_or("").to_string()
    };
    format!("…{}… / …{}…", cut(a), cut(b))
}

#[allow(clippy::too_many_arguments)]
fn slot(
    p: &'static Prop, base: u64, from: u64, to: u64, sum: &Mutex<Sum>, stop: &AtomicBool, knowns: &[Known], t0: Instant, cap: Duration,
) -> u64 {
    let mut c = match Command::new(exe())
        .args(["worker", p.id, &base.to_string(), &from.to_string(), "1", &to.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => {
            sum.lock().unwrap().broken += 1;
            return to;
        }
    };
    let pid = c.id();
    let so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let (tx, rx) = mpsc::channel::<String>();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            if tx.send(l).is_err() {
                return;
            }
        }
    });
    let errs = Arc::new(Mutex::new(String::new()));
    let e2 = errs.clone();
    let eh = std::thread::spawn(move || {
        let mut buf = [0u8; 4096];
        while let Ok(n) = se.read(&mut buf) {
            if n == 0 {
                break;
            }
            let mut g = e2.lock().unwrap();
            if g.len() < 100_000 {
                g.push_str(&String::from_utf8_lossy(&buf[..n]));
            }
        }
    });
    let mut running: Option<u64> = None;
    let mut done = from;
    let mut finished = false;
    let mut timed_out = false;
    loop {
        match rx.recv_timeout(Duration::from_secs(CASE_TIMEOUT)) {
            Ok(l) => {
                if let Some(r) = l.strip_prefix("S ") {
                    running = r.parse().ok();
                } else if let Some(r) = l.strip_prefix("R ") {
                    let (i, j) = r.split_once(' ').unwrap();
                    let i: u64 = i.parse().unwrap();
                    let v: Value = serde_json::from_str(j).unwrap();
                    let new = sigs(&v).iter().any(|(s, m)| is_known(knowns, p, s, m).is_none());
                    sum.lock().unwrap().add(i, &v);
                    running = None;
                    done = i + 1;
                    if new {
                        stop.store(true, SeqCst);
                    }
                    if stop.load(SeqCst) || t0.elapsed() > cap {
                        break;
                    }
                } else if l == "E" {
                    finished = true;
                    break;
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                timed_out = true;
                break;
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    if finished {
        let _ = c.wait();
        let _ = eh.join();
        clean_child(pid);
        return to;
    }
    let stopping = stop.load(SeqCst) || t0.elapsed() > cap;
    let _ = c.kill();
    let _ = c.wait();
    let _ = eh.join();
    clean_child(pid);
    if stopping {
        return to;
    }
    let Some(i) = running else {
        sum.lock().unwrap().broken += 1;
        return (done + 1).max(from + 1);
    };
    // The worker died or hung on this case: confirm it alone, with more time.
    let case = make_case(p, base, i);
    let mut v = run_isolated(p, &case, 2 * CASE_TIMEOUT);
    if sigs(&v).is_empty() && v["skip"].is_null() {
        let e = errs.lock().unwrap().clone();
        if timed_out {
            *sum.lock().unwrap().cov.entry("slow_cases".into()).or_insert(0) += 1;
        } else {
            v["note"] = json!("");
            *sum.lock().unwrap().cov.entry("unconfirmed_worker_deaths".into()).or_insert(0) += 1;
            eprintln!("worker died on case {i} but the case alone runs: {}", e.lines().last().unwrap_or(""));
        }
    }
    if sigs(&v).iter().any(|(s, m)| is_known(knowns, p, s, m).is_none()) {
        stop.store(true, SeqCst);
    }
    sum.lock().unwrap().add(i, &v);
    i + 1
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop, tier: &str, base: u64, root: &str, s: &Sum, asked: u64, repeated: u64, nviol: u64, known_seen: &BTreeMap<String, u64>, wall: Duration,
) {
    let secs = wall.as_secs_f64().max(0.001);
    let mut faults = BTreeMap::new();
    let mut counts = BTreeMap::new();
    for (k, v) in &s.cov {
        if let Some(f) = k.strip_prefix("fault.") {
            faults.insert(f.to_string(), *v);
        } else {
            counts.insert(k.clone(), *v);
        }
    }
    for k in ["clock.jumps_injected", "clock.backward_jumps"] {
        if let Some(v) = s.cov.get(k) {
            faults.insert(k.into(), *v);
        }
    }
    let worlds = s.cov.get("worlds").copied().unwrap_or(0);
    let v = json!({
        "property": p.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": s.done,
            "distinct_nontrivial": s.nontrivial.len(),
            "rule": p.rule,
            "samples": if s.samples.is_empty() { vec![json!({"case": 0, "what": "no completed case"})] } else { s.samples.clone() },
            "cases_asked_for": asked,
            "skipped_cases": s.skipped,
            "simulated_worlds": worlds,
            "simulated_worlds_per_hour": (worlds as f64 / secs * 3600.0).round(),
            "seeds_per_hour": (s.done as f64 / secs * 3600.0).round(),
            "simulated_model_days": (s.sim_minutes / 1440.0).round(),
            "faults_injected": faults,
            "counts": counts,
            "distinct_states": s.states.len(),
            "distinct_states_measure": "hash of one scenario's complete results (flows, volumes, parameter values) at one time-step",
            "distinct_schedules": s.scheds.len(),
            "distinct_schedules_measure": "hash of the sequence of (decision point, thread chosen) of a world in which at least one preemption happened",
            "cases_repeated_identically_in_another_process": repeated,
            "slowest_case_ms": s.max_ms,
            "components": p.real,
            "known_findings_seen": known_seen,
        },
        "assumptions": p.assume,
        "wall_s": (secs * 100.0).round() / 100.0,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let _ = std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&v).unwrap() + "\n");
}

/// Runs a replay file twice; exit code 1 when it shows the violation, both times alike.
pub fn replay(p: &Prop, file: &str) -> i32 {
    let case: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let a = run_isolated(p, &case, 2 * CASE_TIMEOUT);
    let b = run_isolated(p, &case, 2 * CASE_TIMEOUT);
    for (s, m) in sigs(&a) {
        println!("{} {s}: {m}", p.id);
    }
    println!("{}", if digest(&a) == digest(&b) { "reproduced exactly on a second run" } else { "the second run differed" });
    if sigs(&a).is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={file}", p.id);
        1
    }
}
