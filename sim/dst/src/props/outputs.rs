//! Recorded and aggregated values; agreement of outputs; failing disks and crashes.

use super::common::*;
use super::c01::short;
use crate::case::{Prop, Rep, world, write_files};
use crate::cal;
use crate::genm::{Cfg, Time};
use crate::outs::{self, Odd};
use crate::rng::Rng;
use crate::seams::{self, Class, FaultKind};
use crate::sut::{self, Engine, Plan, Run, Whole};
use crate::world::{Scratch, World, run_in};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

const REAL: &str = "real: model building, parameters, network, solvers, metric sets, aggregators, CSV, HDF5 and memory recorders, the HDF5 library, rayon's job queues. Simulated: thread scheduling, clocks, hash seeds, and the disk under the output directory (every open, write, truncation, sync and close passes through the simulator).";

pub static C12: Prop = Prop {
    id: "C12",
    make: make12,
    run: run12,
    cases: (1500, 40000),
    rule: "Each case is a model with several metric sets (chosen metrics and filters), with none, one or up to three nested time aggregations (days, months, years, whole run), recorded by CSV and memory outputs, run sequentially or on scheduled threads, stepped by hand and as a whole run. Every recorded value, period, label and reported aggregate is compared with the configured functions of the step-by-step history. Non-trivial: at least one aggregated value was compared.",
    real: REAL,
    assume: &["the definition of each aggregation function is taken from the documentation: a mean is weighted by the time covered, a value that crosses a period boundary counts in both periods"],
};

pub static C13: Prop = Prop {
    id: "C13",
    make: make13,
    run: run13,
    cases: (1200, 40000),
    rule: "Each case is a model with 2-6 outputs (CSV long and wide, HDF5, memory) written side by side, over directories with stale files of the same names, in worlds with scheduled threads and a simulated disk that interrupts (EINTR) and shortens writes. Every file is read back and compared with the step-by-step history: values, times, scenarios, labels, nothing missing, nothing extra. Non-trivial: at least two outputs were compared.",
    real: REAL,
    assume: &["the HDF5 library reads back what is in the file"],
};

pub static C14: Prop = Prop {
    id: "C14",
    make: make14,
    run: run14,
    cases: (1500, 60000),
    rule: "Each case is a model with 1-4 file outputs. After a clean run, either one disk operation of a second run fails (open, write, truncation: disk full at any byte, I/O error once or for good) or the process is killed after any operation, with the last write torn. A run that reports success must have left exactly the right files, no run may panic or hang, CSV files after a crash hold a prefix of the right output, and running again over whatever is left gives exactly the right files. Non-trivial: a fault or crash was injected.",
    real: REAL,
    assume: &["a crash kills the process, not the machine: completed writes survive", "errors of close() are not injected into CSV files (the standard library cannot report them)"],
};

fn cfg(r: &mut Rng) -> Cfg {
    Cfg {
        nodes: (2, 6),
        params: (0, 5),
        steps: *r.pick(&[(3, 12), (10, 40), (30, 90)]),
        scenarios: *r.pick(&[1, 2, 4, 6]),
        aggstor: 0.2,
        exclusive: 0.0,
        subset: 0.4,
        time: Time::Any,
        ..Cfg::default()
    }
}

fn engine_of(case: &Value) -> Engine {
    Engine::from(case["engine"].as_str().unwrap_or("highs"))
}

fn make(r: &mut Rng, hdf5: f64, memory: bool, odd: f64, c: Cfg, names: &[&str]) -> Value {
    let (mut m, f) = single(r, c);
    let odd = r.chance(odd);
    outs::add(&mut m, r, hdf5, memory, odd);
    let th: Vec<i64> = vec![if r.chance(0.5) { 0 } else { r.range(1, 5) }, if r.chance(0.5) { 0 } else { r.range(1, 5) }];
    json!({"models": [m], "files": f, "engine": "highs", "worlds": worlds(r, names), "threads": th})
}

fn make12(r: &mut Rng, _i: u64) -> Value {
    let c = cfg(r);
    make(r, 0.0, true, 0.02, c, &["step", "whole"])
}

fn make13(r: &mut Rng, _i: u64) -> Value {
    let c = cfg(r);
    let mut v = make(r, 0.35, true, 0.0, c, &["step", "whole"]);
    v["stale"] = json!((0..8).map(|_| *r.pick(&["none", "short", "long", "other"])).collect::<Vec<_>>());
    let mut d = vec![];
    for _ in 0..r.range(0, 8) {
        let c = *r.pick(&["write", "write", "write", "read"]);
        d.push(json!([c, r.below(60), *r.pick(&["short", "eintr", "short"]), r.below(5000)]));
    }
    v["disk"] = json!(d);
    v
}

fn make14(r: &mut Rng, _i: u64) -> Value {
    let c = Cfg { steps: *r.pick(&[(2, 6), (5, 20), (20, 60)]), nodes: (2, 6), params: (0, 3), scenarios: *r.pick(&[1, 2, 6]), ..cfg(r) };
    let hdf5 = if r.chance(0.5) { 0.4 } else { 0.0 };
    let wide = r.chance(0.15);
    let mut v = if wide { super::wide::make(r, &[1, 2, 3], hdf5, &["clean", "fault", "again"]) } else { make(r, hdf5, false, 0.0, c, &["clean", "fault", "again"]) };
    let class = *r.pick(&["write", "write", "write", "write", "open", "truncate", "crash", "crash", "crash"][..if wide { 6 } else { 9 }]);
    let kind = match class {
        "open" => *r.pick(&["EACCES", "ENOSPC", "EMFILE"]),
        "write" => *r.pick(&["full", "full", "ENOSPC", "EIO", "EIO-once", "EDQUOT"]),
        "truncate" => *r.pick(&["EIO", "ENOSPC"]),
        _ => "kill",
    };
    v["fault"] = json!([class, kind, r.below(1 << 20), r.below(1 << 16)]);
    v["stale"] = json!((0..8).map(|_| *r.pick(&["none", "none", "short", "long", "other"])).collect::<Vec<_>>());
    v
}

/// Puts earlier files where the outputs will be.
fn stale(case: &Value, net: &Value, dir: &str, rep: &mut Rep) {
    for (k, o) in net["outputs"].as_array().into_iter().flatten().enumerate() {
        let Some(f) = o["filename"].as_str() else { continue };
        let b: Vec<u8> = match case["stale"][k % 8].as_str().unwrap_or("none") {
            "short" => b"time_start,time_end\nold\n".to_vec(),
            "long" => b"old,line,of,something\n".repeat(40_000),
            "other" => (0..30_000u32).map(|x| (x.wrapping_mul(2654435761) >> 24) as u8).collect(),
            _ => continue,
        };
        let _ = std::fs::write(format!("{dir}/{f}"), b);
        rep.count("stale_files", 1);
    }
}

struct Out {
    run: Run,
    /// Panic of a run driven step by step or as a whole.
    whole: Option<Whole>,
}

fn by_hand(ctx: &mut crate::world::Ctx, m: &Value, data: &str, out: &str, engine: Engine, threads: usize) -> Result<Run, String> {
    let b = sut::load(m, data, out).map_err(|e| format!("load: {e}"))?;
    let sut::Built::Single(sm) = &b else { return Err("load: multi".into()) };
    sut::observe_sim(ctx, sm, engine, threads, Arc::new(Plan::default()))
}

fn as_whole(ctx: &mut crate::world::Ctx, m: &Value, data: &str, out: &str, engine: Engine, threads: usize) -> Result<Whole, String> {
    let b = sut::load(m, data, out).map_err(|e| format!("load: {e}"))?;
    match engine {
        Engine::Highs => sut::whole::<pywr_core::solvers::HighsSolver>(ctx, &b, m, &sut::highs(threads)),
        Engine::MicroLp => sut::whole::<pywr_core::solvers::MicroLpSolver>(ctx, &b, m, &sut::microlp(threads)),
    }
}

fn disk_plan(case: &Value) -> Vec<(Class, u64, FaultKind)> {
    let mut p = vec![];
    for d in case["disk"].as_array().into_iter().flatten() {
        let c = if d[0] == "read" { Class::Read } else { Class::Write };
        let k = if d[2] == "eintr" { FaultKind::Eintr } else { FaultKind::Short(d[3].as_u64().unwrap_or(1)) };
        p.push((c, d[1].as_u64().unwrap_or(0), k));
    }
    p
}

fn spans(e: &str) -> bool {
    e.contains("Multiple aggregated values yielded")
}

/// Runs a case with its history and checks what was recorded.
fn recorded(case: &Value, rep: &mut Rep, disk: bool) {
    let m = &case["models"][0];
    let net = &m["network"];
    let engine = engine_of(case);
    let sc = Scratch::new();
    let data = sc.sub("data");
    write_files(&case["files"], &data);
    let (o1, o2) = (sc.sub("one"), sc.sub("two"));
    if disk {
        stale(case, net, &o1, rep);
        stale(case, net, &o2, rep);
    }
    let mut faults = vec![];
    let mut go = |name: &str, w: World, rep: &mut Rep| -> Result<Out, String> {
        let th = threads(case, (name == "whole") as usize);
        let (r, st) = run_in(&w, |ctx| -> Result<Out, String> {
            if name == "step" {
                if disk {
                    seams::disk_start(&o1, disk_plan(case), false, None);
                }
                let r = by_hand(ctx, m, &data, &o1, engine, th);
                if disk {
                    faults.push(seams::disk_stop().2);
                }
                Ok(Out { run: r?, whole: None })
            } else {
                if disk {
                    seams::disk_start(&o2, disk_plan(case), false, None);
                }
                let r = as_whole(ctx, m, &data, &o2, engine, th);
                if disk {
                    faults.push(seams::disk_stop().2);
                }
                Ok(Out { run: Run::default(), whole: Some(r?) })
            }
        });
        let r = r.and_then(|x| x);
        tally(rep, name, &st, r.as_ref().ok().map(|o| &o.run).filter(|r| !r.rows.is_empty()));
        r
    };
    let a = match go("step", world(case, "step"), rep) {
        Ok(o) => o,
        Err(e) if spans(&e) => {
            rep.bad("spanning-value-panics", e);
            return;
        }
        Err(e) => {
            if e.starts_with("load:") {
                rep.skip = Some(short(&e));
            } else {
                rep.bad("panic", e);
            }
            return;
        }
    };
    rep.note = features(m);
    if let Some(e) = a.run.setup_err.clone().or(a.run.err.clone().map(|e| e.1)) {
        if disk {
            // Nothing in this world stops a run but the model itself: without faults it must fail too.
            let (r, _) = run_in(&World::calm(1), |ctx| by_hand(ctx, m, &data, &sc.sub("three"), engine, 0));
            if let Ok(Ok(r)) = r {
                if r.ok() {
                    rep.bad("benign-fault-fails", format!("short or interrupted disk operations made the run fail: {e}"));
                    return;
                }
            }
        }
        rep.skip = Some(short(&e));
        return;
    }
    if let Some(Err(e)) = &a.run.finalised {
        rep.bad("finalise-fails", e.clone());
        return;
    }
    let b = match go("whole", world(case, "whole"), rep) {
        Ok(o) => o,
        Err(e) => {
            rep.bad("panic", format!("whole run: {e}"));
            return;
        }
    };
    let w = b.whole.unwrap();
    if let Some(e) = &w.err {
        rep.bad("whole-run-fails", e.clone());
        return;
    }
    let mut odd = vec![];
    let mut known = vec![];
    let (n1, bad1) = outs::check_all(net, &m["time"], &a.run, &o1, None, &mut odd, &mut known);
    let (n2, bad2) = outs::check_all(net, &m["time"], &a.run, &o2, Some(&w.memory), &mut odd, &mut known);
    rep.count("values_compared", n1 + n2);
    for o in net["outputs"].as_array().into_iter().flatten() {
        rep.count(&format!("output.{}{}", o["type"].as_str().unwrap_or("?"), o["format"].as_str().unwrap_or("")), 1);
    }
    for s in net["metric_sets"].as_array().into_iter().flatten() {
        let mut a = &s["aggregator"];
        let mut d = 0;
        while a.is_object() {
            d += 1;
            a = &a["child"];
        }
        rep.count(&format!("aggregation.levels_{d}"), 1);
    }
    for x in odd {
        rep.count(&format!("not_judged.{x:?}"), 1);
        if x == Odd::Spans {
            rep.bad("spanning-value-accepted", "a value that covers several aggregation periods should be refused or split");
        }
    }
    if let Some(k) = known.first() {
        rep.count("final_periods_short", known.len() as u64);
        if !disk {
            rep.bad("final-period-short", k.clone());
        }
    }
    for (s, msg) in bad1.into_iter().chain(bad2) {
        rep.bad(&s, msg);
    }
    for f in faults {
        for (k, n) in f.injected {
            rep.count(&format!("fault.{k}"), n);
        }
        for (k, n) in f.ops {
            rep.count(&format!("disk_ops.{k:?}"), n);
        }
    }
    filters(net, &a.run, rep);
    rep.nontrivial = n1 + n2 > 0 && (disk || net["metric_sets"].as_array().into_iter().flatten().any(|s| s["aggregator"].is_object()));
}

/// Metric sets hold all of their listed metrics and one for everything their filters name.
fn filters(net: &Value, run: &Run, rep: &mut Rep) {
    for s in net["metric_sets"].as_array().into_iter().flatten() {
        let name = s["name"].as_str().unwrap_or("");
        let Some(got) = run.layout.sets.iter().find(|x| x.0 == name) else { continue };
        let listed = s["metrics"].as_array().map(|a| a.len()).unwrap_or(0);
        let mut want: Vec<String> = vec![];
        for (f, k) in [("all_nodes", "nodes"), ("all_virtual_nodes", "virtual_nodes"), ("all_parameters", "parameters")] {
            if s["filters"][f] == true {
                for d in net[k].as_array().into_iter().flatten() {
                    want.push(d["meta"]["name"].as_str().unwrap_or("").to_string());
                }
            }
        }
        let plain = !["all_nodes", "all_virtual_nodes", "all_parameters", "all_edges"].iter().any(|f| s["filters"][*f] == true);
        if got.1.len() < listed || (plain && got.1.len() != listed) {
            rep.bad("set-size", format!("metric set {name} lists {listed} metrics but records {}", got.1.len()));
        }
        if let Some(w) = want.iter().find(|w| !got.1.iter().any(|m| m.0 == **w)) {
            rep.bad("filter-misses", format!("metric set {name} should include {w}"));
        }
    }
}

fn run12(case: &Value, rep: &mut Rep) {
    recorded(case, rep, false);
}

fn run13(case: &Value, rep: &mut Rep) {
    recorded(case, rep, true);
}

// --------------------------------------------------------------------------- faults, crashes

/// How a run over a directory ended.
#[derive(Debug, Clone)]
enum End {
    Ok,
    Err(String),
    Panic(String),
}

fn end_of(r: &Result<Run, String>) -> End {
    match r {
        Err(e) if e.starts_with("load:") => End::Err(e.clone()),
        Err(e) => End::Panic(e.clone()),
        Ok(r) => match r.setup_err.clone().or(r.err.clone().map(|e| e.1)) {
            Some(e) => End::Err(e),
            None => match &r.finalised {
                Some(Err(e)) => End::Err(e.clone()),
                _ => End::Ok,
            },
        },
    }
}

fn is_csv(f: &str) -> bool {
    f.ends_with(".csv")
}

/// Compares a directory with the clean outputs.
fn same_files(net: &Value, time: &Value, hist: &Run, clean: &BTreeMap<String, Vec<u8>>, dir: &str) -> Option<String> {
    let now = read_outputs(dir);
    for (f, b) in clean {
        match now.get(f) {
            None => return Some(format!("{f} is missing")),
            Some(x) if is_csv(f) && x != b => {
                return Some(format!("{f} has {} bytes instead of {}; {}", x.len(), b.len(), line_diff(b, x)));
            }
            _ => {}
        }
    }
    let mut odd = vec![];
    let mut known = vec![];
    let (_, bad) = outs::check_all(net, time, hist, dir, None, &mut odd, &mut known);
    bad.into_iter().next().map(|(s, m)| format!("{s}: {m}"))
}

fn run14(case: &Value, rep: &mut Rep) {
    if super::wide::is(case) {
        return super::wide::failing_disk(case, rep);
    }
    let m = &case["models"][0];
    let net = &m["network"];
    let engine = engine_of(case);
    let sc = Scratch::new();
    let data = sc.sub("data");
    write_files(&case["files"], &data);
    let (o1, o2) = (sc.sub("one"), sc.sub("two"));
    // The clean run.
    let (r, st) = run_in(&world(case, "clean"), |ctx| {
        seams::disk_start(&o1, vec![], false, None);
        let r = by_hand(ctx, m, &data, &o1, engine, threads(case, 0));
        (r, seams::disk_stop().2)
    });
    let Ok((r, ops)) = r else {
        rep.bad("panic", format!("clean run: {}", r.err().unwrap()));
        return;
    };
    tally(rep, "clean", &st, r.as_ref().ok());
    match end_of(&r) {
        End::Ok => {}
        End::Err(e) => {
            rep.skip = Some(short(&e));
            return;
        }
        End::Panic(e) => {
            rep.bad("panic", format!("clean run: {e}"));
            return;
        }
    }
    let hist = r.unwrap();
    let clean = read_outputs(&o1);
    if clean.is_empty() {
        rep.skip = Some("no file outputs".into());
        return;
    }
    rep.note = features(m);
    let mut odd = vec![];
    let mut known = vec![];
    let (_, bad) = outs::check_all(net, &m["time"], &hist, &o1, None, &mut odd, &mut known);
    if let Some((s, b)) = bad.into_iter().next() {
        rep.bad(&format!("clean-{s}"), b);
        return;
    }
    let f = &case["fault"];
    let (class, kind) = (f[0].as_str().unwrap_or(""), f[1].as_str().unwrap_or(""));
    let (at, n) = (f[2].as_u64().unwrap_or(0), f[3].as_u64().unwrap_or(0));
    stale(case, net, &o2, rep);
    if class == "crash" {
        crash(case, rep, m, &hist, &clean, &data, &o2, at, n);
        return;
    }
    let cl = match class {
        "open" => Class::Open,
        "truncate" => Class::Truncate,
        _ => Class::Write,
    };
    let total = ops.ops.get(&cl).copied().unwrap_or(0);
    if total == 0 {
        rep.skip = Some(format!("no {class} operation"));
        return;
    }
    let at = at % total;
    let fk = match kind {
        "full" => FaultKind::Full(n),
        "ENOSPC" => FaultKind::Errno(libc::ENOSPC, true),
        "EDQUOT" => FaultKind::Errno(libc::EDQUOT, true),
        "EIO-once" => FaultKind::Errno(libc::EIO, false),
        "EACCES" => FaultKind::Errno(libc::EACCES, true),
        "EMFILE" => FaultKind::Errno(libc::EMFILE, false),
        _ => FaultKind::Errno(libc::EIO, true),
    };
    let (r, st) = run_in(&world(case, "fault"), |ctx| {
        seams::disk_start(&o2, vec![(cl, at, fk)], false, None);
        let r = by_hand(ctx, m, &data, &o2, engine, threads(case, 1));
        (r, seams::disk_stop().2)
    });
    let Ok((r, ops)) = r else {
        rep.bad("panic-on-disk-error", r.err().unwrap());
        return;
    };
    tally(rep, "fault", &st, r.as_ref().ok());
    let hit = ops.injected.values().sum::<u64>();
    for (k, n) in &ops.injected {
        rep.count(&format!("fault.{k}"), *n);
    }
    rep.nontrivial = hit > 0;
    let what = format!("{kind} at {class} operation {at} of {total}");
    match end_of(&r) {
        End::Panic(e) => {
            rep.bad("panic-on-disk-error", format!("{what}: {e}"));
            return;
        }
        End::Err(e) => {
            rep.count(if hit > 0 { "failures_reported" } else { "failures_without_fault" }, 1);
            if hit == 0 {
                rep.bad("fails-without-fault", e);
                return;
            }
        }
        End::Ok => {
            if let Some(d) = same_files(net, &m["time"], &hist, &clean, &o2) {
                rep.bad("silent-loss", format!("{what}: the run reported success, but {d}"));
                return;
            }
            rep.count("faults_survived", 1);
        }
    }
    again(case, rep, m, &hist, &clean, &data, &o2, &what);
}

fn again(case: &Value, rep: &mut Rep, m: &Value, hist: &Run, clean: &BTreeMap<String, Vec<u8>>, data: &str, out: &str, what: &str) {
    let (r, st) = run_in(&world(case, "again"), |ctx| by_hand(ctx, m, data, out, engine_of(case), threads(case, 0)));
    let r = r.and_then(|x| x);
    tally(rep, "again", &st, r.as_ref().ok());
    match end_of(&r) {
        End::Ok => {
            if let Some(d) = same_files(&m["network"], &m["time"], hist, clean, out) {
                rep.bad("later-run-differs", format!("after {what}, a new run over the same directory succeeds but {d}"));
            }
            rep.count("later_runs_compared", 1);
        }
        e => rep.bad("later-run-fails", format!("after {what}, a new run over the same directory: {e:?}")),
    }
}

fn crash(case: &Value, rep: &mut Rep, m: &Value, hist: &Run, clean: &BTreeMap<String, Vec<u8>>, data: &str, out: &str, at: u64, n: u64) {
    let before: BTreeMap<String, Vec<u8>> = read_outputs(out).into_iter().map(|(k, v)| (format!("{out}/{k}"), v)).collect();
    let (r, st) = run_in(&world(case, "fault"), |ctx| {
        seams::disk_start(out, vec![], true, None);
        let r = by_hand(ctx, m, data, out, engine_of(case), threads(case, 1));
        let (log, files, _) = seams::disk_stop();
        (r, log, files)
    });
    let Ok((r, log, files)) = r else {
        rep.bad("panic", r.err().unwrap());
        return;
    };
    tally(rep, "fault", &st, r.as_ref().ok());
    if let End::Err(e) | End::Panic(e) = end_of(&r) {
        rep.bad("not-repeatable", format!("the second clean run failed: {e}"));
        return;
    }
    if log.is_empty() {
        rep.skip = Some("no disk operation".into());
        return;
    }
    let k = (at as usize) % (log.len() + 1);
    let torn = match log.get(k.wrapping_sub(1)) {
        Some(seams::Op::Write { data, .. }) if n % 3 > 0 => Some(n as usize % (data.len() + 1)),
        _ => None,
    };
    let left = seams::crash_state(&log, &files, k, torn, &before);
    let opened: Vec<&String> = log[..k]
        .iter()
        .filter_map(|o| match o {
            seams::Op::Open { file, .. } => Some(&files[*file]),
            _ => None,
        })
        .collect();
    rep.count("fault.process_killed", 1);
    if torn.is_some() {
        rep.count("fault.torn_write", 1);
    }
    rep.nontrivial = k > 0 && k < log.len();
    let what = format!("a crash after disk operation {k} of {}{}", log.len(), torn.map(|t| format!(", the last torn after {t} bytes")).unwrap_or_default());
    for (p, b) in &left {
        let name = p.rsplit('/').next().unwrap_or("");
        if !is_csv(name) || !opened.contains(&p) {
            continue;
        }
        rep.count("crashed_files_checked", 1);
        if !clean.get(name).is_some_and(|c| c.starts_with(b)) {
            let d = clean.get(name).map(|c| line_diff(c, b)).unwrap_or_default();
            rep.bad("not-a-prefix", format!("after {what}, {name} holds {} bytes that are not a prefix of the right output: {d}", b.len()));
            return;
        }
    }
    // Put the files as the crash left them, and run again.
    for f in std::fs::read_dir(out).into_iter().flatten().flatten() {
        let _ = std::fs::remove_file(f.path());
    }
    for (p, b) in &left {
        let _ = std::fs::write(p, b);
    }
    again(case, rep, m, hist, clean, data, out, &what);
}

#[allow(dead_code)]
fn minutes_simulated(m: &Value) -> usize {
    cal::steps(&m["time"]).len()
}
