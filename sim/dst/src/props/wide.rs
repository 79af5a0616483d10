//! Cases of several networks in the checks of C01, C02, C03 and C14.

use super::c01::short;
use super::common::*;
use super::nets;
use crate::case::{Rep, world, write_files};
use crate::cal;
use crate::genm::{Cfg, Time};
use crate::rng::Rng;
use crate::seams::{self, Class, DiskStats, FaultKind};
use crate::sut::{self, Engine, MultiRun, Plan, Prank, SimMulti, SimSettings, SimSolver};
use crate::world::{Scratch, run_in};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn is(case: &Value) -> bool {
    case["models"][0]["networks"].is_array()
}

/// A model of several networks, each with outputs.
pub fn make(r: &mut Rng, scenarios: &[usize], hdf5: f64, names: &[&str]) -> Value {
    build(r, scenarios, hdf5, names, false)
}

fn build(r: &mut Rng, scenarios: &[usize], hdf5: f64, names: &[&str], plain: bool) -> Value {
    let e = if r.chance(0.8) { "highs" } else { "microlp" };
    let if_not = |x: f64| if plain { 0.0 } else { x };
    let cfg = Cfg {
        nodes: (2, 6),
        steps: (2, 8),
        scenarios: *r.pick(scenarios),
        params: (1, 6),
        composite: 0.1,
        agg: if_not(0.2),
        exclusive: if_not(0.1),
        vs: if_not(0.25),
        timeseries: 0.3,
        tables: 0.1,
        simple_lp: plain || e == "microlp",
        time: if r.chance(0.8) { Time::Days } else { Time::Any },
        ..Cfg::default()
    };
    let (mut m, f) = nets::draw(r, cfg);
    let n = m["networks"].as_array().unwrap().len();
    for k in 0..n {
        let mut o = vec![];
        if r.chance(0.7) {
            o.push(json!({"type": "CSV", "name": "o_long", "filename": format!("long{k}.csv"), "format": "Long", "metric_set": "obs", "decimal_places": *r.pick(&[3, 6, 9])}));
        }
        if o.is_empty() || r.chance(0.4) {
            o.push(json!({"type": "CSV", "name": "o_wide", "filename": format!("wide{k}.csv"), "format": "Wide", "metric_set": "obs"}));
        }
        if r.chance(0.6) {
            o.push(json!({"type": "Memory", "name": "o_mem", "metric_set": "obs"}));
        }
        if r.chance(hdf5) {
            o.push(json!({"type": "HDF5", "name": "o_h5", "filename": format!("out{k}.h5"), "metric_set": "obs"}));
        }
        r.shuffle(&mut o);
        m["networks"][k]["network"]["outputs"] = json!(o);
    }
    let th: Vec<i64> = (0..3).map(|_| r.range(1, 6)).collect();
    let paths: Vec<bool> = (0..n).map(|_| r.chance(0.15)).collect();
    json!({"models": [m], "files": f, "engine": e, "worlds": worlds(r, names), "threads": th, "as_file": paths})
}

struct Once {
    r: MultiRun,
    files: BTreeMap<String, Vec<u8>>,
    disk: DiskStats,
}

struct Set<'a> {
    case: &'a Value,
    m: &'a Value,
    data: String,
    engine: Engine,
}

type Faults = Vec<(Class, u64, FaultKind)>;

impl Set<'_> {
    /// Loads and runs the model `times` in the named world.
    fn go(&self, rep: &mut Rep, name: &str, m: &Value, out: &str, threads: usize, plan: Arc<Plan>, times: usize, disk: Option<Faults>) -> Result<Vec<Once>, String> {
        let on = nets::on_disk(self.case, m, &self.data);
        let (r, st) = run_in(&world(self.case, name), |ctx| -> Result<Vec<Once>, String> {
            let b = sut::load_spied(&on, &self.data, out)?;
            let mut v = vec![];
            for k in 0..times {
                let p = if k == 0 { plan.clone() } else { Arc::new(Plan::default()) };
                let s = SimSettings::new(self.engine, threads > 0, threads, p);
                if let Some(d) = &disk {
                    seams::disk_start(out, d.clone(), false, None);
                }
                let r = sut::run_spied(ctx, &b, m, |x| x.run::<SimSolver>(&s));
                let d = if disk.is_some() { seams::disk_stop().2 } else { DiskStats::default() };
                v.push(Once { r: r?, files: read_outputs(out), disk: d });
            }
            Ok(v)
        });
        let r = r.and_then(|x| x);
        rep.world(name, &st);
        if st.switches + st.steals > 0 {
            rep.count("worlds_with_preemption", 1);
        }
        rep.count("multi_network_runs", times as u64);
        if let Ok(v) = &r {
            for x in &v[0].r.runs {
                states(rep, &x.rows);
                rep.sim_minutes += x.rows.iter().zip(&x.layout.steps).map(|(a, b)| a.len() as f64 * b.1 as f64).sum::<f64>();
            }
        }
        r
    }
}

/// What differs between two runs.
fn differ(a: &Once, b: &Once) -> Option<(&'static str, String)> {
    for (n, (x, y)) in a.r.runs.iter().zip(&b.r.runs).enumerate() {
        if x.layout != y.layout {
            return Some(("layout-differs", format!("network {n}: the order of scenarios, nodes, edges or metrics")));
        }
        if let Some(d) = first_diff(x, y) {
            return Some(("results-differ", format!("network {n}: {d}")));
        }
    }
    if a.r.err != b.r.err {
        return Some(("outcome-differs", format!("{:?} / {:?}", a.r.err, b.r.err)));
    }
    if a.r.err.is_none() {
        if a.r.memory != b.r.memory {
            let k = a.r.memory.iter().find(|(k, v)| b.r.memory.get(*k) != Some(*v)).map(|x| x.0.clone());
            return Some(("recorded-differ", format!("memory output {k:?}")));
        }
        for (k, x) in &a.files {
            match b.files.get(k) {
                None => return Some(("recorded-differ", format!("{k} is missing"))),
                Some(y) if k.ends_with(".csv") && x != y => return Some(("recorded-differ", format!("{k}: {}", line_diff(x, y)))),
                _ => {}
            }
        }
    }
    None
}

fn none() -> Arc<Plan> {
    Arc::new(Plan::default())
}

/// The first run, by which the others are judged; none if the model cannot be run.
fn base(s: &Set, rep: &mut Rep, name: &str, out: &str, times: usize) -> Option<Vec<Once>> {
    match s.go(rep, name, s.m, out, 0, none(), times, Some(vec![])) {
        Ok(v) if !v[0].r.setup => {
            rep.note = features(s.m);
            Some(v)
        }
        Ok(v) => {
            rep.skip = Some(short(v[0].r.err.as_deref().unwrap_or("")));
            None
        }
        Err(e) => {
            rep.skip = Some(short(&e));
            None
        }
    }
}

fn set<'a>(case: &'a Value, sc: &Scratch) -> Set<'a> {
    let data = sc.sub("data");
    write_files(&case["files"], &data);
    Set { case, m: &case["models"][0], data, engine: Engine::from(case["engine"].as_str().unwrap_or("")) }
}

/// C01: threads and companions.
pub fn schedules(case: &Value, rep: &mut Rep) {
    let sc = Scratch::new();
    let s = set(case, &sc);
    let Some(first) = base(&s, rep, "seq", &sc.sub("out0"), 1) else { return };
    let a = &first[0];
    for (k, name) in ["par1", "par2"].iter().enumerate() {
        let th = threads(case, k);
        match s.go(rep, name, s.m, &sc.sub(&format!("out{}", k + 1)), th, none(), 1, None) {
            Err(e) => rep.bad("parallel-run-fails", format!("with {th} threads: {e}")),
            Ok(v) => {
                if let Some((g, d)) = differ(a, &v[0]) {
                    // Of several failing scenarios either may be reported.
                    if g != "outcome-differs" || a.r.err.is_some() != v[0].r.err.is_some() || a.r.err_at != v[0].r.err_at {
                        rep.bad(g, format!("several networks, one after another / with {th} threads: {d}"));
                    }
                }
            }
        }
    }
    let members = scenario_members(s.m);
    let keep: Vec<usize> = (0..members.len()).filter(|k| threads(case, 2) >> (k % 3) & 1 == 1).collect();
    if a.r.err.is_none() && !keep.is_empty() && keep.len() < members.len() && !members[0].is_empty() {
        let mut part = s.m.clone();
        for g in part["scenarios"]["groups"].as_array_mut().into_iter().flatten() {
            g.as_object_mut().unwrap().remove("subset");
        }
        part["scenarios"]["combinations"] = json!(keep.iter().map(|k| members[*k].clone()).collect::<Vec<_>>());
        match s.go(rep, "part", &part, &sc.sub("part"), threads(case, 0) % 3, none(), 1, None) {
            Err(e) => rep.bad("companions-matter", format!("several networks, with only scenarios {keep:?}: {e}")),
            Ok(v) if v[0].r.err.is_some() => rep.bad("companions-matter", format!("several networks, with only scenarios {keep:?}: {:?}", v[0].r.err)),
            Ok(v) => {
                rep.count("companion_subsets", 1);
                for (n, (x, y)) in a.r.runs.iter().zip(&v[0].r.runs).enumerate() {
                    let at = |r: &sut::Run, k: usize| r.layout.scen.iter().position(|z| z.schema == members[k]);
                    for k in &keep {
                        let Some(i) = at(x, *k) else { continue };
                        let Some(j) = at(y, *k) else {
                            rep.bad("companions-matter", format!("several networks: scenario {k} was asked for but not simulated"));
                            return;
                        };
                        for (t, (p, q)) in x.rows.iter().zip(&y.rows).enumerate() {
                            if !p[i].same(&q[j]) {
                                rep.bad("companions-matter", format!("network {n}, scenario {k}, time-step {t}: among all / with only {keep:?}: {}", p[i].diff(&q[j], &x.layout)));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    rep.nontrivial = a.r.err.is_none() && members.len() > 1;
}

/// C02: hash seeds, clocks and earlier runs.
pub fn worlds_apart(case: &Value, rep: &mut Rep) {
    let sc = Scratch::new();
    let s = set(case, &sc);
    let Some(first) = base(&s, rep, "a", &sc.sub("out0"), 2) else { return };
    let a = &first[0];
    if let Some((g, d)) = differ(a, &first[1]) {
        rep.bad(g, format!("several networks, first run / again in the same process: {d}"));
    }
    for (k, name) in ["b", "c"].iter().enumerate() {
        match s.go(rep, name, s.m, &sc.sub(&format!("out{}", k + 1)), 0, none(), 1, None) {
            Err(e) => rep.bad("only-sometimes-fails", format!("several networks, world {name}: {e}")),
            Ok(v) => {
                if let Some((g, d)) = differ(a, &v[0]) {
                    rep.bad(g, format!("several networks, first run / with other hash seeds and clock: {d}"));
                }
            }
        }
    }
    rep.nontrivial = a.r.err.is_none();
}

pub fn add_failures(r: &mut Rng, case: &mut Value) {
    let m = &case["models"][0];
    let n = m["networks"].as_array().unwrap().len();
    let (sc, st) = (n_scenarios(m).max(1), cal::steps(&m["time"]).len().max(1));
    let p: Vec<Value> = (0..r.range(1, 2)).map(|_| json!([r.us(n), r.us(sc), r.us(st), *r.pick(&["before", "after"])])).collect();
    case["failures"] = json!(p);
}

/// C03: a failing solver in one of the networks.
pub fn failures(case: &Value, rep: &mut Rep) {
    let sc = Scratch::new();
    let s = set(case, &sc);
    let Some(first) = base(&s, rep, "clean", &sc.sub("out0"), 1) else { return };
    let a = &first[0];
    if a.r.err.is_some() {
        rep.skip = Some(short(a.r.err.as_deref().unwrap_or("")));
        return;
    }
    let names: Vec<&str> = s.m["networks"].as_array().unwrap().iter().map(|n| n["name"].as_str().unwrap_or("")).collect();
    let (ns, steps) = (a.r.runs[0].layout.scen.len(), a.r.runs[0].layout.steps.len());
    let fails: Vec<(usize, usize, usize, Prank)> = case["failures"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|f| {
            let u = |k: usize| f[k].as_u64().unwrap_or(0) as usize;
            (u(2), u(0), u(1), if f[3] == "before" { Prank::FailBefore } else { Prank::FailAfter })
        })
        .filter(|f| f.0 < steps && f.1 < names.len() && f.2 < ns)
        .collect();
    let Some((t, n)) = fails.iter().map(|f| (f.0, f.1)).min() else {
        rep.skip = Some("no failure in this model".into());
        return;
    };
    rep.count("fault.solver", fails.len() as u64);
    let plan = || Arc::new(Plan { pranks: fails.iter().map(|f| ((f.1 * ns + f.2, f.0), f.3)).collect(), ..Default::default() });
    for (name, th) in [("seq", 0), ("par", threads(case, 0)), ("whole", threads(case, 1))] {
        let out = sc.sub(name);
        let what = format!("several networks, {th} threads, failure at time-step {t} in network {}", names[n]);
        let v = match s.go(rep, name, s.m, &out, th, plan(), 2, None) {
            Ok(v) => v,
            Err(e) => {
                rep.bad("panic", format!("{what}: {e}"));
                continue;
            }
        };
        let f = &v[0];
        match &f.r.err {
            None => rep.bad("failure-lost", format!("{what}: the run reports success")),
            Some(e) => {
                if f.r.err_at != Some((names[n].to_string(), t)) {
                    rep.bad("wrong-step", format!("{what}: the error names {:?}: {e}", f.r.err_at));
                }
            }
        }
        for (k, (x, y)) in a.r.runs.iter().zip(&f.r.runs).enumerate() {
            if let Some(d) = first_diff(x, y) {
                rep.bad("earlier-results-differ", format!("{what}: network {k}: failure-free / with the failure: {d}"));
            }
            if y.rows.len() > t + 1 || (k == n && y.rows.len() > t) {
                rep.bad("goes-on", format!("{what}: network {k} has recorded {} time-steps", y.rows.len()));
            }
        }
        for (k, x) in &f.files {
            if let Some(c) = a.files.get(k) {
                if k.ends_with(".csv") && !c.starts_with(x) {
                    rep.bad("earlier-results-differ", format!("{what}: {k} is no prefix of the failure-free one: {}", line_diff(c, x)));
                }
            }
        }
        if let Some((_, d)) = differ(a, &v[1]) {
            rep.bad("not-rerunnable", format!("{what}: without failure / run again after it: {d}"));
        }
    }
    rep.nontrivial = true;
}

/// C14: a disk error under the outputs of one of the networks.
pub fn failing_disk(case: &Value, rep: &mut Rep) {
    let sc = Scratch::new();
    let s = set(case, &sc);
    let Some(first) = base(&s, rep, "clean", &sc.sub("out0"), 1) else { return };
    let a = &first[0];
    if a.r.err.is_some() {
        rep.skip = Some(short(a.r.err.as_deref().unwrap_or("")));
        return;
    }
    let f = &case["fault"];
    let (class, kind) = (f[0].as_str().unwrap_or(""), f[1].as_str().unwrap_or(""));
    let (at, n) = (f[2].as_u64().unwrap_or(0), f[3].as_u64().unwrap_or(0));
    let cl = match class {
        "open" => Class::Open,
        "truncate" => Class::Truncate,
        _ => Class::Write,
    };
    let total = a.disk.ops.get(&cl).copied().unwrap_or(0);
    if total == 0 {
        rep.skip = Some(format!("no {class} operation"));
        return;
    }
    let at = at % total;
    let fk = match kind {
        "full" => FaultKind::Full(n),
        "ENOSPC" => FaultKind::Errno(libc::ENOSPC, true),
        "EIO-once" => FaultKind::Errno(libc::EIO, false),
        "EACCES" => FaultKind::Errno(libc::EACCES, true),
        "EMFILE" => FaultKind::Errno(libc::EMFILE, false),
        _ => FaultKind::Errno(libc::EIO, true),
    };
    let what = format!("several networks, {kind} at {class} operation {at} of {total}");
    let out = sc.sub("two");
    let v = match s.go(rep, "fault", s.m, &out, threads(case, 0) % 4, none(), 1, Some(vec![(cl, at, fk)])) {
        Ok(v) => v,
        Err(e) => {
            rep.bad("panic-on-disk-error", format!("{what}: {e}"));
            return;
        }
    };
    let hit = v[0].disk.injected.values().sum::<u64>();
    for (k, n) in &v[0].disk.injected {
        rep.count(&format!("fault.{k}"), *n);
    }
    rep.nontrivial = hit > 0;
    match &v[0].r.err {
        Some(e) if hit == 0 => rep.bad("fails-without-fault", format!("{what}: {e}")),
        Some(_) => rep.count("failures_reported", 1),
        None => {
            if let Some((_, d)) = differ(a, &v[0]) {
                rep.bad("silent-loss", format!("{what}: the run reported success, but {d}"));
            }
        }
    }
    match s.go(rep, "again", s.m, &out, 0, none(), 1, None) {
        Err(e) => rep.bad("later-run-fails", format!("after {what}: {e}")),
        Ok(v) => {
            if let Some((_, d)) = differ(a, &v[0]) {
                rep.bad("later-run-differs", format!("after {what}: {d}"));
            }
            rep.count("later_runs_compared", 1);
        }
    }
}

pub fn make_batched(r: &mut Rng) -> Value {
    let mut v = build(r, &[1, 2, 3, 4, 5, 6, 9], 0.05, &["main", "other", "fail"], true);
    let steps = cal::steps(&v["models"][0]["time"]).len().max(1);
    v["plan"] = json!((0..r.range(0, 2)).map(|_| json!([r.us(steps), *r.pick(&["cold", "twice"])])).collect::<Vec<_>>());
    if r.chance(0.25) {
        v["fail"] = json!([r.us(steps), *r.pick(&["before", "after"])]);
    }
    v
}

/// C17: several networks with the batched solver.
pub fn batched(case: &Value, rep: &mut Rep) {
    let sc = Scratch::new();
    let s = set(case, &sc);
    rep.note = features(s.m);
    let on = nets::on_disk(case, s.m, &s.data);
    let go = |rep: &mut Rep, name: &str, out: &str, threads: usize, plan: Plan| -> Result<MultiRun, String> {
        let (r, st) = run_in(&world(case, name), |ctx| -> Result<MultiRun, String> {
            let b = sut::load_spied(&on, &s.data, out)?;
            let set = SimSettings::new(Engine::Highs, true, threads, Arc::new(plan));
            sut::run_spied(ctx, &b, s.m, |x| x.run_multi_scenario::<SimMulti>(&set))
        });
        rep.world(name, &st);
        rep.count("multi_network_runs", 1);
        r.and_then(|x| x)
    };
    let out = sc.sub("out");
    let th = threads(case, 0);
    let a = match go(rep, "main", &out, th, Plan::default()) {
        Ok(a) => a,
        Err(e) => {
            rep.bad(&format!("refused:{}", short(&e)), format!("a valid model cannot be run: {e}"));
            return;
        }
    };
    if a.setup {
        if !a.err.as_deref().unwrap_or("").to_lowercase().contains("features") {
            rep.bad("refused:set-up", format!("a valid model cannot be set up: {:?}", a.err));
        }
        rep.count("models_refused_for_their_features", 1);
        return;
    }
    let (ns, steps) = (n_scenarios(s.m), cal::steps(&s.m["time"]).len());
    for x in &a.runs {
        states(rep, &x.rows);
        rep.sim_minutes += x.rows.iter().zip(&x.layout.steps).map(|(a, b)| a.len() as f64 * b.1 as f64).sum::<f64>();
        if x.layout.scen.len() != ns || x.layout.steps.len() != steps {
            rep.skip = Some("scenarios or time-steps differ from the definition".into());
            return;
        }
    }
    match &a.err {
        Some(e) if super::lanes::gave_up(e) => {
            rep.count("solver_gave_up", 1);
            if std::env::var(crate::runner::REFUSED).is_ok() || case["violation"]["sig"] == "solver-gives-up" {
                rep.bad("solver-gives-up", "the solver gives up on this case, and on many others".to_string());
            }
        }
        Some(e) => rep.bad(&format!("failed:{}", short(e)), format!("a valid model of several networks fails: {e}")),
        None => {
            for (n, x) in a.runs.iter().enumerate() {
                if x.rows.len() != steps {
                    rep.bad("steps-missing", format!("network {n} was stepped {} times out of {steps}", x.rows.len()));
                }
            }
        }
    }
    nets::judge(rep, case, s.m, &a, &format!("batched solver, {th} threads: "), &out, true);
    // Other threads and other solver instances.
    let mut p: BTreeMap<(usize, usize), Prank> = BTreeMap::new();
    for x in case["plan"].as_array().into_iter().flatten() {
        p.insert((0, x[0].as_u64().unwrap_or(0) as usize), if x[1] == "cold" { Prank::Cold } else { Prank::Twice });
    }
    let th2 = threads(case, 1);
    match go(rep, "other", &sc.sub("out1"), th2, Plan { pranks: p, ..Default::default() }) {
        Err(e) => rep.bad("parallel-run-fails", format!("several networks, with {th2} threads: {e}")),
        Ok(o) => {
            for (n, (x, y)) in a.runs.iter().zip(&o.runs).enumerate() {
                if let Some(d) = first_diff(x, y) {
                    rep.bad("results-differ", format!("network {n}, with {th} / {th2} threads: {d}"));
                }
            }
            if a.err.is_some() != o.err.is_some() || a.err_at != o.err_at {
                rep.bad("outcome-differs", format!("{:?} / {:?}", a.err, o.err));
            }
        }
    }
    if let (Some(t), Some(how)) = (case["fail"][0].as_u64(), case["fail"][1].as_str()) {
        let t = t as usize;
        let p = [((0, t), if how == "before" { Prank::FailBefore } else { Prank::FailAfter })].into_iter().collect();
        match go(rep, "fail", &sc.sub("out2"), threads(case, 2), Plan { pranks: p, ..Default::default() }) {
            Err(e) => rep.bad("failure-kills", format!("the solver fails at time-step {t}: {e}")),
            Ok(o) => {
                let early = a.err_at.as_ref().is_some_and(|x| x.1 < t) || a.err.is_some() && a.err_at.is_none();
                let first = s.m["networks"][0]["name"].as_str().unwrap_or("").to_string();
                if !early && t < steps && o.err_at != Some((first, t)) {
                    rep.bad("failure-lost", format!("the solver of the first network fails at time-step {t}: {:?} at {:?}", o.err, o.err_at));
                }
                for (n, (x, y)) in a.runs.iter().zip(&o.runs).enumerate() {
                    if let Some(d) = first_diff(x, y) {
                        rep.bad("results-differ", format!("a failure at time-step {t} changes network {n}: {d}"));
                    }
                }
            }
        }
    }
    rep.nontrivial = ns > 1 && rep.cov.get("transferred_values_compared").copied().unwrap_or(0) > 0;
}
