//! C08: models of several networks.

use super::c01::short;
use super::common::*;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{self, Cfg, Time};
use crate::refm::Eng;
use crate::rng::Rng;
use crate::sut::{self, Engine, MultiRun, Plan, Prank, SimSettings, SimSolver};
use crate::world::{Scratch, run_in};
use crate::{cal, outs};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub static C08: Prop = Prop {
    id: "C08",
    make,
    run,
    cases: (7000, 100000),
    rule: "Each case is a model of 2-5 networks with 1-4 transfers each, in any direction, of parameters, flows, volumes, edges, licences and input data, with and without initial values, the receiving network's bounds and parameters depending on them. It is run by the library's own loop, sequentially and on scheduled threads, with solver instances replaced, repeated or failing at random (network, scenario, step). After every network's step an observer reads that network; every transferred value is compared with what the sender's metric was, every network is judged by the reference model given only its own file and what it was sent, and outputs are compared with what was observed. Non-trivial: at least one transferred value was compared.",
    real: "real: multi-network loading, building and stepping loop, parameters, networks, virtual storage, HiGHS and MicroLP, metric sets, CSV and memory outputs, rayon's job queues. Reference: refm.rs. Simulated: thread scheduling, clocks, hash seeds, what happens to a solver instance between steps. Observed through a recorder added to each network.",
    assume: &["a transferred metric is not itself a transfer", "a network that receives from a later one has an initial value"],
};

pub fn draw(r: &mut Rng, cfg: Cfg) -> (Value, Value) {
    let n = *r.pick(&[2, 2, 2, 3, 3, 4, 5]);
    genm::multi(r, cfg, n)
}

fn make(r: &mut Rng, _i: u64) -> Value {
    let e = if r.chance(0.85) { "highs" } else { "microlp" };
    let cfg = Cfg {
        nodes: (2, 6),
        steps: (2, 8),
        scenarios: *r.pick(&[1, 2, 3, 4]),
        params: (1, 6),
        composite: 0.15,
        agg: 0.2,
        exclusive: 0.05,
        vs: 0.25,
        timeseries: 0.3,
        tables: 0.1,
        simple_lp: e == "microlp",
        time: if r.chance(0.7) { Time::Days } else { Time::Any },
        ..Cfg::default()
    };
    let (mut m, f) = draw(r, cfg);
    let nets = m["networks"].as_array().unwrap().len();
    if r.chance(0.4) {
        for k in 0..nets {
            let mut o = vec![];
            if r.chance(0.7) {
                o.push(json!({"type": "CSV", "name": "long", "filename": format!("long{k}.csv"), "format": "Long", "metric_set": "obs"}));
            }
            if r.chance(0.4) {
                o.push(json!({"type": "CSV", "name": "wide", "filename": format!("wide{k}.csv"), "format": "Wide", "metric_set": "obs"}));
            }
            if r.chance(0.7) {
                o.push(json!({"type": "Memory", "name": "mem", "metric_set": "obs"}));
            }
            r.shuffle(&mut o);
            m["networks"][k]["network"]["outputs"] = json!(o);
        }
    }
    let (s, t) = (n_scenarios(&m).max(1), cal::steps(&m["time"]).len().max(1));
    let mut plan = vec![];
    if r.chance(0.25) {
        for _ in 0..r.range(1, 6) {
            plan.push(json!([r.us(s * nets), r.us(t), *r.pick(&["cold", "twice"])]));
        }
    }
    if r.chance(0.12) {
        plan.push(json!([r.us(s * nets), r.us(t), *r.pick(&["before", "after"])]));
    }
    let th = if r.chance(0.5) { vec![0, r.range(1, 4)] } else { vec![r.range(0, 4)] };
    let paths: Vec<bool> = (0..nets).map(|_| r.chance(0.2)).collect();
    json!({"models": [m], "files": f, "engine": e, "worlds": worlds(r, &["main", "again"]), "threads": th, "plan": plan, "as_file": paths})
}

pub fn plan(case: &Value) -> Plan {
    let mut p: BTreeMap<(usize, usize), Prank> = BTreeMap::new();
    for x in case["plan"].as_array().into_iter().flatten() {
        let u = |k: usize| x[k].as_u64().unwrap_or(0) as usize;
        let k = match x[2].as_str() {
            Some("cold") => Prank::Cold,
            Some("twice") => Prank::Twice,
            Some("before") => Prank::FailBefore,
            _ => Prank::FailAfter,
        };
        p.insert((u(0), u(1)), k);
    }
    Plan { pranks: p, ..Default::default() }
}

/// Networks kept in files of their own are replaced by their paths.
pub fn on_disk(case: &Value, m: &Value, data: &str) -> Value {
    let mut m = m.clone();
    for (k, n) in m["networks"].as_array_mut().into_iter().flatten().enumerate() {
        if case["as_file"][k] == true {
            let f = format!("network{k}.json");
            let _ = std::fs::write(format!("{data}/{f}"), n["network"].to_string());
            n["network"] = json!(f);
        }
    }
    m
}

/// Compares what networks received with what was sent, and gives it to the reference model.
pub fn judge(rep: &mut Rep, case: &Value, m: &Value, r: &MultiRun, who: &str, out: &str, batched: bool) {
    let nets: Vec<&Value> = m["networks"].as_array().into_iter().flatten().collect();
    let find = |n: &str| nets.iter().position(|x| x["name"] == json!(n));
    let obs_at = |k: usize, metric: &Value| -> Option<usize> {
        nets[k]["network"]["metric_sets"].as_array()?.iter().find(|s| s["name"] == "obs")?["metrics"].as_array()?.iter().position(|x| x == metric)
    };
    for (k, n) in nets.iter().enumerate() {
        let run = &r.runs[k];
        let name = n["name"].as_str().unwrap_or("");
        let mut feed = vec![];
        let last = run.rows.len() + usize::from(run.err.is_some());
        for t in 0..last {
            let mut row = vec![];
            for s in 0..run.layout.scen.len() {
                let mut got = vec![];
                for tr in n["transfers"].as_array().into_iter().flatten() {
                    let tn = tr["name"].as_str().unwrap_or("");
                    let Some(from) = tr["from_network"].as_str().and_then(find) else { continue };
                    let now = if from < k { Some(t) } else { t.checked_sub(1) };
                    let sent = match (t, tr["initial_value"].as_f64()) {
                        (0, Some(v)) => Some(v),
                        _ if tr["metric"]["type"] == "Literal" => tr["metric"]["value"].as_f64(),
                        _ => now.and_then(|u| Some(r.runs[from].rows.get(u)?.get(s)?.obs.get(obs_at(from, &tr["metric"])?).copied()?)),
                    };
                    got.push((tn.to_string(), sent));
                    let (Some(sent), Some(row)) = (sent, run.rows.get(t)) else { continue };
                    let Some(at) = obs_at(k, &json!({"type": "InterNetworkTransfer", "name": tn})) else { continue };
                    let have = row[s].obs.get(at).copied().unwrap_or(f64::NAN);
                    rep.count("transferred_values_compared", 1);
                    let way = if from < k { "earlier" } else { "later" };
                    rep.count(&format!("transfers_from_{way}_network"), 1);
                    if !(have == sent || (have.is_nan() && sent.is_nan())) {
                        rep.bad(
                            "transferred-value",
                            format!("{who}network {name} (number {k}), time-step {t}, scenario {s}: transfer {tn} of {} from {way} network {} is {have:?}; the sender's value is {sent:?}", tr["metric"], tr["from_network"]),
                        );
                    }
                }
                row.push(got);
            }
            feed.push(row);
        }
        let mut e = Eng::new(m, &n["network"], &case["files"], &run.layout);
        if !e.core.unsupported.is_empty() {
            rep.count("networks_not_modelled", 1);
            continue;
        }
        e.feed = feed;
        let mut judged = run.clone();
        let mut wide = false;
        if batched {
            // As for single networks (lanes.rs).
            e.costs = true;
            e.cost_tol = 1e-4;
            wide = run.rows.iter().flatten().flat_map(|x| x.edge.iter()).any(|x| x.abs() > 1e4);
            if judged.err.as_ref().is_some_and(|e| super::lanes::gave_up(&e.1)) {
                judged.err = None;
            }
        }
        e.judge(&judged);
        for f in &e.found {
            if wide && matches!(f.area, "feasible" | "cost" | "storage" | "param") {
                rep.count("judgements_left_out_for_huge_flows", 1);
                continue;
            }
            rep.bad(&format!("alone:{}:{}", f.area, f.sig), format!("{who}network {name}, given what it was sent, does not behave as it would alone: {}", f.msg));
        }
        for (k, v) in &e.stats {
            rep.count(&format!("ref.{k}"), *v);
        }
        if r.err.is_none() {
            let mem: BTreeMap<(String, String), sut::MemOut> =
                r.memory.iter().filter(|x| x.0.0 == name).map(|x| ((String::new(), x.0.1.clone()), x.1.clone())).collect();
            let (mut odd, mut known) = (vec![], vec![]);
            let (c, bad) = outs::check_all(&n["network"], &m["time"], run, out, Some(&mem), &mut odd, &mut known);
            rep.count("output_values_compared", c);
            for (s, d) in bad {
                rep.bad(&s, format!("{who}network {name}: {d}"));
            }
        }
    }
}

fn run(case: &Value, rep: &mut Rep) {
    let m = &case["models"][0];
    let sc = Scratch::new();
    let data = sc.sub("data");
    write_files(&case["files"], &data);
    rep.note = features(m);
    let engine = Engine::from(case["engine"].as_str().unwrap_or(""));
    let scenarios = n_scenarios(m);
    let nets = m["networks"].as_array().map(|a| a.len()).unwrap_or(0);
    let steps = cal::steps(&m["time"]).len();
    let on = on_disk(case, m, &data);
    let mut first: Option<MultiRun> = None;
    for (k, th) in case["threads"].as_array().into_iter().flatten().enumerate() {
        let th = th.as_u64().unwrap_or(0) as usize;
        let out = sc.sub(&format!("out{k}"));
        let name = if k == 0 { "main" } else { "again" };
        let pl = Arc::new(plan(case));
        let p2 = pl.clone();
        let (r, st) = run_in(&world(case, name), |ctx| -> Result<MultiRun, String> {
            let b = sut::load_spied(&on, &data, &out)?;
            let s = SimSettings::new(engine, th > 0, th, pl);
            sut::run_spied(ctx, &b, m, |x| x.run::<SimSolver>(&s))
        });
        let r = r.and_then(|x| x);
        rep.world(name, &st);
        let who = format!("{engine:?}, {th} threads: ");
        let fired = p2.fired.load(SeqCst);
        rep.count("fault.solver_replaced_repeated_or_failed", fired);
        let r = match r {
            Ok(r) => r,
            Err(e) if engine == Engine::MicroLp && e.contains("Mass-balance") => {
                rep.count("runs_ended_infeasible_or_unbounded", 1);
                return;
            }
            Err(e) => {
                rep.bad(&format!("refused:{}", short(&e)), format!("{who}a valid model cannot be run: {e}"));
                return;
            }
        };
        for x in &r.runs {
            states(rep, &x.rows);
            rep.sim_minutes += x.rows.iter().zip(&x.layout.steps).map(|(a, b)| a.len() as f64 * b.1 as f64).sum::<f64>();
            if x.layout.scen.len() != scenarios || x.layout.steps.len() != steps {
                rep.skip = Some("scenarios or time-steps differ from the definition".into());
                return;
            }
        }
        judge(rep, case, m, &r, &who, &out, false);
        // An injected failure must be reported, and as what it is.
        let fail = p2.pranks.iter().filter(|x| matches!(x.1, Prank::FailBefore | Prank::FailAfter)).map(|x| (x.0.1, x.0.0 / scenarios.max(1), x.0.0 % scenarios.max(1))).min();
        match (&r.err, fail) {
            (None, Some((t, n, s))) if t < steps && n < nets => {
                rep.bad("failure-lost", format!("{who}the solver failed at time-step {t} in network {n}, scenario {s}, and the run succeeded"));
            }
            (None, _) => {
                for (n, x) in r.runs.iter().enumerate() {
                    if x.rows.len() != steps {
                        rep.bad("steps-missing", format!("{who}network {n} was stepped {} times out of {steps}", x.rows.len()));
                    }
                }
            }
            (Some(e), f) => {
                let low = e.to_lowercase();
                if let (Some((t, n, _)), true) = (f, e.contains("features")) {
                    let want = m["networks"][n]["name"].as_str().unwrap_or("").to_string();
                    rep.count("injected_failures_reported", 1);
                    if r.err_at != Some((want.clone(), t)) {
                        rep.bad("failure-misplaced", format!("{who}the solver failed at time-step {t} in network {want}; the error names {:?}: {e}", r.err_at));
                    }
                } else if low.contains("infeasible") || low.contains("unbounded") {
                    rep.count("runs_ended_infeasible_or_unbounded", 1);
                } else {
                    rep.bad(&format!("failed:{}", short(e)), format!("{who}a valid model fails: {e}"));
                }
            }
        }
        if let Some(f) = &first {
            for (n, (a, b)) in f.runs.iter().zip(&r.runs).enumerate() {
                if let Some(d) = first_diff(a, b) {
                    rep.bad("runs-differ", format!("network {n}, {} threads / {th} threads: {d}", case["threads"][0]));
                }
            }
            if f.err.is_some() != r.err.is_some() {
                rep.bad("runs-differ", format!("{:?} / {:?}", f.err, r.err));
            }
        } else {
            first = Some(r);
        }
    }
    rep.nontrivial = rep.cov.get("transferred_values_compared").copied().unwrap_or(0) > 0;
}
