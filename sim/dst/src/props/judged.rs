//! Properties decided by comparing every step of a run with the reference model: constraints,
//! storage, licences, cost, parameters, the calendar and the scenario domain.

use super::c01::short;
use super::common::*;
use crate::{cal, outs};
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{Cfg, Time};
use crate::refm::{Eng, Finding};
use crate::rng::Rng;
use crate::sut::{self, Engine, Plan, Prank, Run};
use crate::world::{Scratch, run_in};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

const REAL: &str = "real: model loading and building, parameters, network, virtual storage, HiGHS and MicroLP solvers, metric sets, rayon's job queues. Reference: refm.rs, an independent executable definition of every component generated. Simulated: thread scheduling, clocks, hash seeds, what happens to a solver instance between steps.";

pub static C04: Prop = Prop {
    id: "C04",
    make: make_c04,
    run,
    cases: (12000, 200000),
    rule: "Each case is a generated network (composite nodes, losses, aggregated nodes with constant and changing factors, exclusivity groups, changing bounds) stepped through its time-steps sequentially or on scheduled threads, with HiGHS or MicroLP. After every step of every scenario the reference model writes down that step's constraints from the model file and the flows are put into them. Non-trivial: at least one constraint row was checked.",
    real: REAL,
    assume: &["flows are read from the state after each step with a tolerance of 1e-5 relative"],
};
pub static C05: Prop = Prop {
    id: "C05",
    make: make_c05,
    run,
    cases: (12000, 200000),
    rule: "Each case is a generated network with storage nodes and groups of storages, stepped through up to 40 time-steps of any length; after every step each volume is compared with the previous volume plus flows times days, its bounds, the proportional volume and the totals. Non-trivial: at least one volume was checked.",
    real: REAL,
    assume: &["volumes are compared with an absolute tolerance of 2e-5 (plus the solver's tolerance times the step length)"],
};
pub static C06: Prop = Prop {
    id: "C06",
    make: make_c06,
    run,
    cases: (12000, 200000),
    rule: "Each case is a generated network with virtual storages of every reset rule, season, window, factor and initial volume, stepped through up to 60 time-steps across month and year ends; after every step each licence's volume is compared with the reference model's account of it. Non-trivial: at least one licence volume was checked.",
    real: REAL,
    assume: &["the first time-step applies the reset rule's start-of-run reset as documented (initial volume)"],
};
pub static C07: Prop = Prop {
    id: "C07",
    make: make_c07,
    run,
    cases: (12000, 200000),
    rule: "Each case is a generated network stepped with HiGHS and, where every solver supports the model, with MicroLP, with solver instances replaced by fresh ones or made to solve the same problem twice at random steps. After every step the reference model's own simplex / branch-and-bound solves that step's problem; a cheaper feasible allocation, or a feasible step that is refused, is a violation. Non-trivial: at least one step's cost was compared.",
    real: REAL,
    assume: &["cost equality up to 2e-5 relative to the size of the cost terms, and up to the MIP gap of the solver for integer problems"],
};
pub static C09: Prop = Prop {
    id: "C09",
    make: make_c09,
    run,
    cases: (12000, 200000),
    rule: "Each case is a generated graph of 4-16 parameters of all kinds, declared in random order and wired to each other and to storages, flows, licences and input data, stepped through up to 25 time-steps; every parameter's before- and after-solve values in every step and scenario are compared with the reference model's. Non-trivial: at least one parameter value was compared.",
    real: REAL,
    assume: &["parameter kinds: all of the schema's except the plug-in (Python) and HydropowerTarget-with-turbine variants"],
};
pub static C10: Prop = Prop {
    id: "C10",
    make: make_c10,
    run,
    cases: (8000, 100000),
    rule: "Each case simulates a calendar (start 1900-2100, steps of hours, days or a calendar frequency, up to 500 steps, under a simulated wall clock with jumps) with calendar-driven parameters. The time domain is compared step by step with an independent Gregorian calendar and every profile value with its definition. Non-trivial: at least 3 steps and one calendar-driven value.",
    real: REAL,
    assume: &["calendar frequencies are those of polars' date_range: months keep the day of month, clamped to the month's end"],
};
pub static C11: Prop = Prop {
    id: "C11",
    make: make_c11,
    run,
    cases: (12000, 200000),
    rule: "Each case is a model with 1-4 scenario groups, subsets (slice, index, label) or explicit combinations, scenario-dependent constants, time series and tables, run sequentially or on scheduled threads. The scenarios simulated, their labels, every scenario-dependent value, and the scenarios, labels and values in long and wide CSV and HDF5 outputs are compared with the definition. Non-trivial: at least two scenarios.",
    real: REAL,
    assume: &[],
};

fn pranks(r: &mut Rng, m: &Value, p: f64) -> Value {
    let (n, t) = (n_scenarios(m), cal::steps(&m["time"]).len());
    let mut out = vec![];
    if r.chance(p) {
        for _ in 0..r.range(1, 6) {
            out.push(json!([r.us(n.max(1)), r.us(t.max(1)), *r.pick(&["cold", "twice"])]));
        }
    }
    json!(out)
}

fn case(r: &mut Rng, m: Value, f: Value, engine: &str) -> Value {
    let th = if r.chance(0.35) { r.range(1, 4) } else { 0 };
    let p = pranks(r, &m, 0.25);
    json!({"models": [m], "files": f, "engine": engine, "worlds": worlds(r, &["main", "other"]), "threads": [th], "plan": p})
}

fn engine(r: &mut Rng) -> &'static str {
    if r.chance(0.8) { "highs" } else { "microlp" }
}

fn make_c04(r: &mut Rng, _i: u64) -> Value {
    let e = engine(r);
    let cfg = Cfg {
        nodes: (3, 14),
        steps: (2, 10),
        scenarios: *r.pick(&[1, 2, 3]),
        composite: 0.35,
        agg: 0.8,
        exclusive: 0.35,
        mins: 0.4,
        params: (0, 10),
        simple_lp: e == "microlp",
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    case(r, m, f, e)
}

fn make_c05(r: &mut Rng, _i: u64) -> Value {
    let e = engine(r);
    let cfg = Cfg {
        nodes: (3, 9),
        steps: (3, 40),
        scenarios: *r.pick(&[1, 2, 3]),
        storages: 1.0,
        aggstor: 0.8,
        composite: 0.35,
        agg: 0.2,
        vs: 0.2,
        params: (0, 8),
        simple_lp: e == "microlp",
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    case(r, m, f, e)
}

fn make_c06(r: &mut Rng, _i: u64) -> Value {
    let e = engine(r);
    let cfg = Cfg {
        nodes: (3, 7),
        steps: (3, 60),
        scenarios: *r.pick(&[1, 1, 2, 3]),
        vs: 1.0,
        agg: 0.15,
        exclusive: 0.05,
        composite: 0.15,
        params: (0, 4),
        simple_lp: e == "microlp",
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    case(r, m, f, e)
}

fn make_c07(r: &mut Rng, _i: u64) -> Value {
    let e = if r.chance(0.6) { "highs" } else { "both" };
    let cfg = Cfg {
        nodes: (3, 12),
        steps: (2, 14),
        scenarios: *r.pick(&[1, 2, 3]),
        composite: 0.3,
        params: (0, 8),
        simple_lp: e == "both",
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    let mut c = case(r, m, f, e);
    c["plan"] = pranks(r, &c["models"][0], 0.6);
    c
}

fn make_c09(r: &mut Rng, _i: u64) -> Value {
    let cfg = Cfg {
        nodes: (2, 6),
        steps: (3, 25),
        scenarios: *r.pick(&[1, 2, 4]),
        params: (4, 16),
        composite: 0.15,
        agg: 0.15,
        exclusive: 0.05,
        vs: 0.3,
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    case(r, m, f, "highs")
}

fn make_c10(r: &mut Rng, _i: u64) -> Value {
    let n = *r.pick(&[12, 40, 120, 500]);
    let cfg = Cfg {
        nodes: (2, 3),
        steps: (3, n),
        scenarios: 1,
        params: (3, 8),
        composite: 0.0,
        agg: 0.0,
        exclusive: 0.0,
        vs: 0.0,
        timeseries: 0.2,
        tables: 0.0,
        kinds: vec![
            "DailyProfile", "WeeklyProfile", "MonthlyProfile", "DiurnalProfile", "UniformDrawdownProfile", "RbfProfile", "DiscountFactor", "DailyProfile",
            "MonthlyProfile",
        ],
        ..Cfg::default()
    };
    let (m, f) = single(r, cfg);
    case(r, m, f, "highs")
}

fn make_c11(r: &mut Rng, _i: u64) -> Value {
    let e = engine(r);
    let cfg = Cfg {
        nodes: (2, 6),
        steps: (2, 5),
        scenarios: *r.pick(&[2, 4, 8, 16, 24]),
        groups: 4,
        subset: 0.7,
        timeseries: 0.9,
        tables: 0.6,
        params: (2, 8),
        kinds: vec!["ConstantScenario", "ConstantScenario", "ConstantScenario", "Constant", "Aggregated", "Max", "Delay", "Rolling", "Offset"],
        time: if r.chance(0.7) { Time::Fixed } else { Time::Any },
        agg: 0.1,
        vs: 0.2,
        exclusive: 0.0,
        simple_lp: e == "microlp",
        ..Cfg::default()
    };
    let (mut m, f) = single(r, cfg);
    let mut o = vec![];
    if r.chance(0.5) {
        o.push(json!({"type": "CSV", "name": "long", "filename": "long.csv", "format": "Long", "metric_set": "obs"}));
    }
    if r.chance(0.5) {
        o.push(json!({"type": "CSV", "name": "wide", "filename": "wide.csv", "format": "Wide", "metric_set": "obs"}));
    }
    if r.chance(0.1) {
        o.push(json!({"type": "HDF5", "name": "h5", "filename": "h.h5", "metric_set": "obs"}));
    }
    m["network"]["outputs"] = json!(o);
    case(r, m, f, e)
}

fn plan(case: &Value) -> Plan {
    let mut p: BTreeMap<(usize, usize), Prank> = BTreeMap::new();
    for x in case["plan"].as_array().into_iter().flatten() {
        let u = |k: usize| x[k].as_u64().unwrap_or(0) as usize;
        p.insert((u(0), u(1)), if x[2] == "cold" { Prank::Cold } else { Prank::Twice });
    }
    Plan { pranks: p, ..Default::default() }
}

fn mine(id: &str, f: &Finding) -> bool {
    if f.sig == "feasible-step-refused" {
        return true;
    }
    match id {
        "C04" => matches!(f.area, "structure" | "feasible"),
        "C05" => f.area == "storage",
        "C06" => f.area == "vs",
        "C07" => f.area == "cost",
        "C09" => f.area == "param",
        "C10" => f.area == "calendar",
        "C11" => f.area == "scenario",
        _ => false,
    }
}

/// The time-steps of a run against the calendar.
pub fn judge_time(rep: &mut Rep, m: &Value, run: &Run) {
    let want = cal::steps(&m["time"]);
    let got = &run.layout.steps;
    if want.len() != got.len() {
        rep.bad("time-steps", format!("{} time-steps are simulated; from {} to {} there are {}", got.len(), m["time"]["start"], m["time"]["end"], want.len()));
        return;
    }
    for (k, ((d, mi), g)) in want.iter().zip(got).enumerate() {
        if d.iso() != g.0 || *mi != g.1 || (g.2 - *mi as f64 / 1440.0).abs() > 1e-9 {
            rep.bad("time-steps", format!("time-step {k} is {} for {} minutes ({} days); it should be {} for {mi} minutes", g.0, g.1, g.2, d.iso()));
            return;
        }
    }
    rep.count("time_steps_checked", want.len() as u64);
    if run.ok() {
        if run.rows.len() != want.len() {
            rep.bad("time-steps", format!("{} of {} time-steps were simulated", run.rows.len(), want.len()));
        }
        if run.after_end.is_none() {
            rep.bad("time-steps", "a step after the last one succeeded".to_string());
        }
    }
}

/// The scenarios of a run against the definition of the scenario domain.
pub fn judge_scenarios(rep: &mut Rep, m: &Value, run: &Run) -> bool {
    let want = scenario_members(m);
    let got = &run.layout.scen;
    if want.len() != got.len() {
        rep.bad("scenarios", format!("{} scenarios are simulated; {} are asked for", got.len(), want.len()));
        return false;
    }
    let gs = m["scenarios"]["groups"].as_array().cloned().unwrap_or_default();
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        let (w, labels): (Vec<usize>, Vec<String>) = if gs.is_empty() {
            (vec![0], vec!["0".into()])
        } else {
            (
                w.clone(),
                w.iter().zip(&gs).map(|(x, g)| g["labels"][*x].as_str().map(|s| s.to_string()).unwrap_or(x.to_string())).collect(),
            )
        };
        if g.id != k || g.schema != w {
            rep.bad("scenarios", format!("scenario {k} is number {} with members {:?}; its members are {w:?}", g.id, g.schema));
            return false;
        }
        if g.labels != labels || g.label != labels.join("-") {
            rep.bad("labels", format!("scenario {k} is labelled {:?} ({:?}); its labels are {labels:?}", g.labels, g.label));
            return false;
        }
    }
    rep.count("scenarios_checked", want.len() as u64);
    true
}

fn run(case: &Value, rep: &mut Rep) {
    let id = case["prop"].as_str().unwrap_or("");
    let m = &case["models"][0];
    let sc = Scratch::new();
    let (data, out) = (sc.sub("data"), sc.sub("out"));
    write_files(&case["files"], &data);
    rep.note = features(m);
    let engines: Vec<(Engine, &str)> = match case["engine"].as_str() {
        Some("microlp") => vec![(Engine::MicroLp, "main")],
        Some("both") => vec![(Engine::Highs, "main"), (Engine::MicroLp, "other")],
        _ => vec![(Engine::Highs, "main")],
    };
    let members = scenario_members(m);
    for (engine, name) in engines {
        let th = threads(case, 0);
        let pl = Arc::new(plan(case));
        let p2 = pl.clone();
        let (r, st) = run_in(&world(case, name), |ctx| -> Result<Run, String> {
            let b = sut::load_single(m, &data, &out)?;
            sut::observe_sim(ctx, &b, engine, th, pl)
        });
        let r = r.and_then(|x| x);
        tally(rep, name, &st, r.as_ref().ok());
        rep.count("fault.solver_replaced_or_repeated", p2.fired.load(std::sync::atomic::Ordering::SeqCst));
        let who = format!("{engine:?}, {th} threads: ");
        let run = match r {
            // MicroLP does not always notice an unbounded problem, and its answers then break the
            // mass balance: HiGHS tells.
            Err(e) if engine == Engine::MicroLp && e.contains("Mass-balance") && open_ended(case, m, &data, &out) => {
                rep.count("runs_ended_infeasible_or_unbounded", 1);
                return;
            }
            Err(e) => {
                rep.bad(&format!("refused:{}", short(&e)), format!("{who}a valid model cannot be run: {e}"));
                return;
            }
            Ok(r) => r,
        };
        if let Some(e) = &run.setup_err {
            rep.bad(&format!("refused:{}", short(e)), format!("{who}a valid model cannot be set up: {e}"));
            return;
        }
        if id == "C10" {
            judge_time(rep, m, &run);
        }
        let same = if id == "C11" { judge_scenarios(rep, m, &run) } else { run.layout.scen.len() == members.len() };
        if !same || run.layout.steps.len() != cal::steps(&m["time"]).len() {
            if rep.viol.is_empty() {
                rep.skip = Some("scenarios or time-steps differ from the definition".into());
            }
            return;
        }
        let mut e = Eng::new(m, &m["network"], &case["files"], &run.layout);
        if !e.core.unsupported.is_empty() {
            rep.skip = Some(format!("not modelled: {}", e.core.unsupported[0]));
            return;
        }
        e.costs = id == "C07";
        e.judge(&run);
        if let Some((t, x)) = &run.err {
            let x2 = x.to_lowercase();
            if x2.contains("infeasible") || x2.contains("unbounded") {
                // Judged by the reference model.
                rep.count("runs_ended_infeasible_or_unbounded", 1);
            } else {
                rep.bad(&format!("failed:{}", short(x)), format!("{who}a valid model fails at time-step {t}: {x}"));
            }
        }
        for f in e.found.iter().filter(|f| mine(id, f)) {
            rep.bad(&f.sig, format!("{who}{}", f.msg));
        }
        if id == "C11" && run.ok() {
            let (mut odd, mut known) = (vec![], vec![]);
            let (n, bad) = outs::check_all(&m["network"], &m["time"], &run, &out, None, &mut odd, &mut known);
            rep.count("output_values_compared", n);
            for (s, d) in bad {
                rep.bad(&s, format!("{who}{d}"));
            }
        }
        let others = e.found.iter().filter(|f| !mine(id, f)).count();
        rep.count("findings_of_other_properties", others as u64);
        for (k, v) in &e.stats {
            rep.count(&format!("ref.{k}"), *v);
        }
    }
    let has = |k: &str| rep.cov.get(&format!("ref.{k}")).copied().unwrap_or(0) > 0;
    rep.nontrivial = match id {
        "C04" => has("rows_checked"),
        "C05" => has("volumes_checked"),
        "C06" => has("licence_volumes_checked"),
        "C07" => has("costs_checked"),
        "C09" => has("metrics_checked") && m["network"]["parameters"].is_array(),
        "C10" => cal::steps(&m["time"]).len() > 2 && m["network"]["parameters"].is_array(),
        "C11" => members.len() > 1,
        _ => false,
    };
}

fn open_ended(case: &Value, m: &Value, data: &str, out: &str) -> bool {
    let (r, _) = run_in(&world(case, "main"), |ctx| -> Result<Run, String> {
        let b = sut::load_single(m, data, out)?;
        sut::observe_sim(ctx, &b, Engine::Highs, 0, Arc::new(Plan::default()))
    });
    match r {
        Ok(Ok(r)) => r.err.is_some_and(|e| e.1.to_lowercase().contains("unbounded") || e.1.to_lowercase().contains("infeasible")),
        _ => false,
    }
}
