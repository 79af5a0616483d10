//! C17: runs with the solver that takes several scenarios at a time.

use super::c01::short;
use super::common::*;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{Cfg, Time};
use crate::refm::Eng;
use crate::rng::Rng;
use crate::sut::{self, Engine, Plan, Prank, Run, SimMulti, SimSettings};
use crate::world::{Scratch, run_in};
use crate::{cal, outs};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub static C17: Prop = Prop {
    id: "C17",
    make,
    run,
    cases: (4000, 60000),
    rule: "Each case is a generated model with 1-12 scenarios, which the interior point solver takes four at a time, stepped on 1-6 scheduled threads. Every step is compared with the reference model (constraints, volumes, parameters, cost), the run is repeated on other threads with solver instances replaced by fresh ones or made to solve the same problem twice, repeated with only some of the scenarios in another order (so that each meets other companions), repeated as a whole run with file and memory outputs, and made to fail at a random step. Models with features the solver lacks must be refused. Non-trivial: at least two scenarios were stepped with companions that differ between runs.",
    real: "real: model building, parameters, network, the SIMD interior point solver, recorders, rayon's job queues. Reference: refm.rs. Simulated: thread scheduling, clocks, hash seeds, what happens to a solver instance between steps, solver failures.",
    assume: &[
        "the solver may give up on a step, if it says so and at which step: it does on problems whose optimal allocations have no inner point; more than 15 % of the cases given up is a violation",
        "cost is compared with a tolerance of 10^-4 of its terms, and only constraints, costs and values of runs with flows below 10^4 are compared: the solver's tolerances are relative to the size of all flows and prices",
    ],
};

fn make(r: &mut Rng, _i: u64) -> Value {
    if r.chance(0.12) {
        return super::wide::make_batched(r);
    }
    let odd = r.chance(0.08);
    let cfg = Cfg {
        nodes: (2, 10),
        steps: (2, 10),
        groups: 2,
        scenarios: *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12]),
        subset: 0.1,
        params: (0, 5),
        composite: 0.15,
        agg: if odd { 0.6 } else { 0.0 },
        exclusive: if odd { 0.2 } else { 0.0 },
        vs: if odd { 0.6 } else { 0.0 },
        aggstor: 0.2,
        timeseries: 0.3,
        tables: 0.1,
        simple_lp: true,
        mins: if r.chance(0.2) { 0.25 } else { 0.0 },
        time: if r.chance(0.7) { Time::Days } else { Time::Any },
        ..Cfg::default()
    };
    let (mut m, f) = single(r, cfg);
    outs::add(&mut m, r, 0.1, true, false);
    let ns = n_scenarios(&m);
    let steps = cal::steps(&m["time"]).len().max(1);
    let mut keep: Vec<usize> = (0..ns).filter(|_| r.chance(0.5)).collect();
    if keep.is_empty() || keep.len() == ns {
        keep = vec![r.us(ns)];
    }
    if r.chance(0.3) {
        keep = (0..ns).collect();
    }
    r.shuffle(&mut keep);
    let mut plan = vec![];
    for _ in 0..r.range(0, 3) {
        plan.push(json!([r.us(steps), *r.pick(&["cold", "twice"])]));
    }
    let fail = if r.chance(0.2) { json!([r.us(steps), *r.pick(&["before", "after"])]) } else { Value::Null };
    let th: Vec<i64> = vec![r.range(1, 4), r.range(1, 6), r.range(1, 4), r.range(1, 4)];
    json!({"models": [m], "files": f, "worlds": worlds(r, &["main", "other", "part", "whole", "fail"]), "threads": th, "keep": keep, "plan": plan, "fail": fail})
}

fn go(rep: &mut Rep, case: &Value, name: &str, m: &Value, data: &str, out: &str, threads: usize, plan: Plan) -> Result<Run, String> {
    let plan = Arc::new(plan);
    let p2 = plan.clone();
    let (r, st) = run_in(&world(case, name), |ctx| -> Result<Run, String> {
        let b = sut::load_single(m, data, out)?;
        let s = SimSettings::new(Engine::Highs, true, threads, plan);
        ctx.sim(|| sut::observe_multi::<SimMulti>(&b, &s, threads))
    });
    let r = r.and_then(|x| x);
    tally(rep, name, &st, r.as_ref().ok());
    if st.switches + st.steals > 0 {
        rep.count("worlds_with_preemption", 1);
    }
    rep.count("fault.solver_replaced_repeated_or_failed", p2.fired.load(SeqCst));
    r
}

/// The solver's own way of giving up.
pub fn gave_up(e: &str) -> bool {
    e.contains("SIMD IPM")
}

/// Node and attribute kinds that need more than the solver has.
fn needs(m: &Value) -> bool {
    let has = |k: &str, ts: &[&str]| m["network"][k].as_array().into_iter().flatten().any(|n| ts.contains(&n["type"].as_str().unwrap_or("")));
    has("virtual_nodes", &["Aggregated", "VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage", "RollingVirtualStorage"])
}

/// The biggest flow of a run.
fn biggest(r: &Run) -> f64 {
    r.rows.iter().flatten().flat_map(|x| x.edge.iter()).fold(0.0, |a: f64, b| a.max(b.abs()))
}

fn run(case: &Value, rep: &mut Rep) {
    if super::wide::is(case) {
        return super::wide::batched(case, rep);
    }
    let m = &case["models"][0];
    let sc = Scratch::new();
    let (data, out) = (sc.sub("data"), sc.sub("out"));
    write_files(&case["files"], &data);
    rep.note = features(m);
    let base = match go(rep, case, "main", m, &data, &out, threads(case, 0), Plan::default()) {
        Ok(r) => r,
        Err(e) => {
            rep.bad(&format!("refused:{}", short(&e)), format!("a valid model cannot be run: {e}"));
            return;
        }
    };
    if let Some(e) = &base.setup_err {
        if !e.to_lowercase().contains("features") {
            rep.bad(&format!("refused:{}", short(e)), format!("a valid model cannot be set up: {e}"));
        } else if !needs(m) && !m.to_string().contains("Delay") {
            rep.count("features_refused_unexpectedly", 1);
        }
        rep.count("models_refused_for_their_features", 1);
        return;
    }
    if needs(m) {
        rep.bad("features-ignored", "a model with virtual storage or aggregated nodes, which the solver does not know, is run".to_string());
        return;
    }
    let members = scenario_members(m);
    if base.layout.scen.len() != members.len() {
        rep.skip = Some("scenarios differ from the definition".into());
        return;
    }
    if let Some((t, e)) = &base.err {
        if gave_up(e) {
            rep.count("solver_gave_up", 1);
            if std::env::var(crate::runner::REFUSED).is_ok() || case["violation"]["sig"] == "solver-gives-up" {
                rep.bad("solver-gives-up", "the solver gives up on this case, and on many others".to_string());
            }
            if base.err_step != Some(*t) {
                rep.bad("step-named", format!("the solver gave up at time-step {t}; the error names {:?}: {e}", base.err_step));
            }
        } else {
            rep.bad(&format!("failed:{}", short(e)), format!("a valid model fails at time-step {t}: {e}"));
        }
    } else {
        if base.rows.len() != cal::steps(&m["time"]).len() || base.after_end.is_none() {
            rep.bad("time-steps", format!("{} time-steps were simulated; stepping on: {:?}", base.rows.len(), base.after_end));
        }
        if !matches!(base.finalised, Some(Ok(()))) {
            rep.bad("finalise", format!("{:?}", base.finalised));
        }
    }
    // What was computed.
    let mut e = Eng::new(m, &m["network"], &case["files"], &base.layout);
    if !e.core.unsupported.is_empty() {
        rep.skip = Some(format!("not modelled: {}", e.core.unsupported[0]));
        return;
    }
    e.costs = true;
    e.cost_tol = 1e-4;
    let mut judged = base.clone();
    if judged.err.as_ref().is_some_and(|e| gave_up(&e.1)) {
        judged.err = None;
    }
    let wide = biggest(&base) > 1e4;
    e.judge(&judged);
    for f in &e.found {
        if wide && matches!(f.area, "feasible" | "cost" | "storage" | "param") {
            rep.count("judgements_left_out_for_huge_flows", 1);
            continue;
        }
        rep.bad(&f.sig, f.msg.clone());
    }
    for (k, v) in &e.stats {
        rep.count(&format!("ref.{k}"), *v);
    }
    // Other threads, other solver instances.
    let mut p: BTreeMap<(usize, usize), Prank> = BTreeMap::new();
    for x in case["plan"].as_array().into_iter().flatten() {
        p.insert((0, x[0].as_u64().unwrap_or(0) as usize), if x[1] == "cold" { Prank::Cold } else { Prank::Twice });
    }
    match go(rep, case, "other", m, &data, &out, threads(case, 1), Plan { pranks: p, ..Default::default() }) {
        Err(e) => rep.bad("parallel-run-fails", format!("with {} threads: {e}", threads(case, 1))),
        Ok(o) => {
            if let Some(d) = first_diff(&base, &o) {
                rep.bad("results-differ", format!("with {} / {} threads: {d}", threads(case, 0), threads(case, 1)));
            } else if o.err != base.err || o.setup_err.is_some() {
                rep.bad("outcome-differs", format!("{:?} / {:?} {:?}", base.err, o.err, o.setup_err));
            }
        }
    }
    // Other companions.
    let keep: Vec<usize> = case["keep"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as usize).filter(|k| *k < members.len()).collect();
    let mut moved = 0;
    if !keep.is_empty() && !members[0].is_empty() {
        let mut part = m.clone();
        for g in part["scenarios"]["groups"].as_array_mut().into_iter().flatten() {
            g.as_object_mut().unwrap().remove("subset");
        }
        part["scenarios"]["combinations"] = json!(keep.iter().map(|k| members[*k].clone()).collect::<Vec<_>>());
        match go(rep, case, "part", &part, &data, &out, threads(case, 2), Plan::default()) {
            Err(e) => rep.bad("companions-matter", format!("with only scenarios {keep:?}: {e}")),
            Ok(o) => {
                match (&o.err, &base.err) {
                    _ if o.setup_err.is_some() => rep.bad("companions-matter", format!("with only scenarios {keep:?}: {:?}", o.setup_err)),
                    (Some(x), None) => rep.bad("companions-matter", format!("with only scenarios {keep:?}: {x:?}; with all: no error")),
                    (Some(x), Some(y)) if x.0 < y.0 => rep.bad("companions-matter", format!("with only scenarios {keep:?}: {x:?}; with all: {y:?}")),
                    (None, Some(_)) if keep.len() == members.len() => {
                        rep.bad("companions-matter", format!("with the same scenarios in the order {keep:?}: no error; in theirs: {:?}", base.err))
                    }
                    _ => {}
                }
                'all: for (t, (x, y)) in base.rows.iter().zip(&o.rows).enumerate() {
                    for k in &keep {
                        let Some(k2) = base.layout.scen.iter().position(|s| s.schema == members[*k]) else { continue };
                        let Some(j2) = o.layout.scen.iter().position(|s| s.schema == members[*k]) else {
                            rep.bad("companions-matter", format!("scenario {k} was asked for but not simulated"));
                            break 'all;
                        };
                        if k2 != j2 || keep.len() != members.len() {
                            moved += 1;
                        }
                        if !x[k2].same(&y[j2]) {
                            rep.bad(
                                "companions-matter",
                                format!("scenario {k} (members {:?}) at time-step {t}: among all / with only {keep:?}: {}", members[*k], x[k2].diff(&y[j2], &base.layout)),
                            );
                            break 'all;
                        }
                    }
                }
                rep.count("companion_subsets", 1);
            }
        }
    }
    rep.count("scenario_steps_with_other_companions", moved);
    // A failure.
    if let (Some(t), Some(how)) = (case["fail"][0].as_u64(), case["fail"][1].as_str()) {
        let t = t as usize;
        let mut p = BTreeMap::new();
        p.insert((0, t), if how == "before" { Prank::FailBefore } else { Prank::FailAfter });
        match go(rep, case, "fail", m, &data, &out, threads(case, 3), Plan { pranks: p, ..Default::default() }) {
            Err(e) => rep.bad("failure-kills", format!("the solver fails at time-step {t}: {e}")),
            Ok(o) => {
                let early = base.err.as_ref().is_some_and(|e| e.0 < t);
                match &o.err {
                    _ if early => {}
                    Some((k, _)) if *k == t && o.err_step == Some(t) => {}
                    x => rep.bad("failure-lost", format!("the solver fails at time-step {t}: {x:?}, naming time-step {:?}", o.err_step)),
                }
                for (k, (x, y)) in base.rows.iter().zip(&o.rows).enumerate() {
                    if let Some(s) = (0..x.len()).find(|s| !x[*s].same(&y[*s])) {
                        rep.bad("results-differ", format!("a failure at time-step {t} changes scenario {s} at time-step {k}: {}", x[s].diff(&y[s], &base.layout)));
                        break;
                    }
                }
            }
        }
    }
    // A whole run.
    let o2 = sc.sub("out2");
    let th = threads(case, 3);
    let (r, st) = run_in(&world(case, "whole"), |ctx| -> Result<sut::Whole, String> {
        let b = sut::load(m, &data, &o2)?;
        sut::whole_ipm(ctx, &b, m, &sut::ipm(th))
    });
    tally(rep, "whole", &st, None);
    match r.and_then(|x| x) {
        Err(e) => rep.bad("whole-run-fails", format!("{e} (step by step: {:?})", base.err)),
        Ok(w) => {
            if w.err.is_some() != base.err.is_some() || w.err_step != base.err_step {
                rep.bad("outcome-differs", format!("whole run: {:?} at {:?}; step by step: {:?}", w.err, w.err_step, base.err));
            } else if w.err.is_none() {
                let (mut odd, mut known) = (vec![], vec![]);
                let (n, bad) = outs::check_all(&m["network"], &m["time"], &base, &o2, Some(&w.memory), &mut odd, &mut known);
                rep.count("output_values_compared", n);
                for (s, d) in bad {
                    rep.bad(&s, d);
                }
            }
        }
    }
    rep.nontrivial = members.len() > 1 && moved > 0;
}
