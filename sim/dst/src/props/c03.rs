//! A failure in any scenario fails the run cleanly and deterministically.

use super::c01::short;
use super::common::*;
use crate::cal;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{Cfg, Time};
use crate::rng::Rng;
use crate::sut::{self, Engine, Plan, Prank, Run, SimSettings, SimSolver, Whole};
use crate::world::{Scratch, run_in};
use pywr_core::solvers::SimdIpmF64Solver;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C03",
    make,
    run,
    cases: (1000, 40000),
    rule: "Each case is a generated model with failures injected at chosen scenarios and time-steps: the solver of a scenario fails before or after its solve, a parameter fails before or after the solve (division by zero, interpolation out of bounds), or a scenario's problem becomes infeasible. It is run failure-free, then with the failures sequentially, on 1-6 scheduled worker threads, as a whole run with outputs, with the batched solver, and once more without the failures from the same loaded model. Non-trivial: at least one injected failure was reached.",
    real: "real: parameters, network, HiGHS and MicroLP and SIMD-IPM solvers, recorders, rayon's job queues. Stub: injected solver failures come from a solver wrapper that delegates to the real one. Simulated: thread scheduling, clocks, hash seeds.",
    assume: &["a solver failure reported through the Solver trait is handled like any the real solvers report"],
};

const KINDS: [&str; 8] = ["solver", "solver", "solver", "division", "division-after", "bounds", "infeasible", "ratio"];

fn fault_csv(m: &Value, cols: usize, normal: f64, fault: f64, at: &[(usize, usize)]) -> String {
    let st = cal::steps(&m["time"]);
    let daily = st[0].1 % 1440 == 0 && st[0].0.h == 0;
    let mut t = String::from("date");
    for c in 0..cols {
        t += &format!(",f{c}");
    }
    t += "\n";
    for (k, s) in st.iter().enumerate() {
        t += &if daily { s.0.date_string() } else { s.0.iso() };
        for c in 0..cols {
            t += &format!(",{:?}", if at.contains(&(c, k)) { fault } else { normal });
        }
        t += "\n";
    }
    t
}

fn make(r: &mut Rng, _i: u64) -> Value {
    if r.chance(0.15) {
        let mut c = super::wide::make(r, &[1, 2, 3, 4], 0.0, &["clean", "seq", "par", "whole"]);
        super::wide::add_failures(r, &mut c);
        return c;
    }
    let kind = *r.pick(&KINDS);
    let engine = if r.chance(0.8) { "highs" } else { "microlp" };
    let batched = matches!(kind, "division" | "division-after" | "bounds") && r.chance(0.5);
    let cfg = Cfg {
        scenarios: *r.pick(&[1, 2, 4, 6, 9]),
        steps: (2, 8),
        simple_lp: engine == "microlp" || batched,
        time: if kind == "solver" { Time::Any } else { Time::Fixed },
        mins: 0.1,
        vs: if batched { 0.0 } else { 0.4 },
        agg: if batched { 0.0 } else { 0.4 },
        ..Cfg::default()
    };
    let (mut m, mut f) = single(r, cfg);
    add_outputs(&mut m["network"], r, false);
    let members = scenario_members(&m);
    let nsteps = cal::steps(&m["time"]).len();
    let mut plan = vec![];
    let (mut clean, mut fault) = (f.clone(), f.clone());
    let mut fails: Vec<(usize, usize)> = vec![];
    if kind == "solver" {
        for _ in 0..r.range(1, 3) {
            let (s, t) = (r.us(members.len()), r.us(nsteps));
            plan.push(json!([s, t, if r.chance(0.6) { "before" } else { "after" }]));
            fails.push((s, t));
        }
    } else {
        let g = m["scenarios"]["groups"].as_array().map(|a| a.len()).unwrap_or(0);
        let g = if g > 0 { Some(r.us(g)) } else { None };
        let cols = g.map(|g| m["scenarios"]["groups"][g]["size"].as_u64().unwrap_or(1) as usize).unwrap_or(1);
        let mut at = vec![];
        for _ in 0..r.range(1, 3) {
            let c = match g {
                Some(g) => r.pick(&members)[g],
                None => 0,
            };
            at.push((c, r.us(nsteps)));
        }
        for (s, mem) in members.iter().enumerate() {
            for &(c, t) in &at {
                if g.map(|g| mem[g]).unwrap_or(0) == c {
                    fails.push((s, t));
                }
            }
        }
        let (normal, bad) = match kind {
            "bounds" => (1.0, 99.0),
            "infeasible" => (0.0, 10.0),
            _ => (1.0, 0.0),
        };
        clean["fault.csv"] = json!(fault_csv(&m, cols, normal, bad, &[]));
        fault["fault.csv"] = json!(fault_csv(&m, cols, normal, bad, &at));
        let metric = match g {
            Some(g) => json!({"type": "Timeseries", "name": "fault", "columns": {"type": "Scenario", "name": m["scenarios"]["groups"][g]["name"]}}),
            None => json!({"type": "Timeseries", "name": "fault", "columns": {"type": "Column", "name": "f0"}}),
        };
        let net = &mut m["network"];
        if !net["timeseries"].is_array() {
            net["timeseries"] = json!([]);
        }
        net["timeseries"].as_array_mut().unwrap().push(json!({"meta": {"name": "fault"}, "type": "Polars", "time_col": "date", "url": "fault.csv"}));
        if !net["parameters"].is_array() {
            net["parameters"] = json!([]);
        }
        let ps = net["parameters"].as_array_mut().unwrap();
        let p = match kind {
            "division" | "ratio" => Some(json!({"meta": {"name": "fragile"}, "type": "Division", "phase": "Before", "numerator": {"type": "Literal", "value": 1.0}, "denominator": metric})),
            "division-after" => Some(json!({"meta": {"name": "fragile"}, "type": "Division", "phase": "After", "numerator": {"type": "Literal", "value": 1.0}, "denominator": metric})),
            "bounds" => Some(json!({"meta": {"name": "fragile"}, "type": "Interpolated", "x": metric, "error_on_bounds": true,
                "xp": [{"type": "Literal", "value": 0.0}, {"type": "Literal", "value": 2.0}], "fp": [{"type": "Literal", "value": 3.0}, {"type": "Literal", "value": 5.0}]})),
            _ => None,
        };
        if let Some(p) = p {
            let k = r.us(ps.len() + 1);
            ps.insert(k, p);
        } else {
            net["nodes"].as_array_mut().unwrap().push(json!({"meta": {"name": "forced"}, "type": "Input", "min_flow": metric}));
            net["nodes"].as_array_mut().unwrap().push(json!({"meta": {"name": "narrow"}, "type": "Output", "max_flow": {"type": "Literal", "value": 5.0}}));
            net["edges"].as_array_mut().unwrap().push(json!({"from_node": "forced", "to_node": "narrow"}));
        }
    }
    f = json!({"clean": clean, "fault": fault});
    let th: Vec<i64> = (0..3).map(|_| r.range(1, 6)).collect();
    json!({"models": [m], "files": f["fault"], "files_clean": f["clean"], "engine": engine, "kind": kind, "plan": plan, "fails": fails,
        "batched": batched, "threads": th, "worlds": worlds(r, &["clean", "seq", "par", "whole", "batch"])})
}

fn plan(case: &Value) -> Plan {
    let mut p: BTreeMap<(usize, usize), Prank> = BTreeMap::new();
    for x in case["plan"].as_array().into_iter().flatten() {
        let u = |k: usize| x[k].as_u64().unwrap_or(0) as usize;
        p.insert((u(0), u(1)), if x[2] == "before" { Prank::FailBefore } else { Prank::FailAfter });
    }
    Plan { pranks: p, ..Default::default() }
}

fn expect(rep: &mut Rep, what: &str, clean: &Run, r: &Run, step: usize) {
    match &r.err {
        None => rep.bad("failure-lost", format!("{what}: a failure at time-step {step} was injected but the run reports success (set-up: {:?})", r.setup_err)),
        Some((k, e)) => {
            if *k != step {
                rep.bad("wrong-step", format!("{what}: failed at time-step {k} ({}), the first failure is at {step}", short(e)));
            } else if r.err_step != Some(step) {
                rep.bad("wrong-step", format!("{what}: the error of time-step {step} names {:?}: {}", r.err_step, short(e)));
            }
        }
    }
    if let Some(d) = first_diff(clean, r) {
        rep.bad("earlier-results-differ", format!("{what}: before the failure at time-step {step}: failure-free / with the failure: {d}"));
    }
}

struct Out {
    seq: Run,
    par: Vec<Run>,
    again: Run,
}

fn run(case: &Value, rep: &mut Rep) {
    if super::wide::is(case) {
        return super::wide::failures(case, rep);
    }
    let m = &case["models"][0];
    let engine = Engine::from(case["engine"].as_str().unwrap_or(""));
    let kind = case["kind"].as_str().unwrap_or("");
    let sc = Scratch::new();
    let (data, dclean, out) = (sc.sub("data"), sc.sub("clean"), sc.sub("out"));
    write_files(&case["files"], &data);
    write_files(&case["files_clean"], &dclean);
    let none = || Arc::new(Plan::default());
    let (r, st) = run_in(&world(case, "clean"), |ctx| -> Result<(Run, BTreeMap<String, Vec<u8>>), String> {
        let b = sut::load(m, &dclean, &out)?;
        let sut::Built::Single(sm) = &b else { return Err("multi".into()) };
        let r = sut::observe_sim(ctx, sm, engine, 0, none())?;
        let s = SimSettings::new(engine, false, 0, none());
        let _ = sut::whole::<SimSolver>(ctx, &b, m, &s)?;
        Ok((r, read_outputs(&out)))
    });
    let r = r.and_then(|x| x);
    tally(rep, "clean", &st, r.as_ref().ok().map(|x| &x.0));
    let (clean, cfiles) = match r {
        Ok(c) if c.0.ok() => c,
        Ok(c) => {
            rep.skip = Some(short(&format!("{:?} {:?}", c.0.setup_err, c.0.err)));
            return;
        }
        Err(e) => {
            rep.skip = Some(short(&e));
            return;
        }
    };
    let nsteps = clean.layout.steps.len();
    let nscen = clean.layout.scen.len();
    let fails: Vec<(usize, usize)> = case["fails"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|x| (x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize))
        .filter(|x| x.0 < nscen && x.1 < nsteps)
        .collect();
    let Some(step) = fails.iter().map(|x| x.1).min() else {
        rep.skip = Some("no failure in this model".into());
        return;
    };
    rep.note = format!("{kind} failure at (scenario, time-step) {fails:?}; {}", features(m));
    rep.count(&format!("fault.{kind}"), fails.len() as u64);
    // Sequentially and in parallel, from one loaded model; then without the failures.
    let pl = |c: &Value| Arc::new(plan(c));
    let (r, st) = run_in(&world(case, "par"), |ctx| -> Result<Out, String> {
        let sm = sut::load_single(m, &data, &out)?;
        let seq = sut::observe_sim(ctx, &sm, engine, 0, pl(case)).map_err(|e| format!("sequentially: {e}"))?;
        let mut par = vec![];
        for k in 0..2 {
            let th = threads(case, k);
            par.push(sut::observe_sim(ctx, &sm, engine, th, pl(case)).map_err(|e| format!("with {th} threads: {e}"))?);
        }
        let again = sut::observe_sim(ctx, &sm, engine, 0, none()).map_err(|e| format!("run again: {e}"))?;
        Ok(Out { seq, par, again })
    });
    let r = r.and_then(|x| x);
    tally(rep, "par", &st, r.as_ref().ok().map(|x| &x.seq));
    match r {
        Err(e) => {
            rep.bad("panic", format!("{kind} failure at time-step {step}: {e}"));
            return;
        }
        Ok(o) => {
            expect(rep, &format!("{kind}, sequential"), &clean, &o.seq, step);
            for (k, p) in o.par.iter().enumerate() {
                expect(rep, &format!("{kind}, {} threads", threads(case, k)), &clean, p, step);
            }
            if kind == "solver" {
                if !o.again.ok() {
                    rep.bad("not-rerunnable", format!("after a failed run the same model fails: {:?} {:?}", o.again.setup_err, o.again.err));
                } else if let Some(d) = first_diff(&clean, &o.again) {
                    rep.bad("not-rerunnable", format!("after a failed run the same model gives other results: {d}"));
                }
            } else {
                expect(rep, &format!("{kind}, sequential again"), &clean, &o.again, step);
            }
        }
    }
    // A whole run with outputs.
    let th = threads(case, 2) % 4;
    let (r, st) = run_in(&world(case, "whole"), |ctx| -> Result<(Whole, BTreeMap<String, Vec<u8>>, Whole, BTreeMap<String, Vec<u8>>), String> {
        let _ = std::fs::remove_dir_all(&out);
        let _ = std::fs::create_dir_all(&out);
        let b = sut::load(m, &data, &out)?;
        let s = SimSettings::new(engine, th > 0, th, pl(case));
        let w = sut::whole::<SimSolver>(ctx, &b, m, &s)?;
        let f = read_outputs(&out);
        // The failure repaired, in the same place.
        let b2 = sut::load(m, &dclean, &out)?;
        let s2 = SimSettings::new(engine, th > 0, th, none());
        let w2 = sut::whole::<SimSolver>(ctx, if kind == "solver" { &b } else { &b2 }, m, &s2)?;
        Ok((w, f, w2, read_outputs(&out)))
    });
    let r = r.and_then(|x| x);
    tally(rep, "whole", &st, None);
    match r {
        Err(e) => rep.bad("panic", format!("whole run, {kind} failure at time-step {step}, {th} threads: {e}")),
        Ok((w, files, w2, files2)) => {
            if w.err.is_none() {
                rep.bad("failure-lost", format!("whole run, {th} threads: {kind} failure at time-step {step} but success is reported"));
            } else if w.err_step != Some(step) {
                rep.bad("wrong-step", format!("whole run, {th} threads: the error names time-step {:?}, the first failure is at {step}", w.err_step));
            }
            for (n, x) in &files {
                if let Some(c) = cfiles.get(n) {
                    if n.ends_with(".csv") && !c.starts_with(x) {
                        rep.bad("earlier-results-differ", format!("whole run, {kind} failure at time-step {step}: {n} is no prefix of the failure-free one: {}", line_diff(c, x)));
                    }
                }
            }
            if let Some(e) = &w2.err {
                rep.bad("not-rerunnable", format!("a whole run after the failed one: {e}"));
            } else {
                for (n, x) in &cfiles {
                    if n.ends_with(".csv") && files2.get(n) != Some(x) {
                        rep.bad("not-rerunnable", format!("{n} of the run after the failed one: {}", line_diff(x, files2.get(n).map(|v| v.as_slice()).unwrap_or(b""))));
                    }
                }
            }
        }
    }
    // The batched solver.
    if case["batched"].as_bool().unwrap_or(false) {
        let th = threads(case, 0);
        let (r, st) = run_in(&world(case, "batch"), |ctx| -> Result<(Run, Run), String> {
            let a = sut::load_single(m, &dclean, &out)?;
            let b = sut::load_single(m, &data, &out)?;
            let s = sut::ipm(th);
            let c = ctx.sim(|| sut::observe_multi::<SimdIpmF64Solver>(&a, &s, th)).map_err(|e| format!("clean {e}"))?;
            let f = ctx.sim(|| sut::observe_multi::<SimdIpmF64Solver>(&b, &s, th))?;
            Ok((c, f))
        });
        let r = r.and_then(|x| x);
        tally(rep, "batch", &st, None);
        match r {
            // The batched solver does not converge on every problem.
            Err(e) if e.starts_with("clean") || e.starts_with("build") => rep.count("batched_base_failed", 1),
            Err(e) => rep.bad("panic", format!("batched solver, {kind} failure at time-step {step}: {e}")),
            Ok((c, _)) if !c.ok() => rep.count("batched_base_failed", 1),
            Ok((c, f)) => {
                rep.count("batched_runs", 1);
                expect(rep, &format!("{kind}, batched solver with {th} threads"), &c, &f, step);
            }
        }
    }
    rep.nontrivial = true;
}
