//! C16: runs driven step by step, interleaved, paused, abandoned, and given variable values.

use super::c01::short;
use super::common::*;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::{Cfg, Time};
use crate::refm::Eng;
use crate::rng::Rng;
use crate::sut::{self, Engine, MemOut, Plan, Prank, Run, SimSettings, SimSolver};
use crate::world::{Scratch, run_in};
use crate::{cal, outs};
use pywr_core::models::{Model, ModelState, ModelTimings};
use pywr_core::network::NetworkTimings;
use pywr_core::parameters::{ActivationFunction, ParameterName, RbfProfileVariableConfig};
use pywr_core::scenario::ScenarioIndex;
use rayon::ThreadPool;
use rayon_core::sim;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

pub static C16: Prop = Prop {
    id: "C16",
    make,
    run,
    cases: (6000, 100000),
    rule: "Each case is 1-3 generated models, each built once, and 1-5 sessions on them driven by a random script: set up, advance by one time-step sequentially or with any of several shared thread pools, step past the end, abandon, hand the rest to the library's own loop, finalise, a solver failing, and values given to variable parameters (offsets, radial-basis profiles) in one or all scenarios, with the right or wrong number of values. The script runs either with the sessions' steps interleaved, or with every session on a scheduled thread of its own. Every session is compared step by step with an uninterrupted run in a fresh world (scenarios that were given variable values, with the reference model under the changed definitions), its outputs with what it computed, and every variable read back. Non-trivial: at least two sessions advanced by turns or on different threads, or a session was given variable values.",
    real: "real: model building, set-up, step, run_with_state and finalise, parameters and their states, variable API, network, HiGHS and MicroLP, metric sets, CSV and memory outputs, rayon's job queues. Reference: refm.rs for scenarios with changed variables. Simulated: thread scheduling, clocks (with jumps during pauses), hash seeds, solver failures.",
    assume: &["two sessions alive at the same time do not write the same output file", "a session whose step failed is not used again"],
};

fn make(r: &mut Rng, _i: u64) -> Value {
    let e = if r.chance(0.85) { "highs" } else { "microlp" };
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let vary = r.chance(0.6);
    let (mut models, mut files, mut solo) = (vec![], json!({}), vec![]);
    for k in 0..n {
        let cfg = Cfg {
            nodes: (2, 7),
            steps: (2, 8),
            scenarios: *r.pick(&[1, 2, 3, 4]),
            params: if vary { (2, 8) } else { (1, 6) },
            composite: 0.2,
            agg: 0.2,
            exclusive: 0.05,
            vs: 0.3,
            timeseries: 0.25,
            tables: 0.1,
            simple_lp: e == "microlp",
            time: if r.chance(0.7) { Time::Days } else { Time::Any },
            vary: if vary { 0.5 } else { 0.0 },
            ..Cfg::default()
        };
        let (mut m, f) = single(r, cfg);
        // Data files of different models must not collide.
        let mut text = m.to_string();
        for (name, t) in f.as_object().into_iter().flatten() {
            let new = format!("m{k}_{name}");
            text = text.replace(&format!("\"{name}\""), &format!("\"{new}\""));
            files[new] = t.clone();
        }
        m = serde_json::from_str(&text).unwrap();
        let one = r.chance(0.4);
        let mut o = vec![json!({"type": "Memory", "name": "mem", "metric_set": "obs"})];
        if one {
            o.push(json!({"type": "CSV", "name": "long", "filename": "long.csv", "format": "Long", "metric_set": "obs"}));
            o.push(json!({"type": "CSV", "name": "wide", "filename": "wide.csv", "format": "Wide", "metric_set": "obs"}));
        }
        r.shuffle(&mut o);
        m["network"]["outputs"] = json!(o);
        models.push(m);
        solo.push(one);
    }
    // Sessions, each a list of its own operations.
    let mut own: Vec<Vec<Value>> = vec![];
    let mut sessions = vec![];
    let mut fails = vec![];
    let ns = r.range(1, 5) as usize;
    for k in 0..ns {
        let mi = if k < n { k } else { r.us(n) };
        let m = &models[mi];
        let steps = cal::steps(&m["time"]).len();
        let sc = n_scenarios(m).max(1);
        let mut ops = vec![json!({"op": "setup"})];
        let sets = vary && r.chance(0.7);
        let par = r.chance(0.6);
        let stop = if r.chance(0.25) { r.us(steps + 1) } else { usize::MAX };
        let rest = if r.chance(0.15) { r.us(steps + 1) } else { usize::MAX };
        let mut ended = false;
        for t in 0..steps {
            if sets && r.chance(if t == 0 { 0.6 } else { 0.3 }) {
                for _ in 0..r.range(1, 2) {
                    if let Some(o) = set(r, m, sc) {
                        ops.push(o);
                    }
                }
            }
            if t == stop {
                ops.push(json!({"op": if r.chance(0.8) { "drop" } else { "early" }}));
                ended = true;
                break;
            }
            if t == rest {
                ops.push(json!({"op": "rest"}));
                break;
            }
            let th = if par && r.chance(0.7) { r.range(1, 4) } else { 0 };
            ops.push(json!({"op": "step", "pool": th}));
            if t + 1 == steps {
                for _ in 0..*r.pick(&[0, 1, 1, 2]) {
                    ops.push(json!({"op": "step", "pool": r.range(0, 2)}));
                }
            }
        }
        if !ended {
            ops.push(json!({"op": "fin"}));
            if r.chance(0.15) {
                // The same session's place is taken by a new one of the same model.
                ops.push(json!({"op": "setup"}));
                for _ in 0..steps {
                    ops.push(json!({"op": "step", "pool": 0}));
                }
                ops.push(json!({"op": "fin"}));
            }
        }
        if r.chance(0.1) {
            fails.push(json!([k, r.us(sc), r.us(steps), *r.pick(&["before", "after"])]));
        }
        sessions.push(json!({"model": mi}));
        own.push(ops);
    }
    // Merged: sessions of a model with files one after another, all others by turns.
    let mut script = vec![];
    let mut at = vec![0; ns];
    let bursts = r.range(1, 4);
    loop {
        let free: Vec<usize> = (0..ns)
            .filter(|k| at[*k] < own[*k].len())
            .filter(|k| {
                let mi = sessions[*k]["model"].as_u64().unwrap() as usize;
                !solo[mi] || (0..ns).all(|j| j == *k || sessions[j]["model"] != sessions[*k]["model"] || at[j] == 0 || at[j] == own[j].len())
            })
            .collect();
        if free.is_empty() {
            break;
        }
        let k = *r.pick(&free);
        for _ in 0..r.range(1, bursts) {
            if at[k] < own[k].len() {
                let mut o = own[k][at[k]].clone();
                o["s"] = json!(k);
                script.push(o);
                at[k] += 1;
            }
        }
    }
    let conc = ns > 1 && r.chance(0.35);
    json!({"models": models, "files": files, "engine": e, "sessions": sessions, "solo": solo, "script": script, "conc": conc,
        "outer": r.range(2, 4), "fails": fails, "worlds": worlds(r, &["main", "base0", "base1", "base2"])})
}

/// A random update of a variable parameter, valid or not.
fn set(r: &mut Rng, m: &Value, sc: usize) -> Option<Value> {
    let ps: Vec<&Value> = m["network"]["parameters"].as_array()?.iter().collect();
    if r.chance(0.05) {
        let p = r.pick(&ps);
        if !["Offset", "RbfProfile", "Constant"].contains(&p["type"].as_str()?) {
            return Some(json!({"op": "set", "p": p["meta"]["name"], "type": "none", "kind": *r.pick(&["f64", "u32"]), "values": [1]}));
        }
    }
    let offset_only = r.chance(0.03);
    let ok: Vec<&&Value> =
        ps.iter().filter(|p| if offset_only { p["type"] == "Constant" && p["value"]["type"] == "Literal" } else { p["type"] == "Offset" || p["type"] == "RbfProfile" }).collect();
    if ok.is_empty() {
        return None;
    }
    let p = r.pick(&ok);
    let scen = if r.chance(0.55) { json!(r.us(sc)) } else { Value::Null };
    let bad = r.chance(0.06);
    let ty = p["type"].as_str()?;
    let mut o = json!({"op": "set", "p": p["meta"]["name"], "type": ty, "kind": "f64", "scen": scen});
    if ty == "RbfProfile" {
        let pts = p["points"].as_array()?;
        let n = if bad { pts.len() + 1 - 2 * r.us(2) } else { pts.len() };
        if r.chance(0.4) {
            o["kind"] = json!("u32");
            let mut days: Vec<i64> = pts.iter().map(|x| (x[0].as_i64().unwrap_or(1) + r.range(0, 12)).clamp(1, 365)).collect();
            days.resize(n, 360);
            o["values"] = json!(days);
        } else {
            o["values"] = json!((0..n).map(|_| r.q(1.0, 15.0)).collect::<Vec<_>>());
        }
        return Some(o);
    }
    o["act"] = match r.below(6) {
        0 => json!({"type": "Rectifier", "min": 1.0, "max": 4.0, "neg": 0.5}),
        1 => json!({"type": "BinaryStep", "pos": 3.0, "neg": 0.25}),
        2 => json!({"type": "Logistic", "rate": 0.5, "max": 4.0}),
        _ => json!({"type": "Unit", "min": -4.0, "max": 5.0}),
    };
    let v = if r.chance(0.7) { r.q(-4.0, 5.0) } else { r.q(-12.0, 12.0) };
    o["values"] = if bad { json!(if r.chance(0.5) { vec![] } else { vec![v, v] }) } else { json!([v]) };
    Some(o)
}

fn act(a: &Value) -> ActivationFunction {
    let f = |k: &str| a[k].as_f64().unwrap_or(0.0);
    match a["type"].as_str().unwrap_or("") {
        "Rectifier" => ActivationFunction::Rectifier { min: f("min"), max: f("max"), neg_value: f("neg") },
        "BinaryStep" => ActivationFunction::BinaryStep { pos_value: f("pos"), neg_value: f("neg") },
        "Logistic" => ActivationFunction::Logistic { growth_rate: f("rate"), max: f("max") },
        _ => ActivationFunction::Unit { min: f("min"), max: f("max") },
    }
}

/// What the activation function is defined to give.
fn activated(a: &Value, v: f64) -> f64 {
    let f = |k: &str| a[k].as_f64().unwrap_or(0.0);
    match a["type"].as_str().unwrap_or("") {
        "Rectifier" => if v <= 0.0 { f("neg") } else { f("min") + v.min(1.0) * (f("max") - f("min")) },
        "BinaryStep" => if v <= 0.0 { f("neg") } else { f("pos") },
        "Logistic" => f("max") / (1.0 + (-f("rate") * v.max(-6.0).min(6.0)).exp()),
        _ => v.max(f("min")).min(f("max")),
    }
}

/// One life of a session, from set-up to its end.
#[derive(Default)]
struct Life {
    run: Run,
    ended: &'static str,
    /// (time-step, scenario or all, parameter, new definition)
    changes: Vec<(usize, usize, String, Value)>,
    memory: Option<BTreeMap<(String, String), MemOut>>,
    files: Option<BTreeMap<String, Vec<u8>>>,
    rest: bool,
    constant_set: bool,
}

struct Sess<'a> {
    k: usize,
    m: &'a Model,
    def: &'a Value,
    solo: bool,
    out: String,
    engine: Engine,
    plan: Arc<Plan>,
    live: Option<(ModelState<Vec<Box<SimSolver>>>, NetworkTimings)>,
    life: Life,
    lives: Vec<Life>,
    bad: Vec<(String, String)>,
    /// What the variables should read back: (parameter, kind) -> per scenario.
    vars: BTreeMap<(String, String), Vec<Option<Vec<f64>>>>,
    /// Current points of changed profiles per scenario.
    counts: BTreeMap<&'static str, u64>,
}

impl<'a> Sess<'a> {
    fn oops(&mut self, sig: &str, d: String) {
        let k = self.k;
        if self.bad.len() < 20 {
            self.bad.push((sig.into(), format!("session {k}: {d}")));
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn end(&mut self, why: &'static str) {
        self.life.ended = why;
        self.vars.clear();
        self.lives.push(std::mem::take(&mut self.life));
    }

    fn apply(&mut self, op: &Value, pools: &[ThreadPool]) {
        let total = self.m.domain().time().timesteps().len();
        match op["op"].as_str().unwrap_or("") {
            "setup" => {
                if self.live.take().is_some() {
                    self.end("dropped");
                }
                self.life.run.layout = sut::Layout::of(self.m);
                let s = SimSettings::new(self.engine, false, 0, self.plan.clone());
                match self.m.setup::<SimSolver>(&s) {
                    Ok(st) => {
                        self.live = Some((st, NetworkTimings::new_with_component_timings(self.m.network())));
                        self.count("sessions");
                    }
                    Err(e) => {
                        self.life.run.setup_err = Some(sut::err_chain(&e));
                        self.end("setup failed");
                    }
                }
            }
            "step" => {
                let Some((st, t)) = self.live.as_mut() else { return };
                let p = op["pool"].as_u64().unwrap_or(0) as usize;
                let pool = if p == 0 { None } else { pools.get(p - 1) };
                let r = self.m.step::<SimSolver>(st, pool, t);
                let done = self.life.run.rows.len();
                if done < total {
                    match r {
                        Ok(()) => {
                            self.life.run.rows.push(sut::read_step(self.m, st));
                            self.count("steps_by_hand");
                        }
                        Err(e) => {
                            self.life.run.err_step = sut::step_named(&e);
                            self.life.run.err = Some((done, sut::err_chain(&e)));
                            self.live = None;
                            self.end("failed");
                        }
                    }
                } else {
                    let same = sut::read_step(self.m, st);
                    let last = self.life.run.rows.last().cloned().unwrap_or_default();
                    let moved = total > 0 && same.iter().zip(&last).any(|(a, b)| !a.same(b));
                    let text = match &r {
                        Ok(()) => "succeeded".to_string(),
                        Err(e) => sut::err_chain(e),
                    };
                    self.count("steps_past_the_end");
                    if r.is_ok() || !text.to_lowercase().contains("end of timesteps") && !text.to_lowercase().contains("no more") && !matches!(r, Err(pywr_core::models::ModelStepError::EndOfTimesteps)) {
                        self.oops("past-the-end", format!("stepping past the end: {text}"));
                    }
                    if moved {
                        self.oops("past-the-end", "stepping past the end changed the state".into());
                    }
                }
            }
            "rest" => {
                let Some((mut st, _)) = self.live.take() else { return };
                let s = SimSettings::new(self.engine, self.k % 2 == 1, 2, self.plan.clone());
                let mut t = ModelTimings::new_with_component_timings(self.m.network());
                self.life.rest = true;
                match self.m.run_with_state::<SimSolver>(&mut st, &s, &mut t) {
                    Ok(()) => {
                        self.count("sessions_handed_to_the_loop");
                        let last = sut::read_step(self.m, &st);
                        // Only the last step can be seen.
                        self.life.run.rows.push(last);
                        self.live = Some((st, t_of(self.m)));
                    }
                    Err(e) => {
                        let step = if let pywr_core::models::ModelRunError::StepError(s) = &e { sut::step_named(s) } else { None };
                        self.life.run.err = Some((step.unwrap_or(usize::MAX), sut::err_chain(&e)));
                        self.end("failed");
                    }
                }
            }
            "drop" => {
                if self.live.take().is_some() {
                    self.count("sessions_abandoned");
                    self.end("dropped");
                }
            }
            "early" | "fin" => {
                let early = op["op"] == "early";
                let Some((st, _)) = self.live.take() else { return };
                let mt = ModelTimings::new_with_component_timings(self.m.network());
                let complete = self.life.rest || self.life.run.rows.len() == total;
                match self.m.finalise::<SimSolver>(st, mt) {
                    Ok(r) => {
                        if complete && !early {
                            let names = sut::memory_names(&self.def["network"]);
                            self.life.memory = Some(sut::memory_of(&names, &r.network_result));
                            if self.solo {
                                self.life.files = Some(read_outputs(&self.out));
                            }
                            self.count("sessions_finished");
                        }
                        self.life.run.finalised = Some(Ok(()));
                    }
                    Err(e) => {
                        let e = sut::err_chain(&e);
                        self.oops("finalise-failed", format!("after {} of {total} time-steps: {e}", self.life.run.rows.len()));
                    }
                }
                self.end(if complete && !early { "finished" } else { "finalised early" });
            }
            "set" => self.set(op, total),
            _ => {}
        }
    }

    fn set(&mut self, op: &Value, total: usize) {
        if self.life.rest {
            return;
        }
        let done = self.life.run.rows.len();
        let m = self.m;
        let idx: Vec<ScenarioIndex> = m.domain().scenarios().indices().to_vec();
        let Some((st, _)) = self.live.as_mut() else { return };
        let net = m.network();
        let name = op["p"].as_str().unwrap_or("");
        let Some(def) = self.def["network"]["parameters"].as_array().into_iter().flatten().find(|p| p["meta"]["name"] == json!(name)) else { return };
        let Some(pi) = net.get_parameter_index_by_name(&ParameterName::from(name)) else { return };
        let kind = op["kind"].as_str().unwrap_or("f64").to_string();
        let vals: Vec<f64> = op["values"].as_array().into_iter().flatten().map(|x| x.as_f64().unwrap_or(0.0)).collect();
        let ints: Vec<u32> = vals.iter().map(|x| *x as u32).collect();
        let one = op["scen"].as_u64().map(|s| s as usize % idx.len().max(1));
        let a = act(&op["act"]);
        let rb = RbfProfileVariableConfig::new(Some(20), 20.0, 0.0);
        let conf: &dyn pywr_core::parameters::VariableConfig = if def["type"] == "RbfProfile" { &rb } else { &a };
        let ns = st.network_state_mut();
        let r = match (kind.as_str(), one) {
            ("f64", None) => net.set_f64_parameter_variable_values(pi, &vals, conf, ns),
            ("f64", Some(s)) => net.set_f64_parameter_variable_values_for_scenario(pi, idx[s].clone(), &vals, conf, ns),
            (_, None) => net.set_u32_parameter_variable_values(pi, &ints, conf, ns),
            (_, Some(s)) => net.set_u32_parameter_variable_values_for_scenario(pi, idx[s].clone(), &ints, conf, ns),
        };
        let ty = def["type"].as_str().unwrap_or("");
        let want = match ty {
            "Offset" | "Constant" if kind == "f64" => Some(1),
            "RbfProfile" => def["points"].as_array().map(|p| p.len()),
            _ => None,
        };
        let valid = want == Some(vals.len());
        match (&r, valid) {
            (Ok(()), false) => {
                self.oops("bad-update-accepted", format!("{} values of kind {kind} were accepted for {ty} parameter {name}", vals.len()));
                return;
            }
            (Err(e), true) => {
                let e = sut::err_chain(e);
                self.oops("update-refused", format!("{ty} parameter {name}, values {vals:?}: {e}"));
                return;
            }
            _ => {}
        }
        self.count(if valid { "variable_updates" } else { "bad_variable_updates" });
        if want.is_none() {
            return;
        }
        let len = idx.len();
        if valid {
            let held: Vec<f64> = if ty == "RbfProfile" { vals.clone() } else { vals.iter().map(|v| activated(&op["act"], *v)).collect() };
            let slot = self.vars.entry((name.to_string(), kind.clone())).or_insert(vec![None; len]);
            for (s, x) in slot.iter_mut().enumerate() {
                if one.is_none() || one == Some(s) {
                    *x = Some(held.clone());
                }
            }
            for s in 0..len {
                if one.is_some() && one != Some(s) {
                    continue;
                }
                let mut d = def.clone();
                if ty == "Offset" {
                    d["offset"] = json!({"type": "Literal", "value": held[0]});
                } else if ty == "Constant" {
                    d["value"] = json!({"type": "Literal", "value": held[0]});
                    self.life.constant_set = true;
                } else {
                    for (key, at) in [("u32", 0), ("f64", 1)] {
                        if let Some(Some(Some(v))) = self.vars.get(&(name.to_string(), key.to_string())).map(|v| v.get(s).cloned().flatten()).map(Some) {
                            for (i, y) in v.iter().enumerate() {
                                d["points"][i][at] = if at == 0 { json!(*y as i64) } else { json!(y) };
                            }
                        }
                    }
                }
                if done < total {
                    self.life.changes.push((done, s, name.to_string(), d));
                }
            }
        }
        self.read_back();
    }

    /// Every variable that was ever set reads back as what it was set to.
    fn read_back(&mut self) {
        let m = self.m;
        let Some((st, _)) = self.live.as_ref() else { return };
        let (net, ns) = (m.network(), st.network_state());
        let idx = m.domain().scenarios().indices();
        let mut odd = vec![];
        for p in self.def["network"]["parameters"].as_array().into_iter().flatten() {
            let ty = p["type"].as_str().unwrap_or("");
            if ty != "Offset" && ty != "RbfProfile" {
                continue;
            }
            let name = p["meta"]["name"].as_str().unwrap_or("");
            let Some(pi) = net.get_parameter_index_by_name(&ParameterName::from(name)) else { continue };
            for kind in if ty == "Offset" { &["f64"][..] } else { &["f64", "u32"] } {
                let none = vec![None; idx.len()];
                let want = self.vars.get(&(name.to_string(), kind.to_string())).unwrap_or(&none);
                let f = |v: Vec<u32>| v.into_iter().map(f64::from).collect::<Vec<_>>();
                let (all, each): (Option<Vec<Option<Vec<f64>>>>, Vec<Option<Option<Vec<f64>>>>) = if *kind == "f64" {
                    (
                        net.get_f64_parameter_variable_values(pi, ns).ok(),
                        idx.iter().map(|s| net.get_f64_parameter_variable_values_for_scenario(pi, s.clone(), ns).ok()).collect(),
                    )
                } else {
                    (
                        // There is no such call for all scenarios.
                        Some(want.clone()),
                        idx.iter().map(|s| net.get_u32_parameter_variable_values_for_scenario(pi, s.clone(), ns).ok().map(|x| x.map(f))).collect(),
                    )
                };
                let close = |a: &Option<Vec<f64>>, b: &Option<Vec<f64>>| match (a, b) {
                    (None, None) => true,
                    (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-12 * (1.0 + y.abs())),
                    _ => false,
                };
                let good = all.as_ref().is_some_and(|a| a.len() == want.len() && a.iter().zip(want).all(|(x, y)| close(x, y)))
                    && each.iter().zip(want).all(|(x, y)| x.as_ref().is_some_and(|x| close(x, y)));
                if !good {
                    odd.push(format!("{ty} parameter {name} ({kind}): read back {all:?} / {each:?}, was given {want:?}"));
                }
            }
        }
        self.count("variables_read_back");
        for o in odd {
            self.oops("read-back", o);
        }
    }
}

/// Sessions not yet set up: their run's state is created, used and dropped by one thread only.
struct Idle<'a, 'b>(Vec<&'b mut Sess<'a>>);
unsafe impl Send for Idle<'_, '_> {}

fn t_of(m: &Model) -> NetworkTimings {
    NetworkTimings::new_with_component_timings(m.network())
}

fn run(case: &Value, rep: &mut Rep) {
    let models: Vec<&Value> = case["models"].as_array().into_iter().flatten().collect();
    let sc = Scratch::new();
    let data = sc.sub("data");
    write_files(&case["files"], &data);
    rep.note = models.iter().map(|m| features(m)).collect::<Vec<_>>().join(" | ");
    let engine = Engine::from(case["engine"].as_str().unwrap_or(""));
    // One uninterrupted run of each model in a world of its own.
    let mut base: Vec<(Run, BTreeMap<String, Vec<u8>>)> = vec![];
    for (k, m) in models.iter().enumerate() {
        let out = sc.sub(&format!("base{k}"));
        let (r, st) = run_in(&world(case, &format!("base{k}")), |ctx| -> Result<Run, String> {
            let m = sut::load_single(m, &data, &out)?;
            sut::observe_sim(ctx, &m, engine, 0, Arc::new(Plan::default()))
        });
        match r.and_then(|x| x) {
            Ok(r) if r.setup_err.is_none() => {
                tally(rep, "base", &st, Some(&r));
                base.push((r, read_outputs(&out)));
            }
            Ok(r) => {
                rep.skip = Some(short(&r.setup_err.unwrap_or_default()));
                return;
            }
            Err(e) => {
                rep.skip = Some(short(&e));
                return;
            }
        }
    }
    let script: Vec<&Value> = case["script"].as_array().into_iter().flatten().collect();
    let conc = case["conc"] == true;
    let outer = case["outer"].as_u64().unwrap_or(2).max(1) as usize;
    let (r, st) = run_in(&world(case, "main"), |ctx| -> Result<(Vec<Vec<Life>>, Vec<(String, String)>, BTreeMap<&'static str, u64>), String> {
        let outs: Vec<String> = (0..models.len()).map(|k| sc.sub(&format!("out{k}"))).collect();
        let built: Vec<Model> = models.iter().zip(&outs).map(|(m, o)| sut::load_single(m, &data, o)).collect::<Result<_, _>>()?;
        let mut ss: Vec<Sess> = vec![];
        for (k, s) in case["sessions"].as_array().into_iter().flatten().enumerate() {
            let mi = (s["model"].as_u64().unwrap_or(0) as usize).min(models.len() - 1);
            let mut pranks = BTreeMap::new();
            for f in case["fails"].as_array().into_iter().flatten() {
                if f[0].as_u64() == Some(k as u64) {
                    let how = if f[3] == "before" { Prank::FailBefore } else { Prank::FailAfter };
                    pranks.insert((f[1].as_u64().unwrap_or(0) as usize, f[2].as_u64().unwrap_or(0) as usize), how);
                }
            }
            ss.push(Sess {
                k,
                m: &built[mi],
                def: models[mi],
                solo: case["solo"][mi] == true,
                out: outs[mi].clone(),
                engine,
                plan: Arc::new(Plan { pranks, ..Default::default() }),
                live: None,
                life: Life::default(),
                lives: vec![],
                bad: vec![],
                vars: BTreeMap::new(),
                counts: BTreeMap::new(),
            });
        }
        ctx.sim(|| {
            let pools: Vec<ThreadPool> = (1..=4).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
            if conc {
                // Sessions of a model with files share one thread, in order.
                let mut lanes: Vec<Vec<&mut Sess>> = vec![];
                let mut lane_of: BTreeMap<usize, usize> = BTreeMap::new();
                for s in ss.iter_mut() {
                    let mi = case["sessions"][s.k]["model"].as_u64().unwrap_or(0) as usize;
                    if s.solo {
                        if let Some(l) = lane_of.get(&mi) {
                            lanes[*l].push(s);
                            continue;
                        }
                        lane_of.insert(mi, lanes.len());
                    }
                    lanes.push(vec![s]);
                }
                let pool = rayon::ThreadPoolBuilder::new().num_threads(outer).build().unwrap();
                let (pools, script) = (&pools, &script);
                let lanes: Vec<Idle> = lanes.into_iter().map(Idle).collect();
                pool.scope(|sco| {
                    for lane in lanes {
                        sco.spawn(move |_| {
                            let lane = lane;
                            for s in lane.0 {
                                let k = Some(s.k as u64);
                                for op in script.iter().filter(|o| o["s"].as_u64() == k) {
                                    s.apply(op, pools);
                                    sim::yield_point(sim::Kind::User);
                                }
                                if s.live.take().is_some() {
                                    s.end("dropped");
                                }
                            }
                        });
                    }
                });
            } else {
                for op in &script {
                    if let Some(s) = op["s"].as_u64().and_then(|k| ss.get_mut(k as usize)) {
                        s.apply(op, &pools);
                    }
                }
            }
            for s in ss.iter_mut() {
                if s.live.take().is_some() {
                    s.end("dropped");
                }
            }
        })?;
        let mut counts = BTreeMap::new();
        let mut bad = vec![];
        let mut lives = vec![];
        for s in ss {
            for (k, n) in s.counts {
                *counts.entry(k).or_insert(0) += n;
            }
            bad.extend(s.bad);
            lives.push(s.lives);
        }
        Ok((lives, bad, counts))
    });
    rep.world("main", &st);
    let (lives, bad, counts) = match r.and_then(|x| x) {
        Ok(x) => x,
        Err(e) if engine == Engine::MicroLp && e.contains("Mass-balance") => {
            rep.skip = Some(short(&e));
            return;
        }
        Err(e) => {
            rep.bad("sessions-fail", format!("the sessions cannot be driven: {e}"));
            return;
        }
    };
    for (s, d) in bad {
        rep.bad(&s, d);
    }
    let mut active = 0;
    for (k, lives) in lives.iter().enumerate() {
        let mi = (case["sessions"][k]["model"].as_u64().unwrap_or(0) as usize).min(models.len() - 1);
        let m = models[mi];
        let (b, bf) = &base[mi];
        active += usize::from(!lives.is_empty());
        for (n, l) in lives.iter().enumerate() {
            let who = format!("session {k}{} of model {mi}, {}", if n > 0 { " (second run)" } else { "" }, l.ended);
            states(rep, &l.run.rows);
            for row in &l.run.rows {
                rep.sim_minutes += row.len() as f64 * l.run.layout.steps.first().map(|s| s.1 as f64).unwrap_or(0.0);
            }
            judge(case, rep, m, l, b, bf, &who, k, sc.0.as_str(), mi);
        }
    }
    for (k, n) in counts {
        rep.count(k, n);
    }
    if conc {
        rep.count("cases_with_concurrent_sessions", 1);
    }
    rep.nontrivial = active > 1 || rep.cov.contains_key("variable_updates");
}

#[allow(clippy::too_many_arguments)]
fn judge(case: &Value, rep: &mut Rep, m: &Value, l: &Life, b: &Run, bf: &BTreeMap<String, Vec<u8>>, who: &str, k: usize, root: &str, mi: usize) {
    let total = b.layout.steps.len();
    if let Some(e) = &l.run.setup_err {
        rep.bad("session-refused", format!("{who}: {e}"));
        return;
    }
    let touched = |t: usize, s: usize| l.changes.iter().any(|c| c.1 == s && c.0 <= t);
    if l.constant_set {
        // Whether the value takes effect at all.
        for c in &l.changes {
            let Some(d) = m["network"]["parameters"].as_array().into_iter().flatten().find(|p| p["meta"]["name"] == json!(c.2) && p["type"] == "Constant") else { continue };
            let at = m["network"]["metric_sets"].as_array().into_iter().flatten().find(|s| s["name"] == "obs").and_then(|s| s["metrics"].as_array()).and_then(|a| {
                a.iter().position(|x| x["type"] == "Parameter" && x["name"] == json!(c.2))
            });
            let last = l.changes.iter().rev().find(|x| x.1 == c.1 && x.2 == c.2).map(|x| x.0) == Some(c.0);
            if let (Some(at), Some(row), true, false) = (at, l.run.rows.get(c.0), last, l.rest) {
                let have = row[c.1].obs.get(at).copied().unwrap_or(f64::NAN);
                let want = c.3["value"]["value"].as_f64().unwrap_or(0.0);
                rep.count("constants_given_values", 1);
                if (have - want).abs() > 1e-9 {
                    rep.bad("variable-ignored", format!("{who}: Constant parameter {} was given {want} before time-step {} in scenario {}, and is {have} (defined as {})", c.2, c.0, c.1, d["value"]));
                }
            }
        }
        return;
    }
    // Steps of scenarios nothing was changed in.
    if !l.rest {
        for (t, row) in l.run.rows.iter().enumerate() {
            let Some(base) = b.rows.get(t) else {
                if l.changes.is_empty() {
                    rep.bad("outcome-differs", format!("{who}: time-step {t} succeeded; an uninterrupted run fails: {:?}", b.err));
                }
                break;
            };
            for (s, (x, y)) in base.iter().zip(row).enumerate() {
                if touched(t, s) {
                    continue;
                }
                rep.count("steps_compared_with_whole_run", 1);
                if !x.same(y) {
                    let sig = if l.changes.is_empty() { "session-differs" } else { "other-scenario-affected" };
                    rep.bad(sig, format!("{who}: time-step {t}, scenario {s}: uninterrupted / session: {}", x.diff(y, &b.layout)));
                    return;
                }
            }
        }
    } else if let (Some(x), Some(y), true) = (l.run.rows.last(), b.rows.last(), l.changes.is_empty() && l.run.err.is_none() && b.err.is_none()) {
        for (s, (x, y)) in y.iter().zip(x).enumerate() {
            rep.count("steps_compared_with_whole_run", 1);
            if !x.same(y) {
                rep.bad("session-differs", format!("{who}: last time-step, scenario {s}: uninterrupted / handed to the loop: {}", x.diff(y, &b.layout)));
            }
        }
    }
    // How it ended.
    let fail: Option<usize> = case["fails"].as_array().into_iter().flatten().filter(|f| f[0].as_u64() == Some(k as u64)).filter_map(|f| f[2].as_u64()).map(|x| x as usize).min();
    if let Some((t, e)) = &l.run.err {
        let mine = fail.is_some() && e.contains("features");
        let low = e.to_lowercase();
        if mine {
            rep.count("injected_failures_reported", 1);
            if fail != Some(*t) {
                rep.bad("failure-misplaced", format!("{who}: the solver failed at time-step {fail:?}, reported at {t}: {e}"));
            }
        } else if l.changes.is_empty() && b.err.as_ref().map(|x| x.0) != Some(*t) {
            rep.bad("outcome-differs", format!("{who}: fails at time-step {t}: {e}; uninterrupted: {:?}", b.err));
        } else if !low.contains("infeasible") && !low.contains("unbounded") && b.err.is_none() {
            rep.bad(&format!("failed:{}", short(e)), format!("{who}: time-step {t}: {e}"));
        }
        if l.run.err_step.is_some() && l.run.err_step != Some(*t) {
            rep.bad("failure-misplaced", format!("{who}: fails at time-step {t}, names {:?}", l.run.err_step));
        }
    }
    // Changed scenarios, by the reference model.
    if !l.changes.is_empty() && !l.rest {
        let mut e = Eng::new(m, &m["network"], &case["files"], &l.run.layout);
        if e.core.unsupported.is_empty() {
            e.changes = l.changes.clone();
            let mut run = l.run.clone();
            if run.err.as_ref().is_some_and(|x| x.1.contains("features")) {
                run.err = None;
            }
            e.judge(&run);
            for f in &e.found {
                rep.bad(&format!("changed:{}:{}", f.area, f.sig), format!("{who}, after {} variable updates: {}", l.changes.len(), f.msg));
            }
            for (k, v) in &e.stats {
                rep.count(&format!("ref.{k}"), *v);
            }
            rep.count("sessions_judged_with_changed_definitions", 1);
        }
    }
    // Outputs.
    if let Some(mem) = &l.memory {
        if !l.rest && l.run.rows.len() == total {
            let dir = format!("{root}/check{k}");
            let _ = std::fs::create_dir_all(&dir);
            if let Some(f) = &l.files {
                for (n, b) in f {
                    let _ = std::fs::write(format!("{dir}/{n}"), b);
                }
            }
            let mut net = m["network"].clone();
            if l.files.is_none() {
                net["outputs"] = json!(net["outputs"].as_array().into_iter().flatten().filter(|o| o["type"] == "Memory").cloned().collect::<Vec<_>>());
            }
            let (mut odd, mut known) = (vec![], vec![]);
            let (c, bad) = outs::check_all(&net, &m["time"], &l.run, &dir, Some(mem), &mut odd, &mut known);
            rep.count("output_values_compared", c);
            for (s, d) in bad {
                rep.bad(&s, format!("{who}: {d}"));
            }
        }
        if let (Some(f), true, true) = (&l.files, l.changes.is_empty(), b.err.is_none()) {
            for (n, x) in bf {
                if f.get(n) != Some(x) {
                    rep.bad("files-differ", format!("{who}: {n}: uninterrupted / session: {}", line_diff(x, f.get(n).map(|x| &x[..]).unwrap_or(b""))));
                }
            }
            rep.count("output_files_compared", bf.len() as u64);
        }
    }
    let _ = mi;
}
