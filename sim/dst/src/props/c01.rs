//! Scenario results do not depend on threads, schedule or companions.

use super::common::*;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::Cfg;
use crate::rng::Rng;
use crate::sut::{self, Engine, Plan, Run, Whole};
use crate::world::{Scratch, World, run_in};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C01",
    make,
    run,
    cases: (1000, 40000),
    rule: "Each case is a generated model (1-12 scenarios) run once sequentially and again in worlds whose seeded scheduler decides every interleaving of 1-6 worker threads, in whole runs with file and memory outputs, and with only some of its scenarios. Non-trivial: at least two scenarios completed a run and at least one thread preemption or steal happened.",
    real: "real: model building, parameters, network, HiGHS and MicroLP solvers, recorders, rayon's job queues (Rust, patched only to ask the scheduler who runs next). Simulated: thread scheduling, clocks, hash seeds.",
    assume: &["worker threads interleave only at rayon's synchronisation points, solver calls and lock operations; the code under test has no other shared mutable state"],
};

fn make(r: &mut Rng, _i: u64) -> Value {
    if r.chance(0.2) {
        return super::wide::make(r, &[2, 3, 4, 6], 0.0, &["seq", "par1", "par2", "part"]);
    }
    let engine = if r.chance(0.75) { "highs" } else { "microlp" };
    let mut cfg = Cfg { scenarios: *r.pick(&[2, 4, 6, 8, 12]), steps: (2, 8), simple_lp: engine == "microlp", subset: 0.25, ..Cfg::default() };
    cfg.groups = 2;
    if r.chance(0.5) {
        cfg.params = (4, 12);
    }
    let (mut m, f) = single(r, cfg);
    let hdf5 = r.chance(0.15);
    add_outputs(&mut m["network"], r, hdf5);
    let ns = n_scenarios(&m);
    let mut keep: Vec<usize> = (0..ns).filter(|_| r.chance(0.5)).collect();
    if keep.is_empty() || keep.len() == ns {
        keep = vec![r.us(ns)];
    }
    if r.chance(0.5) {
        r.shuffle(&mut keep);
    }
    let th: Vec<i64> = vec![r.range(1, 6), r.range(2, 8), r.range(1, 6)];
    json!({"models": [m], "files": f, "engine": engine, "worlds": worlds(r, &["seq", "par1", "par2", "part", "whole"]), "threads": th, "keep": keep})
}

struct Out {
    run: Run,
    whole: Option<Whole>,
    files: BTreeMap<String, Vec<u8>>,
}

fn go(rep: &mut Rep, name: &str, w: &World, m: &Value, data: &str, out: &str, engine: Engine, threads: usize, whole: bool) -> Result<Out, String> {
    let (r, st) = run_in(w, |ctx| -> Result<Out, String> {
        let b = sut::load(m, data, out)?;
        let sut::Built::Single(sm) = &b else { return Err("multi".into()) };
        let mut o = Out { run: sut::observe_sim(ctx, sm, engine, threads, Arc::new(Plan::default()))?, whole: None, files: BTreeMap::new() };
        if whole {
            let _ = std::fs::remove_dir_all(out);
            let _ = std::fs::create_dir_all(out);
            o.whole = Some(match engine {
                Engine::Highs => sut::whole::<pywr_core::solvers::HighsSolver>(ctx, &b, m, &sut::highs(threads))?,
                Engine::MicroLp => sut::whole::<pywr_core::solvers::MicroLpSolver>(ctx, &b, m, &sut::microlp(threads))?,
            });
            o.files = read_outputs(out);
        }
        Ok(o)
    });
    let r = r.and_then(|x| x);
    tally(rep, name, &st, r.as_ref().ok().map(|o| &o.run));
    if st.switches + st.steals > 0 {
        rep.count("worlds_with_preemption", 1);
    }
    r
}

fn run(case: &Value, rep: &mut Rep) {
    if super::wide::is(case) {
        return super::wide::schedules(case, rep);
    }
    let m = &case["models"][0];
    let engine = Engine::from(case["engine"].as_str().unwrap_or(""));
    let sc = Scratch::new();
    let data = sc.sub("data");
    let out = sc.sub("out");
    write_files(&case["files"], &data);
    let base = match go(rep, "seq", &world(case, "seq"), m, &data, &out, engine, 0, true) {
        Ok(o) => o,
        Err(e) => {
            rep.skip = Some(short(&e));
            return;
        }
    };
    if base.run.setup_err.is_some() {
        rep.skip = Some(short(base.run.setup_err.as_ref().unwrap()));
        return;
    }
    rep.note = features(m);
    let failed = base.run.err.clone();
    for (k, name) in ["par1", "par2", "whole"].iter().enumerate() {
        let th = threads(case, k);
        let whole = *name == "whole";
        match go(rep, name, &world(case, name), m, &data, &out, engine, th, whole) {
            Err(e) => rep.bad("parallel-run-fails", format!("with {th} threads: {e} (sequentially: {:?})", failed)),
            Ok(o) => {
                if let Some(d) = first_diff(&base.run, &o.run) {
                    rep.bad("results-differ", format!("one after another / with {th} threads: {d}"));
                } else if o.run.err.as_ref().map(|e| e.0) != failed.as_ref().map(|e| e.0) || o.run.setup_err.is_some() {
                    rep.bad("outcome-differs", format!("sequential: {:?}, with {th} threads: {:?} {:?}", failed, o.run.err, o.run.setup_err));
                }
                if whole && failed.is_none() {
                    let (a, b) = (base.whole.as_ref().unwrap(), o.whole.as_ref().unwrap());
                    if a.err.is_some() != b.err.is_some() {
                        rep.bad("outcome-differs", format!("whole run, sequential: {:?}, with {th} threads: {:?}", a.err, b.err));
                    } else if a.memory != b.memory {
                        rep.bad("recorded-differ", format!("memory output differs with {th} threads: {}", mem_diff(a, b)));
                    }
                    for (n, x) in &base.files {
                        match o.files.get(n) {
                            None => rep.bad("recorded-differ", format!("{n} is missing with {th} threads")),
                            Some(y) if x != y && n.ends_with(".csv") => {
                                rep.bad("recorded-differ", format!("{n} differs with {th} threads: {}", line_diff(x, y)))
                            }
                            _ => {}
                        }
                    }
                    rep.count("output_files_compared", base.files.len() as u64);
                }
            }
        }
    }
    // Only some of the scenarios.
    let members = scenario_members(m);
    let keep: Vec<usize> = case["keep"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as usize).filter(|k| *k < members.len()).collect();
    if !keep.is_empty() && !members[0].is_empty() && failed.is_none() {
        let mut part = m.clone();
        for g in part["scenarios"]["groups"].as_array_mut().into_iter().flatten() {
            g.as_object_mut().unwrap().remove("subset");
        }
        part["scenarios"]["combinations"] = json!(keep.iter().map(|k| members[*k].clone()).collect::<Vec<_>>());
        match go(rep, "part", &world(case, "part"), &part, &data, &out, engine, threads(case, 0) % 3, false) {
            Err(e) => rep.bad("companions-matter", format!("with only scenarios {keep:?}: {e}")),
            Ok(o) => {
                if let Some(e) = o.run.err.as_ref().map(|e| format!("{e:?}")).or(o.run.setup_err.clone()) {
                    rep.bad("companions-matter", format!("with only scenarios {keep:?}: {e}"));
                } else {
                    'all: for (t, (x, y)) in base.run.rows.iter().zip(&o.run.rows).enumerate() {
                        for (j, k) in keep.iter().enumerate() {
                            let Some(k2) = base.run.layout.scen.iter().position(|s| s.schema == members[*k]) else { continue };
                            let Some(j2) = o.run.layout.scen.iter().position(|s| s.schema == members[*k]) else {
                                rep.bad("companions-matter", format!("scenario {k} was asked for as number {j} but not simulated"));
                                break 'all;
                            };
                            if !x[k2].same(&y[j2]) {
                                rep.bad(
                                    "companions-matter",
                                    format!("scenario {k} (members {:?}) at time-step {t}: among all / with only {keep:?}: {}", members[*k], x[k2].diff(&y[j2], &base.run.layout)),
                                );
                                break 'all;
                            }
                        }
                    }
                    rep.count("companion_subsets", 1);
                }
            }
        }
    }
    rep.nontrivial = failed.is_none() && members.len() > 1 && rep.cov.get("worlds_with_preemption").is_some();
    if failed.is_some() {
        rep.count("base_run_failed", 1);
    }
}

pub fn mem_diff(a: &Whole, b: &Whole) -> String {
    for (k, x) in &a.memory {
        match b.memory.get(k) {
            None => return format!("{k:?} missing"),
            Some(y) if x != y => {
                if x.agg != y.agg {
                    return format!("{k:?}: {:?} / {:?}", x.agg, y.agg);
                }
                for (i, (p, q)) in x.frame.rows.iter().zip(&y.frame.rows).enumerate() {
                    if p != q {
                        return format!("{k:?} row {i}: {p:?} / {q:?}");
                    }
                }
                return format!("{k:?}: {} / {} rows, {:?} / {:?}", x.frame.rows.len(), y.frame.rows.len(), x.frame.err, y.frame.err);
            }
            _ => {}
        }
    }
    "no difference found".into()
}

/// Error text with numbers and names reduced, to group skips.
pub fn short(e: &str) -> String {
    let mut o = String::new();
    for c in e.chars() {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
        if o.len() > 120 {
            break;
        }
    }
    o
}
