//! Runs are reproducible.

use super::c01::{mem_diff, short};
use super::common::*;
use crate::case::{Prop, Rep, world, write_files};
use crate::genm::Cfg;
use crate::rng::Rng;
use crate::sut::{self, Engine, Plan, Run, Whole};
use crate::world::{Scratch, run_in};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C02",
    make,
    run,
    cases: (900, 40000),
    rule: "Each case is a generated model loaded and run in worlds that differ in everything that must not matter: hash-map seeds, the clock (offset, rate, forward and backward jumps), how often this or another model ran before in the process, and (for the first cases) the process. Per-step results and text outputs are compared bit for bit. Non-trivial: a complete run with parameters or virtual nodes, under at least two hash seeds.",
    real: "real: model loading, building and running, HiGHS and MicroLP, CSV/memory recorders. Simulated: random bytes of hash maps (getrandom), clocks, thread scheduling.",
    assume: &["hash seeds reach the code only through getrandom, as std's RandomState and ahash obtain them"],
};

fn make(r: &mut Rng, _i: u64) -> Value {
    if r.chance(0.15) {
        return super::wide::make(r, &[1, 2], 0.0, &["a", "b", "c"]);
    }
    let engine = if r.chance(0.75) { "highs" } else { "microlp" };
    let cfg = Cfg {
        scenarios: *r.pick(&[1, 2, 4]),
        steps: (2, 7),
        simple_lp: engine == "microlp",
        exclusive: 0.5,
        vs: 0.6,
        agg: 0.6,
        params: (3, 14),
        nodes: (4, 12),
        ..Cfg::default()
    };
    let (mut m, f) = single(r, cfg);
    add_outputs(&mut m["network"], r, false);
    let (m2, f2) = single(r, Cfg { steps: (2, 4), scenarios: 2, simple_lp: true, ..Cfg::default() });
    let th = if r.chance(0.3) { r.range(1, 3) } else { 0 };
    json!({"models": [m, m2], "files": f, "files2": f2, "engine": engine, "worlds": worlds(r, &["a", "b", "c"]), "threads": [th]})
}

struct Out {
    runs: Vec<Run>,
    wholes: Vec<Whole>,
    files: Vec<BTreeMap<String, Vec<u8>>>,
}

fn run(case: &Value, rep: &mut Rep) {
    if super::wide::is(case) {
        return super::wide::worlds_apart(case, rep);
    }
    let m = &case["models"][0];
    let engine = Engine::from(case["engine"].as_str().unwrap_or(""));
    let sc = Scratch::new();
    let data = sc.sub("data");
    let data2 = sc.sub("data2");
    let out = sc.sub("out");
    write_files(&case["files"], &data);
    write_files(&case["files2"], &data2);
    let th = threads(case, 0);
    let mut first: Option<(Run, Whole, BTreeMap<String, Vec<u8>>)> = None;
    for (n, name) in ["a", "b", "c"].iter().enumerate() {
        let (r, st) = run_in(&world(case, name), |ctx| -> Result<Out, String> {
            let mut o = Out { runs: vec![], wholes: vec![], files: vec![] };
            if n == 2 {
                // Something else first.
                if let Ok(x) = sut::load_single(&case["models"][1], &data2, &out) {
                    let _ = sut::observe_sim(ctx, &x, engine, th, Arc::new(Plan::default()));
                }
            }
            let b = sut::load(m, &data, &out)?;
            let sut::Built::Single(sm) = &b else { return Err("multi".into()) };
            for k in 0..(if n == 1 { 1 } else { 2 }) {
                o.runs.push(sut::observe_sim(ctx, sm, engine, th, Arc::new(Plan::default()))?);
                if o.runs[0].setup_err.is_some() {
                    return Ok(o);
                }
                if k == 0 || n == 0 {
                    let _ = std::fs::remove_dir_all(&out);
                    let _ = std::fs::create_dir_all(&out);
                    o.wholes.push(match engine {
                        Engine::Highs => sut::whole::<pywr_core::solvers::HighsSolver>(ctx, &b, m, &sut::highs(th))?,
                        Engine::MicroLp => sut::whole::<pywr_core::solvers::MicroLpSolver>(ctx, &b, m, &sut::microlp(th))?,
                    });
                    o.files.push(read_outputs(&out));
                }
            }
            Ok(o)
        });
        let r = r.and_then(|x| x);
        tally(rep, name, &st, r.as_ref().ok().and_then(|o| o.runs.first()));
        let o = match r {
            Ok(o) => o,
            Err(e) => {
                if first.is_none() {
                    rep.skip = Some(short(&e));
                } else {
                    rep.bad("only-sometimes-fails", format!("world {name}: {e}"));
                }
                return;
            }
        };
        if let Some(e) = o.runs.iter().find_map(|r| r.setup_err.clone()) {
            if first.is_none() {
                rep.skip = Some(short(&e));
            } else {
                rep.bad("only-sometimes-fails", format!("world {name}: {e}"));
            }
            return;
        }
        if first.is_none() {
            first = Some((o.runs[0].clone(), o.wholes[0].clone(), o.files[0].clone()));
            rep.note = features(m);
        }
        let (fr, fw, ff) = first.as_ref().unwrap();
        let what = ["again in the same process", "in a fresh load with other hash seeds and clock", "after another model, with other hash seeds and clock"][n];
        for r in &o.runs {
            if r.layout != fr.layout {
                rep.bad("layout-differs", format!("{what}: the order of scenarios, nodes, edges or metrics differs"));
                return;
            }
            if let Some(d) = first_diff(fr, r) {
                rep.bad("results-differ", format!("first run / {what}: {d}"));
            } else if fr.err != r.err {
                rep.bad("outcome-differs", format!("first run: {:?} / {what}: {:?}", fr.err, r.err));
            }
        }
        for w in &o.wholes {
            if w.err.is_some() != fw.err.is_some() {
                rep.bad("outcome-differs", format!("first whole run: {:?} / {what}: {:?}", fw.err, w.err));
            } else if w.memory != fw.memory {
                rep.bad("recorded-differ", format!("{what}: {}", mem_diff(fw, w)));
            }
        }
        if fw.err.is_none() {
            for f in &o.files {
                for (k, x) in ff {
                    if f.get(k) != Some(x) {
                        rep.bad("text-differs", format!("{what}: {k}: {}", line_diff(x, f.get(k).map(|v| v.as_slice()).unwrap_or(b""))));
                    }
                }
                rep.count("output_files_compared", ff.len() as u64);
            }
        }
    }
    let (fr, _, _) = first.as_ref().unwrap();
    rep.nontrivial = fr.err.is_none() && (m["network"]["parameters"].is_array() || m["network"]["virtual_nodes"].is_array());
    if fr.err.is_some() {
        rep.count("base_run_failed", 1);
    }
}
