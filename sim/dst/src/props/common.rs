use crate::case::Rep;
use crate::cal;
use crate::genm::{Cfg, Gen};
use crate::rng::Rng;
use crate::sut::{Row, Run};
use crate::world::{World, WorldStats};
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// A generated single-network model: (model, files).
pub fn single(r: &mut Rng, cfg: Cfg) -> (Value, Value) {
    let mut g = Gen::new(Rng::new(r.u64()), cfg);
    g.model();
    let m = g.finish();
    (m, json!(g.files))
}

/// Outputs recording the "obs" metric set: (kind, file name).
pub fn add_outputs(net: &mut Value, r: &mut Rng, hdf5: bool) {
    let mut o = vec![
        json!({"type": "CSV", "name": "o_long", "filename": "long.csv", "format": "Long", "metric_set": "obs", "decimal_places": *r.pick(&[3, 6, 9])}),
        json!({"type": "CSV", "name": "o_wide", "filename": "wide.csv", "format": "Wide", "metric_set": "obs"}),
        json!({"type": "Memory", "name": "o_mem", "metric_set": "obs"}),
    ];
    if hdf5 {
        o.push(json!({"type": "HDF5", "name": "o_h5", "filename": "out.h5", "metric_set": "obs"}));
    }
    r.shuffle(&mut o);
    net["outputs"] = json!(o);
}

/// Number of scenarios of a model file, by the definition of groups, subsets and combinations.
pub fn n_scenarios(m: &Value) -> usize {
    scenario_members(m).len()
}

/// For every scenario, the group members (schema order of groups).
pub fn scenario_members(m: &Value) -> Vec<Vec<usize>> {
    let Some(gs) = m["scenarios"]["groups"].as_array() else { return vec![vec![]] };
    if gs.is_empty() {
        return vec![vec![]];
    }
    if let Some(c) = m["scenarios"]["combinations"].as_array() {
        return c
            .iter()
            .map(|c| {
                c.as_array()
                    .into_iter()
                    .flatten()
                    .enumerate()
                    .map(|(g, x)| match x {
                        Value::String(s) => gs[g]["labels"].as_array().and_then(|l| l.iter().position(|y| y == s)).unwrap_or(usize::MAX),
                        _ => x.as_u64().unwrap_or(0) as usize,
                    })
                    .collect()
            })
            .collect();
    }
    let lists: Vec<Vec<usize>> = gs
        .iter()
        .map(|g| {
            let size = g["size"].as_u64().unwrap_or(1) as usize;
            let s = &g["subset"];
            match s["type"].as_str() {
                Some("Slice") => (s["start"].as_u64().unwrap_or(0) as usize..s["end"].as_u64().unwrap_or(0) as usize).collect(),
                Some("Indices") => s["indices"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap_or(0) as usize).collect(),
                Some("Labels") => s["labels"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|x| g["labels"].as_array().and_then(|l| l.iter().position(|y| y == x)).unwrap_or(usize::MAX))
                    .collect(),
                _ => (0..size).collect(),
            }
        })
        .collect();
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for mut l in lists {
        // Subsets are simulated in the order of the whole group.
        l.sort_unstable();
        l.dedup();
        let mut n = vec![];
        for o in &out {
            for k in &l {
                let mut x = o.clone();
                x.push(*k);
                n.push(x);
            }
        }
        out = n;
    }
    out
}

pub fn minutes(m: &Value) -> f64 {
    cal::steps(&m["time"]).iter().map(|s| s.1 as f64).sum()
}

pub fn tally(rep: &mut Rep, name: &str, st: &WorldStats, run: Option<&Run>) {
    rep.world(name, st);
    if let Some(r) = run {
        states(rep, &r.rows);
        for k in 0..r.rows.len() {
            rep.sim_minutes += r.layout.steps.get(k).map(|s| s.1 as f64).unwrap_or(0.0) * r.rows[k].len() as f64;
        }
        rep.count("scenario_steps", r.rows.iter().map(|x| x.len() as u64).sum());
    }
}

pub fn states(rep: &mut Rep, rows: &[Vec<Row>]) {
    for row in rows.iter().flatten() {
        rep.states.insert(row.hash());
    }
}

/// First difference of two runs' rows over the steps both have.
pub fn first_diff(a: &Run, b: &Run) -> Option<String> {
    for (k, (x, y)) in a.rows.iter().zip(&b.rows).enumerate() {
        if x.len() != y.len() {
            return Some(format!("time-step {k}: {} scenarios / {}", x.len(), y.len()));
        }
        for (s, (p, q)) in x.iter().zip(y).enumerate() {
            if !p.same(q) {
                return Some(format!("time-step {k}, scenario {s}: {}", p.diff(q, &a.layout)));
            }
        }
    }
    None
}

pub fn read_outputs(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            if let Ok(b) = std::fs::read(e.path()) {
                out.insert(e.file_name().to_string_lossy().to_string(), b);
            }
        }
    }
    out
}

/// First text line where two files differ.
pub fn line_diff(a: &[u8], b: &[u8]) -> String {
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    let mut x = a.lines();
    let mut y = b.lines();
    for n in 1.. {
        let (p, q) = (x.next(), y.next());
        if p != q {
            return format!("line {n}: {:?} / {:?}", p.unwrap_or("<end>"), q.unwrap_or("<end>"));
        }
        if p.is_none() {
            break;
        }
    }
    "same lines".into()
}

pub fn worlds(r: &mut Rng, names: &[&str]) -> Value {
    let mut v = json!({});
    for n in names {
        v[*n] = World::draw(r).json();
    }
    v
}

pub fn threads(case: &Value, k: usize) -> usize {
    case["threads"][k].as_u64().unwrap_or(0) as usize
}

pub fn features(m: &Value) -> String {
    let nets: Vec<&Value> = if m["network"].is_object() {
        vec![&m["network"]]
    } else {
        m["networks"].as_array().map(|a| a.iter().map(|n| &n["network"]).collect()).unwrap_or_default()
    };
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    for n in &nets {
        for k in ["nodes", "virtual_nodes", "parameters"] {
            for d in n[k].as_array().into_iter().flatten() {
                *kinds.entry(d["type"].as_str().unwrap_or("?").to_string()).or_insert(0) += 1;
            }
        }
    }
    let k: Vec<String> = kinds.iter().map(|(k, n)| if *n > 1 { format!("{n}x{k}") } else { k.clone() }).collect();
    format!("{} scenarios, {} steps ({}); {}", n_scenarios(m), cal::steps(&m["time"]).len(), m["time"]["timestep"], k.join(" "))
}
