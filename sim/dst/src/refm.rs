//! A small reference model of what a Pywr model file means, written from the documented
//! definitions: parameters, network constraints, storage accounting and allocation cost.
//!
//! It never simulates on its own: before every time-step it is given the state the real run
//! reached (flows, volumes), predicts everything that follows from it by definition, and
//! compares.  Allocation is judged by feasibility and cost, never by which optimum was chosen.

use crate::cal::{self, Dt};
use crate::props::common::scenario_members;
use crate::sut::{Layout, Row, Run};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};

/// A predicted value, and whether no rounding can have happened on the way to it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub v: f64,
    pub x: bool,
}

/// None: not known (a tie that rounding may decide, an undefined value, an unsupported part).
pub type R = Option<V>;

fn dyadic(v: f64) -> bool {
    v.abs() < 1e9 && (v * 1048576.0).fract() == 0.0
}

/// A value given or observed as such.
fn raw(v: f64) -> R {
    Some(V { v, x: true })
}

/// A computed one.
fn calc(v: f64, ins: &[V]) -> R {
    if v.is_nan() {
        return None;
    }
    Some(V { v, x: ins.iter().all(|i| i.x) && dyadic(v) && ins.iter().all(|i| dyadic(i.v)) })
}

/// -1, 0, 1; None if rounding may decide.
fn cmp(a: V, b: V) -> Option<i32> {
    if a.v == b.v {
        return if a.x && b.x { Some(0) } else { None };
    }
    if (a.v - b.v).abs() <= 1e-9 * (1.0 + a.v.abs().max(b.v.abs())) && !(a.x && b.x) {
        return None;
    }
    Some(if a.v < b.v { -1 } else { 1 })
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}

// ---------------------------------------------------------------------------------- the core

#[derive(Clone, Debug)]
pub enum Ex {
    F(f64),
    M(Value),
    Mul(Box<Ex>, Box<Ex>),
    /// Flow that entered node `.0` some steps ago.
    Delayed(String),
    /// Target flow of a turbine.
    Target(String),
    /// Capacity and dead volume of part `.1` of piecewise storage `.0`.
    PwMax(String, usize),
    PwMin(String, usize),
    /// Coefficient of the inflow (false) and right-hand side (true) of a routed river reach.
    Musk(String, bool),
    /// Surface area of a reservoir, at its capacity or at its volume.
    Area(String, bool),
}

#[derive(Clone, Debug)]
pub struct CNode {
    pub name: String,
    pub sub: String,
    pub kind: char,
    pub cost: Option<Ex>,
    /// Flow, or volume for storage.
    pub min: Option<Ex>,
    pub max: Option<Ex>,
}

#[derive(Clone, Debug)]
pub enum Rel {
    None,
    Prop(Vec<Ex>),
    Ratio(Vec<Ex>),
    Coef(Vec<Ex>, Ex),
    Excl(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Agg {
    pub name: String,
    pub groups: Vec<Vec<usize>>,
    pub min: Option<Ex>,
    pub max: Option<Ex>,
    pub rel: Rel,
}

#[derive(Clone, Debug, Default)]
pub struct Core {
    pub nodes: Vec<CNode>,
    pub edges: Vec<(usize, usize)>,
    pub aggs: Vec<Agg>,
    pub unsupported: Vec<String>,
}

impl Core {
    fn id(&self, name: &str, sub: &str) -> Option<usize> {
        self.nodes.iter().position(|n| n.name == name && n.sub == sub)
    }
    fn of(&self, name: &str, subs: &[&str]) -> Vec<usize> {
        subs.iter().filter_map(|s| self.id(name, s)).collect()
    }
    fn add(&mut self, name: &str, sub: &str, kind: char) -> usize {
        self.nodes.push(CNode { name: name.into(), sub: sub.into(), kind, cost: None, min: None, max: None });
        self.nodes.len() - 1
    }
}

fn ex(v: &Value) -> Option<Ex> {
    if v.is_null() { None } else { Some(Ex::M(v.clone())) }
}

fn zero(v: &Value) -> bool {
    v["type"] == "Literal" && v["value"].as_f64() == Some(0.0)
}

/// Expands the nodes of a network into plain inputs, outputs, links and storages.
fn expand(net: &Value) -> Core {
    let mut c = Core::default();
    let loss = |c: &mut Core, n: &str, agg: &str, lf: &Value, net: usize| {
        let l = c.add(n, "loss", 'o');
        if lf.is_null() || zero(&lf["factor"]) {
            c.nodes[l].max = Some(Ex::F(0.0));
            return;
        }
        let f = Ex::M(lf["factor"].clone());
        let rel = if lf["type"] == "Net" { Rel::Ratio(vec![Ex::F(1.0), f]) } else { Rel::Prop(vec![f]) };
        c.aggs.push(Agg { name: format!("{n}/{agg}"), groups: vec![vec![net], vec![l]], min: None, max: None, rel });
    };
    for d in net["nodes"].as_array().into_iter().flatten() {
        let n = d["meta"]["name"].as_str().unwrap_or("");
        match d["type"].as_str().unwrap_or("") {
            t @ ("Input" | "Output") => {
                let i = c.add(n, "", if t == "Input" { 'i' } else { 'o' });
                (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&d["min_flow"]), ex(&d["max_flow"]), ex(&d["cost"]));
            }
            "Catchment" => {
                let i = c.add(n, "", 'i');
                (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&d["flow"]), ex(&d["flow"]), ex(&d["cost"]));
            }
            "Storage" => {
                let i = c.add(n, "", 's');
                (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&d["min_volume"]), ex(&d["max_volume"]), ex(&d["cost"]));
            }
            "Link" => {
                let (lo, hi) = (&d["soft_min"], &d["soft_max"]);
                let b = c.add(n, "", 'l');
                c.nodes[b].cost = ex(&d["cost"]);
                let mut all = vec![b];
                if !lo.is_null() {
                    let s = c.add(n, "soft_min", 'l');
                    (c.nodes[s].max, c.nodes[s].cost) = (ex(&lo["flow"]), ex(&lo["cost"]));
                    all.push(s);
                }
                if !hi.is_null() {
                    let s = c.add(n, "soft_max", 'l');
                    if lo.is_null() {
                        // Flow up to the limit at the node's own cost, the rest at the soft cost.
                        (c.nodes[s].max, c.nodes[s].cost) = (ex(&hi["flow"]), ex(&d["cost"]));
                        c.nodes[b].cost = ex(&hi["cost"]);
                    } else {
                        c.nodes[s].cost = ex(&hi["cost"]);
                        c.aggs.push(Agg { name: format!("{n}/below soft max"), groups: vec![all.clone()], min: None, max: ex(&hi["flow"]), rel: Rel::None });
                    }
                    all.push(s);
                }
                if all.len() == 1 {
                    (c.nodes[b].min, c.nodes[b].max) = (ex(&d["min_flow"]), ex(&d["max_flow"]));
                } else if !d["min_flow"].is_null() || !d["max_flow"].is_null() {
                    c.aggs.push(Agg { name: format!("{n}/all"), groups: vec![all], min: ex(&d["min_flow"]), max: ex(&d["max_flow"]), rel: Rel::None });
                }
            }
            "LossLink" => {
                let i = c.add(n, "net", 'l');
                (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&d["min_net_flow"]), ex(&d["max_net_flow"]), ex(&d["net_cost"]));
                if !d["loss_factor"].is_null() {
                    loss(&mut c, n, "agg", &d["loss_factor"], i);
                }
            }
            "PiecewiseLink" => {
                for (k, s) in d["steps"].as_array().into_iter().flatten().enumerate() {
                    let i = c.add(n, &format!("step-{k:02}"), 'l');
                    (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&s["min_flow"]), ex(&s["max_flow"]), ex(&s["cost"]));
                }
            }
            "River" => {
                let way = &d["routing_method"];
                let mut from = None;
                if !way.is_null() {
                    let a = c.add(n, "inflow", 'o');
                    let b = c.add(n, "outflow", 'i');
                    from = Some(b);
                    if way["type"] == "Delay" {
                        c.nodes[b].min = Some(Ex::Delayed(n.to_string()));
                        c.nodes[b].max = Some(Ex::Delayed(n.to_string()));
                    } else {
                        let fs = vec![Ex::F(1.0), Ex::Musk(n.to_string(), false)];
                        let rel = Rel::Coef(fs, Ex::Musk(n.to_string(), true));
                        c.aggs.push(Agg { name: format!("{n}/routing"), groups: vec![vec![b], vec![a]], min: None, max: None, rel });
                    }
                }
                if way.is_null() || !d["loss_factor"].is_null() {
                    let i = c.add(n, "net", 'l');
                    if !d["loss_factor"].is_null() {
                        loss(&mut c, n, "agg", &d["loss_factor"], i);
                    }
                    if let Some(b) = from {
                        c.edges.push((b, i));
                        c.edges.push((b, c.id(n, "loss").unwrap()));
                    }
                }
            }
            "RiverGauge" => {
                let m = c.add(n, "mrf", 'l');
                (c.nodes[m].max, c.nodes[m].cost) = (ex(&d["mrf"]), ex(&d["mrf_cost"]));
                let b = c.add(n, "bypass", 'l');
                c.nodes[b].cost = ex(&d["bypass_cost"]);
            }
            "RiverSplitWithGauge" => {
                let m = c.add(n, "mrf", 'l');
                (c.nodes[m].max, c.nodes[m].cost) = (ex(&d["mrf"]), ex(&d["mrf_cost"]));
                let b = c.add(n, "bypass", 'l');
                for (k, s) in d["splits"].as_array().into_iter().flatten().enumerate() {
                    let i = c.add(n, &format!("split-{k}"), 'l');
                    c.aggs.push(Agg {
                        name: format!("{n}/split-agg-{k}"),
                        groups: vec![vec![b], vec![i]],
                        min: None,
                        max: None,
                        rel: Rel::Prop(vec![Ex::M(s["factor"].clone())]),
                    });
                }
            }
            "Abstraction" => {
                if !d["mrf"].is_null() {
                    let m = c.add(n, "mrf", 'l');
                    (c.nodes[m].max, c.nodes[m].cost) = (ex(&d["mrf"]), ex(&d["mrf_cost"]));
                }
                c.add(n, "bypass", 'l');
                let a = c.add(n, "abstraction", 'l');
                (c.nodes[a].min, c.nodes[a].max, c.nodes[a].cost) = (ex(&d["abs_min_flow"]), ex(&d["abs_max_flow"]), ex(&d["abs_cost"]));
            }
            "WaterTreatmentWorks" => {
                let i = c.add(n, "net", 'l');
                (c.nodes[i].min, c.nodes[i].max, c.nodes[i].cost) = (ex(&d["min_flow"]), ex(&d["max_flow"]), ex(&d["cost"]));
                let s = c.add(n, "net_soft_min_flow", 'l');
                (c.nodes[s].max, c.nodes[s].cost) = (ex(&d["soft_min_flow"]), ex(&d["soft_min_flow_cost"]));
                let a = c.add(n, "net_above_soft_min_flow", 'l');
                if !d["loss_factor"].is_null() {
                    loss(&mut c, n, "agg", &d["loss_factor"], i);
                }
                c.edges.push((i, s));
                c.edges.push((i, a));
            }
            "Turbine" => {
                let i = c.add(n, "", 'l');
                c.nodes[i].cost = ex(&d["cost"]);
                if !d["target"].is_null() {
                    let t = Some(Ex::Target(n.to_string()));
                    match d["target_type"].as_str().unwrap_or("MaxFlow") {
                        "MinFlow" => c.nodes[i].min = t,
                        "Both" => {
                            c.nodes[i].min = t.clone();
                            c.nodes[i].max = t;
                        }
                        _ => c.nodes[i].max = t,
                    }
                }
            }
            "Delay" => {
                c.add(n, "inflow", 'o');
                let i = c.add(n, "outflow", 'i');
                c.nodes[i].min = Some(Ex::Delayed(n.to_string()));
                c.nodes[i].max = Some(Ex::Delayed(n.to_string()));
            }
            "PiecewiseStorage" => {
                let steps = d["steps"].as_array().cloned().unwrap_or_default();
                let mut last = None;
                for k in 0..=steps.len() {
                    let i = c.add(n, &format!("store-{k:02}"), 's');
                    c.nodes[i].cost = ex(if k < steps.len() { &steps[k]["cost"] } else { &d["cost"] });
                    c.nodes[i].max = Some(Ex::PwMax(n.to_string(), k));
                    if !d["min_volume"].is_null() {
                        c.nodes[i].min = Some(Ex::PwMin(n.to_string(), k));
                    }
                    if let Some(p) = last {
                        c.edges.push((i, p));
                        c.edges.push((p, i));
                    }
                    last = Some(i);
                }
            }
            "Reservoir" => {
                let s = c.add(n, "", 's');
                (c.nodes[s].min, c.nodes[s].max, c.nodes[s].cost) = (ex(&d["min_volume"]), ex(&d["max_volume"]), ex(&d["cost"]));
                let comp = if d["compensation"].is_null() {
                    None
                } else {
                    let i = c.add(n, "compensation", 'l');
                    c.nodes[i].min = ex(&d["compensation"]);
                    c.edges.push((s, i));
                    Some(i)
                };
                if let Some(t) = d["spill"].as_str() {
                    let i = c.add(n, "spill", if t == "LinkNode" { 'l' } else { 'o' });
                    c.edges.push((s, i));
                    if let (Some(k), true) = (comp, d["connect_compensation_to_spill"] != json!(false)) {
                        c.edges.push((k, i));
                    }
                }
                let depth = |k: &str| Ex::Mul(Box::new(Ex::M(d[k]["data"].clone())), Box::new(Ex::Area(n.to_string(), d[k]["use_max_area"] == json!(true))));
                if !d["surface_area"].is_null() && !d["rainfall"].is_null() {
                    let i = c.add(n, "rainfall", 'i');
                    (c.nodes[i].min, c.nodes[i].max) = (Some(depth("rainfall")), Some(depth("rainfall")));
                    c.edges.push((i, s));
                }
                if !d["surface_area"].is_null() && !d["evaporation"].is_null() {
                    let i = c.add(n, "evaporation", 'o');
                    (c.nodes[i].max, c.nodes[i].cost) = (Some(depth("evaporation")), ex(&d["evaporation"]["cost"]));
                    c.edges.push((s, i));
                }
                if !d["leakage"].is_null() {
                    let i = c.add(n, "leakage", 'o');
                    (c.nodes[i].max, c.nodes[i].cost) = (ex(&d["leakage"]["loss"]), ex(&d["leakage"]["cost"]));
                    c.edges.push((s, i));
                }
            }
            t => c.unsupported.push(t.to_string()),
        }
    }
    let kinds: HashMap<String, Value> = net["nodes"].as_array().into_iter().flatten().map(|d| (d["meta"]["name"].as_str().unwrap_or("").to_string(), d.clone())).collect();
    for e in net["edges"].as_array().into_iter().flatten() {
        let (f, t) = (e["from_node"].as_str().unwrap_or(""), e["to_node"].as_str().unwrap_or(""));
        let (Some(fd), Some(td)) = (kinds.get(f), kinds.get(t)) else { continue };
        let from = outs(&c, fd, &e["from_slot"]);
        let to = ins(&c, td);
        for a in &from {
            for b in &to {
                c.edges.push((*a, *b));
            }
        }
    }
    for d in net["virtual_nodes"].as_array().into_iter().flatten() {
        if d["type"] != "Aggregated" {
            continue;
        }
        let groups: Vec<Vec<usize>> = d["nodes"].as_array().into_iter().flatten().map(|r| members(&c, kinds.get(r["name"].as_str().unwrap_or("")), r)).collect();
        let r = &d["relationship"];
        let fs: Vec<Ex> = r["factors"].as_array().into_iter().flatten().map(|f| Ex::M(f.clone())).collect();
        let rel = match r["type"].as_str() {
            Some("Ratio") => Rel::Ratio(fs),
            Some("Proportion") => Rel::Prop(fs),
            Some("Coefficients") => Rel::Coef(fs, ex(&r["rhs"]).unwrap_or(Ex::F(0.0))),
            Some("Exclusive") => Rel::Excl(r["min_active"].as_u64().unwrap_or(0) as usize, r["max_active"].as_u64().unwrap_or(1) as usize),
            _ => Rel::None,
        };
        c.aggs.push(Agg { name: d["meta"]["name"].as_str().unwrap_or("").into(), groups, min: ex(&d["min_flow"]), max: ex(&d["max_flow"]), rel });
    }
    c
}

fn all_of(c: &Core, n: &str) -> Vec<usize> {
    (0..c.nodes.len()).filter(|i| c.nodes[*i].name == n).collect()
}

/// Core nodes an edge to this node leads to.
fn ins(c: &Core, d: &Value) -> Vec<usize> {
    let n = d["meta"]["name"].as_str().unwrap_or("");
    match d["type"].as_str().unwrap_or("") {
        "River" if !d["routing_method"].is_null() => c.of(n, &["inflow"]),
        "LossLink" | "River" | "WaterTreatmentWorks" => c.of(n, &["net", "loss"]),
        "Delay" => c.of(n, &["inflow"]),
        "Reservoir" => c.of(n, &[""]),
        "PiecewiseStorage" => {
            let k = d["steps"].as_array().map(|a| a.len()).unwrap_or(0);
            (0..k).filter_map(|i| c.id(n, &format!("store-{i:02}"))).collect()
        }
        _ => all_of(c, n),
    }
}

fn outs(c: &Core, d: &Value, slot: &Value) -> Vec<usize> {
    let n = d["meta"]["name"].as_str().unwrap_or("");
    let st = slot["type"].as_str().unwrap_or("");
    match d["type"].as_str().unwrap_or("") {
        "River" if !d["routing_method"].is_null() && d["loss_factor"].is_null() => c.of(n, &["outflow"]),
        "LossLink" | "River" => c.of(n, &["net"]),
        "WaterTreatmentWorks" => c.of(n, &["net_soft_min_flow", "net_above_soft_min_flow"]),
        "Delay" => c.of(n, &["outflow"]),
        "PiecewiseStorage" => ins(c, d),
        "RiverSplitWithGauge" => match st {
            "Split" => c.of(n, &[&format!("split-{}", slot["position"].as_u64().unwrap_or(0))]),
            "User" => {
                let k = d["splits"].as_array().and_then(|a| a.iter().position(|x| x["slot_name"] == slot["name"])).unwrap_or(99);
                c.of(n, &[&format!("split-{k}")])
            }
            _ => all_of(c, n),
        },
        "Abstraction" => match st {
            "Abstraction" => c.of(n, &["abstraction"]),
            _ => c.of(n, &["mrf", "bypass"]),
        },
        "Reservoir" => match st {
            "Compensation" => c.of(n, &["compensation"]),
            "Spill" => c.of(n, &["spill"]),
            _ => c.of(n, &[""]),
        },
        _ => all_of(c, n),
    }
}

/// Core nodes that carry the flow of a member of a virtual node.
fn members(c: &Core, d: Option<&Value>, r: &Value) -> Vec<usize> {
    let n = r["name"].as_str().unwrap_or("");
    let Some(d) = d else { return vec![] };
    let part = r["component"].as_str().unwrap_or("");
    match (d["type"].as_str().unwrap_or(""), part) {
        ("LossLink" | "River" | "WaterTreatmentWorks", "Loss") => c.of(n, &["loss"]),
        ("LossLink" | "River" | "WaterTreatmentWorks", "Inflow") => ins(c, d),
        // What leaves the reach, after routing and losses.
        ("LossLink" | "River" | "WaterTreatmentWorks", _) => {
            let v = c.of(n, &["net"]);
            if v.is_empty() { c.of(n, &["outflow"]) } else { v }
        }
        ("Delay", "Inflow") => c.of(n, &["inflow"]),
        ("Delay", _) => c.of(n, &["outflow"]),
        ("Abstraction", "Inflow") => all_of(c, n),
        ("Abstraction", "Outflow") => c.of(n, &["mrf", "bypass"]),
        ("Abstraction", _) => c.of(n, &["abstraction"]),
        ("Reservoir", "Loss") => c.of(n, &["leakage"]),
        ("Reservoir", "Rainfall") => c.of(n, &["rainfall"]),
        ("Reservoir", "Evaporation") => c.of(n, &["evaporation"]),
        ("Reservoir", _) => c.of(n, &["compensation"]),
        ("Input" | "Output" | "Catchment" | "Link" | "PiecewiseLink" | "Turbine" | "RiverGauge" | "RiverSplitWithGauge", _) => all_of(c, n),
        _ => vec![],
    }
}

// --------------------------------------------------------------------------------- programs

#[derive(Clone, Debug)]
pub struct LRow {
    pub what: String,
    pub a: Vec<(usize, f64)>,
    pub lo: f64,
    pub hi: f64,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub n: usize,
    pub cost: Vec<f64>,
    pub rows: Vec<LRow>,
    /// Mutual exclusivity: name, members, fewest and most that may be active.
    pub excl: Vec<(String, Vec<ExMember>, usize, usize)>,
    /// Parts that are not known.
    pub holes: usize,
}

#[derive(Clone, Debug)]
pub struct ExMember {
    /// Flow expression.
    pub a: Vec<(usize, f64)>,
    /// Bounds when active.
    pub min: f64,
    pub max: f64,
}

impl LRow {
    fn value(&self, x: &[f64]) -> (f64, f64) {
        let mut s = 0.0;
        let mut big = 0.0f64;
        for (i, a) in &self.a {
            s += a * x[*i];
            big = big.max((a * x[*i]).abs());
        }
        (s, big)
    }

    /// By how much the row is broken, over tolerance `tol`.
    pub fn broken(&self, x: &[f64], tol: f64) -> Option<String> {
        let (s, big) = self.value(x);
        let t = |b: f64| tol * (1.0 + big.max(if b.abs() < 1e30 { b.abs() } else { 0.0 }));
        if self.lo > -1e30 && s < self.lo - t(self.lo) {
            return Some(format!("{}: {s} is less than {}", self.what, self.lo));
        }
        if self.hi < 1e30 && s > self.hi + t(self.hi) {
            return Some(format!("{}: {s} is more than {}", self.what, self.hi));
        }
        None
    }
}

impl Prog {
    pub fn objective(&self, x: &[f64]) -> (f64, f64) {
        let mut s = 0.0;
        let mut big = 0.0;
        for (c, v) in self.cost.iter().zip(x) {
            s += c * v;
            big += (c * v).abs();
        }
        (s, big)
    }

    /// With these expressions at zero and those at a minimum.
    fn solve_with(&self, off: &[&Vec<(usize, f64)>], on: &[(&Vec<(usize, f64)>, f64)]) -> Option<Vec<f64>> {
        let r = std::panic::catch_unwind(|| {
            use microlp::{ComparisonOp, OptimizationDirection, Problem};
            let mut p = Problem::new(OptimizationDirection::Minimize);
            let vars: Vec<_> = self.cost.iter().map(|c| p.add_var(*c, (0.0, f64::INFINITY))).collect();
            let mut add = |a: &[(usize, f64)], op: ComparisonOp, b: f64| {
                let mut m: BTreeMap<usize, f64> = BTreeMap::new();
                for (i, x) in a {
                    *m.entry(*i).or_insert(0.0) += x;
                }
                let e: Vec<_> = m.iter().filter(|(_, x)| **x != 0.0).map(|(i, x)| (vars[*i], *x)).collect();
                if !e.is_empty() {
                    p.add_constraint(&e[..], op, b);
                }
            };
            for r in &self.rows {
                if r.lo == r.hi {
                    add(&r.a, ComparisonOp::Eq, r.lo);
                } else {
                    if r.lo > -1e30 {
                        add(&r.a, ComparisonOp::Ge, r.lo);
                    }
                    if r.hi < 1e30 {
                        add(&r.a, ComparisonOp::Le, r.hi);
                    }
                }
            }
            for a in off {
                add(a, ComparisonOp::Le, 0.0);
            }
            for (a, b) in on {
                add(a, ComparisonOp::Ge, *b);
            }
            let o = match p.solve() {
                Ok(microlp::SolveOutcome::Solution(s)) => vars.iter().map(|v| s[*v].max(0.0)).collect::<Vec<f64>>(),
                _ => return None,
            };
            Some(o)
        });
        let x = r.ok()??;
        // Only a point that is feasible by our own reckoning counts.
        if self.rows.iter().any(|r| r.broken(&x, 1e-9).is_some()) {
            return None;
        }
        for a in off {
            if a.iter().map(|(i, c)| c * x[*i]).sum::<f64>() > 1e-9 {
                return None;
            }
        }
        for (a, b) in on {
            if a.iter().map(|(i, c)| c * x[*i]).sum::<f64>() < b - 1e-9 {
                return None;
            }
        }
        Some(x)
    }

    /// A feasible point of least cost as far as our own solver finds it.
    pub fn witness(&self) -> Option<Vec<f64>> {
        // Every choice of active members of the exclusivity groups; smaller ones only matter with minimums.
        type Choice<'a> = (Vec<&'a Vec<(usize, f64)>>, Vec<(&'a Vec<(usize, f64)>, f64)>);
        let mut choices: Vec<Choice> = vec![(vec![], vec![])];
        for (_, m, lo, hi) in &self.excl {
            let mut next = vec![];
            let hi = *hi.min(&m.len());
            let lo = if m.iter().any(|x| x.min > 0.0) { *lo } else { hi };
            for mask in 0..(1usize << m.len()) {
                if (mask.count_ones() as usize) < lo || (mask.count_ones() as usize) > hi {
                    continue;
                }
                for c in &choices {
                    let mut c = c.clone();
                    for (i, x) in m.iter().enumerate() {
                        if mask >> i & 1 == 0 {
                            c.0.push(&x.a);
                        } else if x.min > 0.0 {
                            c.1.push((&x.a, x.min));
                        }
                    }
                    next.push(c);
                }
            }
            choices = next;
        }
        let mut best: Option<(f64, Vec<f64>)> = None;
        for c in &choices {
            if let Some(x) = self.solve_with(&c.0, &c.1) {
                let o = self.objective(&x).0;
                if best.as_ref().map(|b| o < b.0).unwrap_or(true) {
                    best = Some((o, x));
                }
            }
        }
        best.map(|b| b.1)
    }
}

// ----------------------------------------------------------------------------------- engine

#[derive(Clone, Debug, Default)]
struct Latch {
    on: Option<u64>,
    known: bool,
}

#[derive(Clone, Debug, Default)]
struct Sc {
    prev: Option<Row>,
    cur: Option<Row>,
    /// Before the solve of this time-step: volume, capacity.
    vs: Vec<R>,
    vs_used: Vec<Vec<R>>,
    vs_reset: Vec<Dt>,
    before: HashMap<String, R>,
    after: HashMap<String, R>,
    prev_after: HashMap<String, R>,
    hist: HashMap<String, Vec<R>>,
    latch: HashMap<String, Latch>,
    busy: Vec<String>,
    transfers: HashMap<String, R>,
    /// Capacities of the storages, by node, and of the licences when their volume last changed.
    smax: HashMap<usize, R>,
    vmax: Vec<R>,
}

struct Table {
    head: Vec<String>,
    rows: Vec<Vec<String>>,
}

fn read_csv(text: &str) -> Table {
    let mut l = text.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split(',').map(|c| c.trim().to_string()).collect::<Vec<_>>());
    Table { head: l.next().unwrap_or_default(), rows: l.collect() }
}

/// Something that does not follow from the definitions.
#[derive(Clone, Debug)]
pub struct Finding {
    /// structure, feasible, storage, vs, cost, param, calendar, scenario, data, flow
    pub area: &'static str,
    pub sig: String,
    pub msg: String,
}

pub struct Eng<'a> {
    pub net: &'a Value,
    pub steps: Vec<(Dt, i64)>,
    pub members: Vec<Vec<usize>>,
    groups: Vec<String>,
    nodes: HashMap<String, &'a Value>,
    vnodes: HashMap<String, &'a Value>,
    params: HashMap<String, &'a Value>,
    series: HashMap<String, (Vec<String>, BTreeMap<i64, Vec<f64>>)>,
    tables: HashMap<String, (Value, Table)>,
    pub core: Core,
    layout: Layout,
    /// Core node -> node of the run; core edge -> edge of the run.
    node_at: Vec<usize>,
    edge_at: Vec<usize>,
    vs_at: Vec<usize>,
    vol_at: HashMap<usize, usize>,
    obs: Vec<Value>,
    sc: Vec<Sc>,
    t: usize,
    pub found: Vec<Finding>,
    pub stats: BTreeMap<&'static str, u64>,
    /// Solver's relative gap on integer problems.
    pub costs: bool,
    /// Largest difference of cost, relative to the size of its terms, that is the solver's inaccuracy.
    pub cost_tol: f64,
    /// What other networks send: time-step -> scenario -> (name, value).
    pub feed: Vec<Vec<Vec<(String, Option<f64>)>>>,
    /// Definitions replaced in a running model: (from time-step, scenario, parameter, definition).
    pub changes: Vec<(usize, usize, String, Value)>,
}

const CALENDAR: [&str; 8] = [
    "DailyProfile", "WeeklyProfile", "MonthlyProfile", "DiurnalProfile", "UniformDrawdownProfile", "RbfProfile", "DiscountFactor", "MonthInterval",
];

#[derive(Clone, Copy, PartialEq)]
enum Ph {
    Before,
    After,
}

/// The same network with the parameters of nodes among those of the network, under names of their own.
fn globalise(net: &Value) -> Value {
    fn rename(v: &mut Value, node: &str) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| rename(x, node)),
            Value::Object(o) => {
                if o.get("type") == Some(&json!("LocalParameter")) {
                    o["type"] = json!("Parameter");
                    let n = format!("{node}\u{2}{}", o["name"].as_str().unwrap_or(""));
                    o["name"] = json!(n);
                } else {
                    o.values_mut().for_each(|x| rename(x, node));
                }
            }
            _ => {}
        }
    }
    let mut net = net.clone();
    let mut more = vec![];
    for d in net["nodes"].as_array_mut().into_iter().flatten() {
        let n = d["meta"]["name"].as_str().unwrap_or("").to_string();
        rename(d, &n);
        if let Some(p) = d.as_object_mut().and_then(|o| o.remove("parameters")) {
            for mut x in p.as_array().cloned().unwrap_or_default() {
                x["meta"]["name"] = json!(format!("{n}\u{2}{}", x["meta"]["name"].as_str().unwrap_or("")));
                more.push(x);
            }
        }
    }
    if !net["parameters"].is_array() {
        net["parameters"] = json!([]);
    }
    net["parameters"].as_array_mut().unwrap().extend(more);
    net
}

impl<'a> Eng<'a> {
    /// `m` is a single-network model, or a multi-network one with `net` one of its networks.
    pub fn new(m: &'a Value, net: &'a Value, files: &Value, layout: &Layout) -> Eng<'a> {
        let own = net["nodes"].as_array().into_iter().flatten().any(|d| d["parameters"].is_array());
        let net: &'a Value = if own { Box::leak(Box::new(globalise(net))) } else { net };
        let by = |k: &str| -> HashMap<String, &'a Value> {
            net[k].as_array().map(|a| a.iter().map(|d| (d["meta"]["name"].as_str().unwrap_or("").to_string(), d)).collect()).unwrap_or_default()
        };
        let mut series = HashMap::new();
        for (n, d) in by("timeseries") {
            let t = read_csv(files[d["url"].as_str().unwrap_or("")].as_str().unwrap_or(""));
            let tc = d["time_col"].as_str().and_then(|c| t.head.iter().position(|h| h == c)).unwrap_or(0);
            let cols: Vec<String> = t.head.iter().enumerate().filter(|(i, _)| *i != tc).map(|(_, h)| h.clone()).collect();
            let mut rows = BTreeMap::new();
            for r in &t.rows {
                if let Some(d) = r.get(tc).and_then(|s| Dt::parse(s)) {
                    rows.insert(d.minutes(), r.iter().enumerate().filter(|(i, _)| *i != tc).map(|(_, x)| x.parse().unwrap_or(f64::NAN)).collect());
                }
            }
            series.insert(n, (cols, rows));
        }
        let tables = by("tables")
            .into_iter()
            .map(|(n, d)| (n, (d.clone(), read_csv(files[d["url"].as_str().unwrap_or("")].as_str().unwrap_or("")))))
            .collect();
        let mut e = Eng {
            net,
            steps: cal::steps(&m["time"]),
            members: scenario_members(m),
            groups: m["scenarios"]["groups"].as_array().into_iter().flatten().map(|g| g["name"].as_str().unwrap_or("").to_string()).collect(),
            nodes: by("nodes"),
            vnodes: by("virtual_nodes"),
            params: by("parameters"),
            series,
            tables,
            core: expand(net),
            layout: layout.clone(),
            node_at: vec![],
            edge_at: vec![],
            vs_at: vec![],
            vol_at: HashMap::new(),
            obs: vec![],
            sc: vec![],
            t: 0,
            found: vec![],
            stats: BTreeMap::new(),
            costs: true,
            cost_tol: 2e-5,
            feed: vec![],
            changes: vec![],
        };
        for ms in net["metric_sets"].as_array().into_iter().flatten() {
            if ms["name"] == "obs" {
                e.obs = ms["metrics"].as_array().cloned().unwrap_or_default();
            }
        }
        e.sc = vec![Sc::default(); e.members.len()];
        e.attach();
        e
    }

    fn bad(&mut self, area: &'static str, sig: &str, msg: String) {
        if self.found.len() < 60 {
            self.found.push(Finding { area, sig: sig.into(), msg });
        }
    }

    fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }

    /// Matches the expansion with the network that was built.
    fn attach(&mut self) {
        if !self.core.unsupported.is_empty() {
            return;
        }
        let mut want: Vec<(String, String, char)> = self.core.nodes.iter().map(|n| (n.name.clone(), n.sub.clone(), n.kind)).collect();
        let mut have = self.layout.nodes.clone();
        self.node_at = want.iter().map(|w| have.iter().position(|h| h == w).unwrap_or(usize::MAX)).collect();
        want.sort();
        have.sort();
        if want != have {
            let a: Vec<_> = want.iter().filter(|w| !have.contains(w)).collect();
            let b: Vec<_> = have.iter().filter(|w| !want.contains(w)).collect();
            self.bad("structure", "nodes-differ", format!("nodes missing {a:?}, extra {b:?}"));
            return;
        }
        let key = |e: &(usize, usize)| -> [String; 4] {
            let (a, b) = (&self.core.nodes[e.0], &self.core.nodes[e.1]);
            [a.name.clone(), a.sub.clone(), b.name.clone(), b.sub.clone()]
        };
        let keys: Vec<[String; 4]> = self.core.edges.iter().map(key).collect();
        self.edge_at = keys.iter().map(|k| self.layout.edges.iter().position(|e| e == k).unwrap_or(usize::MAX)).collect();
        let extra: Vec<_> = self.layout.edges.iter().filter(|e| !keys.contains(e)).cloned().collect();
        let missing: Vec<_> = keys.iter().filter(|k| !self.layout.edges.contains(k)).cloned().collect();
        if !extra.is_empty() || !missing.is_empty() {
            self.bad("structure", "edges-differ", format!("connections missing {missing:?}, extra {extra:?}"));
            return;
        }
        let names: Vec<&Value> = self.net["virtual_nodes"].as_array().into_iter().flatten().filter(|d| d["type"] == "VirtualStorage").collect();
        self.vs_at = names.iter().map(|d| self.layout.vs.iter().position(|v| v.0 == d["meta"]["name"].as_str().unwrap_or("")).unwrap_or(usize::MAX)).collect();
        let stores: Vec<usize> = self.layout.nodes.iter().enumerate().filter(|(_, n)| n.2 == 's').map(|(i, _)| i).collect();
        for (i, at) in self.node_at.iter().enumerate() {
            if let Some(k) = stores.iter().position(|s| s == at) {
                self.vol_at.insert(i, k);
            }
        }
        if self.vs_at.contains(&usize::MAX) || self.layout.obs.len() != self.obs.len() {
            self.bad("structure", "virtual-nodes-differ", format!("virtual storages {:?}, metrics {}", self.layout.vs, self.layout.obs.len()));
        }
    }

    pub fn usable(&self) -> bool {
        self.core.unsupported.is_empty() && self.found.iter().all(|f| f.area != "structure") && self.layout.scen.len() == self.members.len()
    }

    fn days(&self) -> f64 {
        self.steps[self.t].1 as f64 / 1440.0
    }

    // ------------------------------------------------------------------------------ metrics

    fn row(&self, s: usize, ph: Ph) -> Option<&Row> {
        if ph == Ph::After { self.sc[s].cur.as_ref() } else { self.sc[s].prev.as_ref() }
    }

    fn flow(&self, s: usize, ph: Ph, i: usize, out: bool) -> R {
        if ph == Ph::Before && self.t == 0 {
            return raw(0.0);
        }
        let f = self.row(s, ph)?.flow[self.node_at[i]];
        raw(if out { f.1 } else { f.0 })
    }

    fn sum(&self, v: Vec<R>) -> R {
        let v: Option<Vec<V>> = v.into_iter().collect();
        let v = v?;
        if v.len() == 1 {
            return Some(v[0]);
        }
        calc(v.iter().map(|x| x.v).sum(), &v)
    }

    fn flows(&self, s: usize, ph: Ph, ids: &[usize], out: bool) -> R {
        self.sum(ids.iter().map(|i| self.flow(s, ph, *i, out)).collect())
    }

    /// The flow through nodes, if it is the same at both ends: up to the solver's tolerance, what
    /// goes in comes out.
    fn passing(&self, s: usize, ph: Ph, ids: &[usize], out: bool) -> R {
        let v = self.flows(s, ph, ids, out)?;
        if ids.iter().all(|i| self.core.nodes[*i].kind == 'l') {
            let w = self.flows(s, ph, ids, !out)?;
            if v.v != w.v && close(v.v, w.v, 1e-5) && !close(v.v, w.v, 1e-10) {
                return None;
            }
        }
        Some(v)
    }

    /// Volume and capacity of a storage.
    fn volume(&mut self, s: usize, ph: Ph, i: usize) -> (R, R, R) {
        if ph == Ph::Before && self.t == 0 {
            let max = self.bound(s, &self.core.nodes[i].max.clone(), f64::MAX);
            let v = self.initial(s, i);
            let p = match (v, max) {
                (_, Some(m)) if m.v == 0.0 => raw(1.0),
                (Some(v), Some(m)) => calc(v.v / m.v, &[v, m]),
                _ => None,
            };
            return (v, p, max);
        }
        let max = self.bound(s, &self.core.nodes[i].max.clone(), f64::MAX);
        let Some(r) = self.row(s, ph) else { return (None, None, None) };
        let v = r.vol[self.vol_at[&i]];
        (raw(v.0), raw(v.1), max)
    }

    fn initial(&mut self, s: usize, i: usize) -> R {
        let n = self.core.nodes[i].clone();
        let d = self.nodes[&n.name];
        let iv = &d["initial_volume"];
        if d["type"] == "PiecewiseStorage" {
            let total = self.metric(s, Ph::Before, &d["max_volume"])?;
            let want = if iv["type"] == "Proportional" { total.v * iv["proportion"].as_f64()? } else { iv["volume"].as_f64()? };
            let k: usize = n.sub.trim_start_matches("store-").parse().ok()?;
            let mut below = 0.0;
            for j in 0..k {
                below += self.pw_max(s, &n.name, j)?.v;
            }
            let max = self.pw_max(s, &n.name, k)?;
            let x = (want - below).max(0.0).min(max.v);
            return Some(V { v: x, x: dyadic(x) && max.x && total.x });
        }
        if iv["type"] == "Proportional" {
            let max = self.bound(s, &n.max, f64::MAX)?;
            return calc(max.v * iv["proportion"].as_f64()?, &[max]);
        }
        if iv["type"] == "Absolute" {
            return raw(iv["volume"].as_f64()?);
        }
        None
    }

    fn pw_max(&mut self, s: usize, n: &str, k: usize) -> R {
        let d = self.nodes[n];
        let total = self.metric(s, Ph::Before, &d["max_volume"])?;
        let steps = d["steps"].as_array()?;
        let lo = if k == 0 { V { v: 0.0, x: true } } else { self.metric(s, Ph::Before, &steps[k - 1]["control_curve"])? };
        let hi = if k == steps.len() { V { v: 1.0, x: true } } else { self.metric(s, Ph::Before, &steps[k]["control_curve"])? };
        calc(total.v * (hi.v - lo.v), &[total, lo, hi])
    }

    fn bound(&mut self, s: usize, e: &Option<Ex>, default: f64) -> R {
        match e {
            None => raw(default),
            Some(e) => self.value(s, e),
        }
    }

    fn value(&mut self, s: usize, e: &Ex) -> R {
        match e {
            Ex::F(v) => raw(*v),
            Ex::M(m) => self.metric(s, Ph::Before, m),
            Ex::Mul(a, b) => {
                let (a, b) = (self.value(s, a)?, self.value(s, b)?);
                calc(a.v * b.v, &[a, b])
            }
            Ex::Delayed(n) => {
                let d = self.nodes[n.as_str()];
                let way = &d["routing_method"];
                let k = if way.is_null() { d["delay"]["value"].as_u64()? } else { way["delay"].as_u64()? } as usize;
                let d = if way.is_null() { d } else { way };
                let h = self.sc[s].hist.get(&format!("\u{1}delay {n}")).cloned().unwrap_or_default();
                if self.t < k { self.metric(s, Ph::Before, &d["initial_value"]) } else { h.get(self.t - k).copied().flatten() }
            }
            Ex::Target(n) => {
                let d = self.nodes[n.as_str()];
                self.hydro(s, Ph::Before, d, "target")
            }
            Ex::Musk(n, rhs) => {
                // Muskingum's method with the time-step as the unit of time.
                let d = &self.nodes[n.as_str()]["routing_method"];
                let k = self.metric(s, Ph::Before, &d["travel_time"])?;
                let x = self.metric(s, Ph::Before, &d["weight"])?;
                let start = &d["initial_condition"];
                let den = 2.0 * k.v * (1.0 - x.v) + 1.0;
                if self.t == 0 && start["type"] == "SteadyState" {
                    return Some(V { v: if *rhs { 0.0 } else { -1.0 }, x: false });
                }
                let v = if !*rhs {
                    -(1.0 - 2.0 * k.v * x.v) / den
                } else {
                    let (i, o) = if self.t == 0 {
                        (start["inflow"].as_f64()?, start["outflow"].as_f64()?)
                    } else {
                        let (a, b) = (self.core.id(n, "inflow")?, self.core.id(n, "outflow")?);
                        (self.flow(s, Ph::Before, a, false)?.v, self.flow(s, Ph::Before, b, true)?.v)
                    };
                    (i * (1.0 + 2.0 * k.v * x.v) + o * (2.0 * k.v * (1.0 - x.v) - 1.0)) / den
                };
                Some(V { v, x: false })
            }
            Ex::Area(n, full) => {
                let d = &self.nodes[n.as_str()]["surface_area"];
                let i = self.core.id(n, "")?;
                let (v, p, m) = self.volume(s, Ph::Before, i);
                let at = match (d["is_storage_proportional"] == json!(true), *full) {
                    (false, false) => v?,
                    (true, false) => p?,
                    (false, true) => m?,
                    (true, true) => V { v: 1.0, x: true },
                };
                if let Some(c) = d["data"]["Polynomial"].as_array() {
                    let mut y = 0.0;
                    for k in c.iter().rev() {
                        y = y * at.v + k.as_f64()?;
                    }
                    return Some(V { v: y, x: false });
                }
                let list = |k: &str| -> Option<Vec<f64>> { d["data"]["Interpolated"][k]["values"].as_array()?.iter().map(|x| x.as_f64()).collect() };
                let (xs, ys) = (list("storage")?, list("area")?);
                for k in 1..xs.len() {
                    if at.v <= xs[k] || k + 1 == xs.len() {
                        let v = ys[k - 1] + (ys[k] - ys[k - 1]) * ((at.v - xs[k - 1]) / (xs[k] - xs[k - 1])).clamp(0.0, 1.0);
                        return Some(V { v, x: false });
                    }
                }
                None
            }
            Ex::PwMax(n, k) => self.pw_max(s, n, *k),
            Ex::PwMin(n, k) => {
                let d = self.nodes[n.as_str()];
                let t = self.metric(s, Ph::Before, &d["min_volume"])?;
                let mut below = 0.0;
                for j in 0..*k {
                    below += self.pw_max(s, n, j)?.v;
                }
                let m = self.pw_max(s, n, *k)?;
                calc((t.v - below).max(0.0).min(m.v), &[t, m])
            }
        }
    }

    fn metric(&mut self, s: usize, ph: Ph, m: &Value) -> R {
        match m["type"].as_str()? {
            "Literal" => raw(m["value"].as_f64()?),
            "Constant" => raw(m["value"].as_f64()?),
            "Table" => self.table(m),
            "Timeseries" => self.timeseries(s, m),
            "Parameter" => {
                let n = m["name"].as_str()?;
                match m["return_value"].as_str().unwrap_or("Before") {
                    "Before" => self.before(s, n),
                    "After" => self.after(s, n),
                    _ => {
                        if ph == Ph::After {
                            self.after(s, n)
                        } else if self.t == 0 {
                            raw(0.0)
                        } else {
                            self.sc[s].prev_after.get(n).copied().flatten()
                        }
                    }
                }
            }
            "InterNetworkTransfer" => self.sc[s].transfers.get(m["name"].as_str()?).copied().flatten(),
            "Edge" => {
                let e = &m["edge"];
                let (f, t) = (self.nodes.get(e["from_node"].as_str()?)?, self.nodes.get(e["to_node"].as_str()?)?);
                let (a, b) = (outs(&self.core, f, &e["from_slot"]), ins(&self.core, t));
                let mut v = vec![];
                for x in &a {
                    for y in &b {
                        let k = self.core.edges.iter().position(|q| *q == (*x, *y))?;
                        if ph == Ph::Before && self.t == 0 {
                            v.push(raw(0.0));
                        } else {
                            v.push(raw(self.row(s, ph)?.edge[self.edge_at[k]]));
                        }
                    }
                }
                self.sum(v)
            }
            "VirtualNode" => {
                let n = m["name"].as_str()?;
                let d = *self.vnodes.get(n)?;
                match d["type"].as_str()? {
                    "Aggregated" => {
                        let a = self.core.aggs.iter().find(|a| a.name == n)?.clone();
                        let ids: Vec<usize> = a.groups.into_iter().flatten().collect();
                        self.flows(s, ph, &ids, m["attribute"] != "Inflow")
                    }
                    "AggregatedStorage" => {
                        let ids: Vec<usize> = d["storage_nodes"].as_array()?.iter().flat_map(|r| all_of(&self.core, r["name"].as_str().unwrap_or(""))).filter(|i| self.core.nodes[*i].kind == 's').collect();
                        self.total(s, ph, &ids, m["attribute"] == "ProportionalVolume")
                    }
                    "VirtualStorage" => {
                        let k = self.vs_list().iter().position(|v| v == n)?;
                        let prop = m["attribute"] == "ProportionalVolume";
                        if m["attribute"] == "MaxVolume" {
                            return self.metric(s, Ph::Before, &d["max_volume"]);
                        }
                        if ph == Ph::After {
                            let v = self.row(s, ph)?.vs[self.vs_at[k]];
                            return raw(if prop { v.1 } else { v.0 });
                        }
                        let v = *self.sc[s].vs.get(k)?;
                        if prop {
                            let mx = (*self.sc[s].vmax.get(k)?)?;
                            let v = v?;
                            if mx.v == 0.0 { raw(1.0) } else { calc(v.v / mx.v, &[v, mx]) }
                        } else {
                            v
                        }
                    }
                    _ => None,
                }
            }
            "Node" => {
                let n = m["name"].as_str()?;
                let d = *self.nodes.get(n)?;
                let ty = d["type"].as_str()?;
                let at = m["attribute"].as_str().unwrap_or(match ty {
                    "Storage" | "PiecewiseStorage" | "Reservoir" => "Volume",
                    "Output" => "Inflow",
                    "Abstraction" => "Abstraction",
                    _ => "Outflow",
                });
                match (ty, at) {
                    ("Storage" | "Reservoir", "Volume") => {
                        let i = self.core.id(n, "")?;
                        self.volume(s, ph, i).0
                    }
                    ("Storage" | "Reservoir", "ProportionalVolume") => {
                        let i = self.core.id(n, "")?;
                        self.volume(s, ph, i).1
                    }
                    ("Storage" | "Reservoir", "MaxVolume") => {
                        let i = self.core.id(n, "")?;
                        self.volume(s, ph, i).2
                    }
                    ("PiecewiseStorage", "Volume" | "ProportionalVolume") => {
                        let ids = all_of(&self.core, n);
                        self.total(s, ph, &ids, at == "ProportionalVolume")
                    }
                    ("Output", "Deficit") => {
                        if ph == Ph::Before {
                            return if self.t == 0 { raw(0.0) } else { self.sc[s].prev_after.get(&format!("\u{1}deficit {n}")).copied().flatten() };
                        }
                        let mx = self.metric(s, Ph::Before, &d["max_flow"])?;
                        let i = self.core.id(n, "")?;
                        let f = self.flow(s, ph, i, false)?;
                        calc((mx.v - f.v).max(0.0), &[mx, f])
                    }
                    ("LossLink" | "WaterTreatmentWorks" | "River", "Inflow") => {
                        let ids = ins(&self.core, d);
                        self.flows(s, ph, &ids, false)
                    }
                    ("LossLink" | "WaterTreatmentWorks" | "River", "Outflow") => {
                        let ids = members(&self.core, Some(d), m);
                        self.flows(s, ph, &ids, true)
                    }
                    ("LossLink" | "WaterTreatmentWorks" | "River", "Loss") => {
                        let ids = self.core.of(n, &["loss"]);
                        if ids.is_empty() { raw(0.0) } else { self.flows(s, ph, &ids, false) }
                    }
                    ("Abstraction", "Abstraction" | "Inflow" | "Outflow") => {
                        let ids = members(&self.core, Some(d), &json!({"name": n, "component": at}));
                        self.passing(s, ph, &ids, at != "Inflow")
                    }
                    ("Reservoir", "Compensation" | "Rainfall" | "Evaporation") => {
                        let ids = self.core.of(n, &[&at.to_lowercase()]);
                        if ids.is_empty() { raw(0.0) } else { self.flows(s, ph, &ids, at == "Rainfall") }
                    }
                    ("Turbine", "Power") if ph == Ph::After => {
                        let i = self.core.id(n, "")?;
                        let mut p = d.clone();
                        p["actual_flow"] = json!({"type": "Literal", "value": self.flow(s, ph, i, false)?.v});
                        self.hydro(s, ph, &p, "actual_flow")
                    }
                    ("Delay", "Inflow") => {
                        let ids = self.core.of(n, &["inflow"]);
                        self.flows(s, ph, &ids, false)
                    }
                    ("Delay", "Outflow") => {
                        let ids = self.core.of(n, &["outflow"]);
                        self.flows(s, ph, &ids, true)
                    }
                    ("Input" | "Catchment" | "Link" | "Output" | "PiecewiseLink" | "RiverGauge" | "Turbine" | "RiverSplitWithGauge", "Inflow" | "Outflow") => {
                        let ids = all_of(&self.core, n);
                        self.passing(s, ph, &ids, at == "Outflow")
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn total(&mut self, s: usize, ph: Ph, ids: &[usize], prop: bool) -> R {
        let mut v = vec![];
        let mut m = vec![];
        for i in ids {
            let x = self.volume(s, ph, *i);
            v.push(x.0?);
            // A share of the capacity is that of the end of a time-step: not affected by changes
            // of the capacity before the volume changes.
            let max = if ph == Ph::Before && self.t > 0 { self.sc[s].smax.get(i).copied().flatten() } else { x.2 };
            m.push(max?);
        }
        let vol: f64 = v.iter().map(|x| x.v).sum();
        if !prop {
            return if v.len() == 1 { Some(v[0]) } else { calc(vol, &v) };
        }
        let max: f64 = m.iter().map(|x| x.v).sum();
        if max == 0.0 {
            return raw(1.0);
        }
        v.extend(m);
        calc(vol / max, &v)
    }

    fn vs_list(&self) -> Vec<String> {
        self.net["virtual_nodes"].as_array().into_iter().flatten().filter(|d| d["type"] == "VirtualStorage").map(|d| d["meta"]["name"].as_str().unwrap_or("").to_string()).collect()
    }

    fn table(&self, m: &Value) -> R {
        let (d, t) = self.tables.get(m["table"].as_str()?)?;
        let keys = |k: &Value| -> Vec<String> {
            match k {
                Value::String(s) => vec![s.clone()],
                Value::Array(a) => a.iter().map(|x| x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string())).collect(),
                Value::Null => vec![],
                o => vec![o.to_string()],
            }
        };
        let l = &d["lookup"];
        let (row, col) = (keys(&m["row"]), keys(&m["column"]));
        match l["type"].as_str()? {
            "Row" => {
                let n = l["cols"].as_u64()? as usize;
                let r = t.rows.iter().find(|r| r[..n] == row[..])?;
                raw(r.get(n)?.parse().ok()?)
            }
            "Both" => {
                let n = l["cols"].as_u64()? as usize;
                if l["rows"].as_u64()? != 1 || col.len() != 1 {
                    return None;
                }
                let c = t.head.iter().position(|h| *h == col[0])?;
                let r = t.rows.iter().find(|r| r[..n] == row[..])?;
                raw(r.get(c)?.parse().ok()?)
            }
            _ => None,
        }
    }

    fn timeseries(&self, s: usize, m: &Value) -> R {
        let (cols, rows) = self.series.get(m["name"].as_str()?)?;
        let t = self.steps[self.t].0.minutes();
        rows.get(&t)?;
        // A step that is longer than the series' spacing has the mean of its rows.
        let all: Vec<&Vec<_>> = rows.range(t..t + self.steps[self.t].1).map(|x| x.1).collect();
        let c = &m["columns"];
        let k = match c["type"].as_str() {
            Some("Scenario") => {
                let g = self.groups.iter().position(|g| Some(g.as_str()) == c["name"].as_str())?;
                self.members[s][g]
            }
            Some("Column") => cols.iter().position(|h| Some(h.as_str()) == c["name"].as_str())?,
            _ if cols.len() == 1 => 0,
            _ => return None,
        };
        let mut sum = 0.0;
        for r in &all {
            sum += *r.get(k)?;
        }
        raw(if all.len() == 1 { sum } else { sum / all.len() as f64 })
    }

    // --------------------------------------------------------------------------- parameters

    /// A parameter's value by its definition, or by the last one given to this scenario.
    fn defined(&mut self, s: usize, n: &str, ph: Ph) -> R {
        let t = self.t;
        match self.changes.iter().rev().find(|c| c.0 <= t && c.1 == s && c.2 == n).map(|c| c.3.clone()) {
            Some(d) => self.param(s, ph, &d),
            None => self.params.get(n).copied().and_then(|d| self.param(s, ph, d)),
        }
    }

    fn before(&mut self, s: usize, n: &str) -> R {
        if let Some(v) = self.sc[s].before.get(n) {
            return *v;
        }
        if self.sc[s].busy.iter().any(|b| b == n) {
            return None;
        }
        self.sc[s].busy.push(n.to_string());
        let v = self.defined(s, n, Ph::Before);
        self.sc[s].busy.pop();
        self.sc[s].before.insert(n.to_string(), v);
        v
    }

    fn after(&mut self, s: usize, n: &str) -> R {
        if let Some(v) = self.sc[s].after.get(n) {
            return *v;
        }
        let key = format!("after {n}");
        if self.sc[s].busy.contains(&key) {
            return None;
        }
        self.sc[s].busy.push(key);
        let v = self.defined(s, n, Ph::After);
        self.sc[s].busy.pop();
        self.sc[s].after.insert(n.to_string(), v);
        v
    }

    fn list(&mut self, s: usize, ph: Ph, v: &Value) -> Option<Vec<V>> {
        v.as_array()?.iter().map(|m| self.metric(s, ph, m)).collect()
    }

    fn agg(f: &str, v: &[V]) -> R {
        let xs: Vec<f64> = v.iter().map(|x| x.v).collect();
        if xs.is_empty() {
            return None;
        }
        let pick = |r: f64| v.iter().find(|x| x.v == r).map(|_| V { v: r, x: v.iter().all(|i| i.x) });
        // Whether a value that should be zero could differ from it by rounding.
        let sure = v.iter().all(|x| x.x || x.v.abs() > 1e-7);
        match f {
            "Sum" => if v.len() == 1 { Some(v[0]) } else { calc(xs.iter().sum(), v) },
            "Mean" => calc(xs.iter().sum::<f64>() / xs.len() as f64, v),
            "Product" => if v.len() == 1 { Some(v[0]) } else { calc(xs.iter().product(), v) },
            "Max" => pick(xs.iter().copied().fold(f64::NEG_INFINITY, f64::max)),
            "Min" => pick(xs.iter().copied().fold(f64::INFINITY, f64::min)),
            "CountNonZero" if sure => raw(xs.iter().filter(|x| **x != 0.0).count() as f64),
            // (This one has a tolerance of 1e-6.)
            "AnyNonZero" if sure && v.iter().all(|x| x.v == 0.0 || x.v.abs() > 1e-5 || (x.x && x.v.abs() < 1e-7)) => raw(xs.iter().any(|x| x.abs() > 1e-6) as u8 as f64),
            "Any" => raw(xs.iter().any(|x| *x != 0.0) as u8 as f64),
            "All" => raw(xs.iter().all(|x| *x != 0.0) as u8 as f64),
            _ => None,
        }
    }

    /// Value between `x0` and `x1` (in either order), held at the ends.
    fn between(x: V, x0: V, x1: V, y0: V, y1: V) -> R {
        let (lo, hi, ylo, yhi) = if x0.v <= x1.v { (x0, x1, y0, y1) } else { (x1, x0, y1, y0) };
        if hi.v - lo.v < 1e-12 {
            return None;
        }
        if x.v <= lo.v {
            return Some(ylo);
        }
        if x.v >= hi.v {
            return Some(yhi);
        }
        let v = ylo.v + (yhi.v - ylo.v) * (x.v - lo.v) / (hi.v - lo.v);
        Some(V { v, x: false })
    }

    fn hydro(&mut self, s: usize, ph: Ph, d: &Value, key: &str) -> R {
        let f = |k: &str, def: f64| d[k].as_f64().unwrap_or(def);
        let te = f("turbine_elevation", 0.0);
        let head = if d["water_elevation"].is_null() { te } else { self.metric(s, ph, &d["water_elevation"])?.v - te }.max(0.0);
        let mh = f("min_head", 0.0);
        if (head - mh).abs() < 1e-9 {
            return None;
        }
        let scale = f("energy_unit_conversion", 1e-6) * f("water_density", 1000.0) * 9.81 * head * f("efficiency", 1.0) * f("flow_unit_conversion", 1.0);
        if ph == Ph::After {
            // Power of the flow that passed.
            let flow = self.metric(s, ph, &d[key])?;
            return Some(V { v: if head <= mh { 0.0 } else { flow.v * scale }, x: false });
        }
        let p = self.metric(s, ph, &d[key])?;
        let mut q = if head <= mh {
            0.0
        } else {
            p.v / scale
        };
        if head > mh {
            if !d["max_flow"].is_null() {
                q = q.min(self.metric(s, ph, &d["max_flow"])?.v);
            }
            if !d["min_flow"].is_null() {
                q = q.max(self.metric(s, ph, &d["min_flow"])?.v);
            }
        }
        Some(V { v: q, x: false })
    }

    fn pred(p: &str, a: V, b: V) -> Option<bool> {
        Some(match p {
            "LT" | "<" => cmp(a, b)? < 0,
            "GT" | ">" => cmp(a, b)? > 0,
            "LE" | "<=" => cmp(a, b)? <= 0,
            "GE" | ">=" => cmp(a, b)? >= 0,
            _ => {
                let d = (a.v - b.v).abs();
                if d > 5e-7 && d < 2e-6 {
                    return None;
                }
                d <= 1e-6
            }
        })
    }

    fn param(&mut self, s: usize, ph: Ph, d: &Value) -> R {
        let name = d["meta"]["name"].as_str()?.to_string();
        let date = self.steps[self.t].0;
        let lits = |v: &Value| -> Option<Vec<f64>> { v["values"].as_array()?.iter().map(|x| x.as_f64()).collect() };
        match d["type"].as_str()? {
            "Constant" => self.metric(s, ph, &d["value"]),
            "ConstantScenario" => {
                let g = self.groups.iter().position(|g| Some(g.as_str()) == d["scenario_group"].as_str())?;
                raw(*lits(&d["values"])?.get(self.members[s][g])?)
            }
            "Aggregated" | "AggregatedIndex" => {
                let v = self.list(s, ph, &d["metrics"])?;
                Self::agg(d["agg_func"]["type"].as_str()?, &v)
            }
            "AsymmetricSwitchIndex" => {
                let on = self.metric(s, ph, &d["on_index_parameter"]);
                let off = self.metric(s, ph, &d["off_index_parameter"]);
                let l = self.sc[s].latch.get(&name).cloned().unwrap_or(Latch { on: Some(0), known: true });
                let next = match (on, l.on) {
                    (Some(o), _) if o.v > 0.0 => Some(1),
                    (Some(_), Some(0)) => Some(0),
                    (Some(_), _) => match off {
                        Some(f) if f.v == 0.0 => Some(0),
                        Some(_) => l.on,
                        None => None,
                    },
                    (None, Some(1)) if off.map(|f| f.v > 0.0).unwrap_or(false) => Some(1),
                    _ => None,
                };
                self.sc[s].latch.insert(name, Latch { on: next, known: next.is_some() });
                next.and_then(|v| raw(v as f64))
            }
            "ControlCurve" | "ControlCurveIndex" => {
                let x = self.metric(s, ph, &d["storage_metric"])?;
                let cc = self.list(s, ph, &d["control_curves"])?;
                let mut k = cc.len();
                for (i, c) in cc.iter().enumerate() {
                    if cmp(x, *c)? >= 0 {
                        k = i;
                        break;
                    }
                }
                if d["type"] == "ControlCurve" && d["values"].as_array()?.len() != cc.len() + 1 {
                    return None;
                }
                if d["type"] == "ControlCurveIndex" { raw(k as f64) } else { self.metric(s, ph, d["values"].get(k)?) }
            }
            "ControlCurveInterpolated" => {
                let x = self.metric(s, ph, &d["storage_metric"])?;
                let cc = self.list(s, ph, &d["control_curves"])?;
                let one = V { v: 1.0, x: true };
                let vals = self.list(s, ph, &d["values"])?;
                if vals.len() != cc.len() + 2 {
                    return None;
                }
                let mut prev = one;
                for (i, c) in cc.iter().enumerate() {
                    // Continuous at the curve: which side is used does not matter.
                    if x.v >= c.v {
                        return Self::between(x, *c, prev, *vals.get(i + 1)?, *vals.get(i)?);
                    }
                    prev = *c;
                }
                let n = vals.len();
                Self::between(x, V { v: 0.0, x: true }, prev, vals[n - 1], vals[n - 2])
            }
            "ControlCurvePiecewiseInterpolated" => {
                let x = self.metric(s, ph, &d["storage_metric"])?;
                let cc = self.list(s, ph, &d["control_curves"])?;
                let f = |k: &str, def: f64| V { v: d[k].as_f64().unwrap_or(def), x: true };
                let vals: Vec<(V, V)> = d["values"].as_array()?.iter().map(|p| Some((raw(p[0].as_f64()?)?, raw(p[1].as_f64()?)?))).collect::<Option<_>>()?;
                let mut prev = f("maximum", 1.0);
                for (i, c) in cc.iter().enumerate() {
                    if cmp(x, *c)? >= 0 {
                        return Self::between(x, *c, prev, vals.get(i)?.1, vals.get(i)?.0);
                    }
                    prev = *c;
                }
                let l = vals.last()?;
                Self::between(x, f("minimum", 0.0), prev, l.1, l.0)
            }
            "DailyProfile" => raw(*lits(&d["values"])?.get(date.leap_index() as usize)?),
            "DiurnalProfile" => raw(*lits(&d["values"])?.get(date.h as usize)?),
            "MonthlyProfile" => {
                let v = lits(&d["values"])?;
                let m = (date.m - 1) as usize;
                let first = Dt { d: 1, h: 0, mi: 0, ..date };
                match d["interp_day"].as_str() {
                    None => raw(v[m]),
                    Some("First") => {
                        let f = date.minutes_since(&first) as f64 / (1440 * cal::month_days(date.y, date.m)) as f64;
                        Some(V { v: v[m] + (v[(m + 1) % 12] - v[m]) * f, x: false })
                    }
                    _ => {
                        // From the last day of the previous month to the last day of this one.
                        let len = 1440 * cal::month_days(date.y, date.m);
                        let gone = date.minutes_since(&first) + 1440;
                        if gone >= len {
                            let next = date.add_minutes(1440);
                            let len2 = 1440 * cal::month_days(next.y, next.m);
                            return Some(V { v: v[m] + (v[(m + 1) % 12] - v[m]) * (gone - len) as f64 / len2 as f64, x: false });
                        }
                        let p = v[(m + 11) % 12];
                        Some(V { v: p + (v[m] - p) * gone as f64 / len as f64, x: false })
                    }
                }
            }
            "WeeklyProfile" => {
                let v = lits(&d["values"])?;
                let n = v.len();
                let pos = date.leap_index() as f64 / 7.0;
                let k = (pos as usize).min(n - 1);
                let fpos = (date.leap_index() as f64 + (date.h * 60 + date.mi) as f64 / 1440.0) / 7.0;
                let f = fpos - fpos.floor();
                match d["interp_day"].as_str() {
                    None => raw(v[k]),
                    Some("First") => Some(V { v: v[k] + (v[(k + 1) % n] - v[k]) * f, x: false }),
                    _ => {
                        let p = v[(k + n - 1) % n];
                        Some(V { v: p + (v[k] - p) * f, x: false })
                    }
                }
            }
            "UniformDrawdownProfile" => {
                let l = |k: &str, def: i64| d[k]["value"].as_i64().unwrap_or(def);
                let (rd, rm) = (l("reset_day", 1), l("reset_month", 1));
                let resid = l("residual_days", 0) as f64;
                // The period that contains the date.
                // In a year without a 29th February the period starts on the day after the 28th.
                let from = |y: i64| if rd > cal::month_days(y, rm) { Dt::new(y, rm + 1, 1, 0, 0) } else { Dt::new(y, rm, rd, 0, 0) };
                let mut st = from(date.y);
                let today = Dt { h: 0, mi: 0, ..date };
                if st > today {
                    st = from(date.y - 1);
                }
                let end = from(st.y + 1);
                let n = (end.days() - st.days()) as f64;
                let k = (today.days() - st.days()) as f64;
                let slope = (resid / n - 1.0) / n;
                Some(V { v: 1.0 + slope * k, x: false })
            }
            "DiscountFactor" => {
                let r = self.metric(s, ph, &d["discount_rate"])?;
                Some(V { v: 1.0 / (1.0 + r.v).powi((date.y - d["base_year"].as_i64()?) as i32), x: false })
            }
            "RbfProfile" => self.rbf(d, date.leap_index()),
            "IndexedArray" => {
                let k = self.metric(s, ph, &d["index_parameter"])?;
                self.metric(s, ph, d["metrics"].get(k.v as usize)?)
            }
            t @ ("Max" | "Min" | "NegativeMax" | "NegativeMin") => {
                let m = if t.starts_with("Neg") { &d["metric"] } else { &d["parameter"] };
                let mut x = self.metric(s, ph, m)?;
                if t.starts_with("Neg") {
                    x.v = -x.v;
                }
                let th = d["threshold"].as_f64().unwrap_or(0.0);
                Some(V { v: if t.ends_with("Max") { x.v.max(th) } else { x.v.min(th) }, x: x.x })
            }
            "Negative" => {
                let x = self.metric(s, ph, &d["parameter"])?;
                Some(V { v: -x.v, x: x.x })
            }
            "Threshold" => {
                let on = {
                    let l = self.sc[s].latch.get(&name).cloned().unwrap_or(Latch { on: Some(0), known: true });
                    let ratchet = d["ratchet"] == json!(true);
                    if ratchet && l.on == Some(1) {
                        Some(1)
                    } else {
                        let a = self.metric(s, ph, &d["metric"]);
                        let b = self.metric(s, ph, &d["threshold"]);
                        let r = match (a, b) {
                            (Some(a), Some(b)) => Self::pred(d["predicate"].as_str()?, a, b).map(|b| b as u64),
                            _ => None,
                        };
                        // Once possibly on, only certainty settles a ratchet.
                        if ratchet && l.on.is_none() && r != Some(1) { None } else { r }
                    }
                };
                self.sc[s].latch.insert(name, Latch { on, known: on.is_some() });
                let on = on?;
                if d["returned_metrics"].is_array() { self.metric(s, ph, d["returned_metrics"].get(on as usize)?) } else { raw(on as f64) }
            }
            "MultiThreshold" => {
                let ts = d["thresholds"].as_array()?.clone();
                let x = self.metric(s, ph, &d["metric"]);
                let mut k = Some(ts.len() as u64);
                for (i, t) in ts.iter().enumerate() {
                    let t = self.metric(s, ph, t);
                    let on = match (x, t) {
                        (Some(a), Some(b)) => Self::pred(d["predicate"].as_str()?, a, b),
                        _ => None,
                    };
                    match on {
                        None => {
                            k = None;
                            break;
                        }
                        Some(true) => {
                            k = Some(i as u64);
                            break;
                        }
                        _ => {}
                    }
                }
                if d["ratchet"] == json!(true) {
                    let l = self.sc[s].latch.get(&name).cloned().unwrap_or(Latch { on: Some(0), known: true });
                    k = match (k, l.on) {
                        _ if l.on == Some(ts.len() as u64) => l.on,
                        (Some(k), _) if k == ts.len() as u64 => Some(k),
                        (Some(k), Some(p)) => Some(k.max(p)),
                        _ => None,
                    };
                    self.sc[s].latch.insert(name, Latch { on: k, known: k.is_some() });
                }
                let k = k?;
                if d["returned_metrics"].is_array() { self.metric(s, ph, d["returned_metrics"].get(k as usize)?) } else { raw(k as f64) }
            }
            "Polynomial1D" => {
                let x = self.metric(s, ph, &d["metric"])?;
                let z = x.v * d["scale"].as_f64().unwrap_or(1.0) + d["offset"].as_f64().unwrap_or(0.0);
                let c: Vec<f64> = d["coefficients"].as_array()?.iter().map(|x| x.as_f64()).collect::<Option<_>>()?;
                Some(V { v: c.iter().enumerate().map(|(i, c)| c * z.powi(i as i32)).sum(), x: false })
            }
            "Delay" | "DelayIndex" => {
                let k = d["delay"].as_u64()? as usize;
                if self.t < k {
                    return raw(d["initial_value"].as_f64()?);
                }
                self.sc[s].hist.get(&name)?.get(self.t - k).copied().flatten()
            }
            "Rolling" | "RollingIndex" => {
                let w = d["window_size"].as_u64()? as usize;
                let min = d["min_values"].as_u64().map(|m| m as usize).unwrap_or(w);
                if self.t.min(w) < min {
                    return raw(d["initial_value"].as_f64()?);
                }
                let h: Option<Vec<V>> = self.sc[s].hist.get(&name)?[self.t.saturating_sub(w)..self.t].iter().copied().collect();
                Self::agg(d["agg_func"]["type"].as_str()?, &h?)
            }
            "Division" => {
                let (a, b) = (self.metric(s, ph, &d["numerator"])?, self.metric(s, ph, &d["denominator"])?);
                if b.v == 0.0 { None } else { calc(a.v / b.v, &[a, b]) }
            }
            "Offset" => {
                let (a, b) = (self.metric(s, ph, &d["metric"])?, self.metric(s, ph, &d["offset"])?);
                calc(a.v + b.v, &[a, b])
            }
            "Interpolated" => {
                let x = self.metric(s, ph, &d["x"])?;
                let (xp, fp) = (self.list(s, ph, &d["xp"])?, self.list(s, ph, &d["fp"])?);
                let n = xp.len();
                if xp.windows(2).any(|w| w[1].v <= w[0].v) {
                    return None;
                }
                if x.v <= xp[0].v {
                    return Some(fp[0]);
                }
                if x.v >= xp[n - 1].v {
                    return Some(fp[n - 1]);
                }
                let k = xp.windows(2).position(|w| x.v >= w[0].v && x.v <= w[1].v)?;
                Self::between(x, xp[k], xp[k + 1], fp[k], fp[k + 1])
            }
            "HydropowerTarget" if ph == Ph::After => self.hydro(s, ph, d, "actual_flow"),
            "HydropowerTarget" => self.hydro(s, ph, d, "target"),
            _ => None,
        }
    }

    /// Smooth yearly curve through points given by day of the year.
    fn rbf(&self, d: &Value, idx: i64) -> R {
        // The 366th day shares its value with a neighbour; which one is not defined.
        if idx == 58 || idx == 59 {
            return None;
        }
        let x = (if idx > 58 { idx - 1 } else { idx }) as f64;
        let pts: Vec<(f64, f64)> = d["points"].as_array()?.iter().map(|p| Some((p[0].as_f64()?, p[1].as_f64()?))).collect::<Option<_>>()?;
        let mut all = vec![];
        for y in [-365.0, 0.0, 365.0] {
            all.extend(pts.iter().map(|p| (p.0 + y, p.1)));
        }
        let f = &d["function"];
        let eps = f["epsilon"].as_f64();
        let kind = f["type"].as_str()?;
        if eps.is_none() && matches!(kind, "Gaussian" | "MultiQuadric" | "InverseMultiQuadric") {
            return None;
        }
        let e = eps.unwrap_or(1.0);
        let g = |r: f64| match kind {
            "Linear" => r,
            "Cubic" => r * r * r,
            "Quintic" => r.powi(5),
            "Gaussian" => (-(e * r) * (e * r)).exp(),
            "MultiQuadric" => (1.0 + (e * r) * (e * r)).sqrt(),
            "InverseMultiQuadric" => 1.0 / (1.0 + (e * r) * (e * r)).sqrt(),
            _ => f64::NAN,
        };
        let n = all.len();
        let mut a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| g((all[i].0 - all[j].0).abs())).chain([all[i].1]).collect()).collect();
        for c in 0..n {
            let p = (c..n).max_by(|i, j| a[*i][c].abs().partial_cmp(&a[*j][c].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
            a.swap(c, p);
            if !(a[c][c].abs() > 1e-12) {
                return None;
            }
            for r in 0..n {
                if r != c {
                    let f = a[r][c] / a[c][c];
                    for k in c..=n {
                        a[r][k] -= f * a[c][k];
                    }
                }
            }
        }
        let v: f64 = (0..n).map(|i| a[i][n] / a[i][i] * g((x - all[i].0).abs())).sum();
        Some(V { v, x: false })
    }

    // ----------------------------------------------------------------------------- stepping

    /// Predictions before the solve of step `t`; `rows` are the scenarios' states after `t-1`.
    pub fn begin(&mut self, t: usize, rows: Option<&[Row]>) {
        self.t = t;
        for s in 0..self.sc.len() {
            let prev = rows.map(|r| r[s].clone());
            let sc = &mut self.sc[s];
            sc.prev = prev;
            sc.cur = None;
            sc.prev_after = std::mem::take(&mut sc.after);
            sc.before.clear();
            sc.vs.clear();
            self.vs_begin(s);
            let names: Vec<String> = self.params.keys().cloned().collect();
            for n in names {
                self.before(s, &n);
            }
        }
    }

    pub fn set_transfer(&mut self, s: usize, name: &str, v: Option<f64>) {
        self.sc[s].transfers.insert(name.to_string(), v.and_then(raw));
    }

    fn receive(&mut self, t: usize) {
        for (s, v) in self.feed.get(t).cloned().unwrap_or_default().into_iter().enumerate() {
            for (n, v) in v {
                self.set_transfer(s, &n, v);
            }
        }
    }

    fn vs_defs(&self) -> Vec<&'a Value> {
        let net: &'a Value = self.net;
        net["virtual_nodes"].as_array().map(|a| a.iter().filter(|d| d["type"] == "VirtualStorage").collect()).unwrap_or_default()
    }

    fn vs_active(&self, d: &Value) -> bool {
        let r = &d["reset"];
        if r["type"] != "Seasonal" {
            return true;
        }
        let g = |k: &str| r[k].as_i64().unwrap_or(1);
        let date = self.steps[self.t].0;
        let (a, b, x) = ((g("start_month"), g("start_day")), (g("end_month"), g("end_day")), (date.m, date.d));
        if a <= b { a <= x && x <= b } else { x >= a || x <= b }
    }

    /// Whether this day of the year has been reached since the last reset.
    fn reached(&self, s: usize, k: usize, day: Option<i64>, month: Option<i64>) -> bool {
        let (Some(d), Some(m)) = (day, month) else { return false };
        let (now, last) = (self.steps[self.t].0, self.sc[s].vs_reset[k]);
        let tup = |x: Dt| (x.y, x.m, x.d, x.h, x.mi);
        (now.y - 1..=now.y)
            .filter(|y| d <= cal::month_days(*y, m))
            .map(|y| (y, m, d, 0, 0))
            .any(|at| tup(last) < at && at <= tup(now))
    }

    fn vs_begin(&mut self, s: usize) {
        for (k, d) in self.vs_defs().into_iter().enumerate() {
            let date = self.steps[self.t].0;
            if self.t == 0 {
                self.sc[s].vs_used.push(vec![]);
                self.sc[s].vs_reset.push(date);
            }
            let max = self.metric(s, Ph::Before, &d["max_volume"]);
            let iv = &d["initial_volume"];
            let init = match iv["type"].as_str() {
                Some("Proportional") => max.and_then(|m| calc(m.v * iv["proportion"].as_f64()?, &[m])),
                _ => iv["volume"].as_f64().and_then(raw),
            };
            let to = if d["reset_volume"] == "Max" { max } else { init };
            let r = &d["reset"];
            let due = match r["type"].as_str() {
                Some("Annual") => self.reached(s, k, r["day"].as_i64(), r["month"].as_i64()),
                Some("Monthly") => {
                    let l = self.sc[s].vs_reset[k];
                    (date.y - l.y) * 12 + date.m - l.m >= r["months"].as_i64().unwrap_or(1)
                }
                Some("Seasonal") => !self.vs_active(d) || self.reached(s, k, r["start_day"].as_i64(), r["start_month"].as_i64()),
                _ => false,
            };
            let w = match d["window"]["type"].as_str() {
                Some("Days") => {
                    let n = d["window"]["days"].as_i64().unwrap_or(1) * 1440;
                    Some((n as f64 / self.steps[0].1 as f64).round() as usize)
                }
                Some("Timesteps") => d["window"]["timesteps"].as_u64().map(|x| x as usize),
                _ => None,
            };
            let mut v = if self.t == 0 {
                init
            } else if due {
                to
            } else {
                self.sc[s].prev.as_ref().and_then(|r| raw(r.vs[self.vs_at[k]].0))
            };
            if self.t == 0 {
                self.sc[s].vmax.push(max);
            } else if due {
                self.sc[s].vmax[k] = max;
            }
            if self.t == 0 || due {
                self.sc[s].vs_reset[k] = date;
                if let Some(w) = w {
                    let miss = match (max, v) {
                        (Some(m), Some(v)) => calc((m.v - v.v) / w as f64, &[m, v]),
                        _ => None,
                    };
                    self.sc[s].vs_used[k] = vec![miss; w];
                }
            }
            if let Some(w) = w {
                // What was used `w` steps ago comes back.
                let u = &mut self.sc[s].vs_used[k];
                if u.len() >= w {
                    let x = u.remove(0);
                    v = match (v, x) {
                        (Some(v), Some(x)) => calc(v.v + x.v, &[v, x]).map(|mut y| {
                            y.x &= self.steps[self.t].1 == 1440;
                            y
                        }),
                        _ => None,
                    };
                }
            }
            self.sc[s].vs.push(v);
        }
    }

    fn vs_members(&self, d: &Value) -> Vec<(usize, f64)> {
        let mut out = vec![];
        for (j, r) in d["nodes"].as_array().into_iter().flatten().enumerate() {
            let f = d["factors"].get(j).and_then(|f| f.as_f64()).unwrap_or(1.0);
            let ids = members(&self.core, self.nodes.get(r["name"].as_str().unwrap_or("")).copied(), r);
            for i in ids {
                out.push((i, f));
            }
        }
        out
    }

    /// Edges (with coefficients) that make up the flow through a core node.
    fn through(&self, i: usize) -> Vec<(usize, f64)> {
        let k = self.core.nodes[i].kind;
        (0..self.core.edges.len()).filter(|e| if k == 'i' { self.core.edges[*e].0 == i } else { self.core.edges[*e].1 == i }).map(|e| (e, 1.0)).collect()
    }

    /// The linear program of this step for one scenario.
    pub fn program(&mut self, s: usize) -> Prog {
        let dt = self.days();
        let ne = self.core.edges.len();
        let mut p = Prog { n: ne, cost: vec![0.0; ne], ..Default::default() };
        let exclusive: Vec<usize> = self.core.aggs.iter().filter(|a| matches!(a.rel, Rel::Excl(..))).flat_map(|a| a.groups.iter().flatten().copied()).collect();
        for i in 0..self.core.nodes.len() {
            let n = self.core.nodes[i].clone();
            let label = if n.sub.is_empty() { n.name.clone() } else { format!("{}/{}", n.name, n.sub) };
            let ein: Vec<usize> = (0..ne).filter(|e| self.core.edges[*e].1 == i).collect();
            let eout: Vec<usize> = (0..ne).filter(|e| self.core.edges[*e].0 == i).collect();
            match self.bound(s, &n.cost, 0.0) {
                None => p.holes += 1,
                Some(c) => {
                    for e in &ein {
                        p.cost[*e] += c.v * if n.kind == 'l' { 0.5 } else { 1.0 };
                    }
                    for e in &eout {
                        p.cost[*e] += c.v * match n.kind {
                            'l' => 0.5,
                            's' => -1.0,
                            _ => 1.0,
                        };
                    }
                }
            }
            let net: Vec<(usize, f64)> = ein.iter().map(|e| (*e, 1.0)).chain(eout.iter().map(|e| (*e, -1.0))).collect();
            if n.kind == 's' {
                let lo = self.bound(s, &n.min, 0.0);
                let (v, _, _) = self.volume(s, Ph::Before, i);
                let hi = self.bound(s, &n.max, f64::MAX);
                match (lo, v, hi) {
                    (Some(lo), Some(v), Some(hi)) => {
                        // Bounds may change from step to step, so that the volume has to follow.
                        let room = |x: f64| if x < 0.0 && x > -1e-6 * (1.0 + v.v.abs()) { 0.0 } else { x };
                        let a = room(v.v - lo.v) / dt;
                        let b = room(hi.v - v.v) / dt;
                        p.rows.push(LRow { what: format!("net inflow of {label}"), a: net, lo: -a, hi: if b > 1e30 { f64::INFINITY } else { b } });
                    }
                    _ => p.holes += 1,
                }
                continue;
            }
            if n.kind == 'l' {
                p.rows.push(LRow { what: format!("inflow minus outflow of {label}"), a: net, lo: 0.0, hi: 0.0 });
            }
            let (mut lo, hi) = (self.bound(s, &n.min, 0.0), self.bound(s, &n.max, f64::INFINITY));
            if lo.is_none() || hi.is_none() {
                p.holes += 1;
            }
            if exclusive.contains(&i) {
                // It may be inactive.
                lo = raw(0.0);
            }
            let (lo, hi) = (lo.map(|v| v.v).unwrap_or(0.0), hi.map(|v| v.v).unwrap_or(f64::INFINITY));
            if lo > 0.0 || hi < 1e30 {
                p.rows.push(LRow { what: format!("flow of {label}"), a: self.through(i), lo: if lo > 0.0 { lo } else { -f64::INFINITY }, hi });
            }
        }
        for g in self.core.aggs.clone() {
            let expr: Vec<Vec<(usize, f64)>> = g.groups.iter().map(|m| m.iter().flat_map(|i| self.through(*i)).collect()).collect();
            let all: Vec<(usize, f64)> = expr.iter().flatten().copied().collect();
            let (lo, hi) = (self.bound(s, &g.min, 0.0), self.bound(s, &g.max, f64::INFINITY));
            if lo.is_none() || hi.is_none() {
                p.holes += 1;
            }
            let (lo, hi) = (lo.map(|v| v.v).unwrap_or(0.0), hi.map(|v| v.v).unwrap_or(f64::INFINITY));
            if lo > 0.0 || hi < 1e30 {
                p.rows.push(LRow { what: format!("flow of {}", g.name), a: all.clone(), lo: if lo > 0.0 { lo } else { -f64::INFINITY }, hi });
            }
            let fs: Vec<R> = match &g.rel {
                Rel::Prop(f) | Rel::Ratio(f) | Rel::Coef(f, _) => f.iter().map(|e| self.value(s, e)).collect(),
                _ => vec![],
            };
            if fs.iter().any(|f| f.is_none()) {
                p.holes += 1;
                continue;
            }
            let fs: Vec<f64> = fs.iter().map(|f| f.unwrap().v).collect();
            match &g.rel {
                Rel::Prop(_) => {
                    for (k, f) in fs.iter().enumerate() {
                        let mut a: Vec<(usize, f64)> = expr[k + 1].clone();
                        a.extend(all.iter().map(|(e, c)| (*e, -c * f)));
                        p.rows.push(LRow { what: format!("proportion {f} of {} in {}", k + 1, g.name), a, lo: 0.0, hi: 0.0 });
                    }
                }
                Rel::Ratio(_) => {
                    for k in 1..fs.len() {
                        let mut a: Vec<(usize, f64)> = expr[k].iter().map(|(e, c)| (*e, c * fs[0])).collect();
                        a.extend(expr[0].iter().map(|(e, c)| (*e, -c * fs[k])));
                        p.rows.push(LRow { what: format!("ratio {}:{} of {k} in {}", fs[0], fs[k], g.name), a, lo: 0.0, hi: 0.0 });
                    }
                }
                Rel::Coef(_, rhs) => {
                    match self.value(s, rhs) {
                        None => p.holes += 1,
                        Some(b) => {
                            let a: Vec<(usize, f64)> = expr.iter().zip(&fs).flat_map(|(x, f)| x.iter().map(move |(e, c)| (*e, c * f))).collect();
                            p.rows.push(LRow { what: format!("coefficients {fs:?} of {}", g.name), a, lo: b.v, hi: b.v });
                        }
                    }
                }
                Rel::Excl(least, most) => {
                    let mut m = vec![];
                    for (x, grp) in expr.iter().zip(&g.groups) {
                        let mut e = ExMember { a: x.clone(), min: 0.0, max: f64::INFINITY };
                        if grp.len() == 1 {
                            let n = self.core.nodes[grp[0]].clone();
                            e.max = self.bound(s, &n.max, f64::INFINITY).map(|v| v.v).unwrap_or(f64::INFINITY);
                            e.min = self.bound(s, &n.min, 0.0).map(|v| v.v).unwrap_or(0.0);
                        }
                        m.push(e);
                    }
                    p.excl.push((g.name.clone(), m, *least, *most));
                }
                Rel::None => {}
            }
        }
        for (k, d) in self.vs_defs().into_iter().enumerate() {
            if !self.vs_active(d) {
                continue;
            }
            let lo = if d["min_volume"].is_null() { raw(0.0) } else { self.metric(s, Ph::Before, &d["min_volume"]) };
            match (self.sc[s].vs[k], lo) {
                (Some(v), Some(lo)) => {
                    let a: Vec<(usize, f64)> = self.vs_members(d).into_iter().flat_map(|(i, f)| self.through(i).into_iter().map(move |(e, _)| (e, f))).collect();
                    p.rows.push(LRow { what: format!("use of virtual storage {}", d["meta"]["name"]), a, lo: -f64::INFINITY, hi: (v.v - lo.v).max(0.0) / dt });
                }
                _ => p.holes += 1,
            }
        }
        // Solvers decide with tolerances that are meaningless for very small or very large numbers.
        let rough = |x: f64| x != 0.0 && x.is_finite() && (x.abs() < 1e-5 || x.abs() > 1e7);
        if p.cost.iter().any(|c| rough(*c)) || p.rows.iter().any(|r| rough(r.lo) || rough(r.hi) || r.a.iter().any(|(_, c)| rough(*c))) {
            p.holes += 1;
        }
        p
    }

    fn edges_of(&self, r: &Row) -> Vec<f64> {
        self.edge_at.iter().map(|k| r.edge[*k]).collect()
    }

    /// Compares what step `t` led to with what had to happen.
    pub fn end(&mut self, rows: &[Row]) {
        let t = self.t;
        let when = self.steps[t].0.iso();
        for s in 0..self.sc.len() {
            let r = rows[s].clone();
            let p = self.program(s);
            for i in 0..self.core.nodes.len() {
                if self.core.nodes[i].kind == 's' {
                    let max = self.bound(s, &self.core.nodes[i].max.clone(), f64::MAX);
                    self.sc[s].smax.insert(i, max);
                }
            }
            let x = self.edges_of(&r);
            let at = format!("time-step {t} ({when}), scenario {s}");
            self.stat("rows_checked", p.rows.len() as u64);
            for (e, v) in x.iter().enumerate() {
                if !(*v >= -1e-6) {
                    let l = self.layout.edges[self.edge_at[e]].clone();
                    self.bad("feasible", "negative-flow", format!("{at}: flow {v} from {l:?}"));
                }
            }
            for row in &p.rows {
                if let Some(m) = row.broken(&x, 1e-5) {
                    let vs = row.what.starts_with("use of virtual");
                    let st = row.what.starts_with("net inflow");
                    self.bad(if vs { "vs" } else if st { "storage" } else { "feasible" }, if vs { "overdrawn" } else { "constraint-broken" }, format!("{at}: {m}"));
                }
            }
            for (n, m, least, most) in &p.excl {
                let f: Vec<f64> = m.iter().map(|e| e.a.iter().map(|(e, c)| c * x[*e]).sum::<f64>()).collect();
                let on: Vec<usize> = (0..m.len()).filter(|i| f[*i] > 1e-4 + 2e-6 * m[*i].max.min(1e6)).collect();
                if on.len() > *most {
                    self.bad("feasible", "not-exclusive", format!("{at}: {} members of {n} carry flow ({f:?}); {most} may", on.len()));
                }
                for i in &on {
                    if f[*i] < m[*i].min - 1e-5 * (1.0 + m[*i].min) {
                        self.bad("feasible", "exclusive-minimum", format!("{at}: member {i} of {n} is active with {}; its minimum is {}", f[*i], m[*i].min));
                    }
                }
                let can = (0..m.len()).filter(|i| f[*i] >= m[*i].min - 1e-5 * (1.0 + m[*i].min)).count();
                if can < *least {
                    self.bad("feasible", "exclusive-inactive", format!("{at}: flows {f:?} of {n}: only {can} members can be active; at least {least} have to be"));
                }
                self.stat("exclusive_checked", 1);
            }
            // Flows of nodes are those of their connections.
            for i in 0..self.core.nodes.len() {
                let fin: f64 = (0..x.len()).filter(|e| self.core.edges[*e].1 == i).map(|e| x[e]).sum();
                let fout: f64 = (0..x.len()).filter(|e| self.core.edges[*e].0 == i).map(|e| x[e]).sum();
                let got = r.flow[self.node_at[i]];
                if !close(got.0, fin, 1e-9) || !close(got.1, fout, 1e-9) {
                    let n = self.core.nodes[i].clone();
                    self.bad("feasible", "node-flow", format!("{at}: {}/{} reports in {} and out {}; its connections carry {fin} and {fout}", n.name, n.sub, got.0, got.1));
                }
                if let Some(k) = self.vol_at.get(&i).copied() {
                    self.storage(s, i, k, fin - fout, &r, &at);
                }
            }
            self.virtual_storage(s, &x, &r, &at);
            if self.costs && p.holes == 0 {
                self.cost(&p, &x, &at);
            } else if p.holes > 0 {
                self.stat("steps_with_unknown_bounds", 1);
            }
            self.sc[s].cur = Some(r);
            self.finish(s, &at);
        }
    }

    fn storage(&mut self, s: usize, i: usize, k: usize, net: f64, r: &Row, at: &str) {
        let n = self.core.nodes[i].clone();
        let dt = self.days();
        let (lo, hi) = (self.bound(s, &n.min, 0.0), self.bound(s, &n.max, f64::MAX));
        let (v0, _, _) = self.volume(s, Ph::Before, i);
        let (v, prop) = r.vol[k];
        self.stat("volumes_checked", 1);
        let label = if n.sub.is_empty() { n.name.clone() } else { format!("{}/{}", n.name, n.sub) };
        if let Some(v0) = v0 {
            let want = v0.v + net * dt;
            // The end volume is put back inside the bounds when rounding takes it out of them.
            if (want - v).abs() > 2e-5 + 2e-6 * dt + 1e-8 * v.abs().max(want.abs()) {
                self.bad("storage", "volume", format!("{at}: volume of {label} is {v}; it was {} and {net} per day was added for {dt} days", v0.v));
            }
        }
        if let (Some(lo), Some(hi)) = (lo, hi) {
            if v < lo.v - 1e-9 * (1.0 + lo.v.abs()) || v > hi.v + 1e-9 * (1.0 + hi.v.abs()) {
                self.bad("storage", "volume-bounds", format!("{at}: volume of {label} is {v}, outside {} to {}", lo.v, hi.v));
            }
            let want = if hi.v == 0.0 { 1.0 } else { v / hi.v };
            if !close(prop, want, 1e-12) {
                self.bad("storage", "proportional-volume", format!("{at}: proportional volume of {label} is {prop}; {v} of {} is {want}", hi.v));
            }
        }
    }

    fn virtual_storage(&mut self, s: usize, x: &[f64], r: &Row, at: &str) {
        let dt = self.days();
        for (k, d) in self.vs_defs().into_iter().enumerate() {
            let active = self.vs_active(d);
            let mut used = 0.0;
            if active {
                for (i, f) in self.vs_members(d) {
                    used += f * self.through(i).iter().map(|(e, _)| x[*e]).sum::<f64>() * dt;
                }
            }
            let (v, prop) = r.vs[self.vs_at[k]];
            self.stat("licence_volumes_checked", 1);
            let name = d["meta"]["name"].as_str().unwrap_or("");
            let max = self.metric(s, Ph::Before, &d["max_volume"]);
            self.sc[s].vmax[k] = max;
            if let Some(v0) = self.sc[s].vs[k] {
                let want = v0.v - used;
                let tol = 2e-5 + 1e-8 * (v0.v.abs() + used.abs());
                if (want - v).abs() > tol {
                    let what = if active { "" } else { " (outside its season)" };
                    self.bad("vs", "volume", format!("{at}: virtual storage {name}{what} holds {v}; it held {} and {used} was used", v0.v));
                }
            }
            if let Some(m) = max {
                let lo = d["min_volume"]["value"].as_f64().unwrap_or(0.0);
                if v < lo - 1e-6 || v > m.v + 1e-6 {
                    self.bad("vs", "volume-bounds", format!("{at}: virtual storage {name} holds {v}, outside {lo} to {}", m.v));
                }
                let want = if m.v == 0.0 { 1.0 } else { v / m.v };
                if !close(prop, want, 1e-9) {
                    self.bad("vs", "proportional-volume", format!("{at}: proportional volume of {name} is {prop}; {v} of {} is {want}", m.v));
                }
            }
            if active && d["window"].is_object() {
                self.sc[s].vs_used[k].push(Some(V { v: used, x: false }));
            }
        }
    }

    fn cost(&mut self, p: &Prog, x: &[f64], at: &str) {
        let (c, big) = p.objective(x);
        let Some(w) = p.witness() else {
            self.stat("no_witness", 1);
            return;
        };
        self.stat("costs_checked", 1);
        let (b, big2) = p.objective(&w);
        // Integer problems are solved to a relative gap.
        let tol = self.cost_tol * (1.0 + big.max(big2)) + if p.excl.is_empty() { 0.0 } else { 3e-4 * (c.abs().max(b.abs()) + 1.0) };
        if b < c - tol {
            let flows: Vec<String> = (0..x.len())
                .filter(|e| (x[*e] - w[*e]).abs() > 1e-6)
                .map(|e| format!("{:?}: {} instead of {}", self.layout.edges[self.edge_at[e]], w[e], x[e]))
                .take(8)
                .collect();
            self.bad("cost", "not-least-cost", format!("{at}: the allocation costs {c}; one within all constraints costs {b} ({})", flows.join("; ")));
        }
    }

    /// After-solve values, histories, and the recorded metrics.
    fn finish(&mut self, s: usize, at: &str) {
        let mut names: Vec<String> = self.params.keys().cloned().collect();
        names.sort();
        for n in &names {
            let d = self.params[n];
            let ph = d["phase"].as_str().unwrap_or("Before");
            if ph != "Before" {
                self.after(s, n);
            }
        }
        for n in &names {
            let d = self.params[n];
            if matches!(d["type"].as_str(), Some("Delay" | "DelayIndex" | "Rolling" | "RollingIndex")) {
                let v = self.metric(s, Ph::After, &d["metric"]);
                self.sc[s].hist.entry(n.clone()).or_default().push(v);
            }
        }
        let nodes: Vec<(String, &Value)> = self.nodes.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (n, d) in nodes {
            if d["type"] == "Delay" || d["routing_method"]["type"] == "Delay" {
                let i = self.core.id(&n, "inflow");
                let v = i.and_then(|i| self.flow(s, Ph::After, i, false));
                self.sc[s].hist.entry(format!("\u{1}delay {n}")).or_default().push(v);
            }
            if d["type"] == "Output" && !d["max_flow"].is_null() {
                let v = self.metric(s, Ph::After, &json!({"type": "Node", "name": n, "attribute": "Deficit"}));
                self.sc[s].after.insert(format!("\u{1}deficit {n}"), v);
            }
        }
        let got = self.sc[s].cur.as_ref().map(|r| r.obs.clone()).unwrap_or_default();
        for k in 0..self.obs.len() {
            let m = self.obs[k].clone();
            let Some(want) = self.metric(s, Ph::After, &m) else {
                self.stat("metrics_unknown", 1);
                continue;
            };
            self.stat("metrics_checked", 1);
            let g = got[k];
            if close(g, want.v, 1e-8) {
                continue;
            }
            let name = m["name"].as_str().unwrap_or("").to_string();
            let (area, what): (&'static str, String) = match m["type"].as_str() {
                Some("Parameter") => {
                    let ty = self.params.get(&name).and_then(|d| d["type"].as_str()).unwrap_or("").to_string();
                    if ty == "RbfProfile" && (g - want.v).abs() < 1e-5 * (1.0 + want.v.abs()) {
                        continue;
                    }
                    let area = if CALENDAR.contains(&ty.as_str()) {
                        "calendar"
                    } else if ty == "ConstantScenario" {
                        "scenario"
                    } else {
                        "param"
                    };
                    (area, ty)
                }
                Some("Timeseries") => (if m["columns"]["type"] == "Scenario" { "scenario" } else { "data" }, "Timeseries".into()),
                Some("VirtualNode") => match self.vnodes.get(&name).and_then(|d| d["type"].as_str()) {
                    Some("Aggregated") => ("feasible", "aggregated node".into()),
                    Some("AggregatedStorage") => ("storage", "aggregated storage".into()),
                    _ => ("vs", "virtual storage".into()),
                },
                _ => {
                    let at = m["attribute"].as_str().unwrap_or("");
                    (if at.contains("Volume") { "storage" } else { "feasible" }, "node".into())
                }
            };
            let key = m["return_value"].as_str().or(m["attribute"].as_str()).unwrap_or("").to_string();
            self.bad(area, &format!("value:{what}"), format!("{at}: {what} {name} {key} is {g}; by definition it is {}", want.v));
        }
    }

    /// Judges a whole run.
    pub fn judge(&mut self, run: &Run) {
        if !self.usable() {
            return;
        }
        for t in 0..run.rows.len().min(self.steps.len()) {
            let prev = if t == 0 { None } else { Some(&run.rows[t - 1][..]) };
            self.receive(t);
            self.begin(t, prev);
            self.end(&run.rows[t]);
        }
        if let Some((t, e)) = &run.err {
            if *t == run.rows.len() && *t < self.steps.len() {
                let prev = if *t == 0 { None } else { Some(&run.rows[*t - 1][..]) };
                self.receive(*t);
                self.begin(*t, prev);
                let e2 = e.to_lowercase();
                let infeasible = e2.contains("infeasible") || e2.contains("unbounded");
                let mut open = false;
                for s in 0..self.sc.len() {
                    let p = self.program(s);
                    if p.holes > 0 || p.witness().is_none() {
                        open = true;
                    }
                }
                if infeasible && !open {
                    self.bad("cost", "feasible-step-refused", format!("time-step {t}: every scenario has a feasible, bounded allocation, but the run failed: {e}"));
                }
            }
        }
    }
}
