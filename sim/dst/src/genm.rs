//! Seeded generation of model files (the JSON a user would write) and their data files.

use crate::cal;
use crate::rng::Rng;
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub nodes: (i64, i64),
    pub steps: (i64, i64),
    /// Maximum number of scenario groups and of scenarios.
    pub groups: i64,
    pub scenarios: usize,
    pub subset: f64,
    pub params: (i64, i64),
    /// Probability that a mid node is a composite one.
    pub composite: f64,
    pub agg: f64,
    pub exclusive: f64,
    pub vs: f64,
    pub aggstor: f64,
    pub timeseries: f64,
    pub tables: f64,
    /// Parameter kinds allowed (empty: all).
    pub kinds: Vec<&'static str>,
    pub time: Time,
    /// Only features every solver supports (no integers, no dynamic factors).
    pub simple_lp: bool,
    /// Node attributes may refer to parameters.
    pub wired: f64,
    /// Probability of minimum flows (with relief nodes that keep the model feasible).
    pub mins: f64,
    /// Distinct costs everywhere, so that the optimum is unique.
    pub unique: bool,
    /// Probability that a storage node's volumes are varied.
    pub storages: f64,
    pub dyn_bounds: bool,
    pub delay: bool,
    /// Probability that a parameter is one with variables.
    pub vary: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Time {
    Days,
    Any,
    /// Hours or days only.
    Fixed,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            nodes: (3, 10),
            steps: (3, 12),
            groups: 2,
            scenarios: 6,
            subset: 0.4,
            params: (0, 8),
            composite: 0.25,
            agg: 0.4,
            exclusive: 0.15,
            vs: 0.4,
            aggstor: 0.3,
            timeseries: 0.6,
            tables: 0.2,
            kinds: vec![],
            time: Time::Any,
            simple_lp: false,
            wired: 0.6,
            mins: 0.25,
            unique: false,
            storages: 0.5,
            dyn_bounds: true,
            delay: true,
            vary: 0.0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub rng: Rng,
    pub cfg: Cfg,
    pub params: Vec<PInfo>,
    pub pjson: Vec<Value>,
    pub nodes: Vec<NInfo>,
    pub njson: Vec<Value>,
    pub vjson: Vec<Value>,
    pub edges: Vec<Value>,
    pub files: BTreeMap<String, String>,
    pub tables: Vec<Value>,
    pub timeseries: Vec<Value>,
    pub groups: Vec<(String, usize)>,
    pub group_json: Vec<Value>,
    pub combos: Option<Value>,
    pub time: Value,
    /// (timeseries name, column or scenario reference JSON, lo, hi)
    pub series: Vec<(Value, f64, f64)>,
    pub table_refs: Vec<(Value, f64)>,
    pub nsteps: usize,
    pub year: i64,
    pub next: usize,
    /// Names hold separators, quotes and characters beyond ASCII.
    pub odd: bool,
    pub costs: i64,
    /// (name, key) of VS and aggregated storages.
    pub vnodes: Vec<(String, &'static str)>,
    pub prefix: String,
}

#[derive(Clone, Debug)]
pub struct PInfo {
    pub name: String,
    pub kind: &'static str,
    pub index: bool,
    pub lo: f64,
    pub hi: f64,
    /// Has a value before the solve.
    pub before: bool,
    pub after: bool,
    pub constant: bool,
}

#[derive(Clone, Debug)]
pub struct NInfo {
    pub name: String,
    pub ty: &'static str,
    pub has_in: bool,
    pub has_out: bool,
    pub storage: bool,
    /// Can pass any amount at a price (has relief nodes).
    pub relief: bool,
    pub const_bounds: bool,
}

pub fn lit(v: f64) -> Value {
    json!({"type": "Literal", "value": v})
}

const ODD: &[&str] = &[", b", " \"q\"", "é 中", " 'x'", "; y", " \\z", "", ".1", "-", " "];

impl Gen {
    pub fn new(mut rng: Rng, cfg: Cfg) -> Gen {
        let odd = rng.chance(0.08);
        Gen {
            odd,
            rng,
            cfg,
            params: vec![],
            pjson: vec![],
            nodes: vec![],
            njson: vec![],
            vjson: vec![],
            edges: vec![],
            files: BTreeMap::new(),
            tables: vec![],
            timeseries: vec![],
            groups: vec![],
            group_json: vec![],
            combos: None,
            time: Value::Null,
            series: vec![],
            table_refs: vec![],
            nsteps: 0,
            year: 2020,
            next: 0,
            costs: 0,
            vnodes: vec![],
            prefix: String::new(),
        }
    }

    pub fn name(&mut self, p: &str) -> String {
        self.next += 1;
        // "ts" and "tbl" name files as well.
        let odd = if self.odd && p != "ts" && p != "tbl" { ODD[self.next % ODD.len()] } else { "" };
        format!("{}{}{}{}", self.prefix, p, self.next, odd)
    }

    // ------------------------------------------------------------------ time

    pub fn gen_time(&mut self) {
        let r = &mut self.rng;
        let n = r.range(self.cfg.steps.0, self.cfg.steps.1);
        self.nsteps = n as usize;
        // Starts that put interesting dates inside the run.
        let year = *r.pick(&[1999, 2000, 2003, 2004, 2015, 2016, 2019, 2020, 2021, 2024, 2100, 1900]);
        let (m, d) = *r.pick(&[
            (1, 1), (2, 25), (2, 28), (2, 1), (3, 1), (6, 15), (12, 20), (12, 30), (12, 31), (10, 1), (1, 31), (7, 27), (4, 1), (9, 28),
        ]);
        let kind = match self.cfg.time {
            Time::Days => 0,
            Time::Fixed => r.weighted(&[5, 3, 2]),
            Time::Any => r.weighted(&[5, 2, 2, 3]),
        };
        self.year = year;
        let mut start = cal::Dt::new(year, m, d, 0, 0);
        // Not every run starts at midnight.
        if kind != 3 && r.chance(0.12) {
            start = start.add_minutes(60 * *r.pick(&[6, 9, 12, 23]) + *r.pick(&[0, 0, 30]));
        }
        let (step, minutes) = match kind {
            0 => (json!({"type": "Days", "days": 1}), Some(1440)),
            1 => {
                let k = *r.pick(&[2i64, 3, 5, 7, 10, 30]);
                (json!({"type": "Days", "days": k}), Some(1440 * k))
            }
            2 => {
                let h = *r.pick(&[1i64, 2, 3, 6, 12, 24, 36, 48]);
                (json!({"type": "Hours", "hours": h}), Some(60 * h))
            }
            _ => {
                let f = *r.pick(&["1mo", "1mo", "1w", "2d", "1d", "12h", "3mo"]);
                (json!({"type": "Frequency", "freq": f}), None)
            }
        };
        let end = match minutes {
            Some(mi) => {
                let e = start.add_minutes(mi * (n - 1));
                // The end need not fall on a step.
                if r.chance(0.2) { e.add_minutes(r.range(0, mi - 1)) } else { e }
            }
            None => {
                let days = match step["freq"].as_str().unwrap() {
                    "1mo" => 31,
                    "3mo" => 92,
                    "1w" => 7,
                    "2d" => 2,
                    _ => 1,
                };
                start.add_minutes(1440 * days * (n - 1))
            }
        };
        let fmt = |d: &cal::Dt, r: &mut Rng| if d.h == 0 && d.mi == 0 && r.chance(0.7) { d.date_string() } else { d.iso() };
        let (s, e) = (fmt(&start, r), fmt(&end, r));
        self.time = json!({"start": s, "end": e, "timestep": step});
    }

    // ------------------------------------------------------------- scenarios

    pub fn gen_scenarios(&mut self) {
        let ng = if self.cfg.scenarios <= 1 { 0 } else { self.rng.range(if self.cfg.groups > 0 { 1 } else { 0 }, self.cfg.groups) };
        let mut left = self.cfg.scenarios;
        for i in 0..ng {
            let name = format!("{}g{}", self.prefix, i + 1);
            let max = if i + 1 == ng { left } else { (left / 2).max(1) };
            let size = self.rng.range(1, max.max(1) as i64) as usize;
            left = (left / size).max(1);
            let mut g = json!({"name": name, "size": size});
            let labels = self.rng.chance(0.5);
            if labels {
                let odd = if self.odd { *self.rng.pick(ODD) } else { "" };
                let l: Vec<String> = (0..size).map(|k| format!("{}{}{odd}", ["low", "mid", "hi", "dry", "wet"][k % 5], k)).collect();
                g["labels"] = json!(l);
            }
            self.groups.push((name, size));
            self.group_json.push(g);
        }
        if !self.groups.is_empty() && self.rng.chance(self.cfg.subset) {
            if self.rng.chance(0.4) {
                // Explicit combinations, distinct.
                let n = self.rng.range(1, 5);
                let mut seen = vec![];
                let mut out = vec![];
                for _ in 0..n {
                    let mut c = vec![];
                    let mut key = vec![];
                    for (i, (_, size)) in self.groups.clone().iter().enumerate() {
                        let k = self.rng.us(*size);
                        key.push(k);
                        if let Some(l) = self.group_json[i].get("labels") {
                            if self.rng.chance(0.5) {
                                c.push(l[k].clone());
                                continue;
                            }
                        }
                        c.push(json!(k));
                    }
                    if !seen.contains(&key) {
                        seen.push(key);
                        out.push(Value::Array(c));
                    }
                }
                self.combos = Some(Value::Array(out));
            } else {
                for i in 0..self.groups.len() {
                    if self.rng.chance(0.6) {
                        let size = self.groups[i].1;
                        let mut idx: Vec<usize> = (0..size).filter(|_| self.rng.chance(0.6)).collect();
                        if idx.is_empty() {
                            idx.push(self.rng.us(size));
                        }
                        if self.rng.chance(0.5) {
                            self.rng.shuffle(&mut idx);
                        }
                        let labels = self.group_json[i].get("labels").cloned();
                        let s = match self.rng.below(3) {
                            0 => {
                                let a = self.rng.us(size);
                                let b = a + 1 + self.rng.us(size - a);
                                json!({"type": "Slice", "start": a, "end": b})
                            }
                            1 if labels.is_some() => {
                                let l = labels.unwrap();
                                json!({"type": "Labels", "labels": idx.iter().map(|&k| l[k].clone()).collect::<Vec<_>>()})
                            }
                            _ => json!({"type": "Indices", "indices": idx}),
                        };
                        self.group_json[i]["subset"] = s;
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ data

    /// Time series files aligned with the model's steps.
    pub fn gen_series(&mut self) {
        if !self.rng.chance(self.cfg.timeseries) {
            return;
        }
        let steps = cal::steps(&self.time);
        // Only regular steps can be matched by a series with the same spacing.
        let regular = steps.windows(2).all(|w| w[1].0.minutes_since(&w[0].0) == steps[0].1) && steps.len() > 1;
        if !regular {
            return;
        }
        let dur = steps[0].1;
        let nfiles = self.rng.range(1, 2);
        for _ in 0..nfiles {
            let name = self.name("ts");
            let by_scenario = !self.groups.is_empty() && self.rng.chance(0.5);
            let (cols, group): (Vec<String>, Option<String>) = if by_scenario {
                let g = self.rng.us(self.groups.len());
                let (gn, size) = self.groups[g].clone();
                ((0..size).map(|k| format!("c{k}")).collect(), Some(gn))
            } else {
                let n = self.rng.range(1, 3);
                ((0..n).map(|k| format!("col{k}")).collect(), None)
            };
            let before = self.rng.range(0, 2);
            let after = self.rng.range(0, 3);
            let hi = *self.rng.pick(&[5.0, 12.0, 20.0]);
            let mut text = format!("date,{}\n", cols.join(","));
            let daily = dur % 1440 == 0 && steps[0].0.h == 0;
            for k in -before..(steps.len() as i64 + after) {
                let d = steps[0].0.add_minutes(dur * k);
                text += &if daily { d.date_string() } else { d.iso() };
                for _ in &cols {
                    text += &format!(",{:?}", self.rng.q(0.0, hi));
                }
                text += "\n";
            }
            let file = format!("{name}.csv");
            self.files.insert(file.clone(), text);
            self.timeseries.push(json!({"meta": {"name": name}, "type": "Polars", "time_col": "date", "url": file}));
            match group {
                Some(g) => {
                    self.series.push((json!({"type": "Timeseries", "name": name, "columns": {"type": "Scenario", "name": g}}), 0.0, hi));
                }
                None => {
                    for c in &cols {
                        self.series.push((
                            json!({"type": "Timeseries", "name": name, "columns": {"type": "Column", "name": c}}),
                            0.0,
                            hi,
                        ));
                    }
                    if cols.len() == 1 && self.rng.chance(0.5) {
                        self.series.push((json!({"type": "Timeseries", "name": name}), 0.0, hi));
                    }
                }
            }
        }
    }

    pub fn gen_tables(&mut self) {
        if !self.rng.chance(self.cfg.tables) {
            return;
        }
        let name = self.name("tbl");
        let file = format!("{name}.csv");
        let keys = ["A", "B", "C", "D"];
        let mut text = String::new();
        match self.rng.below(3) {
            0 => {
                text += "key,value\n";
                for k in keys {
                    let v = self.rng.q(0.0, 15.0);
                    text += &format!("{k},{v:?}\n");
                    self.table_refs.push((json!({"type": "Table", "table": name, "row": k}), v));
                }
                self.tables.push(json!({"meta": {"name": name}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 1}, "url": file}));
            }
            1 => {
                text += "k1,k2,value\n";
                for k in &keys[..2] {
                    for j in ["X", "Y"] {
                        let v = self.rng.q(0.0, 15.0);
                        text += &format!("{k},{j},{v:?}\n");
                        self.table_refs.push((json!({"type": "Table", "table": name, "row": [k, j]}), v));
                    }
                }
                self.tables.push(json!({"meta": {"name": name}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Row", "cols": 2}, "url": file}));
            }
            _ => {
                text += "key,X,Y\n";
                for k in keys {
                    text += k;
                    for j in ["X", "Y"] {
                        let v = self.rng.q(0.0, 15.0);
                        text += &format!(",{v:?}");
                        self.table_refs.push((json!({"type": "Table", "table": name, "row": k, "column": j}), v));
                    }
                    text += "\n";
                }
                self.tables.push(json!({"meta": {"name": name}, "type": "Scalar", "format": "CSV", "lookup": {"type": "Both", "rows": 1, "cols": 1}, "url": file}));
            }
        }
        self.files.insert(file, text);
    }

    // -------------------------------------------------------------- parameters

    /// A metric with a known range that is available before the solve.
    pub fn metric(&mut self, lo: f64, hi: f64) -> (Value, f64, f64) {
        for _ in 0..6 {
            match self.rng.weighted(&[3, 5, 3, 1]) {
                0 => break,
                1 => {
                    let ok: Vec<PInfo> =
                        self.params.iter().filter(|p| p.before && p.lo >= lo && p.hi <= hi).cloned().collect();
                    if !ok.is_empty() && self.rng.chance(self.cfg.wired) {
                        let p = self.rng.pick(&ok).clone();
                        return (self.pref(&p, "Before"), p.lo, p.hi);
                    }
                }
                2 => {
                    let ok: Vec<_> = self.series.iter().filter(|s| s.1 >= lo && s.2 <= hi).cloned().collect();
                    if !ok.is_empty() {
                        return self.rng.pick(&ok).clone();
                    }
                }
                _ => {
                    let ok: Vec<_> = self.table_refs.iter().filter(|s| s.1 >= lo && s.1 <= hi).cloned().collect();
                    if !ok.is_empty() {
                        let (v, x) = self.rng.pick(&ok).clone();
                        return (v, x, x);
                    }
                }
            }
        }
        let v = self.rng.q(lo, hi.min(lo + 1000.0));
        (lit(v), v, v)
    }

    pub fn pref(&mut self, p: &PInfo, when: &str) -> Value {
        let mut v = json!({"type": "Parameter", "name": p.name});
        if when != "Before" || self.rng.chance(0.3) {
            v["return_value"] = json!(when);
        }
        v
    }

    /// Any metric a parameter may depend on: also storage and flow states of the network.
    pub fn pmetric(&mut self) -> (Value, f64, f64) {
        if self.rng.chance(0.35) && !self.nodes.is_empty() {
            if let Some(m) = self.state_metric() {
                return m;
            }
        }
        if self.rng.chance(0.08) {
            let ok: Vec<PInfo> = self.params.iter().filter(|p| p.after && !p.index).cloned().collect();
            if !ok.is_empty() {
                let p = self.rng.pick(&ok).clone();
                return (json!({"type": "Parameter", "name": p.name, "return_value": "AfterOrElseInitial"}), p.lo.min(0.0), p.hi.max(0.0));
            }
        }
        self.metric(-1000.0, 1e6)
    }

    pub fn state_metric(&mut self) -> Option<(Value, f64, f64)> {
        if !self.vnodes.is_empty() && self.rng.chance(0.15) {
            let (n, k) = self.rng.pick(&self.vnodes).clone();
            if k == "VirtualStorage" || k == "AggregatedStorage" {
                let p = self.rng.chance(0.6);
                return Some((
                    json!({"type": "VirtualNode", "name": n, "attribute": if p {"ProportionalVolume"} else {"Volume"}}),
                    0.0,
                    if p { 1.0 } else { 2000.0 },
                ));
            }
        }
        if !self.edges.is_empty() && self.rng.chance(0.15) {
            let e = self.rng.pick(&self.edges).clone();
            return Some((json!({"type": "Edge", "edge": e}), 0.0, 1000.0));
        }
        let n = self.rng.pick(&self.nodes).clone();
        let attr = match n.ty {
            "Storage" | "Reservoir" => *self.rng.pick(&["Volume", "ProportionalVolume", "ProportionalVolume"]),
            "Abstraction" => *self.rng.pick(&["Inflow", "Outflow", "Abstraction"]),
            "LossLink" | "River" | "WaterTreatmentWorks" => *self.rng.pick(&["Inflow", "Outflow", "Loss"]),
            "Delay" | "PiecewiseLink" | "RiverGauge" | "RiverSplitWithGauge" | "Turbine" => *self.rng.pick(&["Inflow", "Outflow"]),
            "PiecewiseStorage" => *self.rng.pick(&["Volume", "ProportionalVolume"]),
            "Input" | "Catchment" => "Outflow",
            "Output" => *self.rng.pick(&["Inflow", "Deficit"]),
            "Link" => *self.rng.pick(&["Inflow", "Outflow"]),
            _ => return None,
        };
        if attr == "Deficit" {
            // Only defined with a maximum flow.
            let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name))?;
            if j.get("max_flow").is_none() {
                return None;
            }
        }
        let hi = match attr {
            "ProportionalVolume" => 1.0,
            _ => 2000.0,
        };
        Some((json!({"type": "Node", "name": n.name, "attribute": attr}), if attr == "Deficit" { -2000.0 } else { 0.0 }, hi))
    }

    pub fn index_metric(&mut self, below: u64) -> Value {
        let ok: Vec<PInfo> =
            self.params.iter().filter(|p| p.index && p.before && p.lo >= 0.0 && p.hi < below as f64).cloned().collect();
        if !ok.is_empty() && self.rng.chance(0.85) {
            let p = self.rng.pick(&ok).clone();
            return self.pref(&p, "Before");
        }
        json!({"type": "Constant", "value": self.rng.below(below)})
    }

    fn push_param(&mut self, name: &str, kind: &'static str, j: Value, index: bool, lo: f64, hi: f64, before: bool, after: bool) {
        let mut v = json!({"meta": {"name": name}, "type": kind});
        for (k, x) in j.as_object().unwrap() {
            v[k] = x.clone();
        }
        self.pjson.push(v);
        self.params.push(PInfo { name: name.to_string(), kind, index, lo, hi, before, after, constant: false });
    }

    pub fn gen_param(&mut self) {
        const KINDS: [&str; 33] = [
            "Constant", "ConstantScenario", "Aggregated", "AggregatedIndex", "AsymmetricSwitchIndex", "ControlCurve",
            "ControlCurveIndex", "ControlCurveInterpolated", "ControlCurvePiecewiseInterpolated", "DailyProfile",
            "DiurnalProfile", "MonthlyProfile", "WeeklyProfile", "UniformDrawdownProfile", "RbfProfile", "IndexedArray",
            "Max", "Min", "Negative", "NegativeMax", "NegativeMin", "MultiThreshold", "Threshold", "Polynomial1D", "Delay",
            "DelayIndex", "Division", "Offset", "DiscountFactor", "Interpolated", "Rolling", "RollingIndex", "HydropowerTarget",
        ];
        let kinds: Vec<&'static str> = if self.cfg.kinds.is_empty() { KINDS.to_vec() } else { self.cfg.kinds.clone() };
        let kind = if self.cfg.vary > 0.0 && self.rng.chance(self.cfg.vary) { *self.rng.pick(&["Offset", "Offset", "RbfProfile"]) } else { *self.rng.pick(&kinds) };
        let name = self.name("p");
        let n = name.as_str();
        match kind {
            "Constant" => {
                let (v, x) = if !self.table_refs.is_empty() && self.rng.chance(0.3) {
                    self.rng.pick(&self.table_refs).clone()
                } else {
                    let x = self.rng.q(0.0, 20.0);
                    (lit(x), x)
                };
                let mut j = json!({"value": v});
                let (mut lo, mut hi) = (x, x);
                if self.rng.chance(0.25) {
                    let act = match self.rng.below(3) {
                        0 => json!({"type": "Unit", "min": 0.0, "max": 20.0}),
                        1 => json!({"type": "Rectifier", "min": 0.0, "max": 20.0}),
                        _ => json!({"type": "BinaryStep", "on_value": 10.0}),
                    };
                    j["variable"] = json!({"is_active": self.rng.chance(0.8), "activation": act});
                    lo = lo.min(0.0);
                    hi = hi.max(20.0);
                }
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "ConstantScenario" => {
                if self.groups.is_empty() {
                    return;
                }
                let (g, size) = self.rng.pick(&self.groups).clone();
                let v: Vec<f64> = (0..size).map(|_| self.rng.q(0.0, 20.0)).collect();
                let (lo, hi) = range_of(&v);
                let j = json!({"values": {"type": "Literal", "values": v}, "scenario_group": g});
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Aggregated" => {
                let k = self.rng.range(1, 3);
                let ms: Vec<_> = (0..k).map(|_| self.pmetric()).collect();
                let f = *self.rng.pick(&["Sum", "Max", "Min", "Product", "Mean", "CountNonZero", "AnyNonZero"]);
                let phase = *self.rng.pick(&["Before", "Before", "Before", "After", "Both"]);
                let (lo, hi) = match f {
                    "Sum" => (ms.iter().map(|m| m.1).sum(), ms.iter().map(|m| m.2).sum()),
                    "Product" => {
                        let mut b = (1.0f64, 1.0f64);
                        for m in &ms {
                            let c = [b.0 * m.1, b.0 * m.2, b.1 * m.1, b.1 * m.2];
                            b = range_of(&c);
                        }
                        b
                    }
                    "CountNonZero" => (0.0, k as f64),
                    "AnyNonZero" => (0.0, 1.0),
                    _ => (
                        ms.iter().map(|m| m.1).fold(f64::INFINITY, f64::min),
                        ms.iter().map(|m| m.2).fold(f64::NEG_INFINITY, f64::max),
                    ),
                };
                if !(lo.abs() < 1e7 && hi.abs() < 1e7) {
                    return;
                }
                let metrics: Vec<Value> = ms.into_iter().map(|m| m.0).collect();
                let j = json!({"phase": phase, "agg_func": {"type": f}, "metrics": metrics});
                self.push_param(n, kind, j, false, lo, hi, phase != "After", phase != "Before");
            }
            "AggregatedIndex" => {
                let k = self.rng.range(1, 3);
                let metrics: Vec<Value> = (0..k).map(|_| self.index_metric(6)).collect();
                let f = *self.rng.pick(&["Sum", "Product", "Min", "Max", "Any", "All"]);
                let hi = match f {
                    "Sum" => 5.0 * k as f64,
                    "Product" => 5f64.powi(k as i32),
                    "Any" | "All" => 1.0,
                    _ => 5.0,
                };
                let phase = *self.rng.pick(&["Before", "Before", "After", "Both"]);
                let j = json!({"phase": phase, "agg_func": {"type": f}, "metrics": metrics});
                self.push_param(n, kind, j, true, 0.0, hi, phase != "After", phase != "Before");
            }
            "AsymmetricSwitchIndex" => {
                let j = json!({"on_index_parameter": self.index_metric(3), "off_index_parameter": self.index_metric(3)});
                self.push_param(n, kind, j, true, 0.0, 1.0, true, false);
            }
            "ControlCurve" | "ControlCurveIndex" | "ControlCurveInterpolated" => {
                let Some(sm) = self.prop_volume() else { return };
                let k = self.rng.range(1, 3) as usize;
                let mut cc: Vec<f64> = (0..k).map(|_| self.rng.range(1, 15) as f64 / 16.0).collect();
                cc.sort_by(|a, b| b.partial_cmp(a).unwrap());
                cc.dedup();
                let curves = self.curves(&cc, kind == "ControlCurve" || kind == "ControlCurveIndex");
                let mut j = json!({"control_curves": curves, "storage_metric": sm});
                if kind == "ControlCurveIndex" {
                    self.push_param(n, kind, j, true, 0.0, cc.len() as f64, true, false);
                } else {
                    let nv = if kind == "ControlCurve" { cc.len() + 1 } else { cc.len() + 2 };
                    let vs: Vec<_> = (0..nv).map(|_| self.metric(0.0, 50.0)).collect();
                    let lo = vs.iter().map(|m| m.1).fold(f64::INFINITY, f64::min);
                    let hi = vs.iter().map(|m| m.2).fold(f64::NEG_INFINITY, f64::max);
                    j["values"] = vs.into_iter().map(|m| m.0).collect();
                    self.push_param(n, kind, j, false, lo, hi, true, false);
                }
            }
            "ControlCurvePiecewiseInterpolated" => {
                let Some(sm) = self.prop_volume() else { return };
                let k = self.rng.range(1, 2) as usize;
                let mut cc: Vec<f64> = (0..k).map(|_| self.rng.range(1, 15) as f64 / 16.0).collect();
                cc.sort_by(|a, b| b.partial_cmp(a).unwrap());
                cc.dedup();
                let vals: Vec<[f64; 2]> = (0..cc.len() + 1).map(|_| [self.rng.q(0.0, 20.0), self.rng.q(0.0, 20.0)]).collect();
                let curves = self.curves(&cc, kind == "ControlCurve" || kind == "ControlCurveIndex");
                let flat: Vec<f64> = vals.iter().flatten().copied().collect();
                let (lo, hi) = range_of(&flat);
                let mut j = json!({"control_curves": curves, "storage_metric": sm, "values": vals});
                if self.rng.chance(0.7) {
                    j["minimum"] = json!(*self.rng.pick(&[0.0, 0.0, -0.25]));
                }
                if self.rng.chance(0.7) {
                    j["maximum"] = json!(*self.rng.pick(&[1.0, 1.0, 1.25, 2.0]));
                }
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "DailyProfile" => {
                let v: Vec<f64> = (0..366).map(|k| ((k * 37 + self.next * 11) % 160) as f64 / 8.0).collect();
                let (lo, hi) = range_of(&v);
                self.push_param(n, kind, json!({"values": {"type": "Literal", "values": v}}), false, lo, hi, true, false);
            }
            "DiurnalProfile" => {
                let v: Vec<f64> = (0..24).map(|_| self.rng.q(0.0, 20.0)).collect();
                let (lo, hi) = range_of(&v);
                self.push_param(n, kind, json!({"values": {"type": "Literal", "values": v}}), false, lo, hi, true, false);
            }
            "MonthlyProfile" => {
                let v: Vec<f64> = (0..12).map(|_| self.rng.q(0.0, 20.0)).collect();
                let (lo, hi) = range_of(&v);
                let mut j = json!({"values": {"type": "Literal", "values": v}});
                match self.rng.below(3) {
                    0 => j["interp_day"] = json!("First"),
                    1 => j["interp_day"] = json!("Last"),
                    _ => {}
                }
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "WeeklyProfile" => {
                let k = *self.rng.pick(&[52, 53]);
                let v: Vec<f64> = (0..k).map(|_| self.rng.q(0.0, 20.0)).collect();
                let (lo, hi) = range_of(&v);
                let mut j = json!({"values": {"type": "Literal", "values": v}});
                match self.rng.below(3) {
                    0 => j["interp_day"] = json!("First"),
                    1 => j["interp_day"] = json!("Last"),
                    _ => {}
                }
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "UniformDrawdownProfile" => {
                let mut j = json!({});
                if self.rng.chance(0.7) {
                    let (d, m) = if self.rng.chance(0.5) { self.day_in_run() } else { self.any_day() };
                    j["reset_day"] = json!({"type": "Literal", "value": d});
                    j["reset_month"] = json!({"type": "Literal", "value": m});
                }
                if self.rng.chance(0.5) {
                    j["residual_days"] = json!({"type": "Literal", "value": self.rng.range(0, 30)});
                }
                self.push_param(n, kind, j, false, 0.0, 1.0, true, false);
            }
            "RbfProfile" => {
                let k = self.rng.range(3, 5) as usize;
                let pts: Vec<Value> = (0..k)
                    .map(|i| json!([1 + (365 / k) as i64 * i as i64 + self.rng.range(0, 40), self.rng.q(1.0, 15.0)]))
                    .collect();
                let f = match self.rng.below(5) {
                    0 => json!({"type": "Linear"}),
                    1 => json!({"type": "Cubic"}),
                    2 => json!({"type": "Gaussian", "epsilon": 0.0625}),
                    3 => json!({"type": "MultiQuadric", "epsilon": 0.0625}),
                    _ => json!({"type": "MultiQuadric"}),
                };
                self.push_param(n, kind, json!({"points": pts, "function": f}), false, -1e5, 1e5, true, false);
            }
            "IndexedArray" => {
                let k = self.rng.range(2, 4) as usize;
                let ms: Vec<_> = (0..k).map(|_| self.pmetric()).collect();
                let lo = ms.iter().map(|m| m.1).fold(f64::INFINITY, f64::min);
                let hi = ms.iter().map(|m| m.2).fold(f64::NEG_INFINITY, f64::max);
                let metrics: Vec<Value> = ms.into_iter().map(|m| m.0).collect();
                let j = json!({"metrics": metrics, "index_parameter": self.index_metric(k as u64)});
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Max" | "Min" => {
                let m = self.pmetric();
                let t = self.rng.q(0.0, 15.0);
                let set = self.rng.chance(0.8);
                let mut j = json!({"parameter": m.0});
                if set {
                    j["threshold"] = json!(t);
                }
                let t = if set { t } else { 0.0 };
                let (lo, hi) = if kind == "Max" { (m.1.max(t), m.2.max(t)) } else { (m.1.min(t), m.2.min(t)) };
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Negative" => {
                let m = self.pmetric();
                self.push_param(n, kind, json!({"parameter": m.0}), false, -m.2, -m.1, true, false);
            }
            "NegativeMax" | "NegativeMin" => {
                let m = self.pmetric();
                let t = self.rng.q(-10.0, 10.0);
                let j = json!({"metric": m.0, "threshold": t});
                let (lo, hi) = if kind == "NegativeMax" { ((-m.2).max(t), (-m.1).max(t)) } else { ((-m.2).min(t), (-m.1).min(t)) };
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Threshold" => {
                let m = self.pmetric();
                let t = self.threshold_for(&m);
                let mut j = json!({"metric": m.0, "threshold": t, "predicate": *self.rng.pick(&["LT", "GT", "EQ", "LE", "GE", "<", ">=", ">"])});
                if self.rng.chance(0.4) {
                    j["ratchet"] = json!(true);
                }
                if self.rng.chance(0.5) {
                    let a = self.metric(0.0, 50.0);
                    let b = self.metric(0.0, 50.0);
                    let (lo, hi) = (a.1.min(b.1), a.2.max(b.2));
                    j["returned_metrics"] = json!([a.0, b.0]);
                    // The schema makes a second parameter of the values; its name is this one's.
                    self.push_param(n, kind, j, false, lo, hi, true, false);
                } else {
                    self.push_param(n, kind, j, true, 0.0, 1.0, true, false);
                }
            }
            "MultiThreshold" => {
                let m = self.pmetric();
                let k = self.rng.range(1, 3) as usize;
                let (lo, hi) = (m.1.max(-50.0), m.2.min(50.0));
                let mut ts: Vec<f64> = (0..k).map(|_| if hi > lo + 1.0 { self.rng.q(lo, hi) } else { lo + self.rng.unit().mul_add(0.0, self.rng.range(0, 16) as f64 / 16.0) }).collect();
                ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
                if self.rng.chance(0.5) {
                    ts.reverse();
                }
                let t: Vec<Value> = ts.iter().map(|v| lit(*v)).collect();
                let mut j = json!({"metric": m.0, "thresholds": t, "predicate": *self.rng.pick(&["LT", "GT", "LE", "GE"])});
                if self.rng.chance(0.4) {
                    j["ratchet"] = json!(true);
                }
                if self.rng.chance(0.5) {
                    let vs: Vec<_> = (0..k + 1).map(|_| self.metric(0.0, 50.0)).collect();
                    let lo = vs.iter().map(|m| m.1).fold(f64::INFINITY, f64::min);
                    let hi = vs.iter().map(|m| m.2).fold(f64::NEG_INFINITY, f64::max);
                    j["returned_metrics"] = vs.into_iter().map(|m| m.0).collect();
                    self.push_param(n, kind, j, false, lo, hi, true, false);
                } else {
                    self.push_param(n, kind, j, true, 0.0, k as f64, true, false);
                }
            }
            "Polynomial1D" => {
                let m = self.pmetric();
                if m.1 < -100.0 || m.2 > 2000.0 {
                    return;
                }
                let c = vec![self.rng.q(0.0, 5.0), self.rng.q(0.0, 2.0), 0.125 * self.rng.range(0, 2) as f64 / 8.0];
                let mut j = json!({"metric": m.0, "coefficients": c});
                let (mut sc, mut of) = (1.0, 0.0);
                if self.rng.chance(0.5) {
                    sc = 0.5;
                    j["scale"] = json!(sc);
                }
                if self.rng.chance(0.5) {
                    of = self.rng.q(-2.0, 2.0);
                    j["offset"] = json!(of);
                }
                let b = (m.1.abs().max(m.2.abs()) * sc + of.abs()) + 1.0;
                let hi = c[0] + c[1] * b + c[2] * b * b;
                let lo = if m.1 * sc + of >= 0.0 { 0.0 } else { -hi };
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Delay" => {
                let m = self.pmetric();
                let iv = self.rng.q(0.0, 10.0);
                let j = json!({"metric": m.0, "delay": self.rng.range(1, 4), "initial_value": iv});
                self.push_param(n, kind, j, false, m.1.min(iv), m.2.max(iv), true, false);
            }
            "DelayIndex" => {
                let j = json!({"metric": self.index_metric(4), "delay": self.rng.range(1, 4), "initial_value": self.rng.below(4)});
                self.push_param(n, kind, j, true, 0.0, 3.0, true, false);
            }
            "Division" => {
                let a = self.pmetric();
                let b = self.metric(0.5, 50.0);
                if b.1 <= 0.0 {
                    return;
                }
                let c = [a.1 / b.1, a.1 / b.2, a.2 / b.1, a.2 / b.2];
                let (lo, hi) = range_of(&c);
                let phase = *self.rng.pick(&["Before", "Before", "After", "Both"]);
                let j = json!({"phase": phase, "numerator": a.0, "denominator": b.0});
                self.push_param(n, kind, j, false, lo, hi, phase != "After", phase != "Before");
            }
            "Offset" => {
                let m = self.pmetric();
                let o = self.rng.q(-3.0, 6.0);
                let mut j = json!({"metric": m.0, "offset": lit(o)});
                let (mut lo, mut hi) = (m.1 + o, m.2 + o);
                if self.cfg.vary > 0.0 || self.rng.chance(0.25) {
                    j["variable"] = json!({"is_active": true, "activation": {"type": "Unit", "min": -5.0, "max": 5.0}});
                    lo -= 10.0;
                    hi += 10.0;
                }
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "DiscountFactor" => {
                let (r, lo) = if self.rng.chance(0.5) { (lit(0.0625), 0.0625) } else { let m = self.metric(0.0, 1.0); let l = m.1; (m.0, l) };
                if lo < 0.0 {
                    return;
                }
                // Values stay within a few orders of magnitude.
                let base = self.year - self.rng.range(0, 4);
                self.push_param(n, kind, json!({"discount_rate": r, "base_year": base}), false, 0.0, 1.0, true, false);
            }
            "Interpolated" => {
                let m = self.pmetric();
                let k = self.rng.range(2, 4) as usize;
                let (a, b) = (m.1.max(-1000.0), m.2.min(2000.0).max(m.1.max(-1000.0) + 1.0));
                let mut xp: Vec<f64> = (0..k).map(|i| ((a + (b - a) * i as f64 / (k - 1) as f64) * 8.0).floor() / 8.0).collect();
                xp.dedup();
                if xp.len() < 2 {
                    return;
                }
                let fp: Vec<f64> = xp.iter().map(|_| self.rng.q(0.0, 20.0)).collect();
                let (lo, hi) = range_of(&fp);
                let j = json!({"x": m.0, "xp": xp.iter().map(|v| lit(*v)).collect::<Vec<_>>(), "fp": fp.iter().map(|v| lit(*v)).collect::<Vec<_>>(), "error_on_bounds": false});
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "Rolling" => {
                let m = self.pmetric();
                let iv = self.rng.q(0.0, 10.0);
                let w = self.rng.range(1, 5);
                let f = *self.rng.pick(&["Sum", "Mean", "Min", "Max", "CountNonZero"]);
                let mut j = json!({"metric": m.0, "window_size": w, "initial_value": iv, "agg_func": {"type": f}});
                if self.rng.chance(0.5) {
                    j["min_values"] = json!(self.rng.range(1, w));
                }
                let (lo, hi) = match f {
                    "Sum" => ((m.1 * w as f64).min(m.1).min(iv), (m.2 * w as f64).max(m.2).max(iv)),
                    "CountNonZero" => (0f64.min(iv), (w as f64).max(iv)),
                    _ => (m.1.min(iv), m.2.max(iv)),
                };
                self.push_param(n, kind, j, false, lo, hi, true, false);
            }
            "RollingIndex" => {
                let w = self.rng.range(1, 4);
                let f = *self.rng.pick(&["Sum", "Min", "Max", "Any", "All"]);
                let mut j = json!({"metric": self.index_metric(4), "window_size": w, "initial_value": self.rng.below(3), "agg_func": {"type": f}});
                if self.rng.chance(0.5) {
                    j["min_values"] = json!(self.rng.range(1, w));
                }
                self.push_param(n, kind, j, true, 0.0, 12.0, true, false);
            }
            "HydropowerTarget" => {
                let t = self.metric(0.0, 50.0);
                let h = self.metric(5.0, 100.0);
                let mut j = json!({"target": t.0, "water_elevation": h.0, "turbine_elevation": 1.0, "min_head": 0.5,
                    "efficiency": 0.5, "water_density": 1000.0, "flow_unit_conversion": 1.0, "energy_unit_conversion": 1e-6});
                if self.rng.chance(0.5) {
                    j["max_flow"] = lit(self.rng.q(1.0, 20.0));
                }
                let after = self.nodes.iter().any(|n| n.ty == "Input" || n.ty == "Link") && self.rng.chance(0.4);
                if after {
                    let c: Vec<String> = self.nodes.iter().filter(|n| n.ty == "Input" || n.ty == "Link").map(|n| n.name.clone()).collect();
                    j["actual_flow"] = json!({"type": "Node", "name": self.rng.pick(&c), "attribute": "Outflow"});
                }
                self.push_param(n, kind, j, false, 0.0, 1e9, true, after);
            }
            _ => {}
        }
    }

    fn threshold_for(&mut self, m: &(Value, f64, f64)) -> Value {
        if self.rng.chance(0.3) {
            return self.metric(-20.0, 50.0).0;
        }
        let (lo, hi) = (m.1.max(-50.0), m.2.min(60.0));
        if hi - lo <= 2.0 { lit(lo + self.rng.range(0, 16) as f64 / 16.0 * (hi - lo).max(0.0)) } else { lit(self.rng.q(lo, hi)) }
    }

    /// A proportional volume: of a node, or a virtual one.
    fn prop_volume(&mut self) -> Option<Value> {
        let st: Vec<NInfo> = self.nodes.iter().filter(|n| n.storage).cloned().collect();
        let vs: Vec<_> = self.vnodes.iter().filter(|v| v.1 != "Aggregated").cloned().collect();
        if !vs.is_empty() && self.rng.chance(0.3) {
            let v = self.rng.pick(&vs).clone();
            return Some(json!({"type": "VirtualNode", "name": v.0, "attribute": "ProportionalVolume"}));
        }
        if st.is_empty() {
            return None;
        }
        let s = self.rng.pick(&st).clone();
        Some(json!({"type": "Node", "name": s.name, "attribute": "ProportionalVolume"}))
    }

    // ------------------------------------------------------------------ nodes

    pub fn cost(&mut self, lo: i64, hi: i64) -> Value {
        if self.cfg.unique {
            self.costs += 1;
            // Distinct, with distinct subset sums for practical purposes.
            let v = self.rng.range(lo * 8, hi * 8) as f64 / 8.0 + (self.costs as f64) / 1024.0 * 1.37;
            return lit((v * 65536.0).round() / 65536.0);
        }
        if self.rng.chance(0.15 * self.cfg.wired) {
            let m = self.metric(lo as f64, hi as f64);
            return m.0;
        }
        lit(self.rng.range(lo * 2, hi * 2) as f64 / 2.0)
    }

    /// A calendar profile whose values are picked from `vals`.
    /// Control curves at `cc`, the highest first; some of them change in time, and only if `free` may
    /// they cross.
    fn curves(&mut self, cc: &[f64], free: bool) -> Vec<Value> {
        if !self.rng.chance(0.35) {
            return cc.iter().map(|v| lit(*v)).collect();
        }
        cc.iter()
            .map(|v| match self.rng.below(3) {
                0 => lit(*v),
                _ if free => {
                    let other: Vec<f64> = (0..2).map(|_| self.rng.range(1, 15) as f64 / 16.0).collect();
                    self.profile(&[*v, other[0], other[1]])
                }
                _ => self.profile(&[*v, v - 0.03125, v + 0.03125]),
            })
            .collect()
    }

    pub fn profile(&mut self, vals: &[f64]) -> Value {
        let hourly = self.time["timestep"]["type"] == json!("Hours");
        let (kind, n) = match self.rng.weighted(&[4, 3, 2, if hourly { 8 } else { 0 }]) {
            0 => ("MonthlyProfile", 12),
            1 => ("WeeklyProfile", 52),
            2 => ("DailyProfile", 366),
            _ => ("DiurnalProfile", 24),
        };
        let v: Vec<f64> = (0..n).map(|_| *self.rng.pick(vals)).collect();
        let name = self.name("prof");
        let (lo, hi) = range_of(&v);
        self.push_param(&name, kind, json!({"values": {"type": "Literal", "values": v}}), false, lo, hi, true, false);
        json!({"type": "Parameter", "name": name})
    }

    /// Gives some nodes costs which are exchanged between them from time to time.
    fn rotate_costs(&mut self) {
        let kind = if self.rng.chance(0.6) { "Input" } else { "Output" };
        let mut who: Vec<usize> = (0..self.nodes.len())
            .filter(|&i| self.nodes[i].ty == kind && (kind == "Input" || self.njson[i].get("max_flow").is_some()) && self.njson[i].get("cost").is_some() && self.njson[i]["cost"]["value"].as_f64().is_none_or(|c| c.abs() < 100.0))
            .collect();
        if who.len() < 2 {
            return;
        }
        self.rng.shuffle(&mut who);
        who.truncate(3);
        let k = who.len();
        let base = if kind == "Input" { 1.0 } else { -14.0 };
        let vals: Vec<f64> = (0..k).map(|i| base + i as f64 * self.rng.q(0.5, 3.0)).collect();
        let hourly = self.time["timestep"]["type"] == json!("Hours");
        let (pk, n) = match self.rng.weighted(&[3, 3, if hourly { 9 } else { 0 }]) {
            0 => ("MonthlyProfile", 12),
            1 => ("DailyProfile", 366),
            _ => ("DiurnalProfile", 24),
        };
        let shift: Vec<usize> = (0..n).map(|_| self.rng.us(k)).collect();
        for (a, &i) in who.iter().enumerate() {
            let v: Vec<f64> = shift.iter().map(|s| vals[(a + s) % k]).collect();
            let name = self.name("turn");
            let (lo, hi) = range_of(&v);
            self.push_param(&name, pk, json!({"values": {"type": "Literal", "values": v}}), false, lo, hi, true, false);
            self.njson[i]["cost"] = json!({"type": "Parameter", "name": name});
        }
    }

    /// Links in series, each with bounds of its own on the same flow.
    fn gen_chain(&mut self, ins: &[String]) -> String {
        let k = self.rng.range(2, 4);
        let floor = if self.rng.chance(self.cfg.mins) { self.rng.q(0.5, 3.0) } else { 0.0 };
        let first = self.name("head");
        self.node(&first, "Link", json!({}), true, true, false);
        for u in ins {
            self.edge(u, &first);
        }
        let mut last = first.clone();
        for _ in 0..k {
            let name = self.name("reach");
            let mut j = json!({});
            let mut cb = true;
            if self.rng.chance(0.8) {
                j["max_flow"] = match self.rng.below(3) {
                    0 => lit(self.rng.q(floor + 0.5, 14.0)),
                    1 => {
                        let v: Vec<f64> = (0..3).map(|_| self.rng.q(floor + 0.5, 14.0)).collect();
                        self.profile(&v)
                    }
                    _ => self.metric(floor + 0.5, 16.0).0,
                };
                cb &= j["max_flow"]["type"] == json!("Literal");
            }
            if floor > 0.0 && self.rng.chance(0.5) {
                j["min_flow"] = match self.rng.below(3) {
                    0 => lit(self.rng.q(0.0, floor)),
                    1 => {
                        let v: Vec<f64> = (0..3).map(|_| self.rng.q(0.0, floor)).collect();
                        self.profile(&v)
                    }
                    _ => self.metric(0.0, floor).0,
                };
                cb &= j["min_flow"]["type"] == json!("Literal");
            }
            if self.rng.chance(0.3) || self.cfg.unique {
                j["cost"] = self.cost(-3, 4);
            }
            self.node(&name, "Link", j, true, true, false);
            self.nodes.last_mut().unwrap().const_bounds = cb;
            self.edge(&last, &name);
            last = name;
        }
        let end = self.name("foot");
        self.node(&end, "Link", json!({}), true, true, false);
        self.edge(&last, &end);
        if floor > 0.0 {
            self.relieve(&first, true, false);
            self.relieve(&end, false, true);
        }
        end
    }

    pub fn capacity(&mut self, hi: f64) -> (Value, bool) {
        if self.cfg.dyn_bounds {
            let m = self.metric(0.0, hi);
            let c = m.0["type"] == json!("Literal") || m.0["type"] == json!("Table");
            (m.0, c)
        } else {
            (lit(self.rng.q(0.0, hi)), true)
        }
    }

    fn node(&mut self, name: &str, ty: &'static str, j: Value, has_in: bool, has_out: bool, storage: bool) {
        let mut v = json!({"meta": {"name": name}, "type": ty});
        for (k, x) in j.as_object().unwrap() {
            v[k] = x.clone();
        }
        self.njson.push(v);
        self.nodes.push(NInfo { name: name.into(), ty, has_in, has_out, storage, relief: false, const_bounds: true });
    }

    pub fn edge(&mut self, from: &str, to: &str) {
        let e = json!({"from_node": from, "to_node": to});
        if !self.edges.contains(&e) {
            self.edges.push(e);
        }
    }

    pub fn edge_slot(&mut self, from: &str, slot: Value, to: &str) {
        self.edges.push(json!({"from_node": from, "from_slot": slot, "to_node": to}));
    }

    /// Makes `name` able to pass any flow: an expensive source before and a costly sink after.
    fn relieve(&mut self, name: &str, before: bool, after: bool) {
        if before {
            let e = self.name("emergency");
            self.node(&e, "Input", json!({"cost": lit(500.0)}), false, true, false);
            self.edge(&e, name);
        }
        if after {
            let z = self.name("sink");
            self.node(&z, "Output", json!({"cost": lit(400.0)}), true, false, false);
            self.edge(name, &z);
        }
    }

    pub fn gen_storage(&mut self) -> String {
        let name = self.name("store");
        let max = *self.rng.pick(&[20.0, 40.0, 60.0, 100.0, 150.0]);
        let mut j = json!({"max_volume": lit(max), "cost": self.cost(-12, 3)});
        let changing = self.cfg.dyn_bounds && self.rng.chance(0.2);
        if changing {
            let v: Vec<f64> = (0..3).map(|_| max * self.rng.range(8, 16) as f64 / 8.0).collect();
            j["max_volume"] = self.profile(&v);
        }
        let mut min = 0.0;
        if self.rng.chance(0.3) {
            min = self.rng.q(0.0, max / 4.0);
            j["min_volume"] = lit(min);
            if changing && self.rng.chance(0.5) {
                let v: Vec<f64> = (0..3).map(|_| min * self.rng.range(0, 8) as f64 / 8.0).collect();
                j["min_volume"] = self.profile(&v);
            }
        }
        j["initial_volume"] = if self.rng.chance(0.5) {
            json!({"type": "Absolute", "volume": self.rng.q(min, max)})
        } else {
            let lo = (min / max * 16.0).ceil() as i64;
            json!({"type": "Proportional", "proportion": self.rng.range(lo, 16) as f64 / 16.0})
        };
        self.node(&name, "Storage", j, true, true, true);
        if changing {
            // What no longer fits must go somewhere, and what is missing come from somewhere.
            if min > 0.0 {
                let e = self.name("emergency");
                self.node(&e, "Input", json!({"cost": lit(500.0)}), false, true, false);
                self.edge(&e, &name);
            }
            let z = self.name("spill");
            self.node(&z, "Output", json!({"cost": lit(400.0)}), true, false, false);
            self.edge(&name, &z);
        }
        name
    }

    pub fn gen_network(&mut self) {
        let total = self.rng.range(self.cfg.nodes.0, self.cfg.nodes.1);
        let ns = (total / 3).max(1);
        let no = (total / 4).max(1);
        let nm = (total - ns - no).max(0);
        let mut up: Vec<String> = vec![];
        // Sources.
        for _ in 0..ns {
            if self.rng.chance(0.3) {
                let name = self.name("catch");
                let (f, _) = self.capacity(20.0);
                let mut j = json!({"flow": f});
                if self.rng.chance(0.3) {
                    j["cost"] = self.cost(-2, 4);
                }
                self.node(&name, "Catchment", j, false, true, false);
                // Somewhere for the water to go.
                let l = self.name("stream");
                self.node(&l, "Link", json!({}), true, true, false);
                let z = self.name("sea");
                self.node(&z, "Output", json!({}), true, false, false);
                self.edge(&name, &l);
                self.edge(&l, &z);
                up.push(l);
            } else {
                let name = self.name("in");
                let mut j = json!({});
                let mut cb = true;
                if self.rng.chance(0.9) {
                    let (f, c) = self.capacity(20.0);
                    j["max_flow"] = f;
                    cb = c;
                }
                if self.rng.chance(0.6) || self.cfg.unique {
                    j["cost"] = self.cost(0, 8);
                }
                self.node(&name, "Input", j, false, true, false);
                self.nodes.last_mut().unwrap().const_bounds = cb;
                up.push(name);
            }
        }
        let mut need_out: Vec<String> = up.clone();
        // Middle.
        for _ in 0..nm {
            let n_in = self.rng.range(1, 2.min(up.len() as i64)) as usize;
            let mut ins: Vec<String> = vec![];
            for _ in 0..n_in {
                let pool = if !need_out.is_empty() && self.rng.chance(0.6) { &need_out } else { &up };
                let u = self.rng.pick(pool).clone();
                if !ins.contains(&u) {
                    ins.push(u);
                }
            }
            let name = if self.rng.chance(self.cfg.composite) {
                if self.rng.chance(0.2) { self.gen_chain(&ins) } else { self.gen_composite(&ins) }
            } else if self.rng.chance(self.cfg.storages) {
                let s = self.gen_storage();
                for u in &ins {
                    self.edge(u, &s);
                }
                s
            } else {
                let name = self.name("link");
                let mut j = json!({});
                let mut cb = true;
                let mut max = f64::INFINITY;
                if self.rng.chance(0.6) {
                    let (f, c) = self.capacity(25.0);
                    if let Some(v) = f["value"].as_f64() {
                        max = v;
                    } else {
                        max = 0.0;
                    }
                    j["max_flow"] = f;
                    cb = c;
                }
                if self.rng.chance(0.5) || self.cfg.unique {
                    j["cost"] = self.cost(-3, 5);
                }
                let mut relief = false;
                if self.rng.chance(self.cfg.mins) && max > 1.0 {
                    j["min_flow"] = lit(self.rng.q(0.0, max.min(10.0)));
                    relief = true;
                }
                if self.rng.chance(0.12) && !self.cfg.simple_lp {
                    let (f, _) = self.capacity(10.0);
                    j["soft_min"] = json!({"cost": self.cost(-30, -10), "flow": f});
                }
                if self.rng.chance(0.12) && !self.cfg.simple_lp {
                    let (f, _) = self.capacity(20.0);
                    j["soft_max"] = json!({"cost": self.cost(5, 20), "flow": f});
                }
                self.node(&name, "Link", j, true, true, false);
                let k = self.nodes.len() - 1;
                self.nodes[k].const_bounds = cb;
                self.nodes[k].relief = relief;
                for u in &ins {
                    self.edge(u, &name);
                }
                if relief {
                    self.relieve(&name, true, true);
                }
                name
            };
            need_out.retain(|x| !ins.contains(x));
            need_out.push(name.clone());
            up.push(name);
        }
        // Sinks.
        let mut outs = vec![];
        for _ in 0..no {
            let name = self.name("out");
            let mut j = json!({"cost": self.cost(-20, -5)});
            let mut cb = true;
            if self.rng.chance(0.95) {
                let (f, c) = self.capacity(25.0);
                j["max_flow"] = f;
                cb = c;
            } else {
                j["max_flow"] = lit(15.0);
            }
            self.node(&name, "Output", j, true, false, false);
            self.nodes.last_mut().unwrap().const_bounds = cb;
            outs.push(name);
        }
        for u in need_out.clone() {
            let o = self.rng.pick(&outs).clone();
            self.edge(&u, &o);
        }
        for o in outs.clone() {
            let has = self.edges.iter().any(|e| e["to_node"] == json!(o));
            if !has || self.rng.chance(0.4) {
                let u = self.rng.pick(&up).clone();
                if self.can_direct(&u) {
                    self.edge(&u, &o);
                } else if !has {
                    let l = self.name("join");
                    self.node(&l, "Link", json!({}), true, true, false);
                    self.edge(&u, &l);
                    self.edge(&l, &o);
                }
            }
        }
    }

    /// Nodes whose default output slot takes several edges freely.
    fn can_direct(&self, u: &str) -> bool {
        self.nodes.iter().find(|n| n.name == u).map(|n| !matches!(n.ty, "Delay" | "RiverSplitWithGauge" | "Abstraction" | "Reservoir")).unwrap_or(false)
    }

    pub fn gen_composite(&mut self, ins: &[String]) -> String {
        let kinds = ["LossLink", "PiecewiseLink", "River", "RiverGauge", "WaterTreatmentWorks", "Turbine", "Delay", "PiecewiseStorage"];
        let mut kind = *self.rng.pick(&kinds);
        if self.rng.chance(0.35) {
            kind = *self.rng.pick(&["Reservoir", "RiverSplitWithGauge", "Abstraction", "Routed"]);
        }
        match kind {
            "Reservoir" => return self.gen_reservoir(ins),
            "Abstraction" => return self.gen_abstraction(ins),
            "RiverSplitWithGauge" => return self.gen_split(ins),
            "Routed" if self.cfg.delay => return self.gen_routed(ins),
            "Routed" => kind = "River",
            _ => {}
        }
        if !self.cfg.delay && kind == "Delay" {
            kind = "RiverGauge";
        }
        let name = self.name(&kind.to_lowercase());
        let mut storage = false;
        let mut spill = false;
        // Has to carry some flow.
        let mut least = false;
        let j = match kind {
            "LossLink" => {
                let mut j = json!({});
                if self.rng.chance(0.8) {
                    j["loss_factor"] = self.loss();
                }
                if self.rng.chance(0.5) {
                    j["max_net_flow"] = self.capacity(20.0).0;
                } else if self.rng.chance(self.cfg.mins) {
                    j["min_net_flow"] = self.capacity(6.0).0;
                    least = true;
                }
                if self.rng.chance(0.5) || self.cfg.unique {
                    j["net_cost"] = self.cost(0, 4);
                }
                j
            }
            "PiecewiseLink" => {
                let k = self.rng.range(1, 3);
                let steps: Vec<Value> = (0..k)
                    .map(|i| {
                        let mut s = json!({"cost": self.cost(-4 + 3 * i, -2 + 4 * i)});
                        if i < k - 1 || self.rng.chance(0.5) {
                            s["max_flow"] = self.capacity(12.0).0;
                        }
                        s
                    })
                    .collect();
                json!({"steps": steps})
            }
            "River" => {
                let mut j = json!({});
                if self.rng.chance(0.5) {
                    j["loss_factor"] = self.loss();
                }
                j
            }
            "RiverGauge" => {
                json!({"mrf": self.capacity(8.0).0, "mrf_cost": self.cost(-30, -10), "bypass_cost": self.cost(0, 5)})
            }
            "WaterTreatmentWorks" => {
                let mut j = json!({});
                if self.rng.chance(0.7) {
                    j["loss_factor"] = self.loss();
                }
                if self.rng.chance(0.7) {
                    j["max_flow"] = self.capacity(20.0).0;
                }
                if self.rng.chance(0.5) {
                    j["soft_min_flow"] = self.capacity(6.0).0;
                    j["soft_min_flow_cost"] = self.cost(-20, -8);
                }
                if self.rng.chance(0.5) || self.cfg.unique {
                    j["cost"] = self.cost(0, 5);
                }
                j
            }
            "Turbine" => {
                let mut j = json!({"turbine_elevation": 1.0, "min_head": 0.5, "efficiency": 0.5, "water_density": 1000.0,
                    "flow_unit_conversion": 1.0, "energy_unit_conversion": 1e-3});
                if self.rng.chance(0.6) || self.cfg.unique {
                    j["cost"] = self.cost(-2, 3);
                }
                if self.rng.chance(0.7) {
                    j["water_elevation"] = lit(self.rng.q(5.0, 40.0));
                    j["target"] = lit(self.rng.q(100.0, 2000.0));
                    let how = if self.rng.chance(0.4 + self.cfg.mins) { *self.rng.pick(&["MaxFlow", "MinFlow", "Both"]) } else { "MaxFlow" };
                    least = how != "MaxFlow";
                    if how != "MaxFlow" || self.rng.chance(0.5) {
                        j["target_type"] = json!(how);
                    }
                    if self.rng.chance(0.3) {
                        // The head may vanish.
                        j["water_elevation"] = self.metric(0.0, 20.0).0;
                    }
                }
                j
            }
            "Delay" => {
                json!({"delay": {"type": "Literal", "value": self.rng.range(1, 3)}, "initial_value": lit(self.rng.q(0.0, 6.0))})
            }
            _ => {
                storage = true;
                let max = *self.rng.pick(&[40.0, 80.0]);
                let k = if self.rng.chance(0.3) { self.rng.range(3, 4) } else { self.rng.range(1, 2) };
                let moving = k < 4 && self.cfg.dyn_bounds && self.rng.chance(0.2);
                let curves: &[f64] = match k {
                    1 | 2 => &[0.25, 0.75],
                    3 => &[0.25, 0.5, 0.75],
                    _ => &[0.125, 0.375, 0.625, 0.875],
                };
                let gap = if k < 3 { 8 } else { 8 - k };
                let steps: Vec<Value> = (0..k)
                    .map(|i| {
                        let c = curves[i as usize];
                        let c = if moving { self.profile(&[c, c - 0.125, c + 0.125]) } else { lit(c) };
                        json!({"control_curve": c, "cost": self.cost(-19 + gap * i, -17 + gap * i)})
                    })
                    .collect();
                if moving {
                    spill = true;
                }
                let mut dead = 0.0;
                if !moving && self.rng.chance(0.35) {
                    dead = max * self.rng.range(0, 7) as f64 / 8.0;
                }
                let first = if self.rng.chance(0.5) {
                    json!({"type": "Absolute", "volume": self.rng.q(dead, max)})
                } else {
                    json!({"type": "Proportional", "proportion": self.rng.range((dead / max * 16.0).ceil() as i64, 16) as f64 / 16.0})
                };
                let mut j = json!({"max_volume": lit(max), "steps": steps, "cost": self.cost(-4, -2), "initial_volume": first});
                if dead > 0.0 {
                    j["min_volume"] = lit(dead);
                }
                j
            }
        };
        self.node(&name, kind, j, true, true, storage);
        for u in ins {
            self.edge(u, &name);
        }
        if spill {
            let z = self.name("spill");
            self.node(&z, "Output", json!({"cost": lit(400.0)}), true, false, false);
            self.edge(&name, &z);
        }
        if least {
            self.relieve(&name, true, true);
        }
        if kind == "Delay" {
            return self.outfall(&name);
        }
        name
    }

    /// What comes out is fixed: let it go somewhere.
    fn outfall(&mut self, name: &str) -> String {
        let l = self.name("after");
        self.node(&l, "Link", json!({}), true, true, false);
        self.edge(name, &l);
        let z = self.name("sea");
        self.node(&z, "Output", json!({}), true, false, false);
        self.edge(&l, &z);
        l
    }

    fn demand(&mut self) -> String {
        let z = self.name("use");
        let c = self.cost(-15, -3);
        let m = self.capacity(10.0).0;
        self.node(&z, "Output", json!({"cost": c, "max_flow": m}), true, false, false);
        z
    }

    /// A reservoir with compensation flow, spill, rain, evaporation and leakage.
    fn gen_reservoir(&mut self, ins: &[String]) -> String {
        let name = self.gen_storage();
        let k = self.nodes.iter().position(|n| n.name == name).unwrap();
        self.nodes[k].ty = "Reservoir";
        let at = self.njson.iter().position(|j| j["meta"]["name"] == json!(name)).unwrap();
        self.njson[at]["type"] = json!("Reservoir");
        let max = self.njson[at]["max_volume"]["value"].as_f64();
        for u in ins {
            self.edge(u, &name);
        }
        let rain = self.rng.chance(0.4);
        let comp = self.rng.chance(0.5);
        let spill = if rain || self.rng.chance(0.6) { Some(*self.rng.pick(&["OutputNode", "LinkNode"])) } else { None };
        let mut joined = true;
        if comp {
            self.njson[at]["compensation"] = self.capacity(4.0).0;
            self.nodes[k].relief = true;
            let e = self.name("emergency");
            self.node(&e, "Input", json!({"cost": lit(500.0)}), false, true, false);
            self.edge(&e, &name);
            if self.rng.chance(0.5) || spill.is_none() {
                joined = self.rng.chance(0.4) && spill.is_some();
                self.njson[at]["connect_compensation_to_spill"] = json!(joined);
                let z = self.name("sink");
                let c = self.cost(0, 4);
                self.node(&z, "Output", json!({"cost": c}), true, false, false);
                self.edge_slot(&name, json!({"type": "Compensation"}), &z);
            }
        }
        let _ = joined;
        if let Some(t) = spill {
            self.njson[at]["spill"] = json!(t);
            if t == "LinkNode" {
                let z = self.name("sea");
                let c = self.cost(1, 6);
                self.node(&z, "Output", json!({"cost": c}), true, false, false);
                self.edge_slot(&name, json!({"type": "Spill"}), &z);
            }
        }
        let evap = self.rng.chance(0.4);
        if rain || evap {
            let prop = self.rng.chance(0.5) || max.is_none();
            let top = if prop { 1.0 } else { max.unwrap() };
            let data = if self.rng.chance(0.5) {
                let n = self.rng.range(2, 4) as usize;
                let xs: Vec<f64> = (0..n).map(|i| top * i as f64 / (n - 1) as f64).collect();
                let mut a = 0.0;
                let ys: Vec<f64> = (0..n)
                    .map(|_| {
                        a += self.rng.q(0.0, 2.0);
                        a
                    })
                    .collect();
                json!({"Interpolated": {"storage": {"type": "Literal", "values": xs}, "area": {"type": "Literal", "values": ys}}})
            } else {
                let n = self.rng.range(1, 3);
                let mut scale = 1.0;
                let c: Vec<f64> = (0..n)
                    .map(|_| {
                        let v = self.rng.range(1, 8) as f64 / 4.0 / scale;
                        scale *= top;
                        v
                    })
                    .collect();
                json!({"Polynomial": c})
            };
            self.njson[at]["surface_area"] = json!({"data": data, "is_storage_proportional": prop});
            for (k, yes) in [("rainfall", rain), ("evaporation", evap)] {
                if yes {
                    let d = self.capacity(2.0).0;
                    let mut j = json!({"data": d});
                    if self.rng.chance(0.4) {
                        j["use_max_area"] = json!(self.rng.chance(0.6));
                    }
                    if k == "evaporation" && self.rng.chance(0.8) {
                        j["cost"] = self.cost(-40, -20);
                    }
                    self.njson[at][k] = j;
                }
            }
        }
        if self.rng.chance(0.3) {
            let l = self.capacity(2.0).0;
            let mut j = json!({"loss": l});
            if self.rng.chance(0.7) {
                j["cost"] = self.cost(-40, -20);
            }
            self.njson[at]["leakage"] = j;
        }
        name
    }

    fn gen_abstraction(&mut self, ins: &[String]) -> String {
        let name = self.name("abstraction");
        let mut j = json!({});
        if self.rng.chance(0.6) {
            j["mrf"] = self.capacity(8.0).0;
            j["mrf_cost"] = self.cost(-30, -10);
        }
        let mut least = false;
        if self.rng.chance(0.7) {
            j["abs_max_flow"] = self.capacity(10.0).0;
        } else if self.rng.chance(self.cfg.mins) {
            j["abs_min_flow"] = self.capacity(4.0).0;
            least = true;
        }
        if self.rng.chance(0.6) {
            j["abs_cost"] = self.cost(-4, 2);
        }
        self.node(&name, "Abstraction", j, true, true, false);
        for u in ins {
            self.edge(u, &name);
        }
        let z = self.demand();
        self.edge_slot(&name, json!({"type": "Abstraction"}), &z);
        if least {
            let e = self.name("emergency");
            self.node(&e, "Input", json!({"cost": lit(500.0)}), false, true, false);
            self.edge(&e, &name);
            let z = self.name("sink");
            self.node(&z, "Output", json!({"cost": lit(400.0)}), true, false, false);
            self.edge_slot(&name, json!({"type": "Abstraction"}), &z);
        }
        if self.rng.chance(0.3) {
            let z = self.name("sea");
            self.node(&z, "Output", json!({}), true, false, false);
            self.edge_slot(&name, json!({"type": "River"}), &z);
        }
        name
    }

    fn gen_split(&mut self, ins: &[String]) -> String {
        let name = self.name("split");
        let k = self.rng.range(1, 2) as usize;
        let mut slots = vec![];
        let splits: Vec<Value> = (0..k)
            .map(|i| {
                let ok: Vec<PInfo> = self.params.iter().filter(|p| !self.cfg.simple_lp && p.before && !p.index && p.lo >= 0.1 && p.hi <= 0.8).cloned().collect();
                let f = if ok.is_empty() || self.rng.chance(0.3) {
                    lit(self.rng.range(1, 6) as f64 / 8.0)
                } else {
                    let p = self.rng.pick(&ok).clone();
                    self.pref(&p, "Before")
                };
                let mut j = json!({"factor": f});
                if self.rng.chance(0.5) {
                    let n = format!("way {i}");
                    j["slot_name"] = json!(n);
                    slots.push(json!({"type": "User", "name": n}));
                } else {
                    slots.push(json!({"type": "Split", "position": i}));
                }
                j
            })
            .collect();
        let mut j = json!({"splits": splits});
        if self.rng.chance(0.7) {
            j["mrf"] = self.capacity(8.0).0;
            j["mrf_cost"] = self.cost(-30, -10);
        }
        self.node(&name, "RiverSplitWithGauge", j, true, true, false);
        for u in ins {
            self.edge(u, &name);
        }
        for s in slots {
            let z = self.demand();
            self.edge_slot(&name, s, &z);
        }
        name
    }

    /// A river reach with travel time.
    fn gen_routed(&mut self, ins: &[String]) -> String {
        let name = self.name("reach");
        let way = if self.cfg.simple_lp || self.rng.chance(0.4) {
            json!({"type": "Delay", "delay": self.rng.range(1, 3), "initial_value": lit(self.rng.q(0.0, 6.0))})
        } else {
            let k = self.rng.range(8, 16) as f64 / 8.0;
            let x = self.rng.range(0, 4) as f64 / 16.0;
            let start = if self.rng.chance(0.5) {
                json!({"type": "SteadyState"})
            } else {
                json!({"type": "Specified", "inflow": self.rng.q(0.0, 6.0), "outflow": self.rng.q(0.0, 6.0)})
            };
            let t = if self.rng.chance(0.4) { self.profile(&[k, 1.0, 1.5]) } else { lit(k) };
            json!({"type": "Muskingum", "travel_time": t, "weight": lit(x), "initial_condition": start})
        };
        let mut j = json!({"routing_method": way});
        if self.rng.chance(0.4) {
            j["loss_factor"] = self.loss();
        }
        // Attenuation asks for much inflow to get a little more out.
        let gate = self.name("gate");
        let top = lit(self.rng.q(5.0, 40.0));
        self.node(&gate, "Link", json!({"max_flow": top}), true, true, false);
        for u in ins {
            self.edge(u, &gate);
        }
        self.node(&name, "River", j, true, true, false);
        self.edge(&gate, &name);
        self.outfall(&name)
    }

    fn loss(&mut self) -> Value {
        let f = lit(self.rng.range(0, 4) as f64 / 16.0);
        let t = *self.rng.pick(&["Net", "Gross"]);
        json!({"type": t, "factor": f})
    }

    /// Nodes that have to carry what comes from a catchment or a delay.
    fn forced(&self, name: &str) -> bool {
        ["stream", "after", "sea", "sink"].iter().any(|p| name[self.prefix.len()..].starts_with(p))
    }

    pub fn gen_virtual(&mut self) {
        let flow_nodes: Vec<NInfo> =
            self.nodes.iter().filter(|n| matches!(n.ty, "Input" | "Link" | "Output") && !n.name.contains("emergency") && !self.forced(&n.name)).cloned().collect();
        let stores: Vec<NInfo> = self.nodes.iter().filter(|n| matches!(n.ty, "Storage" | "PiecewiseStorage" | "Reservoir")).cloned().collect();
        if self.rng.chance(self.cfg.aggstor) && !stores.is_empty() {
            let name = self.name("aggstore");
            let k = self.rng.range(1, stores.len().min(3) as i64) as usize;
            let mut s = stores.clone();
            self.rng.shuffle(&mut s);
            let members: Vec<Value> = s[..k].iter().map(|n| json!({"name": n.name})).collect();
            self.vjson.push(json!({"meta": {"name": name}, "type": "AggregatedStorage", "storage_nodes": members}));
            self.vnodes.push((name, "AggregatedStorage"));
        }
        let mut taken: Vec<String> = vec![];
        if self.rng.chance(self.cfg.agg) && flow_nodes.len() >= 2 {
            let name = self.name("agg");
            // A split with a soft link is several nodes inside; keep to plain members.
            let mut plain: Vec<NInfo> = flow_nodes
                .iter()
                .filter(|n| {
                    let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                    j.get("soft_min").is_none() && j.get("soft_max").is_none() && j.get("min_flow").is_none()
                })
                .cloned()
                .collect();
            if self.rng.chance(0.4) {
                plain.extend(self.limitable());
            }
            if plain.len() >= 2 {
                let k = self.rng.range(2, plain.len().min(3) as i64) as usize;
                let mut s = plain.clone();
                self.rng.shuffle(&mut s);
                let m = &s[..k];
                let m = m.to_vec();
                let members: Vec<Value> = m.iter().map(|n| self.member(n)).collect();
                taken = m.iter().map(|n| n.name.clone()).collect();
                let mut j = json!({"meta": {"name": name}, "type": "Aggregated", "nodes": members});
                if self.rng.chance(0.6) {
                    j["max_flow"] = self.capacity(25.0).0;
                }
                if self.rng.chance(0.7) {
                    let dynf = !self.cfg.simple_lp && self.rng.chance(0.4);
                    let fac = |g: &mut Gen, lo: f64, hi: f64| {
                        if dynf {
                            // Only strictly positive values.
                            let ok: Vec<PInfo> = g.params.iter().filter(|p| p.before && !p.index && p.lo >= lo && p.hi <= hi).cloned().collect();
                            if !ok.is_empty() {
                                let p = g.rng.pick(&ok).clone();
                                return g.pref(&p, "Before");
                            }
                        }
                        lit(g.rng.range((lo * 8.0) as i64, (hi * 8.0) as i64) as f64 / 8.0)
                    };
                    // Coefficients are documented to be limited to two members.
                    match self.rng.below(if k == 2 { 3 } else { 2 }) {
                        0 => {
                            let f: Vec<Value> = (0..k).map(|_| fac(self, 0.5, 4.0)).collect();
                            j["relationship"] = json!({"type": "Ratio", "factors": f});
                        }
                        1 => {
                            let f: Vec<Value> = (0..k - 1).map(|_| lit(self.rng.range(1, 3) as f64 / 8.0)).collect();
                            j["relationship"] = json!({"type": "Proportion", "factors": f});
                        }
                        _ => {
                            let mut f: Vec<Value> = (0..k).map(|_| fac(self, 0.5, 4.0)).collect();
                            // One member balances the others.
                            f[0] = lit(-(self.rng.range(4, 16) as f64) / 8.0);
                            j["relationship"] = json!({"type": "Coefficients", "factors": f});
                            if self.rng.chance(0.35) {
                                // The first member may be used alone to meet it, in part.
                                j["relationship"]["rhs"] = fac(self, 0.0, 2.0);
                            }
                        }
                    }
                }
                self.vjson.push(j);
                self.vnodes.push((name, "Aggregated"));
            }
        }
        if !self.cfg.simple_lp && self.rng.chance(self.cfg.exclusive) {
            let cand: Vec<NInfo> = flow_nodes
                .iter()
                .filter(|n| {
                    let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                    !taken.contains(&n.name) && j.get("soft_min").is_none() && j.get("soft_max").is_none() && j.get("min_flow").is_none() && j.get("max_flow").is_some()
                })
                .cloned()
                .collect();
            if cand.len() >= 2 {
                let name = self.name("excl");
                let k = self.rng.range(2, cand.len().min(4) as i64) as usize;
                let mut s = cand;
                self.rng.shuffle(&mut s);
                let members: Vec<Value> = s[..k].iter().map(|n| json!({"name": n.name})).collect();
                let mut rel = json!({"type": "Exclusive"});
                if self.rng.chance(0.4) && k > 2 {
                    rel["max_active"] = json!(self.rng.range(1, k as i64 - 1));
                }
                if self.rng.chance(0.4) {
                    // Some members have a minimum flow when active; one can always be active without.
                    for n in &s[1..k] {
                        let j = self.njson.iter_mut().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                        let hi = if j["max_flow"]["type"] == "Literal" { j["max_flow"]["value"].as_f64().unwrap() } else { 0.0 };
                        if hi > 0.5 && (j["type"] == "Input" || j["type"] == "Output" || j["type"] == "Link") {
                            let v = self.rng.q(0.0, hi);
                            j["min_flow"] = lit(v);
                        }
                    }
                    if self.rng.chance(0.5) {
                        rel["min_active"] = json!(1);
                    }
                }
                self.vjson.push(json!({"meta": {"name": name}, "type": "Aggregated", "nodes": members, "relationship": rel}));
                self.vnodes.push((name, "Aggregated"));
            }
        }
        let nvs = if self.rng.chance(self.cfg.vs) { self.rng.range(1, 2) } else { 0 };
        for _ in 0..nvs {
            let mut cand: Vec<NInfo> = flow_nodes
                .iter()
                .filter(|n| {
                    let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                    j.get("min_flow").is_none() && j.get("soft_min").is_none() && j.get("soft_max").is_none()
                })
                .cloned()
                .collect();
            if self.rng.chance(0.4) {
                cand.extend(self.limitable());
            }
            if cand.is_empty() {
                break;
            }
            self.gen_vs(&cand);
        }
    }

    /// A reference to a node, or one of its parts, as a member of a virtual node.
    fn member(&mut self, n: &NInfo) -> Value {
        let mut j = json!({"name": n.name});
        let d = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap().clone();
        let c: &[&str] = match n.ty {
            "Delay" => &["Inflow"],
            "River" if !d["routing_method"].is_null() => &["Inflow"],
            "LossLink" | "River" | "WaterTreatmentWorks" if !d["loss_factor"].is_null() => &["", "Inflow", "Outflow", "Loss"],
            "LossLink" | "River" | "WaterTreatmentWorks" | "PiecewiseLink" | "RiverGauge" | "Turbine" | "RiverSplitWithGauge" => &["", "Inflow", "Outflow"],
            "Abstraction" => &["", "Inflow", "Outflow", "Abstraction"],
            "Link" => &["", "", "", "Inflow", "Outflow"],
            _ => &[""],
        };
        let c = *self.rng.pick(c);
        if !c.is_empty() {
            j["component"] = json!(c);
        }
        j
    }

    /// Parts of the network built from several nodes that may be limited as one.
    fn limitable(&self) -> Vec<NInfo> {
        self.nodes
            .iter()
            .filter(|n| {
                let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                matches!(n.ty, "LossLink" | "River" | "WaterTreatmentWorks" | "PiecewiseLink" | "RiverGauge" | "Turbine" | "RiverSplitWithGauge" | "Abstraction" | "Delay")
                    && j.get("min_net_flow").is_none()
                    && j.get("abs_min_flow").is_none()
                    && (j.get("target_type").is_none() || j["target_type"] == "MaxFlow")
            })
            .cloned()
            .collect()
    }

    pub fn gen_vs(&mut self, cand: &[NInfo]) {
        let name = self.name("lic");
        let k = self.rng.range(1, cand.len().min(3) as i64) as usize;
        let mut s = cand.to_vec();
        self.rng.shuffle(&mut s);
        let members: Vec<Value> = s[..k].to_vec().iter().map(|n| self.member(n)).collect();
        let max = *self.rng.pick(&[20.0, 50.0, 100.0, 200.0]);
        let mut j = json!({"meta": {"name": name}, "type": "VirtualStorage", "nodes": members, "max_volume": lit(max)});
        if self.rng.chance(0.5) {
            let f: Vec<f64> = (0..k).map(|_| self.rng.range(2, 16) as f64 / 8.0).collect();
            j["factors"] = json!(f);
        }
        let mut min = 0.0;
        if self.rng.chance(0.25) {
            min = self.rng.q(0.0, max / 8.0);
            j["min_volume"] = lit(min);
        }
        if self.rng.chance(0.2) {
            j["cost"] = self.cost(0, 3);
        }
        j["initial_volume"] = if self.rng.chance(0.5) {
            json!({"type": "Absolute", "volume": self.rng.q(min, max)})
        } else {
            json!({"type": "Proportional", "proportion": self.rng.range((min / max * 16.0).ceil() as i64, 16) as f64 / 16.0})
        };
        match self.rng.below(6) {
            0 => {}
            1 => j["reset"] = json!({"type": "Never"}),
            2 => {
                let (d, m) = self.day_in_run();
                j["reset"] = json!({"type": "Annual", "day": d, "month": m});
            }
            3 => j["reset"] = json!({"type": "Monthly", "months": self.rng.range(1, 4)}),
            4 => {
                let (d, m) = self.day_in_run();
                let (d2, m2) = self.day_in_run();
                j["reset"] = json!({"type": "Seasonal", "start_day": d, "start_month": m, "end_day": d2, "end_month": m2});
            }
            _ => {
                j["window"] = if self.rng.chance(0.5) && self.time["timestep"]["type"] == json!("Days") {
                    let d = self.time["timestep"]["days"].as_i64().unwrap_or(1);
                    json!({"type": "Days", "days": d * self.rng.range(2, 5)})
                } else {
                    json!({"type": "Timesteps", "timesteps": self.rng.range(2, 5)})
                };
            }
        }
        if self.rng.chance(0.4) {
            j["reset_volume"] = json!(*self.rng.pick(&["Initial", "Max"]));
        }
        if self.cfg.dyn_bounds && j.get("window").is_none() && self.rng.chance(0.2) {
            // A licence cannot give water back: its volume must always fit.
            let v: Vec<f64> = (0..3).map(|_| max * self.rng.range(8, 14) as f64 / 8.0).collect();
            j["max_volume"] = self.profile(&v);
            j["initial_volume"] = json!({"type": "Absolute", "volume": self.rng.q(min, max)});
            j["reset_volume"] = json!("Initial");
        }
        self.vjson.push(j);
        self.vnodes.push((name, "VirtualStorage"));
    }

    /// A day of the calendar, the last ones of the months included.
    fn any_day(&mut self) -> (i64, i64) {
        if self.rng.chance(0.15) {
            return (29, 2);
        }
        let m = self.rng.range(1, 12);
        let last = cal::month_days(2016, m);
        (if self.rng.chance(0.2) { last } else { self.rng.range(1, last) }, m)
    }

    fn day_in_run(&mut self) -> (i64, i64) {
        let st = cal::steps(&self.time);
        let d = self.rng.pick(&st).0;
        if self.rng.chance(0.15) { self.any_day() } else { (d.d as i64, d.m as i64) }
    }

    /// The complete single-network model.
    pub fn model(&mut self) {
        self.gen_time();
        self.gen_scenarios();
        self.gen_series();
        self.gen_tables();
        self.body();
    }

    pub fn body(&mut self) {
        let np = self.rng.range(self.cfg.params.0, self.cfg.params.1);
        let first = np / 2;
        for _ in 0..first {
            self.gen_param();
        }
        self.gen_network();
        if self.cfg.dyn_bounds && !self.cfg.unique && self.rng.chance(0.12) {
            self.rotate_costs();
        }
        self.gen_virtual();
        for _ in first..np {
            self.gen_param();
        }
        // Use some of the later parameters (which see the network's state) as bounds too.
        if self.cfg.dyn_bounds && self.rng.chance(self.cfg.wired) {
            let late: Vec<PInfo> =
                self.params.iter().skip(first as usize).filter(|p| p.before && p.lo >= 0.0 && p.hi <= 5000.0).cloned().collect();
            if !late.is_empty() {
                for _ in 0..2 {
                    let p = self.rng.pick(&late).clone();
                    let i = self.rng.us(self.njson.len());
                    let ty = self.nodes[i].ty;
                    if matches!(ty, "Input" | "Output") && self.njson[i].get("max_flow").is_some() {
                        let v = self.pref(&p, "Before");
                        self.njson[i]["max_flow"] = v;
                        self.nodes[i].const_bounds = false;
                    }
                }
            }
        }
    }

    /// Metrics covering every parameter, the virtual nodes and some node attributes.
    pub fn obs_metrics(&mut self) -> Vec<Value> {
        let mut m = vec![];
        for p in &self.params {
            if p.before {
                m.push(json!({"type": "Parameter", "name": p.name, "return_value": "Before"}));
            }
            if p.after {
                m.push(json!({"type": "Parameter", "name": p.name, "return_value": "After"}));
            }
        }
        for (n, k) in &self.vnodes {
            match *k {
                "Aggregated" => {
                    m.push(json!({"type": "VirtualNode", "name": n, "attribute": "Outflow"}));
                    m.push(json!({"type": "VirtualNode", "name": n, "attribute": "Inflow"}));
                }
                "VirtualStorage" => {
                    for a in ["Volume", "ProportionalVolume"] {
                        m.push(json!({"type": "VirtualNode", "name": n, "attribute": a}));
                    }
                }
                _ => {
                    m.push(json!({"type": "VirtualNode", "name": n, "attribute": "Volume"}));
                    m.push(json!({"type": "VirtualNode", "name": n, "attribute": "ProportionalVolume"}));
                }
            }
        }
        for n in &self.nodes {
            for a in attrs(n.ty) {
                if *a == "Deficit" {
                    let j = self.njson.iter().find(|j| j["meta"]["name"] == json!(n.name)).unwrap();
                    if j.get("max_flow").is_none() {
                        continue;
                    }
                }
                m.push(json!({"type": "Node", "name": n.name, "attribute": a}));
            }
            if n.ty == "Turbine" {
                m.push(json!({"type": "Node", "name": n.name, "attribute": "Power"}));
            }
        }
        for (s, _, _) in &self.series {
            m.push(s.clone());
        }
        for (t, _) in &self.table_refs {
            m.push(t.clone());
        }
        m
    }

    pub fn network(&mut self) -> Map<String, Value> {
        let obs = self.obs_metrics();
        let mut params = self.pjson.clone();
        // Declaration order must not matter.
        self.rng.shuffle(&mut params);
        let mut net = Map::new();
        if !self.params.is_empty() && self.rng.chance(0.3) {
            self.localise();
        }
        net.insert("nodes".into(), json!(self.njson));
        net.insert("edges".into(), json!(self.edges));
        if !self.vjson.is_empty() {
            net.insert("virtual_nodes".into(), json!(self.vjson));
        }
        if !params.is_empty() {
            net.insert("parameters".into(), json!(params));
        }
        if !self.tables.is_empty() {
            net.insert("tables".into(), json!(self.tables));
        }
        if !self.timeseries.is_empty() {
            net.insert("timeseries".into(), json!(self.timeseries));
        }
        net.insert("metric_sets".into(), json!([{"name": "obs", "metrics": obs}]));
        net
    }

    /// Lets nodes use parameters of their own, named like those of other nodes or of the network.
    fn localise(&mut self) {
        let names: Vec<String> = self.params.iter().map(|p| p.name.clone()).collect();
        for k in 0..self.njson.len() {
            let mut d = self.njson[k].clone();
            let mut made: Vec<Value> = vec![];
            let mut r = Rng::new(self.rng.u64());
            let simple = self.cfg.simple_lp;
            fn walk(v: &mut Value, key: &str, r: &mut Rng, names: &[String], made: &mut Vec<Value>, simple: bool) {
                match v {
                    Value::Array(a) => a.iter_mut().for_each(|x| walk(x, key, r, names, made, simple)),
                    Value::Object(o) => {
                        let plain = o.get("type") == Some(&json!("Parameter")) && matches!(o.get("return_value").and_then(|v| v.as_str()), None | Some("Before"));
                        if !plain {
                            for (k, x) in o.iter_mut() {
                                walk(x, k, r, names, made, simple);
                            }
                            return;
                        }
                        if r.chance(0.4) || made.len() > 3 || (simple && !["max_flow", "flow", "cost"].contains(&key)) {
                            return;
                        }
                        let of = v.clone();
                        let mut last = of;
                        for _ in 0..r.range(1, 2) {
                            let free = |n: &String| made.iter().all(|d| d["meta"]["name"] != json!(n)) && json!(n) != last["name"];
                            let mut n = if r.chance(0.5) { r.pick(names).clone() } else { format!("own {}", made.len()) };
                            if !free(&n) {
                                n = format!("own {}", made.len());
                            }
                            made.push(json!({"meta": {"name": n}, "type": "Aggregated", "agg_func": {"type": "Sum"}, "metrics": [last], "phase": "Before"}));
                            last = json!({"type": "LocalParameter", "name": n});
                        }
                        *v = last;
                    }
                    _ => {}
                }
            }
            walk(&mut d, "", &mut r, &names, &mut made, simple);
            if !made.is_empty() {
                r.shuffle(&mut made);
                d["parameters"] = json!(made);
                self.njson[k] = d;
            }
        }
    }

    pub fn scenarios_json(&self) -> Option<Value> {
        if self.group_json.is_empty() {
            return None;
        }
        let mut s = json!({"groups": self.group_json});
        if let Some(c) = &self.combos {
            s["combinations"] = c.clone();
        }
        Some(s)
    }

    pub fn finish(&mut self) -> Value {
        let net = self.network();
        let mut m = json!({"metadata": {"title": "generated"}, "time": self.time, "network": net});
        if let Some(s) = self.scenarios_json() {
            m["scenarios"] = s;
        }
        m
    }
}

pub fn attrs(ty: &str) -> &'static [&'static str] {
    match ty {
        "Input" | "Catchment" => &["Outflow"],
        "Link" => &["Inflow", "Outflow"],
        "Output" => &["Inflow", "Deficit"],
        "Storage" => &["Volume", "ProportionalVolume", "MaxVolume"],
        "Reservoir" => &["Volume", "ProportionalVolume", "MaxVolume", "Compensation", "Rainfall", "Evaporation"],
        "Abstraction" => &["Inflow", "Outflow", "Abstraction"],
        "RiverSplitWithGauge" => &["Inflow", "Outflow"],
        "PiecewiseStorage" => &["Volume", "ProportionalVolume"],
        "LossLink" | "River" | "WaterTreatmentWorks" => &["Inflow", "Outflow", "Loss"],
        "PiecewiseLink" | "RiverGauge" | "Delay" => &["Inflow", "Outflow"],
        "Turbine" => &["Inflow", "Outflow"],
        _ => &[],
    }
}

fn range_of(v: &[f64]) -> (f64, f64) {
    (v.iter().copied().fold(f64::INFINITY, f64::min), v.iter().copied().fold(f64::NEG_INFINITY, f64::max))
}

/// A generated multi-network model: (model, files).
pub fn multi(r: &mut Rng, cfg: Cfg, count: usize) -> (Value, Value) {
    let mut base = Gen::new(Rng::new(r.u64()), cfg);
    base.gen_time();
    base.gen_scenarios();
    let names: Vec<String> = (0..count).map(|k| ["up", "mid", "down", "zone", "west"][k].to_string()).collect();
    let mut files = BTreeMap::new();
    let mut nets: Vec<Value> = vec![];
    let mut gens: Vec<Gen> = vec![];
    // (from, name, lo, hi) of the transfers of each network; those from later networks are given
    // their metric when these exist.
    let mut wanted: Vec<Vec<(usize, String, f64, f64)>> = vec![];
    let mut have: Vec<Vec<Value>> = vec![];
    for k in 0..count {
        let mut g = base.clone();
        g.rng = Rng::new(r.u64());
        g.prefix = format!("{}_", names[k]);
        g.next = 0;
        g.gen_series();
        g.gen_tables();
        // Files are named after the network too.
        let mut late = vec![];
        let mut now = vec![];
        let nt = if k > 0 { r.range(1, 4) } else { r.range(0, 3) };
        let mut ids: Vec<usize> = (0..nt as usize).collect();
        r.shuffle(&mut ids);
        for i in ids {
            let name = format!("t{i}");
            let from = r.us(count);
            if from == k {
                continue;
            }
            if from < k {
                let (m, lo, hi) = transferable(r, &gens[from], f64::NEG_INFINITY, f64::INFINITY);
                let mut t = json!({"from_network": names[from], "metric": m, "name": name});
                let (mut lo, mut hi) = (lo, hi);
                if r.chance(0.35) {
                    let v = r.q(lo.max(0.0), hi.min(lo.max(0.0) + 500.0).max(lo.max(0.0)));
                    t["initial_value"] = json!(v);
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
                g.series.push((json!({"type": "InterNetworkTransfer", "name": name}), lo, hi));
                now.push(t);
            } else {
                let hi = *r.pick(&[1.0, 2000.0, 2000.0]);
                g.series.push((json!({"type": "InterNetworkTransfer", "name": name}), 0.0, hi));
                late.push((from, name, 0.0, hi));
            }
        }
        g.body();
        // Something in this network must depend on what it is sent.
        let sent: Vec<_> = g.series.iter().filter(|s| s.0["type"] == "InterNetworkTransfer" && s.1 >= 0.0 && s.2 <= 3000.0).cloned().collect();
        if !sent.is_empty() && r.chance(0.8) {
            let (m, _, _) = r.pick(&sent).clone();
            let free: Vec<usize> = (0..g.njson.len())
                .filter(|i| matches!(g.nodes[*i].ty, "Input" | "Output") && g.njson[*i].get("max_flow").is_some() && g.njson[*i].get("min_flow").is_none())
                .collect();
            if !free.is_empty() {
                let i = *r.pick(&free);
                g.njson[i]["max_flow"] = m;
                g.nodes[i].const_bounds = false;
            }
        }
        files.append(&mut g.files.clone());
        gens.push(g);
        have.push(now);
        wanted.push(late);
    }
    for k in 0..count {
        for (from, name, lo, hi) in wanted[k].clone() {
            let (m, _, _) = transferable(r, &gens[from], lo, hi);
            let mut t = json!({"from_network": names[from], "metric": m, "name": name});
            t["initial_value"] = json!(r.q(lo, hi.min(400.0)));
            have[k].push(t);
        }
        r.shuffle(&mut have[k]);
    }
    // What is sent is recorded too.
    for k in 0..count {
        let mut net = json!(gens[k].network());
        let obs = net["metric_sets"][0]["metrics"].as_array_mut().unwrap();
        for t in have.iter().flatten().filter(|t| t["from_network"] == json!(names[k])) {
            if t["metric"]["type"] != "Literal" && !obs.contains(&t["metric"]) {
                obs.push(t["metric"].clone());
            }
        }
        nets.push(json!({"name": names[k], "network": net, "transfers": have[k]}));
    }
    let mut m = json!({"metadata": {"title": "generated"}, "time": base.time, "networks": nets});
    if let Some(s) = base.scenarios_json() {
        m["scenarios"] = s;
    }
    (m, json!(files))
}

/// Something of a network whose values lie in a range.
fn transferable(r: &mut Rng, g: &Gen, lo: f64, hi: f64) -> (Value, f64, f64) {
    let mut c: Vec<(Value, f64, f64)> = vec![];
    for p in g.params.iter().filter(|p| !p.index) {
        if p.after {
            c.push((json!({"type": "Parameter", "name": p.name, "return_value": "After"}), p.lo, p.hi));
        }
        if p.before {
            c.push((json!({"type": "Parameter", "name": p.name, "return_value": "Before"}), p.lo, p.hi));
        }
    }
    for n in &g.nodes {
        for a in attrs(n.ty) {
            let top = match *a {
                "ProportionalVolume" => 1.0,
                "Deficit" | "MaxVolume" => continue,
                _ => 2000.0,
            };
            c.push((json!({"type": "Node", "name": n.name, "attribute": a}), 0.0, top));
        }
    }
    for (n, k) in &g.vnodes {
        if *k != "Aggregated" {
            c.push((json!({"type": "VirtualNode", "name": n, "attribute": "Volume"}), 0.0, 2000.0));
            c.push((json!({"type": "VirtualNode", "name": n, "attribute": "ProportionalVolume"}), 0.0, 1.0));
        }
    }
    for e in &g.edges {
        c.push((json!({"type": "Edge", "edge": e}), 0.0, 2000.0));
    }
    for (m, a, b) in g.series.iter().filter(|s| s.0["type"] != "InterNetworkTransfer") {
        c.push((m.clone(), *a, *b));
    }
    let ok: Vec<(Value, f64, f64)> = c.iter().filter(|x| x.1 >= lo && x.2 <= hi).cloned().collect();
    if ok.is_empty() {
        return (lit(r.q(lo.max(0.0), hi.min(1.0).max(lo.max(0.0)))), lo.max(0.0), hi.min(1.0));
    }
    r.pick(&ok).clone()
}
