//! Outputs: what they must hold, worked out from the history of a run, and readers for them.

use crate::cal::{self, Dt};
use crate::rng::Rng;
use crate::sut::{Layout, MemOut, Run};
use serde_json::{Value, json};
use std::collections::BTreeMap;

/// One recorded value of every metric of a set.
#[derive(Clone, Debug, PartialEq)]
pub struct Period {
    /// Minutes.
    pub start: i64,
    pub end: i64,
    pub vals: Vec<f64>,
}

#[derive(Clone, Debug, Default)]
pub struct Want {
    /// Names and attributes.
    pub metrics: Vec<(String, String)>,
    /// scenario -> periods
    pub recs: Vec<Vec<Period>>,
    /// The same if final periods end where their last value starts (a known finding).
    pub short: Option<Vec<Vec<Period>>>,
    /// scenario -> time-steps, before aggregation
    pub raw: Vec<Vec<Period>>,
}

/// Why nothing can be said about the recorded values.
#[derive(Clone, Debug, PartialEq)]
pub enum Odd {
    /// One value covers several whole aggregation periods.
    Spans,
    Nan,
    Near,
    Missing,
}

type V = (i64, i64, f64);

fn func_name(f: &Value) -> &str {
    f["type"].as_str().or(f.as_str()).unwrap_or("?")
}

fn calc(f: &Value, xs: &[V]) -> Result<f64, Odd> {
    let it = || xs.iter().map(|x| x.2);
    Ok(match func_name(f) {
        "Sum" => it().sum(),
        "Product" => it().product(),
        "Mean" => {
            let t: f64 = xs.iter().map(|x| (x.1 - x.0) as f64).sum();
            xs.iter().map(|x| x.2 * (x.1 - x.0) as f64).sum::<f64>() / t
        }
        "Min" | "Max" => {
            if it().any(|x| x.is_nan()) {
                return Err(Odd::Nan);
            }
            if func_name(f) == "Min" { it().fold(f64::INFINITY, f64::min) } else { it().fold(f64::NEG_INFINITY, f64::max) }
        }
        "CountNonZero" => {
            if it().any(|x| x != 0.0 && x.abs() < 1e-9) {
                return Err(Odd::Near);
            }
            it().filter(|x| *x != 0.0).count() as f64
        }
        "AnyNonZero" => {
            let tol = f["tolerance"].as_f64().unwrap_or(1e-6);
            if it().any(|x| x != 0.0 && (x.abs() - tol).abs() < 1e-9) {
                return Err(Odd::Near);
            }
            it().any(|x| x.abs() > tol) as u8 as f64
        }
        _ => return Err(Odd::Missing),
    })
}

/// The end of the aggregation period that holds the minute `t`.
fn period_end(freq: &Value, first: i64, t: i64) -> i64 {
    let d = |t: i64| Dt::from_days(t.div_euclid(1440));
    match freq["type"].as_str().unwrap_or("") {
        "Monthly" => {
            let x = d(t);
            Dt { d: 1, h: 0, mi: 0, ..x }.add_months(1).minutes()
        }
        "Annual" => Dt { y: d(t).y + 1, m: 1, d: 1, h: 0, mi: 0 }.minutes(),
        _ => {
            let n = freq["days"].as_i64().unwrap_or(1) * 1440;
            first + ((t - first).div_euclid(n) + 1) * n
        }
    }
}

/// Applies a (nested) time aggregation to the history of one metric.
///
/// `short`: as the known finding has it, the final period ends where its last value starts.
pub fn aggregate(list: &[V], spec: &Value, short: bool) -> Result<Vec<V>, Odd> {
    let inner = if spec["child"].is_object() { aggregate(list, &spec["child"], short)? } else { list.to_vec() };
    let f = &spec["func"];
    let mut out: Vec<V> = vec![];
    let mut cur: Vec<V> = vec![];
    if !spec["freq"].is_object() {
        cur = inner;
    } else if let Some(first) = inner.first().map(|v| v.0) {
        let mut cur_end = i64::MIN;
        for v in &inner {
            let mut t = v.0;
            let mut done = 0;
            while t < v.1 {
                let e = period_end(&spec["freq"], first, t);
                if e != cur_end && !cur.is_empty() {
                    out.push((cur[0].0, t, calc(f, &cur)?));
                    cur.clear();
                    done += 1;
                }
                cur_end = e;
                cur.push((t, v.1.min(e), v.2));
                t = e;
            }
            if done > 1 {
                return Err(Odd::Spans);
            }
        }
    }
    if !cur.is_empty() {
        let last = cur.last().unwrap();
        let x = calc(f, &cur)?;
        // A mean over no time at all is no value.
        if !x.is_nan() || cur.iter().any(|c| c.1 > c.0) || func_name(f) != "Mean" {
            out.push((cur[0].0, if short { last.0 } else { last.1 }, x));
        }
    }
    Ok(out)
}

/// What the metric set `name` of the network must record, from the history of a run.
pub fn want(net: &Value, time: &Value, run: &Run, name: &str) -> Result<Want, Odd> {
    let steps = cal::steps(time);
    let (metrics, pick): (Vec<(String, String)>, Box<dyn Fn(&crate::sut::Row) -> Vec<f64>>) = if name == "obs" {
        (run.layout.obs.clone(), Box::new(|r| r.obs.clone()))
    } else {
        let k = run.layout.sets.iter().position(|s| s.0 == name).ok_or(Odd::Missing)?;
        (run.layout.sets[k].1.clone(), Box::new(move |r| r.sets[k].clone()))
    };
    let ms = net["metric_sets"].as_array().into_iter().flatten().find(|m| m["name"] == name).ok_or(Odd::Missing)?;
    let ns = run.layout.scen.len();
    let mut w = Want { metrics, ..Default::default() };
    for s in 0..ns {
        let raw: Vec<Period> = run
            .rows
            .iter()
            .enumerate()
            .map(|(k, r)| {
                let t = steps[k].0.minutes();
                Period { start: t, end: t + steps[k].1, vals: pick(&r[s]) }
            })
            .collect();
        if !ms["aggregator"].is_object() {
            w.recs.push(raw.clone());
            w.raw.push(raw);
            continue;
        }
        let with = |short: bool| -> Result<Vec<Period>, Odd> {
            let per: Vec<Vec<V>> = (0..w.metrics.len())
                .map(|m| {
                    let l: Vec<V> = raw.iter().map(|p| (p.start, p.end, p.vals[m])).collect();
                    aggregate(&l, &ms["aggregator"], short)
                })
                .collect::<Result<_, _>>()?;
            Ok((0..per.first().map(|p| p.len()).unwrap_or(0))
                .map(|i| Period { start: per[0][i].0, end: per[0][i].1, vals: per.iter().map(|p| p[i].2).collect() })
                .collect())
        };
        // Only with final periods of the right length may a value be too long: take the other.
        let short = with(true)?;
        let right = match with(false) {
            Err(Odd::Spans) => short.clone(),
            x => x?,
        };
        w.short.get_or_insert_default().push(short);
        w.recs.push(right);
        w.raw.push(raw);
    }
    Ok(w)
}

/// Whether the network's metric set `name` aggregates over time.
pub fn aggregated(net: &Value, name: &str) -> bool {
    net["metric_sets"].as_array().into_iter().flatten().any(|m| m["name"] == name && m["aggregator"].is_object())
}

// ------------------------------------------------------------------------------------ readers

pub fn parse_csv(b: &[u8]) -> Vec<Vec<String>> {
    let t = String::from_utf8_lossy(b);
    let mut rows = vec![];
    let mut row = vec![];
    let mut cell = String::new();
    let mut quoted = false;
    let mut any = false;
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    cell.push('"');
                } else {
                    quoted = false;
                }
            } else {
                cell.push(c);
            }
            continue;
        }
        match c {
            '"' => {
                quoted = true;
                any = true;
            }
            ',' => {
                row.push(std::mem::take(&mut cell));
                any = true;
            }
            '\r' => {}
            '\n' => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
                any = false;
            }
            _ => {
                cell.push(c);
                any = true;
            }
        }
    }
    if any {
        row.push(cell);
        rows.push(row);
    }
    rows
}

fn minute_of(s: &str) -> Option<i64> {
    let d = Dt::parse(s.trim_end_matches('Z'))?;
    Some(d.minutes())
}

fn when(t: i64) -> String {
    Dt { y: 0, m: 1, d: 1, h: 0, mi: 0 }.add_minutes(t).iso()
}

/// Equal up to rounding of sums and `places` decimal places (None: no rounding).
fn eq(a: f64, b: f64, places: Option<i32>) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let half = places.map(|p| 0.5 * 10f64.powi(-p) * (1.0 + 1e-6)).unwrap_or(0.0);
    (a - b).abs() <= half + 1e-9 * (1e-3 + a.abs().max(b.abs()))
}

/// (set, start, end, simulation id, label, name, attribute) and value.
type Rec = (String, i64, i64, usize, String, String, String, f64);

fn records(w: &Want, set: &str, l: &Layout) -> Vec<Rec> {
    let mut out = vec![];
    for (s, recs) in w.recs.iter().enumerate() {
        for p in recs {
            for (m, v) in w.metrics.iter().zip(&p.vals) {
                out.push((set.to_string(), p.start, p.end, l.scen[s].id, l.scen[s].label.clone(), m.0.clone(), m.1.clone(), *v));
            }
        }
    }
    out
}

fn sorted(mut v: Vec<Rec>) -> Vec<Rec> {
    v.sort_by(|a, b| {
        (a.1, a.3, &a.0, &a.5, &a.6, a.2, &a.4).cmp(&(b.1, b.3, &b.0, &b.5, &b.6, b.2, &b.4)).then(a.7.total_cmp(&b.7))
    });
    v
}

fn shown(r: &Rec) -> String {
    format!("{} to {}, scenario {} ({}), {}: {} {} = {:?}", when(r.1), when(r.2), r.3, r.4, r.0, r.5, r.6, r.7)
}

fn compare(what: &str, want: Vec<Rec>, got: Vec<Rec>, places: Option<i32>) -> Option<(String, String)> {
    let (want, got) = (sorted(want), sorted(got));
    let key = |r: &Rec| (r.1, r.3, r.0.clone(), r.5.clone(), r.6.clone());
    for (a, b) in want.iter().zip(&got) {
        if (a.2, &a.4) != (b.2, &b.4) || key(a) != key(b) {
            let sig = match key(a).cmp(&key(b)) {
                std::cmp::Ordering::Less => "missing",
                std::cmp::Ordering::Greater => "extra",
                std::cmp::Ordering::Equal => "label",
            };
            return Some((format!("{what}-{sig}"), format!("{what}: expected [{}], found [{}]", shown(a), shown(b))));
        }
        if !eq(a.7, b.7, places) {
            return Some((format!("{what}-value"), format!("{what}: {} was simulated but {:?} is in the output", shown(a), b.7)));
        }
    }
    if want.len() != got.len() {
        let (sig, r) = if want.len() > got.len() { ("missing", &want[got.len()]) } else { ("extra", &got[want.len()]) };
        return Some((format!("{what}-{sig}"), format!("{what}: {} values expected, {} found; first difference: {}", want.len(), got.len(), shown(r))));
    }
    None
}

pub fn check_long(bytes: &[u8], sets: &[(String, &Want)], l: &Layout, decimals: Option<i32>) -> Option<(String, String)> {
    let rows = parse_csv(bytes);
    let want: Vec<Rec> = sets.iter().flat_map(|(n, w)| records(w, n, l)).collect();
    let head = ["time_start", "time_end", "simulation_id", "label", "metric_set", "name", "attribute", "value"];
    if rows.is_empty() && want.is_empty() {
        return None;
    }
    if rows.first().map(|h| h.iter().map(|x| x.as_str()).collect::<Vec<_>>()) != Some(head.to_vec()) {
        return Some(("long-header".into(), format!("long CSV: header is {:?}", rows.first())));
    }
    let mut got = vec![];
    for r in &rows[1..] {
        let bad = || Some(("long-row".to_string(), format!("long CSV: unreadable row {r:?}")));
        if r.len() != 8 {
            return bad();
        }
        let (Some(a), Some(b), Ok(i), Ok(v)) = (minute_of(&r[0]), minute_of(&r[1]), r[2].parse::<usize>(), r[7].parse::<f64>()) else { return bad() };
        got.push((r[4].clone(), a, b, i, r[3].clone(), r[5].clone(), r[6].clone(), v));
    }
    compare("long", want, got, decimals)
}

pub fn check_wide(bytes: &[u8], w: &Want, l: &Layout) -> Option<(String, String)> {
    let rows = parse_csv(bytes);
    let bad = |s: &str, m: String| Some((format!("wide-{s}"), format!("wide CSV: {m}")));
    if rows.len() < 4 {
        return bad("header", format!("only {} rows", rows.len()));
    }
    for (k, n) in ["node", "attribute", "simulation_id", "label"].iter().enumerate() {
        if rows[k].first().map(|x| x.as_str()) != Some(n) {
            return bad("header", format!("header row {k} starts with {:?}", rows[k].first()));
        }
    }
    let cols = 1 + w.recs.len() * w.metrics.len();
    if let Some(r) = rows.iter().find(|r| r.len() != cols) {
        return bad("columns", format!("a row has {} columns instead of {cols}: {:?}", r.len(), &r[..r.len().min(4)]));
    }
    let mut got = vec![];
    for r in &rows[4..] {
        let Some(t) = minute_of(&r[0]) else { return bad("row", format!("unreadable time {:?}", r[0])) };
        for c in 1..cols {
            let (Ok(i), Ok(v)) = (rows[2][c].parse::<usize>(), r[c].parse::<f64>()) else {
                return bad("row", format!("unreadable cell {:?} of scenario {:?}", r[c], rows[2][c]));
            };
            got.push((String::new(), t, 0, i, rows[3][c].clone(), rows[0][c].clone(), rows[1][c].clone(), v));
        }
    }
    let mut want = records(w, "", l);
    want.iter_mut().for_each(|r| r.2 = 0);
    compare("wide", want, got, Some(2))
}

/// Checks a memory output: its data frame and its single aggregated value.
pub fn check_memory(o: &Value, m: &MemOut, w: &Want, l: &Layout) -> Option<(String, String)> {
    if let Some(e) = &m.frame.err {
        return Some(("memory-error".into(), format!("memory: {e}")));
    }
    let col = |n: &str| m.frame.cols.iter().position(|c| c == n);
    let (Some(a), Some(b), Some(i), Some(lb), Some(n), Some(at), Some(v)) =
        (col("time_start"), col("time_end"), col("simulation_id"), col("label"), col("name"), col("attribute"), col("value"))
    else {
        return Some(("memory-columns".into(), format!("memory: columns are {:?}", m.frame.cols)));
    };
    let mut got = vec![];
    for r in &m.frame.rows {
        let (Some(t0), Some(t1), Ok(id), Ok(x)) = (minute_of(&r[a]), minute_of(&r[b]), r[i].parse::<usize>(), r[v].parse::<f64>()) else {
            return Some(("memory-row".into(), format!("memory: unreadable row {r:?}")));
        };
        got.push((String::new(), t0, t1, id, r[lb].clone(), r[n].clone(), r[at].clone(), x));
    }
    if let Some(d) = compare("memory", records(w, "", l), got, None) {
        return Some(d);
    }
    // The aggregated value.
    let Some(agg) = &m.agg else { return None };
    let (want, places) = match memory_value(o, w) {
        Ok(x) => (x, None::<i32>),
        Err(_) => return None,
    };
    match (want, agg) {
        (None, Err(_)) => None,
        (Some(x), Ok(y)) if eq(x, *y, places) => None,
        (x, y) => Some(("memory-aggregate".into(), format!("memory: the aggregated value should be {x:?} but is {y:?} ({} {})", o["aggregation"], o["order"]))),
    }
}

/// The aggregated value a memory output must report (None: an error, a function is missing).
fn memory_value(o: &Value, w: &Want) -> Result<Option<f64>, Odd> {
    let ag = &o["aggregation"];
    // Only one value: it is the result, whatever the function.
    let plain = |f: &Value, xs: &[f64]| -> Result<Option<f64>, Odd> {
        if xs.len() == 1 {
            return Ok(Some(xs[0]));
        }
        if f.is_null() {
            return Ok(None);
        }
        let v: Vec<V> = xs.iter().map(|x| (0, 1, *x)).collect();
        calc(f, &v).map(Some)
    };
    let time = |xs: &[V]| -> Result<Option<f64>, Odd> {
        if xs.len() == 1 {
            return Ok(Some(xs[0].2));
        }
        if ag["time"].is_null() {
            return Ok(None);
        }
        calc(&ag["time"], xs).map(Some)
    };
    let by_time = o["order"] == "TimeMetricScenario";
    let mut per = vec![];
    for recs in &w.recs {
        if recs.is_empty() {
            return Err(Odd::Missing);
        }
        let x = if by_time {
            let mut ms = vec![];
            for m in 0..w.metrics.len() {
                let l: Vec<V> = recs.iter().map(|p| (p.start, p.end, p.vals[m])).collect();
                match time(&l)? {
                    Some(x) => ms.push(x),
                    None => return Ok(None),
                }
            }
            plain(&ag["metric"], &ms)?
        } else {
            let mut l = vec![];
            for p in recs {
                match plain(&ag["metric"], &p.vals)? {
                    Some(x) => l.push((p.start, p.end, x)),
                    None => return Ok(None),
                }
            }
            time(&l)?
        };
        match x {
            Some(x) => per.push(x),
            None => return Ok(None),
        }
    }
    plain(&ag["scenario"], &per)
}

#[derive(hdf5_metno::H5Type, Clone, Copy)]
#[repr(C)]
struct H5Time {
    index: usize,
    year: i16,
    month: u8,
    day: u8,
    hour: u8,
    minute: u8,
    second: u8,
}

#[derive(hdf5_metno::H5Type, Clone)]
#[repr(C)]
struct H5Scen {
    index: usize,
    indices: hdf5_metno::types::VarLenArray<usize>,
    label: hdf5_metno::types::VarLenUnicode,
}

/// HDF5 outputs hold every time-step, whatever aggregation the metric set has.
pub fn check_hdf5(path: &str, w: &Want, l: &Layout) -> Option<(String, String)> {
    match hdf5(path, w, l) {
        Ok(x) => x,
        Err(e) => Some(("hdf5-unreadable".into(), format!("hdf5: {path}: {e}"))),
    }
}

fn hdf5(path: &str, w: &Want, l: &Layout) -> Result<Option<(String, String)>, hdf5_metno::Error> {
    let f = hdf5_metno::File::open(path)?;
    let t = f.dataset("time")?.read_raw::<H5Time>()?;
    let nt = w.raw.first().map(|r| r.len()).unwrap_or(0);
    if t.len() != nt {
        return Ok(Some(("hdf5-time".into(), format!("hdf5: {} times for {nt} time-steps", t.len()))));
    }
    for (k, x) in t.iter().enumerate() {
        let d = Dt { y: x.year as i64, m: x.month as i64, d: x.day as i64, h: x.hour as i64, mi: x.minute as i64 };
        if x.index != k || d.minutes() != w.raw[0][k].start || x.second != 0 {
            return Ok(Some(("hdf5-time".into(), format!("hdf5: time {k} is number {} at {}, not {}", x.index, d.iso(), when(w.raw[0][k].start)))));
        }
    }
    let sc = f.dataset("scenarios/indices")?.read_raw::<H5Scen>()?;
    let same = sc.len() == l.scen.len()
        && sc.iter().zip(&l.scen).all(|(a, b)| a.index == b.id && a.label.as_str() == b.label);
    if !same {
        let got: Vec<String> = sc.iter().map(|s| format!("{} {:?}", s.index, s.label.as_str())).collect();
        return Ok(Some(("hdf5-scenarios".into(), format!("hdf5: scenarios are {got:?}"))));
    }
    for (m, (name, attr)) in w.metrics.iter().enumerate() {
        let d = match f.group(name).and_then(|g| g.dataset(attr)) {
            Ok(d) => d,
            Err(e) => return Ok(Some(("hdf5-missing".into(), format!("hdf5: no data of {name} {attr}: {e}")))),
        };
        if d.shape() != vec![nt, w.raw.len()] {
            return Ok(Some(("hdf5-shape".into(), format!("hdf5: {name} {attr} has shape {:?}", d.shape()))));
        }
        let x = d.read_raw::<f64>()?;
        for k in 0..nt {
            for s in 0..w.raw.len() {
                let (a, b) = (w.raw[s][k].vals[m], x[k * w.raw.len() + s]);
                if !(a == b || (a.is_nan() && b.is_nan())) {
                    return Ok(Some((
                        "hdf5-value".into(),
                        format!("hdf5: {name} {attr} at {} in scenario {s}: {a:?} was simulated but {b:?} is in the output", when(w.raw[s][k].start)),
                    )));
                }
            }
        }
    }
    Ok(None)
}

// -------------------------------------------------------------------------------- generation

fn func(r: &mut Rng) -> Value {
    let f = *r.pick(&["Sum", "Mean", "Mean", "Min", "Max", "Product", "CountNonZero", "AnyNonZero"]);
    if f == "AnyNonZero" { json!({"type": f, "tolerance": *r.pick(&[0.0, 0.5, 3.0])}) } else { json!({"type": f}) }
}

/// `step`: minutes of the longest time-step.  Periods are at least as long as the values they
/// get, which is all the aggregator supports, but for a rare case.
fn aggregator(r: &mut Rng, step: i64, odd: bool) -> Value {
    let levels = r.range(1, 3);
    let mut child = Value::Null;
    let mut least = step;
    for k in 0..levels {
        let last = k + 1 == levels;
        let mut kinds: Vec<Value> = vec![];
        for n in [1, 2, 3, 5, 7, 10, 14, 30, 61] {
            if n * 1440 >= least || odd {
                kinds.push(json!({"type": "Days", "days": n}));
            }
        }
        if least <= 28 * 1440 || odd {
            kinds.push(json!({"type": "Monthly"}));
            kinds.push(json!({"type": "Monthly"}));
        }
        if least <= 365 * 1440 {
            kinds.push(json!({"type": "Annual"}));
        }
        let f = if kinds.is_empty() || (last && r.chance(0.3)) { Value::Null } else { kinds[r.us(kinds.len())].clone() };
        least = match f["type"].as_str() {
            Some("Days") => f["days"].as_i64().unwrap() * 1440,
            Some("Monthly") => 31 * 1440,
            Some("Annual") => 366 * 1440,
            _ => i64::MAX,
        };
        let mut a = json!({"func": func(r)});
        if !f.is_null() {
            a["freq"] = f;
        }
        if !child.is_null() {
            a["child"] = child;
        }
        child = a;
        if least == i64::MAX {
            break;
        }
    }
    child
}

/// Adds metric sets and outputs of every kind.
pub fn add(m: &mut Value, r: &mut Rng, hdf5: f64, memory: bool, odd: bool) {
    let step = cal::steps(&m["time"]).iter().map(|s| s.1).max().unwrap_or(1440);
    let net = &mut m["network"];
    let all: Vec<Value> = net["metric_sets"][0]["metrics"].as_array().cloned().unwrap_or_default();
    let mut sets = vec!["obs".to_string()];
    for k in 0..r.range(1, 4) {
        let name = format!("set{k}");
        let mut s = json!({"name": name});
        let filters = r.chance(0.2);
        if filters {
            s["filters"] = json!({"all_nodes": r.chance(0.7), "all_virtual_nodes": r.chance(0.5), "all_parameters": r.chance(0.6), "all_edges": r.chance(0.5)});
        }
        if !filters || r.chance(0.5) {
            let n = r.range(1, 6) as usize;
            let mut a = all.clone();
            r.shuffle(&mut a);
            a.truncate(n);
            s["metrics"] = json!(a);
        }
        if s["metrics"].is_null() && !["all_nodes", "all_edges"].iter().any(|f| s["filters"][f] == true) {
            s["filters"]["all_nodes"] = json!(true);
        }
        if r.chance(0.75) {
            s["aggregator"] = aggregator(r, step, odd);
        }
        net["metric_sets"].as_array_mut().unwrap().push(s);
        sets.push(name);
    }
    let mut o = vec![];
    for k in 0..r.range(2, 6) {
        let set = r.pick(&sets).clone();
        let name = format!("out{k}");
        let x = r.unit();
        o.push(if x < hdf5 {
            json!({"type": "HDF5", "name": name, "filename": format!("{name}.h5"), "metric_set": set})
        } else if memory && x < hdf5 + 0.3 {
            let mut a = json!({});
            for d in ["time", "scenario", "metric"] {
                if r.chance(0.92) {
                    a[d] = func(r);
                }
            }
            let mut v = json!({"type": "Memory", "name": name, "metric_set": set, "aggregation": a});
            if r.chance(0.6) {
                v["order"] = json!(*r.pick(&["MetricTimeScenario", "TimeMetricScenario"]));
            }
            v
        } else if x < 0.7 {
            let mut v = json!({"type": "CSV", "name": name, "filename": format!("{name}.csv"), "format": "Long", "metric_set": set});
            if r.chance(0.4) {
                let mut l = sets.clone();
                r.shuffle(&mut l);
                l.truncate(r.range(1, 3) as usize);
                v["metric_set"] = json!(l);
            }
            if r.chance(0.5) {
                v["decimal_places"] = json!(*r.pick(&[1, 2, 4, 8]));
            }
            v
        } else {
            json!({"type": "CSV", "name": name, "filename": format!("{name}.csv"), "format": "Wide", "metric_set": set})
        });
    }
    net["outputs"] = json!(o);
}

/// Checks every output of a run against its history.  Returns how many values were compared.
pub fn check_all(net: &Value, time: &Value, run: &Run, dir: &str, memory: Option<&BTreeMap<(String, String), MemOut>>, skip: &mut Vec<Odd>, known: &mut Vec<String>) -> (u64, Vec<(String, String)>) {
    let mut bad = vec![];
    let mut n = 0;
    let mut wants: BTreeMap<String, Result<Want, Odd>> = BTreeMap::new();
    for o in net["outputs"].as_array().into_iter().flatten() {
        let sets: Vec<String> = match &o["metric_set"] {
            Value::Array(a) => a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
            x => vec![x.as_str().unwrap_or("").to_string()],
        };
        for s in &sets {
            wants.entry(s.clone()).or_insert_with(|| want(net, time, run, s));
        }
        let mut ws = vec![];
        let mut odd = None;
        for s in &sets {
            match &wants[s] {
                Ok(w) => ws.push((s.clone(), w)),
                Err(e) => odd = Some(e.clone()),
            }
        }
        if let Some(e) = odd {
            skip.push(e);
            continue;
        }
        n += ws.iter().map(|w| w.1.recs.iter().map(|r| r.len() as u64).sum::<u64>() * w.1.metrics.len() as u64).sum::<u64>();
        let path = format!("{dir}/{}", o["filename"].as_str().unwrap_or(""));
        let d = match (o["type"].as_str().unwrap_or(""), o["format"].as_str().unwrap_or("Long")) {
            ("CSV", f) => match std::fs::read(&path) {
                Err(e) => Some(("missing-file".to_string(), format!("{path}: {e}"))),
                Ok(b) if f == "Wide" => check_wide(&b, ws[0].1, &run.layout),
                Ok(b) => check_long(&b, &ws, &run.layout, o["decimal_places"].as_i64().filter(|d| *d > 0).map(|d| d as i32)),
            },
            ("HDF5", _) => check_hdf5(&path, ws[0].1, &run.layout),
            ("Memory", _) => match memory {
                None => None,
                Some(m) => match m.get(&(String::new(), o["name"].as_str().unwrap_or("").to_string())) {
                    None => Some(("memory-missing".to_string(), format!("memory output {} has no result", o["name"]))),
                    Some(x) => check_memory(o, x, ws[0].1, &run.layout),
                },
            },
            _ => None,
        };
        let mut d = d;
        if let Some((_, m)) = &d {
            // The same with the known finding, for CSV and memory.
            if ws.iter().any(|w| w.1.short.is_some()) {
                let alt: Vec<Want> = ws
                    .iter()
                    .map(|w| Want { recs: w.1.short.clone().unwrap_or_else(|| w.1.recs.clone()), metrics: w.1.metrics.clone(), ..Default::default() })
                    .collect();
                let l = &run.layout;
                let again = match (o["type"].as_str().unwrap_or(""), o["format"].as_str().unwrap_or("Long")) {
                    ("CSV", f) => {
                        let b = std::fs::read(&path).unwrap_or_default();
                        if f == "Wide" {
                            check_wide(&b, &alt[0], l)
                        } else {
                            let a: Vec<(String, &Want)> = sets.iter().cloned().zip(&alt).collect();
                            check_long(&b, &a, l, o["decimal_places"].as_i64().filter(|d| *d > 0).map(|d| d as i32))
                        }
                    }
                    ("Memory", _) => memory
                        .and_then(|m| m.get(&(String::new(), o["name"].as_str().unwrap_or("").to_string())))
                        .and_then(|x| check_memory(o, x, &alt[0], l)),
                    _ => Some(Default::default()),
                };
                if again.is_none() {
                    d = Some(("final-period-short".to_string(), m.clone()));
                }
            }
        }
        if let Some((s, m)) = d {
            if s == "final-period-short" {
                known.push(m);
                continue;
            }
            let ag = if sets.iter().any(|s| aggregated(net, s)) { "agg-" } else { "" };
            bad.push((format!("{ag}{s}"), format!("{} ({}): {m}", o["name"].as_str().unwrap_or(""), o["metric_set"])));
        }
    }
    (n, bad)
}
