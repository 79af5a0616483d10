//! Minimising a failing case: model, data, faults and schedule.

use crate::cal;
use crate::case::Prop;
use crate::runner::{make_case, run_isolated, sigs};
use serde_json::{Value, json};
use std::time::{Duration, Instant};

struct Ctl<'a> {
    p: &'a Prop,
    sig: String,
    until: Instant,
    tries: u64,
    known: &'a (dyn Fn(&str, &str) -> bool + Sync),
}

impl Ctl<'_> {
    fn fails(&self, c: &Value) -> Option<(String, Value)> {
        let v = run_isolated(self.p, c, 60);
        let hit = sigs(&v).into_iter().find(|(s, m)| *s == self.sig && !(self.known)(s, m));
        hit.map(|(_, m)| (m, v))
    }
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    /// Tries candidates eight at a time; the first that still fails wins.
    fn first(&mut self, cands: Vec<Value>) -> Option<(usize, Value, String)> {
        let mut k = 0;
        while k < cands.len() && !self.late() {
            let part = &cands[k..(k + 8).min(cands.len())];
            self.tries += part.len() as u64;
            let me = &*self;
            let r: Vec<Option<String>> = std::thread::scope(|s| {
                let h: Vec<_> = part.iter().map(|c| s.spawn(move || me.fails(c).map(|x| x.0))).collect();
                h.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            if let Some(j) = r.iter().position(|x| x.is_some()) {
                return Some((k + j, part[j].clone(), r[j].clone().unwrap()));
            }
            k += 8;
        }
        None
    }
}

pub fn report(
    p: &Prop, base: u64, i: u64, sig: &str, msg: &str, root: &str, budget: Duration, known: &(dyn Fn(&str, &str) -> bool + Sync),
) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let clean: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let file = format!("{dir}/{}-{clean}-{base}-{i}.json", p.id);
    let mut case = make_case(p, base, i);
    let save = |c: &Value, m: &str, done: &str| {
        let mut c = c.clone();
        c["violation"] = json!({"sig": sig, "msg": m, "minimised": done});
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&c).unwrap());
    };
    save(&case, msg, "no");
    let mut ctl = Ctl { p, sig: sig.to_string(), until: Instant::now() + budget, tries: 0, known };
    let Some((m, _)) = ctl.fails(&case) else {
        return file;
    };
    let mut msg = m;
    loop {
        let before = case.to_string().len();
        for pass in 0..6 {
            let mut k = 0;
            while !ctl.late() {
                let cands = candidates(&case, pass, k);
                if cands.is_empty() {
                    break;
                }
                let n = cands.len();
                match ctl.first(cands) {
                    Some((j, c, m)) => {
                        case = c;
                        msg = m;
                        k += j;
                        save(&case, &msg, "partly");
                    }
                    None => {
                        if k == 0 || n == 0 {
                            break;
                        }
                        k = 0;
                        // One more sweep from the start only after progress.
                        break;
                    }
                }
            }
        }
        if ctl.late() || case.to_string().len() >= before {
            break;
        }
    }
    // The schedule: write it out as the deviations from the default one, then drop what is not needed.
    let mut names: Vec<String> = vec![];
    if let Some((m, v)) = ctl.fails(&case) {
        let mut c = case.clone();
        for (n, t) in v["traces"].as_object().into_iter().flatten() {
            if c["worlds"][n].is_object() {
                c["worlds"][n]["replay"] = t.clone();
                names.push(n.clone());
            }
        }
        let size = c["worlds"].to_string().len();
        if !names.is_empty() && size < 400_000 {
            if let Some((m2, _)) = ctl.fails(&c) {
                case = c;
                msg = m2;
                save(&case, &msg, "partly");
                for n in &names {
                    drop_choices(&mut ctl, &mut case, &mut msg, n);
                    save(&case, &msg, "partly");
                }
            }
        } else {
            msg = m;
        }
    }
    let note = if ctl.late() { format!("stopped after {} tries", ctl.tries) } else { format!("yes, {} tries", ctl.tries) };
    save(&case, &msg, &note);
    file
}

fn drop_choices(ctl: &mut Ctl, case: &mut Value, msg: &mut String, world: &str) {
    let n = case["worlds"][world]["replay"].as_array().map(|a| a.len()).unwrap_or(0);
    for s in 0..n {
        let mut chunk = case["worlds"][world]["replay"][s].as_array().map(|a| a.len()).unwrap_or(0);
        while chunk > 0 && !ctl.late() {
            let len = case["worlds"][world]["replay"][s].as_array().unwrap().len();
            let mut progress = false;
            let mut cands = vec![];
            let mut at = 0;
            while at < len {
                let mut c = case.clone();
                let a = c["worlds"][world]["replay"][s].as_array_mut().unwrap();
                a.drain(at..(at + chunk).min(len));
                cands.push(c);
                at += chunk;
            }
            if let Some((_, c, m)) = ctl.first(cands) {
                *case = c;
                *msg = m;
                progress = true;
            }
            if !progress {
                chunk /= 2;
            } else {
                let l = case["worlds"][world]["replay"][s].as_array().unwrap().len();
                chunk = chunk.min(l);
            }
        }
    }
}

const METRICS: [&str; 9] =
    ["Literal", "Table", "Node", "VirtualNode", "Edge", "Timeseries", "Parameter", "InterNetworkTransfer", "Constant"];

fn is_metric(v: &Value) -> bool {
    let t = v["type"].as_str().unwrap_or("");
    METRICS.contains(&t) && !v["meta"].is_object()
}

fn mentions(v: &Value, name: &str) -> bool {
    match v {
        Value::Object(o) => o.iter().any(|(k, x)| {
            (matches!(k.as_str(), "name" | "from_node" | "to_node" | "table") && x.as_str() == Some(name)) || mentions(x, name)
        }),
        Value::Array(a) => a.iter().any(|x| mentions(x, name)),
        _ => false,
    }
}

/// Replaces metrics that refer to `name` by a literal.
fn scrub(v: &mut Value, name: &str) {
    if is_metric(v) && mentions(v, name) {
        *v = json!({"type": "Literal", "value": 1.0});
        return;
    }
    match v {
        Value::Object(o) => o.values_mut().for_each(|x| scrub(x, name)),
        Value::Array(a) => a.iter_mut().for_each(|x| scrub(x, name)),
        _ => {}
    }
}

fn networks(case: &Value) -> Vec<String> {
    let mut out = vec![];
    for (i, m) in case["models"].as_array().into_iter().flatten().enumerate() {
        if m["network"].is_object() {
            out.push(format!("/models/{i}/network"));
        }
        for (j, n) in m["networks"].as_array().into_iter().flatten().enumerate() {
            if n["network"].is_object() {
                out.push(format!("/models/{i}/networks/{j}/network"));
            }
        }
    }
    out
}

fn remove_names(case: &Value, net: &str, kind: &str, names: &[String], bridge: bool) -> Value {
    let mut c = case.clone();
    let n = c.pointer_mut(net).unwrap();
    for name in names {
        if let Some(a) = n[kind].as_array_mut() {
            a.retain(|d| d["meta"]["name"].as_str() != Some(name) && d["name"].as_str() != Some(name));
        }
        let mut extra = vec![];
        if let Some(e) = n["edges"].as_array_mut() {
            if bridge {
                let ins: Vec<Value> = e.iter().filter(|x| x["to_node"] == json!(name)).cloned().collect();
                let outs: Vec<Value> = e.iter().filter(|x| x["from_node"] == json!(name)).cloned().collect();
                for i in &ins {
                    for o in &outs {
                        let mut x = i.clone();
                        x["to_node"] = o["to_node"].clone();
                        extra.push(x);
                    }
                }
            }
            e.retain(|x| x["from_node"].as_str() != Some(name) && x["to_node"].as_str() != Some(name));
            for x in extra {
                if !e.contains(&x) {
                    e.push(x);
                }
            }
        }
        for ms in n["metric_sets"].as_array_mut().into_iter().flatten() {
            if let Some(m) = ms["metrics"].as_array_mut() {
                m.retain(|x| !mentions(x, name));
            }
        }
        for v in n["virtual_nodes"].as_array_mut().into_iter().flatten() {
            for k in ["nodes", "storage_nodes"] {
                if let Some(m) = v[k].as_array_mut() {
                    m.retain(|x| x["name"].as_str() != Some(name));
                }
            }
        }
        for k in ["nodes", "virtual_nodes", "parameters", "transfers"] {
            if let Some(a) = n.get_mut(k) {
                scrub(a, name);
            }
        }
    }
    c
}

fn end_at(time: &Value, k: usize) -> Option<Value> {
    let st = cal::steps(time);
    if k == 0 || k >= st.len() {
        return None;
    }
    let mut t = time.clone();
    t["end"] = json!(st[k - 1].0.iso());
    Some(t)
}

/// Candidates of one pass from position `k` on.
fn candidates(case: &Value, pass: usize, k: usize) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    match pass {
        // Shorter runs.
        0 => {
            if k > 0 {
                return vec![];
            }
            for (i, m) in case["models"].as_array().into_iter().flatten().enumerate() {
                let n = cal::steps(&m["time"]).len();
                for want in [1, 2, 3, n / 2, n.saturating_sub(1)] {
                    if want < n {
                        if let Some(t) = end_at(&m["time"], want) {
                            let mut c = case.clone();
                            c["models"][i]["time"] = t;
                            out.push(c);
                        }
                    }
                }
            }
        }
        // Fewer components.
        1 => {
            for net in networks(case) {
                let n = case.pointer(&net).unwrap();
                for kind in ["outputs", "metric_sets", "virtual_nodes", "parameters", "nodes", "timeseries", "tables"] {
                    let names: Vec<String> = n[kind]
                        .as_array()
                        .into_iter()
                        .flatten()
                        .filter_map(|d| d["meta"]["name"].as_str().or(d["name"].as_str()).map(|s| s.to_string()))
                        .filter(|s| s != "obs")
                        .collect();
                    if names.len() > 3 {
                        out.push(remove_names(case, &net, kind, &names, false));
                        let h = names.len() / 2;
                        out.push(remove_names(case, &net, kind, &names[..h], false));
                        out.push(remove_names(case, &net, kind, &names[h..], false));
                    }
                    for x in names.iter().rev() {
                        out.push(remove_names(case, &net, kind, &[x.clone()], false));
                        if kind == "nodes" {
                            out.push(remove_names(case, &net, kind, &[x.clone()], true));
                        }
                    }
                }
            }
        }
        // Fewer scenarios, calmer worlds, fewer faults.
        2 => {
            for (i, m) in case["models"].as_array().into_iter().flatten().enumerate() {
                if m["scenarios"].is_object() {
                    let mut c = case.clone();
                    c["models"][i].as_object_mut().unwrap().remove("scenarios");
                    out.push(c);
                    if m["scenarios"]["combinations"].is_array() {
                        let mut c = case.clone();
                        c["models"][i]["scenarios"].as_object_mut().unwrap().remove("combinations");
                        out.push(c);
                    }
                    for g in 0..m["scenarios"]["groups"].as_array().map(|a| a.len()).unwrap_or(0) {
                        for key in ["subset", "labels"] {
                            if m["scenarios"]["groups"][g].get(key).is_some() {
                                let mut c = case.clone();
                                c["models"][i]["scenarios"]["groups"][g].as_object_mut().unwrap().remove(key);
                                out.push(c);
                            }
                        }
                        let mut c = case.clone();
                        c["models"][i]["scenarios"]["groups"].as_array_mut().unwrap().remove(g);
                        out.push(c);
                        let sz = m["scenarios"]["groups"][g]["size"].as_u64().unwrap_or(1);
                        if sz > 1 {
                            let mut c = case.clone();
                            c["models"][i]["scenarios"]["groups"][g]["size"] = json!(sz - 1);
                            out.push(c);
                        }
                    }
                }
            }
            for (n, w) in case["worlds"].as_object().into_iter().flatten() {
                for (key, v) in [("jump", json!(0)), ("switch", json!(0))] {
                    if w[key] != v {
                        let mut c = case.clone();
                        c["worlds"][n][key] = v;
                        out.push(c);
                    }
                }
                if w.get("priorities").is_some() {
                    let mut c = case.clone();
                    c["worlds"][n].as_object_mut().unwrap().remove("priorities");
                    out.push(c);
                }
            }
            for key in ["plan", "script", "fails", "disk", "uses", "keep"] {
                if let Some(p) = case.get(key) {
                    prune(p, &format!("/{key}"), case, &mut out, 0);
                }
            }
        }
        // Edges, attributes and list elements of the networks.
        3 | 4 => {
            for net in networks(case) {
                for kind in ["edges", "nodes", "virtual_nodes", "parameters", "outputs", "metric_sets", "transfers"] {
                    let p = format!("{net}/{kind}");
                    if let Some(v) = case.pointer(&p) {
                        prune(v, &p, case, &mut out, if pass == 3 { 2 } else { 5 });
                    }
                }
            }
            for (i, m) in case["models"].as_array().into_iter().flatten().enumerate() {
                for (j, n) in m["networks"].as_array().into_iter().flatten().enumerate() {
                    if let Some(v) = n.get("transfers") {
                        prune(v, &format!("/models/{i}/networks/{j}/transfers"), case, &mut out, 3);
                    }
                }
            }
        }
        // Lines of the data files.
        _ => {
            for (n, t) in case["files"].as_object().into_iter().flatten() {
                let used = case["models"].to_string().contains(n.as_str());
                if !used {
                    let mut c = case.clone();
                    c["files"].as_object_mut().unwrap().remove(n);
                    out.push(c);
                    continue;
                }
                let lines: Vec<&str> = t.as_str().unwrap_or("").lines().collect();
                for at in (1..lines.len()).rev() {
                    let mut l = lines.clone();
                    l.remove(at);
                    let mut c = case.clone();
                    c["files"][n] = json!(l.join("\n") + "\n");
                    out.push(c);
                }
            }
        }
    }
    if k < out.len() { out.split_off(k) } else { vec![] }
}

/// Removals and simplifications inside a value, down to a depth.
fn prune(v: &Value, path: &str, case: &Value, out: &mut Vec<Value>, depth: usize) {
    match v {
        Value::Array(a) => {
            for i in (0..a.len()).rev() {
                let mut c = case.clone();
                c.pointer_mut(path).unwrap().as_array_mut().unwrap().remove(i);
                out.push(c);
                if depth > 0 {
                    prune(&a[i], &format!("{path}/{i}"), case, out, depth - 1);
                }
            }
        }
        Value::Object(o) => {
            if is_metric(v) && v["type"] != "Literal" && v["type"] != "Constant" {
                let mut c = case.clone();
                *c.pointer_mut(path).unwrap() = json!({"type": "Literal", "value": 1.0});
                out.push(c);
            }
            for (k, x) in o {
                if matches!(k.as_str(), "meta" | "type" | "name" | "from_node" | "to_node" | "max_volume" | "initial_volume") {
                    continue;
                }
                let mut c = case.clone();
                c.pointer_mut(path).unwrap().as_object_mut().unwrap().remove(k);
                out.push(c);
                if depth > 0 && (x.is_object() || x.is_array()) {
                    prune(x, &format!("{path}/{}", k.replace('~', "~0").replace('/', "~1")), case, out, depth - 1);
                }
            }
        }
        _ => {}
    }
}
