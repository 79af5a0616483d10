//! Cases and what running one reports.

use crate::rng::{Rng, mix};
use crate::world::{World, WorldStats};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct Rep {
    /// (signature, message)
    pub viol: Vec<(String, String)>,
    pub cov: BTreeMap<String, u64>,
    /// Hashes of the states reached (results, by scenario and time-step).
    pub states: BTreeSet<u64>,
    /// Hashes of the schedules followed.
    pub scheds: BTreeSet<u64>,
    /// Why nothing could be said about this case.
    pub skip: Option<String>,
    pub sim_minutes: f64,
    /// Schedules followed by each world of the case (only kept for replays).
    pub traces: BTreeMap<String, Vec<Vec<(u64, u64)>>>,
    /// Something that makes the case more than trivial.
    pub nontrivial: bool,
    /// For evidence.
    pub note: String,
}

impl Rep {
    pub fn bad(&mut self, sig: &str, msg: impl Into<String>) {
        let mut m: String = msg.into();
        if m.len() > 1500 {
            let mut k = 1500;
            while !m.is_char_boundary(k) {
                k -= 1;
            }
            m.truncate(k);
        }
        if self.viol.len() < 40 {
            self.viol.push((sig.to_string(), m));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.cov.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn world(&mut self, name: &str, st: &WorldStats) {
        self.count("worlds", 1);
        self.count("sched.decisions", st.decisions);
        self.count("sched.switches", st.switches);
        self.count("sched.steals", st.steals);
        self.count("sched.worker_threads", st.threads);
        self.count("clock.readings", st.clock_reads);
        self.count("clock.jumps_injected", st.clock_jumps);
        self.count("clock.backward_jumps", st.clock_back);
        self.count("hash_seed.draws", st.hash_draws);
        if st.switches > 0 {
            self.scheds.insert(st.sched_hash);
        }
        self.traces.insert(name.to_string(), st.trace.clone());
    }
    pub fn json(&self, traces: bool) -> Value {
        let mut v = json!({
            "viol": self.viol, "cov": self.cov, "states": self.states, "scheds": self.scheds, "skip": self.skip,
            "sim_minutes": self.sim_minutes, "nontrivial": self.nontrivial, "note": self.note,
        });
        if traces {
            v["traces"] = json!(self.traces);
        }
        v
    }
}

/// The world called `name` of a case: written out in it, or drawn from the case's seed.
pub fn world(case: &Value, name: &str) -> World {
    let w = &case["worlds"][name];
    if w.is_object() {
        World::from(w)
    } else {
        World::calm(case["seed"].as_u64().unwrap_or(0))
    }
}

pub fn case_seed(prop: &str, base: u64, i: u64) -> u64 {
    let mut h = mix(base);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i.wrapping_mul(0x1234_5678_9abc_def1)) >> 12
}

pub struct Prop {
    pub id: &'static str,
    pub make: fn(&mut Rng, u64) -> Value,
    pub run: fn(&Value, &mut Rep),
    /// Cases of a quick and of a thorough check.
    pub cases: (u64, u64),
    pub rule: &'static str,
    /// Components that ran real code / stubs.
    pub real: &'static str,
    pub assume: &'static [&'static str],
}

/// Writes the files of a case into a directory.
pub fn write_files(files: &Value, dir: &str) {
    if let Some(o) = files.as_object() {
        for (k, v) in o {
            let p = format!("{dir}/{k}");
            if let Some(d) = std::path::Path::new(&p).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::fs::write(&p, v.as_str().unwrap_or(""));
        }
    }
}
