//! One simulated world: a fresh OS thread whose clock, random bytes, files and worker threads
//! are all decided by seeds.

use crate::rng::{Rng, mix};
use crate::seams;
use rayon_core::sim::{Policy, Report, Sim};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct World {
    /// Decides thread interleavings and steal victims.
    pub sched: u64,
    /// Seed of hash maps (and of everything else that asks the kernel for random bytes).
    pub hash: u64,
    pub clock: u64,
    /// Chance (of 4096) of a clock jump at every reading.
    pub jump: u32,
    pub switch: u32,
    pub priorities: Option<u32>,
    /// Schedule to follow instead of drawing one.
    pub replay: Option<Vec<Vec<(u64, u64)>>>,
}

impl World {
    pub fn draw(r: &mut Rng) -> World {
        World {
            sched: r.u64() >> 12,
            hash: r.u64() >> 12,
            clock: r.u64() >> 12,
            jump: *r.pick(&[0, 0, 2, 200]),
            switch: *r.pick(&[0, 8, 64, 128, 256]),
            priorities: if r.chance(0.3) { Some(r.range(1, 12) as u32) } else { None },
            replay: None,
        }
    }

    pub fn calm(seed: u64) -> World {
        World { sched: mix(seed) >> 12, hash: mix(seed ^ 1) >> 12, clock: mix(seed ^ 2) >> 12, jump: 0, switch: 0, priorities: None, replay: None }
    }

    pub fn json(&self) -> Value {
        let mut v = json!({"sched": self.sched, "hash": self.hash, "clock": self.clock, "jump": self.jump, "switch": self.switch});
        if let Some(p) = self.priorities {
            v["priorities"] = json!(p);
        }
        if let Some(t) = &self.replay {
            v["replay"] = json!(t);
        }
        v
    }

    pub fn from(v: &Value) -> World {
        let u = |k: &str| v[k].as_u64().unwrap_or(0);
        World {
            sched: u("sched"),
            hash: u("hash"),
            clock: u("clock"),
            jump: u("jump") as u32,
            switch: u("switch") as u32,
            priorities: v["priorities"].as_u64().map(|p| p as u32),
            replay: v["replay"].as_array().map(|s| {
                s.iter()
                    .map(|a| {
                        a.as_array()
                            .map(|a| a.iter().map(|p| (p[0].as_u64().unwrap_or(0), p[1].as_u64().unwrap_or(0))).collect())
                            .unwrap_or_default()
                    })
                    .collect()
            }),
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _i = seams::Inside::new();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let text = format!("{m} at {loc}");
        if std::env::var("DST_PANICS").is_ok() {
            eprintln!("panic: {text}");
        }
        let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some(text);
        }
    }));
}

fn take_panic() -> Option<String> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

#[derive(Clone, Debug, Default)]
pub struct WorldStats {
    pub decisions: u64,
    pub switches: u64,
    pub steals: u64,
    pub threads: u64,
    pub sched_hash: u64,
    /// Deviations from the default schedule, by section.
    pub trace: Vec<Vec<(u64, u64)>>,
    pub leaked: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub clock_back: u64,
    pub hash_draws: u64,
    pub clock_ns: u64,
}

impl WorldStats {
    pub fn add(&mut self, r: &Report) {
        self.decisions += r.decisions;
        self.switches += r.switches;
        self.steals += r.steals;
        self.threads += r.threads;
        self.sched_hash = self.sched_hash.rotate_left(7) ^ r.hash;
        self.trace.push(r.trace.clone());
        self.leaked += r.leaked;
    }
}

/// Handle to start scheduled sections inside a world.
pub struct Ctx {
    world: World,
    pub stats: WorldStats,
    sections: u64,
}

impl Ctx {
    /// Runs `f` with every worker thread created in it under the seeded scheduler.
    pub fn sim<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.sections += 1;
        let w = &self.world;
        let s = w.switch;
        let pol = Policy {
            seed: w.sched ^ mix(self.sections),
            // Push, found, idle, clock, futex, exit, user, start, latch.
            switch: [0, s, s / 2, 256, s / 4, s, 256, s, s, s],
            priorities: w.priorities,
            replay: w.replay.as_ref().map(|r| r.get(self.sections as usize - 1).cloned().unwrap_or_default()),
            max_decisions: 40_000_000,
        };
        let sim = Sim::new(
            pol,
            Box::new(|why, rep| {
                eprintln!("DST-DEAD {why} after {} decisions, {} threads", rep.decisions, rep.threads);
            }),
        );
        let (r, rep) = sim.run(f);
        self.stats.add(&rep);
        r.map_err(|_| take_panic().unwrap_or_else(|| "panic".into()))
    }
}

/// Runs `f` on a fresh thread in the world `w`; a panic becomes `Err`.
pub fn run_in<R: Send>(w: &World, f: impl FnOnce(&mut Ctx) -> R + Send) -> (Result<R, String>, WorldStats) {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                take_panic();
                seams::hash_start(w.hash);
                seams::clock_start(w.clock, w.jump);
                seams::set_seam(true);
                let mut ctx = Ctx { world: w.clone(), stats: WorldStats::default(), sections: 0 };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ctx)));
                seams::set_seam(false);
                let c = seams::clock_stop();
                let h = seams::hash_stop();
                let mut st = ctx.stats;
                st.clock_reads = c.reads;
                st.clock_jumps = c.jumps;
                st.clock_back = c.backward;
                st.clock_ns = c.simulated_ns;
                st.hash_draws = h;
                (r.map_err(|_| take_panic().unwrap_or_else(|| "panic".into())), st)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Scratch directory removed on drop.
pub struct Scratch(pub String);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        for b in [base, "/tmp"] {
            let d = format!("{b}/dst-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
            if std::fs::create_dir_all(&d).is_ok() {
                return Scratch(d);
            }
        }
        panic!("no scratch directory");
    }
    pub fn sub(&self, n: &str) -> String {
        let p = format!("{}/{n}", self.0);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.contains("/dst-") {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
