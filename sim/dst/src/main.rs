#![allow(dead_code, invalid_runtime_symbol_definitions)]
mod cal;
mod case;
mod genm;
mod outs;
mod props;
mod refm;
mod rng;
mod runner;
mod seams;
mod shrink;
mod sut;
mod world;

use std::sync::Arc;
fn main() {
    world::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let n = |k: usize| a.get(k).and_then(|x| x.parse::<u64>().ok());
    let p = a.get(2).and_then(|x| props::get(x));
    match (a.get(1).map(|s| s.as_str()).unwrap_or(""), p) {
        ("check", Some(p)) => {
            let tier = a.get(3).cloned().unwrap_or("quick".into());
            let root = a.get(5).cloned().unwrap_or("/verif".into());
            std::process::exit(runner::check(p, &tier, n(4).unwrap_or(1), &root, n(6)));
        }
        ("worker", Some(p)) => return runner::worker(p, n(3).unwrap(), n(4).unwrap(), n(5).unwrap(), n(6).unwrap()),
        ("one", Some(p)) => return runner::one(p, &a[3], &a[4]),
        ("make", Some(p)) => {
            println!("{}", serde_json::to_string_pretty(&runner::make_case(p, n(3).unwrap(), n(4).unwrap())).unwrap());
            return;
        }
        ("replay", _) => {
            let c: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = props::get(c["prop"].as_str().unwrap()).unwrap();
            std::process::exit(runner::replay(p, &a[2]));
        }
        ("run", Some(p)) => {
            // One case, in this process.
            runner::prepare_process();
            let c = runner::make_case(p, n(3).unwrap(), n(4).unwrap());
            let mut r = case::Rep::default();
            (p.run)(&c, &mut r);
            println!("{}", r.json(false));
            return;
        }
        _ => {}
    }
    if a[1] == "judge" {
        // Judges default models against the reference model.
        let (from, to) = (n(2).unwrap(), n(3).unwrap());
        let mut sigs: std::collections::BTreeMap<String, (usize, u64, String)> = Default::default();
        let mut stats: std::collections::BTreeMap<&'static str, u64> = Default::default();
        for seed in from..to {
            let mut g = genm::Gen::new(rng::Rng::new(seed), genm::Cfg::default());
            g.model();
            let m = g.finish();
            let sc = world::Scratch::new();
            let (data, out) = (sc.sub("data"), sc.sub("out"));
            for (k, v) in &g.files {
                std::fs::write(format!("{data}/{k}"), v).unwrap();
            }
            if a.len() > 4 {
                println!("{}", serde_json::to_string_pretty(&m).unwrap());
            }
            let w = world::World::calm(7);
            let (r, _) = world::run_in(&w, |ctx| {
                let b = sut::load_single(&m, &data, &out)?;
                sut::observe_sim(ctx, &b, sut::Engine::Highs, 0, Arc::new(sut::Plan::default()))
            });
            let Ok(Ok(r)) = r else { println!("seed {seed}: {r:?}"); continue };
            let files = serde_json::json!(g.files);
            let mut e = refm::Eng::new(&m, &m["network"], &files, &r.layout);
            e.judge(&r);
            if !e.usable() { println!("seed {seed} unusable {:?} {:?}", e.core.unsupported, e.found); }
            for f in &e.found {
                let x = sigs.entry(format!("{} {}", f.area, f.sig)).or_insert((0, seed, f.msg.clone()));
                x.0 += 1;
                if a.len() > 4 { println!("{f:?}"); }
            }
            for (k, v) in &e.stats { *stats.entry(k).or_insert(0) += v; }
        }
        for (k, v) in sigs { println!("{} x {k} (seed {}): {}", v.0, v.1, v.2); }
        println!("{stats:?}");
        return;
    }
    if a[1] == "probe" {
        let from: u64 = a[2].parse().unwrap();
        let to: u64 = a[3].parse().unwrap();
        let mut errs: std::collections::BTreeMap<String, (usize, u64)> = Default::default();
        let t0 = std::time::Instant::now();
        for seed in from..to {
            let mut g = genm::Gen::new(rng::Rng::new(seed), genm::Cfg::default());
            g.model();
            let m = g.finish();
            let sc = world::Scratch::new();
            let data = sc.sub("data");
            let out = sc.sub("out");
            for (k, v) in &g.files {
                std::fs::write(format!("{data}/{k}"), v).unwrap();
            }
            if a.len() > 4 {
                println!("{}", serde_json::to_string_pretty(&m).unwrap());
            }
            let w = world::World::draw(&mut rng::Rng::new(seed ^ 99));
            let (r, st) = world::run_in(&w, |ctx| {
                let b = sut::load_single(&m, &data, &out)?;
                let r = sut::observe_sim(ctx, &b, sut::Engine::Highs, 0, Arc::new(sut::Plan::default()))?;
                if let Some(e) = &r.setup_err { return Err(format!("setup {e}")); }
                if let Some(e) = &r.err { return Err(format!("step {e:?}")); }
                Ok::<_, String>(r)
            });
            let key = match r {
                Err(e) => format!("PANIC {e}"),
                Ok(Err(e)) => e,
                Ok(Ok(r)) => { if a.len() > 4 { println!("{} rows, hash {:x} {st:?}", r.rows.len(), r.hash()); } "ok".into() }
            };
            if a.len() > 4 { println!("{key}"); }
            let key = if a.len() > 4 { key } else {
                let mut k = key.replace('\n', " ");
                if let (Some(i), Some(j)) = (k.find("Timestep {"), k.find("}: ")) { k = format!("{}{}", &k[..i], &k[j + 3..]); }
                let mut o = String::new();
                for c in k.chars() { if c.is_ascii_digit() { if !o.ends_with('#') { o.push('#') } } else { o.push(c) } }
                o
            };
            let e = errs.entry(key).or_insert((0, seed));
            e.0 += 1;
        }
        for (k, v) in errs { eprintln!("{} (seed {}) {}", v.0, v.1, &k[..k.len().min(300)]); }
        println!("{:?}", t0.elapsed());
    }
}
