//! Deterministic simulation of the Trusted Computations Platform.
mod core;
mod apps;
mod cluster;
mod taps;
mod props;
mod runner;
mod kv;
mod lin;
mod tenv;
mod storage;
mod transfer;
mod service;
mod store;
mod caches;
mod channels;
mod host;
mod group;
mod tstore;
mod willow;
mod txn;

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let opt = |name: &str, default: &str| {
        a.iter().position(|x| x == name).and_then(|p| a.get(p + 1)).cloned().unwrap_or(default.to_string())
    };
    let code = match s(0).as_str() {
        "worker" => {
            let known = runner::known_ids(&s(7), &s(1));
            runner::worker(props::find(&s(1)), n(2), n(3), n(4), n(5), n(6), &known);
            0
        }
        "hashes" => {
            let known = runner::known_ids(&s(4), &s(1));
            runner::hashes(props::find(&s(1)), n(2), n(3), &known);
            0
        }
        "minimise" => {
            runner::minimise(&s(1), n(2), &s(3));
            0
        }
        "replay" => runner::replay(&s(1), &opt("--root", "/verif")),
        "check" => {
            let tier = opt("--tier", "quick");
            let p = props::find(&s(1));
            let default = if tier == "thorough" { p.thorough_ms } else { p.quick_ms };
            let o = runner::Options {
                ms: opt("--ms", &default.to_string()).parse().unwrap(),
                tier,
                seed: opt("--seed", "1").parse().unwrap_or(1),
                out: opt("--root", "/verif"),
                workers: opt("--workers", &std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).to_string()).parse().unwrap(),
                hang_ms: opt("--hang", "60000").parse().unwrap(),
            };
            runner::check(p, &o)
        }
        // One run of a world with its trace: world profile seed
        "run" => {
            let known = runner::known_ids("/verif", "");
            let r = runner::execute(props::world(&s(1)), n(3), &s(2), crate::core::Chooser::random(n(3)), true, &known);
            for l in &r.ctx.trace {
                println!("{l}");
            }
            println!("{:?} faults {:?} probes {:?}", r.violation, r.ctx.stats.faults, r.ctx.stats.probes);
            0
        }
        // Summary of violations over many seeds: world profile count
        "scan" => {
            let known = runner::known_ids("/verif", "");
            let mut found: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let mut probes: std::collections::BTreeMap<String, u64> = Default::default();
            let t = std::time::Instant::now();
            let mut trivial = 0;
            let base = a.get(4).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
            for seed in base..base + n(3) {
                let r = runner::execute(props::world(&s(1)), seed, &s(2), crate::core::Chooser::random(seed), false, &known);
                for (k, v) in r.ctx.stats.probes.iter().chain(r.ctx.stats.faults.iter()) {
                    *probes.entry(k.clone()).or_default() += v;
                }
                if !r.ctx.nontrivial {
                    trivial += 1;
                }
                if let Some(v) = r.violation {
                    let e = found.entry(v.oracle).or_insert((0, seed, v.what));
                    e.0 += 1;
                }
            }
            println!("{} runs, {} trivial, {:.2} s", n(3), trivial, t.elapsed().as_secs_f64());
            println!("{probes:?}");
            for (k, v) in found {
                println!("{:6} first seed {:6} {}: {}", v.0, v.1, k, v.2);
            }
            0
        }
        // Worlds (name or name:profile, comma separated) in turn until a violation
        // or the time is up: used to measure the checks with planted mutants.
        "hunt" => {
            let known = runner::known_ids("/verif", "");
            let worlds = s(1);
            let t = std::time::Instant::now();
            let mut seed = n(3);
            let mut found = None;
            'out: loop {
                for w in worlds.split(',') {
                    let (name, profile) = w.split_once(':').unwrap_or((w, ""));
                    let r = runner::execute(props::world(name), seed, profile, crate::core::Chooser::random(seed), false, &known);
                    if let Some(v) = r.violation {
                        found = Some(format!("KILLED {name}:{profile} seed {seed} {} {}", v.oracle, v.what));
                        break 'out;
                    }
                    if t.elapsed().as_millis() as u64 > n(2) {
                        break 'out;
                    }
                }
                seed += 1;
            }
            println!("{}", found.unwrap_or(format!("ALIVE {seed}")).replace('\n', " "));
            0
        }
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|run|scan|hunt|list");
            2
        }
    };
    std::process::exit(code);
}
