//! Runs worlds: worker processes search seeds, the parent merges what they
//! covered, minimises and replays a violation, and writes the evidence.
use crate::core::*;
use crate::props::{self, Property};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some((at, msg));
            }
        });
    }));
}

/// What the last panic was that the world caught itself.
pub fn last_panic() -> String {
    let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    format!("{at}: {}", msg.chars().take(200).collect::<String>())
}

pub struct RunResult {
    pub violation: Option<Violation>,
    pub ctx: Ctx,
}

/// One execution. The hash-map order seed and the library randomness seed are
/// the first two choices of the stream.
pub fn execute(
    world: World,
    seed: u64,
    profile: &str,
    ch: Chooser,
    keep_trace: bool,
    known: &BTreeSet<String>,
) -> RunResult {
    let mut ctx = Ctx::new(seed, profile, ch, keep_trace);
    ctx.suppressed = known.clone();
    let h = ctx.ch.u32() as u64;
    let r = ctx.ch.u32() as u64;
    simseam::set_hash_seed(mix(h ^ 0x5151));
    simseam::set_rng_seed(mix(r ^ 0xabab));
    PANIC.with(|p| *p.borrow_mut() = None);
    let res = catch_unwind(AssertUnwindSafe(|| world(&mut ctx)));
    let mut violation = ctx.violation.clone();
    if res.is_err() && violation.is_none() {
        let (at, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        violation = Some(Violation {
            oracle: format!("panic at {}", at),
            what: format!("panic: {}", msg.chars().take(400).collect::<String>()),
        });
        let v = violation.clone().unwrap();
        ctx.event(&format!("{} {}", v.oracle, v.what));
    }
    if let Some(v) = &violation {
        if v.oracle == "ignored" {
            violation = None;
        }
    }
    RunResult { violation, ctx }
}

/// Cheap standard seeds of a check.
pub fn seed_of(prop: &Property, base: u64, idx: u64) -> u64 {
    mix(mix(base).wrapping_add(hash_bytes(prop.id.as_bytes())).wrapping_add(idx.wrapping_mul(0x1f35_7ad1)))
}

fn pick_world(prop: &Property, idx: u64) -> &'static props::WorldUse {
    let total: u64 = prop.worlds.iter().map(|w| w.weight as u64).sum();
    let mut x = idx % total;
    for w in prop.worlds {
        if x < w.weight as u64 {
            return w;
        }
        x -= w.weight as u64;
    }
    unreachable!()
}

fn run_idx(prop: &Property, base: u64, idx: u64, keep: bool, known: &BTreeSet<String>) -> RunResult {
    let w = pick_world(prop, idx);
    let seed = seed_of(prop, base, idx);
    execute(props::world(w.world), seed, w.profile, Chooser::random(seed), keep, known)
}

const HASH_SAMPLES: u64 = 16;

/// Worker: runs first, first+stride, ... until the time is up.
pub fn worker(prop: &Property, base: u64, first: u64, stride: u64, ms: u64, max: u64, known: &BTreeSet<String>) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let t0 = Instant::now();
    let mut idx = first;
    let mut st = Stats::default();
    let mut runs = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut all: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut ignored = 0u64;
    while t0.elapsed().as_millis() < ms as u128 && idx < max {
        writeln!(out, "B {idx}").unwrap();
        let r = run_idx(prop, base, idx, false, known);
        runs += 1;
        st.sim_ms += r.ctx.stats.sim_ms;
        st.steps += r.ctx.stats.steps;
        for (k, v) in &r.ctx.stats.faults {
            *st.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.ctx.stats.probes {
            *st.probes.entry(k.clone()).or_default() += v;
        }
        if all.len() < 400_000 {
            all.insert(r.ctx.trace_hash);
            if r.ctx.nontrivial {
                nontrivial.insert(r.ctx.trace_hash);
            }
        }
        if states.len() < 400_000 {
            states.extend(r.ctx.stats.states.iter());
        }
        if idx < HASH_SAMPLES {
            writeln!(out, "H {idx} {:016x}", r.ctx.trace_hash).unwrap();
        }
        if r.ctx.violation.as_ref().is_some_and(|v| v.oracle == "ignored") {
            ignored += 1;
        }
        if let Some(v) = r.violation {
            let j = json!({"idx": idx, "oracle": v.oracle, "what": v.what, "choices": write_choices(&r.ctx.ch.taken()),
                "hash": format!("{:016x}", r.ctx.trace_hash)});
            writeln!(out, "V {j}").unwrap();
            break;
        }
        idx += stride;
    }
    writeln!(out, "N {} {} {} {}", runs, st.sim_ms, st.steps, ignored).unwrap();
    for (k, v) in &st.faults {
        writeln!(out, "F {v} {k}").unwrap();
    }
    for (k, v) in &st.probes {
        writeln!(out, "P {v} {k}").unwrap();
    }
    for (tag, set) in [("T", &nontrivial), ("A", &all), ("S", &states)] {
        for h in set.iter() {
            writeln!(out, "{tag} {:x}", h).unwrap();
        }
    }
    writeln!(out, "E").unwrap();
    out.flush().unwrap();
}

enum Msg {
    Line(usize, String),
    Closed(usize),
}

#[derive(Default)]
struct Merged {
    runs: u64,
    sim_ms: u64,
    steps: u64,
    ignored: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    all: HashSet<u64>,
    states: HashSet<u64>,
    hashes: BTreeMap<u64, String>,
}

pub struct Options {
    pub tier: String,
    pub seed: u64,
    pub ms: u64,
    pub out: String,
    pub workers: usize,
    pub hang_ms: u64,
}

fn spawn(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

pub fn known_findings(root: &str) -> Vec<Value> {
    let mut res = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v.get("finding").is_some() {
                    res.push(v);
                }
            }
        }
    }
    res
}

pub fn known_ids(root: &str, prop: &str) -> BTreeSet<String> {
    // A finding keeps a world from stumbling over the same defect, whichever
    // check runs that world.
    let _ = prop;
    known_findings(root)
        .iter()
        .filter_map(|v| v["finding"].as_str().map(|s| s.to_string()))
        .collect()
}

/// Runs the check of a property. Returns the exit code.
pub fn check(prop: &'static Property, o: &Options) -> i32 {
    let t0 = Instant::now();
    let root = o.out.clone();
    for f in known_findings(&root) {
        if f["property"].as_str() == Some(prop.id) {
            println!("KNOWN-FINDING: property={} {}", prop.id, f["what"].as_str().unwrap_or(""));
        }
    }
    let n = o.workers;
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut kids: Vec<Child> = Vec::new();
    for w in 0..n {
        let mut c = spawn(&[
            "worker".into(),
            prop.id.into(),
            o.seed.to_string(),
            w.to_string(),
            n.to_string(),
            o.ms.to_string(),
            u64::MAX.to_string(),
            root.clone(),
        ]);
        let so = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut r = BufReader::with_capacity(1 << 16, so);
            let mut line = String::new();
            loop {
                line.clear();
                match r.read_line(&mut line) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if tx.send(Msg::Line(w, line.trim_end().to_string())).is_err() {
                            break;
                        }
                    }
                }
            }
            let _ = tx.send(Msg::Closed(w));
        });
        kids.push(c);
    }
    drop(tx);
    let mut merged = Merged::default();
    let mut in_flight: Vec<Option<(u64, Instant)>> = vec![None; n];
    let mut done = vec![false; n];
    let mut ended_ok = vec![false; n];
    let mut found: Option<(u64, Violation, Option<Choices>)> = None;
    let mut open = n;
    let mut stop_at: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(w, l)) => {
                let mut it = l.splitn(2, ' ');
                let tag = it.next().unwrap_or("");
                let rest = it.next().unwrap_or("");
                match tag {
                    "B" => in_flight[w] = rest.parse().ok().map(|i| (i, Instant::now())),
                    "H" => {
                        let mut p = rest.split(' ');
                        let i = p.next().unwrap().parse().unwrap();
                        merged.hashes.insert(i, p.next().unwrap().to_string());
                    }
                    "V" => {
                        let v: Value = serde_json::from_str(rest).unwrap();
                        let idx = v["idx"].as_u64().unwrap();
                        if found.as_ref().is_none_or(|f| idx < f.0) {
                            found = Some((
                                idx,
                                Violation {
                                    oracle: v["oracle"].as_str().unwrap().into(),
                                    what: v["what"].as_str().unwrap().into(),
                                },
                                read_choices(&v["choices"]),
                            ));
                        }
                        stop_at.get_or_insert(Instant::now() + Duration::from_millis(500));
                    }
                    "N" => {
                        let p: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                        merged.runs += p[0];
                        merged.sim_ms += p[1];
                        merged.steps += p[2];
                        merged.ignored += p[3];
                        in_flight[w] = None;
                    }
                    "F" | "P" => {
                        let mut p = rest.splitn(2, ' ');
                        let v: u64 = p.next().unwrap().parse().unwrap();
                        let k = p.next().unwrap().to_string();
                        let m = if tag == "F" { &mut merged.faults } else { &mut merged.probes };
                        *m.entry(k).or_default() += v;
                    }
                    "T" | "A" | "S" => {
                        let h = u64::from_str_radix(rest, 16).unwrap();
                        match tag {
                            "T" => merged.nontrivial.insert(h),
                            "A" => merged.all.insert(h),
                            _ => merged.states.insert(h),
                        };
                    }
                    "E" => ended_ok[w] = true,
                    _ => {}
                }
            }
            Ok(Msg::Closed(w)) => {
                done[w] = true;
                open -= 1;
                let _ = kids[w].wait();
                if !ended_ok[w] && stop_at.is_none() {
                    if let Some((idx, _)) = in_flight[w] {
                        if found.as_ref().is_none_or(|f| idx < f.0) {
                            found = Some((
                                idx,
                                Violation { oracle: "process died".into(), what: "the process running the simulation was ended (abort, stack overflow or out of memory)".into() },
                                None,
                            ));
                        }
                        stop_at.get_or_insert(Instant::now() + Duration::from_millis(500));
                    }
                }
            }
            Err(_) => {}
        }
        for w in 0..n {
            if done[w] {
                continue;
            }
            if let Some((idx, since)) = in_flight[w] {
                if since.elapsed() > Duration::from_millis(o.hang_ms) {
                    let _ = kids[w].kill();
                    if stop_at.is_none() {
                        found = Some((
                            idx,
                            Violation { oracle: "hang".into(), what: "a simulated step does not end".into() },
                            None,
                        ));
                        stop_at = Some(Instant::now() + Duration::from_millis(500));
                    }
                }
            }
        }
        if stop_at.is_some_and(|t| Instant::now() > t) {
            for k in kids.iter_mut() {
                let _ = k.kill();
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // The same seeds in another process must give the same executions.
    let mut det_checked = 0;
    let mut det_bad = 0;
    if found.is_none() {
        let mut c = spawn(&["hashes".into(), prop.id.into(), o.seed.to_string(), HASH_SAMPLES.to_string(), root.clone()]);
        let so = c.stdout.take().unwrap();
        for l in BufReader::new(so).lines().map_while(Result::ok) {
            let mut p = l.split(' ');
            if let (Some("H"), Some(i), Some(h)) = (p.next(), p.next(), p.next()) {
                if let Some(first) = merged.hashes.get(&i.parse::<u64>().unwrap()) {
                    det_checked += 1;
                    if first != h {
                        det_bad += 1;
                    }
                }
            }
        }
        let _ = c.wait();
        if det_bad > 0 {
            eprintln!("warning: {det_bad} of {det_checked} sampled seeds did not repeat exactly");
        }
    }

    let mut code = 0;
    let mut replay_note = Value::Null;
    if let Some((idx, v, choices)) = &found {
        code = 1;
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", prop.id, o.seed, idx);
        let w = pick_world(prop, *idx);
        let seed = seed_of(prop, o.seed, *idx);
        let file = json!({"property": prop.id, "world": w.world, "profile": w.profile, "seed": seed,
            "base_seed": o.seed, "index": idx, "choices": choices.as_ref().map(write_choices),
            "violation": {"oracle": v.oracle, "what": v.what}});
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        if choices.is_some() {
            // Minimise in a child, which may die or hang on a reduced schedule.
            let mut c = spawn(&["minimise".into(), path.clone(), "45000".into(), root.clone()]);
            let t = Instant::now();
            loop {
                match c.try_wait() {
                    Ok(Some(_)) => break,
                    _ if t.elapsed() > Duration::from_secs(100) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    _ => std::thread::sleep(Duration::from_millis(20)),
                }
            }
        }
        let rep: Value = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
        println!("property {}: {} -- {}", prop.id, rep["violation"]["oracle"].as_str().unwrap_or(""), rep["violation"]["what"].as_str().unwrap_or(""));
        println!("world {} profile '{}' seed {} (run {}), {} choices after minimisation, {} of them not the plain one (of {})", w.world, w.profile, seed, idx,
            read_choices(&rep["choices"]).map_or(0, |c| size_of(&c).1),
            read_choices(&rep["choices"]).map_or(0, |c| size_of(&c).0),
            rep["original_choices"]);
        println!("VIOLATION property={} replay={}", prop.id, path);
        replay_note = json!(path);
    }

    // Evidence.
    let mut samples: Vec<Value> = Vec::new();
    if found.is_none() {
        let known = known_ids(&root, prop.id);
        for idx in 0..3u64 {
            let r = run_idx(prop, o.seed, idx, true, &known);
            let w = pick_world(prop, idx);
            let mut tr = r.ctx.trace.clone();
            if tr.len() > 60 {
                let cut = tr.len() - 60;
                tr.truncate(60);
                tr.push(format!("... {cut} more events"));
            }
            samples.push(json!({"run": idx, "seed": seed_of(prop, o.seed, idx), "world": w.world, "profile": w.profile,
                "choices_taken": r.ctx.ch.count(), "trace": tr}));
        }
    } else {
        samples.push(json!({"violation_replay": replay_note}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = if search_s > 0.0 { (merged.runs as f64 / search_s * 3600.0) as u64 } else { 0 };
    let ev = json!({
        "property": prop.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": if found.is_some() {1} else {0},
        "assumptions": prop.assumptions,
        "coverage": {
            "evaluations": merged.runs,
            "distinct_nontrivial": merged.nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "first_seed": seed_of(prop, o.seed, 0),
            "simulated_time_ms": merged.sim_ms,
            "events": merged.steps,
            "faults_injected": merged.faults,
            "situations_reached": merged.probes,
            "distinct_interleavings": merged.all.len(),
            "interleaving_measure": "distinct hashes of the complete event trace of a run",
            "distinct_states": merged.states.len(),
            "state_measure": prop.state_measure,
            "determinism": {"seeds_repeated_in_another_process": det_checked, "differing": det_bad},
            "runs_ended_by_known_finding": merged.ignored,
            "worlds": prop.worlds.iter().map(|w| json!({"world": w.world, "profile": w.profile, "weight": w.weight, "about": props::about(w.world)})).collect::<Vec<_>>(),
            "real_components": props::real(prop),
            "stubbed_components": props::stubbed(prop),
        }
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {}: {} runs in {:.1} s ({} per hour), {} distinct non-trivial, {} states, faults {:?}{}",
        prop.id, o.tier, merged.runs, search_s, per_hour, merged.nontrivial.len(), merged.states.len(), merged.faults,
        if code == 0 { ", held" } else { "" }
    );
    let _ = std::io::stdout().flush();
    code
}

pub fn hashes(prop: &Property, base: u64, count: u64, known: &BTreeSet<String>) {
    for idx in 0..count {
        let r = run_idx(prop, base, idx, false, known);
        println!("H {idx} {:016x}", r.ctx.trace_hash);
    }
}

/// Decisions in a replay file: by lane.
fn write_choices(c: &Choices) -> Value {
    Value::Object(c.iter().map(|(k, l)| (k.to_string(), json!(l))).collect())
}
fn read_choices(v: &Value) -> Option<Choices> {
    let list = |v: &Value| -> Vec<u32> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() };
    Some(v.as_object()?.iter().map(|(k, l)| (k.parse().unwrap(), list(l))).collect())
}
/// Decisions other than the plain one, all decisions, and the sum of their values.
fn size_of(c: &Choices) -> (usize, usize, u64) {
    let all = || c.values().flatten();
    (all().filter(|x| **x != 0).count(), all().count(), all().map(|x| *x as u64).sum())
}

pub struct Replay {
    pub file: Value,
    pub world: World,
    pub profile: String,
    pub seed: u64,
    pub choices: Option<Choices>,
}

pub fn load(path: &str) -> Replay {
    let file: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    Replay {
        world: props::world(file["world"].as_str().unwrap()),
        profile: file["profile"].as_str().unwrap().to_string(),
        seed: file["seed"].as_u64().unwrap(),
        choices: read_choices(&file["choices"]),
        file,
    }
}

/// Exit 1 when the violation is reproduced exactly, 0 when the run is clean,
/// 2 when something else happens.
pub fn replay(path: &str, root: &str) -> i32 {
    let r = load(path);
    let known = known_ids(root, "");
    let ch = match &r.choices {
        Some(c) => Chooser::replay(c.clone()),
        None => Chooser::random(r.seed),
    };
    let res = execute(r.world, r.seed, &r.profile, ch, true, &known);
    for l in &res.ctx.trace {
        println!("{l}");
    }
    let prop = r.file["property"].as_str().unwrap_or("");
    match res.violation {
        None => {
            println!("no violation");
            0
        }
        Some(v) => {
            let same = r.file["violation"]["oracle"].as_str() == Some(&v.oracle)
                && r.file["violation"]["what"].as_str() == Some(&v.what)
                && r.file["trace_hash"].as_str().is_none_or(|h| h == format!("{:016x}", res.ctx.trace_hash));
            println!("{}: {}", v.oracle, v.what);
            println!("reproduced exactly: {same}");
            println!("VIOLATION property={prop} replay={path}");
            if same { 1 } else { 2 }
        }
    }
}

/// Shrinks the decisions of a replay file while the same oracle fires.
pub fn minimise(path: &str, budget_ms: u64, root: &str) {
    let r = load(path);
    let known = known_ids(root, "");
    let oracle = r.file["violation"]["oracle"].as_str().unwrap().to_string();
    let t0 = Instant::now();
    let over = || t0.elapsed().as_millis() > budget_ms as u128;
    let mut best = r.choices.clone().unwrap();
    let original = r.file["original_choices"].as_u64().unwrap_or(size_of(&best).1 as u64);
    let mut tried = 0u64;
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
    // Tries several reduced schedules at once; the first that still fails.
    let mut attempt = |cs: &[Choices]| -> Option<(usize, Choices)> {
        tried += cs.len() as u64;
        let results: Vec<Option<Choices>> = std::thread::scope(|s| {
            let started: Vec<_> = cs
                .iter()
                .map(|c| {
                    let (r, known, oracle) = (&r, &known, &oracle);
                    s.spawn(move || {
                        let res = execute(r.world, r.seed, &r.profile, Chooser::replay(c.clone()), false, known);
                        let t = res.ctx.ch.taken();
                        res.violation.is_some_and(|v| v.oracle == *oracle).then_some(t)
                    })
                })
                .collect();
            started.into_iter().map(|t| t.join().unwrap_or(None)).collect()
        });
        results.into_iter().enumerate().find_map(|(i, t)| Some((i, t?)))
    };
    let smaller = |a: &Choices, b: &Choices| size_of(a) < size_of(b);
    if let Some((_, t)) = attempt(&[best.clone()]) {
        best = t;
        loop {
            let before = best.clone();
            let mut keys: Vec<u64> = best.keys().copied().collect();
            keys.sort_by_key(|k| std::cmp::Reverse(best[k].len()));
            // Whole lanes, then blocks of all lanes, which get smaller.
            let mut next = 0;
            while keys.len() > 1 && next < keys.len() && !over() {
                let end = (next + threads).min(keys.len());
                let cs: Vec<Choices> = keys[next..end]
                    .iter()
                    .map(|k| {
                        let mut c = best.clone();
                        c.remove(k);
                        c
                    })
                    .collect();
                next = match attempt(&cs) {
                    Some((i, t)) if smaller(&t, &best) => {
                        best = t;
                        next + i + 1
                    }
                    _ => end,
                };
            }
            let mut size = (best.values().map(|l| l.len()).max().unwrap_or(0) / 2).max(1);
            while !over() {
                for k in &keys {
                    let mut at = 0;
                    while at < best.get(k).map_or(0, |l| l.len()) && !over() {
                        // Drop some of the blocks, or make them plain instead.
                        let mut cs = Vec::new();
                        let mut place = Vec::new();
                        let len = best[k].len();
                        let mut p = at;
                        while p < len && cs.len() < threads {
                            let end = (p + size).min(len);
                            let mut c = best.clone();
                            c.get_mut(k).unwrap().drain(p..end);
                            cs.push(c);
                            place.push((p, p));
                            if best[k][p..end].iter().any(|x| *x != 0) {
                                let mut c = best.clone();
                                c.get_mut(k).unwrap()[p..end].fill(0);
                                cs.push(c);
                                place.push((p, end));
                            }
                            p = end;
                        }
                        at = match attempt(&cs) {
                            Some((i, t)) if smaller(&t, &best) => {
                                best = t;
                                place[i].1
                            }
                            Some((i, _)) => place[i].0 + size,
                            None => p,
                        };
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // Reduce values.
            for k in &keys {
                let mut i = 0;
                while i < best.get(k).map_or(0, |l| l.len()) && !over() {
                    let v = best[k][i];
                    let cs: Vec<Choices> = [v / 16, v / 2, v.saturating_sub(1)]
                        .into_iter()
                        .filter(|x| *x < v)
                        .map(|x| {
                            let mut c = best.clone();
                            c.get_mut(k).unwrap()[i] = x;
                            c
                        })
                        .collect();
                    match attempt(&cs) {
                        Some((_, t)) if smaller(&t, &best) => best = t,
                        _ => i += 1,
                    }
                }
            }
            if best == before || over() {
                break;
            }
        }
    }
    let res = execute(r.world, r.seed, &r.profile, Chooser::replay(best.clone()), true, &known);
    let mut file = r.file.clone();
    let Some(v) = res.violation else { return };
    file["original_choices"] = json!(original);
    file["choices"] = write_choices(&best);
    file["minimisation_runs"] = json!(tried);
    file["violation"] = json!({"oracle": v.oracle, "what": v.what});
    file["trace_hash"] = json!(format!("{:016x}", res.ctx.trace_hash));
    file["faults"] = json!(res.ctx.stats.faults);
    file["trace"] = json!(res.ctx.trace);
    std::fs::write(path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
}
