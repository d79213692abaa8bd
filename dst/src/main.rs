#![allow(dead_code)]
mod gen;
mod json;
mod kernel;
mod libprop;
mod minimise;
mod model;
mod oracle;
mod props;
mod rng;
mod scenario;
mod server;
mod sim;
mod vfs;
mod world;

use json::J;
use props::*;
use rng::{hash_bytes, mix2};
use scenario::{Plan, Scenario};
use server::Server;
use sim::{Mode, Stats};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn get(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

fn main() {
    let mut a = Args(BTreeMap::new(), Vec::new());
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.strip_prefix("--") {
            Some(k) => {
                let v = it.next().unwrap_or_default();
                a.0.insert(k.into(), v);
            }
            None => a.1.push(x),
        }
    }
    let code = match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("one") => one(&a),
        Some("hashes") => hashes(&a),
        Some("texts") => texts(&a),
        _ => {
            eprintln!("usage: dst check|replay|one|hashes --bin F --shim F --libsim F --prop P --seed N --tier T --out DIR");
            2
        }
    };
    std::process::exit(code);
}

fn context(a: &Args, seed: u64) -> Ctx {
    let shim = PathBuf::from(a.get("shim"));
    let srv = Server::start(&PathBuf::from(a.get("bin")), &shim).expect("start luafmt under the simulator");
    let lib = match a.get("libsim") {
        "" => None,
        p => Some(Server::start(&PathBuf::from(p), &shim).expect("start libsim under the simulator")),
    };
    Ctx { srv, lib, refs: Default::default(), librefs: Default::default(), pool: pool(seed) }
}

fn run_seed(verif_seed: u64, prop: &str, i: usize) -> u64 {
    mix2(mix2(verif_seed, hash_bytes(prop.as_bytes())), i as u64) >> 1
}

/// runs per check
fn budget(prop: &str, tier: &str) -> usize {
    let quick = match prop {
        "C01" => 7000,
        "C02" => 13000,
        "C03" => 25000,
        "C04" => 15000,
        "C05" => 13000,
        "C06" => 20000,
        "C07" => 30000,
        "C08" => 15000,
        "C09" => 50000,
        "C10" => 13000,
        "C11" => 17000,
        "C12" => 40000,
        "C13" => 6500,
        "C14" => 7500,
        "C15" => 35000,
        "C16" => 7000,
        "C18" => 2600,
        "C20" => 12000,
        _ => 22000,
    };
    if tier == "thorough" {
        quick * 60
    } else {
        quick
    }
}

#[derive(Default)]
struct Tally {
    stats: Stats,
    runs: u64,
    skipped: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    variants: BTreeMap<String, u64>,
    samples: Vec<(usize, String)>,
    refs: u64,
    hits: u64,
    first_fail: Option<(usize, String)>,
}

fn check(a: &Args) -> i32 {
    let prop = a.get("prop").to_string();
    let seed = a.num("seed", 1);
    let tier = if a.get("tier").is_empty() { "quick".to_string() } else { a.get("tier").to_string() };
    let n = a.num("runs", budget(&prop, &tier) as u64) as usize;
    let cap = Duration::from_secs(a.num("wall", if tier == "thorough" { 2400 } else { 150 }));
    let jobs = a.num("jobs", 8) as usize;
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let low = AtomicUsize::new(usize::MAX);
    let timed_out = AtomicBool::new(false);
    let tally = Mutex::new(Tally::default());
    let mut case_fail: Option<(Scenario, String)> = None;
    std::thread::scope(|s| {
        for _ in 0..jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut ctx = context(a, seed);
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > low.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            timed_out.store(true, Ordering::SeqCst);
                            break;
                        }
                        let sc = generate(&prop, run_seed(seed, &prop, i), &ctx.pool);
                        let v = evaluate(&mut ctx, &sc, Mode::Record, false);
                        t.runs += 1;
                        t.stats.merge(&v.stats);
                        if v.skipped {
                            t.skipped += 1;
                        }
                        if v.nontrivial {
                            t.nontrivial += 1;
                            t.distinct.insert(v.hash);
                        }
                        if !sc.variant.is_empty() {
                            *t.variants.entry(sc.variant.clone()).or_default() += 1;
                        }
                        if v.nontrivial && t.samples.len() < 3 {
                            t.samples.push((i, v.summary.clone()));
                        }
                        if let Some(m) = v.fail {
                            low.fetch_min(i, Ordering::SeqCst);
                            if t.first_fail.as_ref().map_or(true, |f| i < f.0) {
                                t.first_fail = Some((i, m));
                            }
                        }
                    }
                    let mut g = tally.lock().unwrap();
                    g.stats.merge(&t.stats);
                    g.runs += t.runs;
                    g.skipped += t.skipped;
                    g.nontrivial += t.nontrivial;
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.variants {
                        *g.variants.entry(k).or_default() += v;
                    }
                    g.samples.extend(t.samples);
                    g.refs += ctx.refs.runs + ctx.librefs.runs;
                    g.hits += ctx.refs.hits + ctx.librefs.hits;
                    if let Some(f) = t.first_fail {
                        if g.first_fail.as_ref().map_or(true, |x| f.0 < x.0) {
                            g.first_fail = Some(f);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut t = tally.into_inner().unwrap();
    if t.first_fail.is_none() {
        for (id, sc) in known_cases(&prop) {
            let mut ctx = context(a, seed);
            let v = evaluate(&mut ctx, &sc, Mode::Record, false);
            t.stats.merge(&v.stats);
            t.runs += 1;
            let Some(m) = v.fail else { continue };
            match known_finding(a.get("known"), &prop, id) {
                Some(what) => println!("KNOWN-FINDING: property={} {}", prop, what),
                None => case_fail = Some((sc, m)),
            }
        }
    }
    t.samples.sort();
    t.samples.truncate(4);
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let failed = match (&t.first_fail, case_fail) {
        (Some((i, m)), _) => Some((*i, generate(&prop, run_seed(seed, &prop, *i), &pool(seed)), m.clone())),
        (None, Some((sc, m))) => Some((n, sc, m)),
        _ => None,
    };
    if let Some((i, sc, m)) = failed {
        violations = 1;
        code = 1;
        let rs = if i < n { run_seed(seed, &prop, i) } else { sc.seed };
        let mut ctx = context(a, seed);
        let v = evaluate(&mut ctx, &sc, Mode::Record, false);
        let small = minimise::minimise(&mut ctx, &sc, &v, a.num("shrink", 20));
        let fin = evaluate(&mut ctx, &small.sc, Mode::Replay(&small.plan), true);
        let (sc, plan, fin) = match fin.fail {
            Some(_) => (small.sc, small.plan, fin),
            None => {
                let p = v.plan.clone();
                let f = evaluate(&mut ctx, &sc, Mode::Replay(&p), true);
                (sc, p, f)
            }
        };
        let msg = fin.fail.clone().unwrap_or(m.clone());
        let mut trace = fin.trace.clone();
        if trace.len() > 4000 {
            let cut = trace.len() - 4000;
            trace.drain(..cut);
        }
        let j = J::obj()
            .set("property", &prop)
            .set("message", &msg)
            .set("verif_seed", seed)
            .set("run", i)
            .set("run_seed", rs.to_string())
            .set("hash", J::Str(fin.hash.to_string()))
            .set("summary", &fin.summary)
            .set("minimised_in", small.tried)
            .set("scenario", sc.to_json())
            .set("plan", plan.to_json())
            .set("trace", J::from(trace));
        let dir = PathBuf::from(a.get("out"));
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{}-{}.json", prop, rs));
        std::fs::write(&f, j.pretty()).expect("write the replay file");
        println!("{}: run {} (seed {}): {}", prop, i, rs, msg);
        println!("{}: {}", prop, fin.summary);
        println!("VIOLATION property={} replay={}", prop, f.display());
    }
    evidence(a, &prop, &tier, seed, &t, t0.elapsed().as_secs_f64(), search, violations, n, timed_out.load(Ordering::SeqCst));
    println!(
        "{}: {} runs in {:.1} s ({} distinct non-trivial, {} not judged), {} system calls, {} faults, {} tree states{}",
        prop,
        t.runs,
        search,
        t.distinct.len(),
        t.skipped,
        t.stats.steps,
        t.stats.faults.values().sum::<u64>(),
        t.stats.states.len(),
        if timed_out.load(Ordering::SeqCst) { ", stopped by the time limit" } else { "" }
    );
    if a.get("verbose") == "1" {
        for (k, v) in &t.stats.probes {
            println!("   {} {}", v, k);
        }
        println!("   {:?}", t.stats.faults);
        println!("   {:?}  refs {} hits {}", t.variants, t.refs, t.hits);
    }
    if code == 0 && t.skipped * 2 > t.runs {
        eprintln!("{}: most runs could not be judged", prop);
        return 3;
    }
    code
}

/// what the file of known findings says about one case of a property
fn known_finding(file: &str, prop: &str, id: &str) -> Option<String> {
    let head = format!("open: property={} {} ", prop, id);
    let s = std::fs::read_to_string(file).ok()?;
    s.lines().find_map(|l| l.strip_prefix(&head).map(|w| format!("{} {}", id, w)))
}

#[allow(clippy::too_many_arguments)]
fn evidence(a: &Args, prop: &str, tier: &str, seed: u64, t: &Tally, wall: f64, search: f64, violations: i64, n: usize, cut: bool) {
    let f = a.get("evidence");
    if f.is_empty() {
        return;
    }
    let map = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect());
    let probes: BTreeMap<String, u64> = t.stats.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let (real, stub): (&[&str], &[&str]) = if prop == "C16" {
        (
            &["luafmt library crate built from /repo (parser, formatter, configuration, file look-up)", "std, libstd threads, regex, glibc apart from the interposed calls"],
            &["file system, clock, randomness: simulated kernel", "choice of the running thread: token scheduler with preemption at every basic block of the library (half of the runs), allocator calls, lock waits and system calls"],
        )
    } else {
        (
            &["luafmt release binary built from /repo, unmodified (argument handling, traversal, configuration look-up, parser, formatter, output)", "std, regex, glibc apart from the interposed calls"],
            &["file system with page cache, journal and power loss", "standard streams", "process scheduling, kills", "clock, randomness, process ids, inode numbers, listing order", "every failing, short or interrupted call"],
        )
    };
    let sv = |v: &[&str]| J::Arr(v.iter().map(|x| J::s(x)).collect());
    let cov = J::obj()
        .set("evaluations", t.runs)
        .set("distinct_nontrivial", t.distinct.len())
        .set("rule", format!("one evaluation = one simulated run = one seed (its own generated world, arguments, schedule and faults from one seed) with all checks of {}; non-trivial = {}; distinct = different hash over the complete sequence of calls, arguments, results, faults and exits", prop, rule(prop)))
        .set("samples", J::Arr(t.samples.iter().map(|s| J::s(&s.1)).collect()))
        .set("planned_runs", n)
        .set("stopped_by_time_limit", cut)
        .set("nontrivial_runs", t.nontrivial)
        .set("runs_not_judged", t.skipped)
        .set("runs_per_hour", (t.runs as f64 / search * 3600.0) as u64)
        .set("simulated_seconds", t.stats.sim_ns as f64 / 1e9)
        .set("simulated_processes", t.stats.procs)
        .set("system_calls_served", t.stats.steps)
        .set("reference_runs", t.refs)
        .set("reference_results_reused", t.hits)
        .set("faults_injected", map(&t.stats.faults))
        .set("faults_total", t.stats.faults.values().sum::<u64>())
        .set("distinct_tree_states", t.stats.states.len())
        .set("state_measure", "digests of the whole simulated tree (names, types, modes, links, contents) after a change")
        .set("variants", map(&t.variants))
        .set("probes", map(&probes))
        .set("real_components", sv(real))
        .set("stub_components", sv(stub));
    let j = J::obj()
        .set("property", prop)
        .set("tier", tier)
        .set("seed", seed)
        .set("level", "exploration")
        .set("coverage", cov)
        .set(
            "assumptions",
            sv(&[
                "the simulated kernel behaves like Linux for the calls luafmt makes",
                "power loss: any prefix of the metadata journal behind what was synced, any prefix of the unsynced data of each file, the last write torn",
                "luafmt reaches the system through libc only; raw system calls it does not make are refused",
            ]),
        )
        .set("wall_s", wall)
        .set("violations", violations);
    let p = PathBuf::from(f);
    if let Some(d) = p.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&p, j.pretty() + "\n").expect("write evidence");
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "the tree changed at least once, so that an interruption could matter",
        "C02" | "C07" => "at least one file selected and at least one call failed, was short or was interrupted",
        "C03" => "at least one selected file that must be rejected",
        "C04" => "at least two files in the batch",
        "C05" => "at least one read or write was cut short or interrupted",
        "C09" => "the run made more than 20 system calls",
        "C10" => "at least one file selected and something was changed",
        "C11" => "at least one write to stdout was bent and there was output to deliver",
        "C12" => "a call was bent or the input is invalid",
        "C13" => "at least one fault, kill or power loss struck",
        "C14" => "at least two processes work on the same file",
        "C16" => "at least two library calls",
        "C18" => "more files selected than descriptors allowed",
        "C19" => "several changes to the tree, and the source is not open to everybody",
        "C20" => "the other program struck while the run went on",
        "C17" => "the two runs really were different sequences of calls",
        _ => "at least one file selected",
    }
}

fn replay(a: &Args) -> i32 {
    let f = match a.1.get(1) {
        Some(f) => f,
        None => return 2,
    };
    let j = J::parse(&std::fs::read_to_string(f).expect("read the replay file")).expect("parse the replay file");
    let sc = Scenario::from_json(j.get("scenario")).expect("scenario");
    let plan = Plan::from_json(j.get("plan"));
    let mut ctx = context(a, j.get("verif_seed").u64());
    let v = evaluate(&mut ctx, &sc, Mode::Replay(&plan), true);
    for l in &v.trace {
        println!("{}", l);
    }
    println!("{}", v.summary);
    match v.fail {
        Some(m) => {
            println!("{}", m);
            if v.hash.to_string() != j.get("hash").str() {
                println!("note: the sequence of calls is not the recorded one");
            }
            println!("VIOLATION property={} replay={}", sc.prop, f);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// one run, with its trace
fn one(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let prop = a.get("prop");
    let mut ctx = context(a, seed);
    let rs = match a.get("run-seed") {
        "" => run_seed(seed, prop, a.num("run", 0) as usize),
        s => s.parse().unwrap(),
    };
    let sc = generate(prop, rs, &ctx.pool);
    if a.get("world") == "1" {
        println!("{}", sc.to_json().pretty());
    }
    let v = evaluate(&mut ctx, &sc, Mode::Record, true);
    for l in &v.trace {
        println!("{}", l);
    }
    println!("{}", v.summary);
    println!("{:?} nontrivial {} skipped {} {:?}", v.fail, v.nontrivial, v.skipped, v.stats.probes);
    let w = evaluate(&mut ctx, &sc, Mode::Replay(&v.plan), true);
    println!("replay: {} hash {}", if w.fail == v.fail { "same verdict" } else { "OTHER VERDICT" }, if w.hash == v.hash { "same" } else { "OTHER" });
    if w.hash != v.hash {
        for (x, y) in v.trace.iter().zip(w.trace.iter()) {
            if x != y {
                println!("  first: {}\n   then: {}", x, y);
                break;
            }
        }
    }
    0
}

/// hash of every run: for comparing executions of the harness with one another
fn hashes(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let prop = a.get("prop").to_string();
    let n = a.num("runs", 100) as usize;
    let jobs = a.num("jobs", 8) as usize;
    let next = AtomicUsize::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| {
                let mut ctx = context(a, seed);
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let sc = generate(&prop, run_seed(seed, &prop, i), &ctx.pool);
                    let v = evaluate(&mut ctx, &sc, Mode::Record, false);
                    let mut r = String::new();
                    if a.get("replay") == "1" {
                        let w = evaluate(&mut ctx, &sc, Mode::Replay(&v.plan), false);
                        if w.hash != v.hash || w.fail != v.fail {
                            r = " REPLAY DIFFERS".into();
                        }
                    }
                    out.lock().unwrap().insert(i, format!("{:016x} {:?}{}", v.hash, v.fail, r));
                }
            });
        }
    });
    for (i, l) in out.lock().unwrap().iter() {
        println!("{} {}", i, l);
    }
    0
}

/// the texts of the pool, one file each: for looking at them
fn texts(a: &Args) -> i32 {
    let p = pool(a.num("seed", 1));
    let d = a.get("to").to_string();
    std::fs::create_dir_all(&d).expect("directory");
    for i in 0..p.small {
        std::fs::write(format!("{}/s{:04}.lua", d, i), p.small(i)).expect("text");
    }
    for i in 0..gen::BIG.len() * 4 {
        std::fs::write(format!("{}/t{:04}.lua", d, i), p.big(i)).expect("text");
    }
    0
}
