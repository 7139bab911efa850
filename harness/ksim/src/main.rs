//! ksim: deterministic simulation of the `k` crate.  See /verif/DESIGN.md.
mod alloc;
mod engine;
mod lin;
mod math;
mod props;
mod spec;
mod sys;

use engine::*;
use std::time::Instant;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}
fn main() {
    sys::no_aslr();
    install_hook();
    sys::install_logger();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match cmd {
        "check" => check(&args, seed),
        "replay" => do_replay(&args),
        "run" => do_run(&args, seed),
        "determinism" => determinism(&args, seed),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: ksim check|replay|run|determinism|list");
            2
        }
    };
    std::process::exit(code);
}
fn find(id: &str) -> &'static PropDef {
    match props::all().iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn check(args: &[String], seed: u64) -> i32 {
    let def = find(&args[2]);
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let dir = arg(args, "--verif").unwrap_or_else(|| "/verif".into());
    let mut total = if tier == "thorough" { def.thorough } else { def.quick };
    if let Some(n) = arg(args, "--runs").and_then(|x| x.parse().ok()) {
        total = n;
    }
    let cap = arg(args, "--cap").and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 1800 } else { 300 });
    let known = props::known(&format!("{}/known_findings.txt", dir), def.id);
    let t0 = Instant::now();
    println!("ksim {} tier={} VERIF_SEED={} runs={}", def.id, tier, seed, total);
    let classes: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
    let agg = explore(def, seed, total, cap, &classes);
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if !agg.harness.is_empty() {
        for h in agg.harness.iter().take(3) {
            eprintln!("HARNESS ERROR: {}", h);
        }
        code = 2;
    }
    for (class, what) in &known {
        let n = agg.known.iter().filter(|(c, _)| c.contains(class.as_str())).map(|(_, v)| v.0).sum::<u64>();
        println!("KNOWN-FINDING: property={} {} (met in {} runs of this check)", def.id, what, n);
    }
    let mut nviol = 0;
    if let Some((idx, v)) = agg.found.first() {
        nviol = agg.found.len();
        println!("violation found in run {}: [{}] {}", idx, v.class, v.msg);
        let m = minimise(def, seed, *idx, batch_size(total), v.clone(), 20);
        let text = replay_text(def, &m);
        let rdir = std::env::var("KSIM_REPLAYS").unwrap_or_else(|_| format!("{}/build/replays", dir));
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{}/{}-{:x}.replay", rdir, def.id, m.case.seed);
        if let Err(e) = std::fs::write(&path, text) {
            eprintln!("cannot write {}: {}", path, e);
        }
        println!(
            "minimised after {} probes to {} operations and {} forced switches: {}",
            m.tried,
            m.case
                .keep
                .as_ref()
                .map(|k| k.iter().flatten().filter(|x| **x).count().to_string())
                .unwrap_or("all".into()),
            m.case
                .choices
                .as_ref()
                .map(|c| c.iter().filter(|x| **x != 255).count().to_string())
                .unwrap_or("-".into()),
            m.viol.msg
        );
        if !m.exact {
            println!("note: re-executing the run and its batch did not reproduce it");
        }
        println!("VIOLATION property={} replay={}", def.id, path);
        code = 1;
    }
    let k = &agg;
    let per_hour = |n: u64| (n as f64 / wall.max(1e-9) * 3600.0) as u64;
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        format!(
            "{{{}}}",
            m.iter().map(|(a, b)| format!("{}: {}", json_str(a), b)).collect::<Vec<_>>().join(", ")
        )
    };
    let names = ["op", "lock", "try_lock", "atomic", "yield", "io", "callback", "sleep", "unlock", "wait", "count"];
    let kinds: std::collections::BTreeMap<String, u64> =
        names.iter().zip(k.kinds.iter()).filter(|(_, n)| **n > 0).map(|(a, n)| (a.to_string(), *n)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_nontrivial\": {},\n  \"runs_with_preemption\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct hashes of (workload, sequence of (thread, kind of point, object)) over the whole run\",\n  \"scheduling_points\": {},\n  \"points_by_kind\": {},\n  \"context_switches\": {},\n  \"preemptions\": {},\n  \"contended_lock_acquisitions\": {},\n  \"simulated_time_us\": {},\n  \"runs_and_seeds_per_hour\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"real_components\": \"the whole k crate and urdf_rs at /repo's working tree, nalgebra, the XML parser, the real allocator\",\n  \"stubbed_components\": \"std locks, atomics, clocks, sleep/yield, file reads and child processes (simstd), OS randomness (hash seeds), the scheduler\",\n  \"known_findings_seen\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(def.id),
        json_str(&tier),
        seed,
        k.runs,
        k.nt_hashes.len(),
        json_str(def.rule),
        k.samples.iter().map(|s| json_str(&s.chars().take(3000).collect::<String>())).collect::<Vec<_>>().join(", "),
        k.nontrivial,
        k.multi,
        k.hashes.len(),
        k.steps,
        map(&kinds),
        k.switches,
        k.preempt,
        k.contended,
        k.sim_us,
        per_hour(k.runs),
        map(&k.faults),
        map(&k.counts),
        k.known.values().map(|x| x.0).sum::<u64>(),
        def.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        nviol
    );
    let evp = format!("{}/evidence/{}.json", dir, def.id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    if let Err(e) = std::fs::write(&evp, ev) {
        eprintln!("cannot write {}: {}", evp, e);
        return if code == 1 { 1 } else { 2 };
    }
    if code == 0 && k.kinds.iter().sum::<u64>() == 0 {
        eprintln!("HARNESS ERROR: no scheduling point was reached; the code is not running under the simulator");
        return 2;
    }
    println!(
        "{} runs ({} distinct non-trivial), {} points, {} preemptions, {:.1}s, {} violations",
        k.runs,
        k.nt_hashes.len(),
        k.steps,
        k.preempt,
        wall,
        nviol
    );
    for (n, c) in agg.faults.iter() {
        println!("  fault {:<40} {}", n, c);
    }
    for (n, c) in agg.counts.iter() {
        println!("  probe {:<40} {}", n, c);
    }
    code
}

fn do_replay(args: &[String]) -> i32 {
    let path = &args[2];
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let r = parse_replay(&text);
    let def = find(&r.prop);
    for l in text.lines().filter(|l| l.starts_with("# ")).take(80) {
        println!("{}", l.chars().take(400).collect::<String>());
    }
    match replay(def, &r) {
        Some(v) => {
            println!("reproduced: [{}] {}", v.class, v.msg);
            if v.class != r.class {
                println!("note: recorded class was [{}]", r.class);
            }
            println!("VIOLATION property={} replay={}", r.prop, path);
            1
        }
        None => {
            println!("not reproduced on this tree");
            0
        }
    }
}

fn do_run(args: &[String], seed: u64) -> i32 {
    let def = find(&args[2]);
    let idx: u64 = args[3].parse().unwrap();
    let mut c = case_for(def, seed, idx);
    c.verbose = args.iter().any(|a| a == "-v");
    let out = run_case(def, c);
    println!("{}", describe(&out.ex, idx));
    if let Some(r) = &out.ex.report {
        for l in &r.log {
            println!("{}", l);
        }
    }
    println!("counts {:?} faults {:?} nontrivial {}", out.ex.stats.counts, out.ex.stats.faults, out.ex.nontrivial);
    println!("{:?} {:?}", out.res, out.harness_panic);
    out.res.is_err() as i32
}

/// Executes many seeds in separate processes, twice each, and compares the event logs.
fn determinism(args: &[String], seed: u64) -> i32 {
    let n: u64 = arg(args, "-n").and_then(|x| x.parse().ok()).unwrap_or(200);
    let only = arg(args, "-p");
    let mut bad = 0;
    for def in props::all() {
        if let Some(o) = &only {
            if o != def.id {
                continue;
            }
        }
        let one = |lo: u64, hi: u64, step: u64| -> Vec<(u64, u64)> {
            let t = in_child(|| {
                let mut s = String::new();
                let mut i = lo;
                while i < hi {
                    let mut c = case_for(def, seed, i);
                    c.hash_results = true;
                    let out = run_case(def, c);
                    let h = out.ex.report.as_ref().map(|r| r.hash ^ r.steps).unwrap_or(0);
                    s.push_str(&format!("{} {:x} {}\n", i, h, out.res.is_err() as u8));
                    i += step;
                }
                s
            });
            match t {
                Child::Text(t) => t
                    .lines()
                    .map(|l| {
                        let f: Vec<&str> = l.split(' ').collect();
                        (f[0].parse().unwrap(), u64::from_str_radix(f[1], 16).unwrap())
                    })
                    .collect(),
                _ => vec![],
            }
        };
        let mut base: Vec<(u64, u64)> = one(0, n, 1);
        // other batch partitions, other processes, reversed order of positions
        let mut other = vec![];
        for k in 0..7 {
            other.extend(one(k, n, 7));
        }
        base.sort();
        other.sort();
        let diff = base.iter().zip(other.iter()).filter(|(a, b)| a != b).count();
        println!("{}: {} seeds, {} differ, lens {} {}", def.id, n, diff, base.len(), other.len());
        if diff > 0 || base.len() != other.len() {
            bad += 1;
            for (a, b) in base.iter().zip(other.iter()).filter(|(a, b)| a != b).take(5) {
                println!("   {:?} {:?}", a, b);
            }
        }
        // digest, for comparison between separate executions of this command
        let d = base.iter().fold(0u64, |h, x| simstd::rt::mix(h, x.1));
        println!("   digest {:016x}", d);
    }
    (bad > 0) as i32
}
