mod clock;
mod dev;
mod dict;
mod engine;
mod guided;
mod layout;
mod model;
mod props;
mod tables;

use engine::*;
use serde_json::{Value, json};
use std::{path::PathBuf, time::Instant};

struct Args {
    prop: String,
    tier: Tier,
    seed: u64,
    root: PathBuf,
    replay: Option<PathBuf>,
    only: Option<String>,
    /// seconds of guided search
    guided: Option<f64>,
    /// this is a worker of the guided search, with its number and seconds
    worker: Option<(usize, f64)>,
}

fn parse_args() -> Args {
    let mut a = Args {
        prop: String::new(),
        tier: Tier::Quick,
        seed: 1,
        root: PathBuf::from("/verif"),
        replay: None,
        only: None,
        guided: None,
        worker: None,
    };
    let mut it = std::env::args().skip(1);
    let need = |v: Option<String>| v.unwrap_or_else(|| harness_error("missing argument"));
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => {
                a.tier = match need(it.next()).as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    t => harness_error(&format!("unknown tier {t}")),
                }
            }
            "--seed" => {
                a.seed = need(it.next())
                    .parse()
                    .unwrap_or_else(|_| harness_error("bad seed"))
            }
            "--root" => a.root = need(it.next()).into(),
            "--replay" => a.replay = Some(need(it.next()).into()),
            "--guided" => {
                a.guided = Some(need(it.next()).parse().unwrap_or_else(|_| harness_error("bad time")));
            }
            "--worker" => {
                let n = need(it.next()).parse().unwrap_or_else(|_| harness_error("bad worker"));
                a.worker = Some((n, need(it.next()).parse().unwrap_or_else(|_| harness_error("bad time"))));
            }
            "--only" => a.only = Some(need(it.next())),
            x if x.starts_with("--") => harness_error(&format!("unknown option {x}")),
            _ => a.prop = x,
        }
    }
    a
}

/// One worker process of the guided search.
fn worker(args: &Args, ctx: &Ctx, n: usize, secs: f64) -> ! {
    if !guided::instrumented() {
        harness_error("the library is not instrumented");
    }
    let subs = props::subs(&args.prop);
    let subs: Vec<_> = subs
        .iter()
        .filter(|s| s.can_be_guided())
        .filter(|s| args.only.as_deref().is_none_or(|o| o == s.name()))
        .collect();
    for s in &subs {
        let (stats, failure) = s.guided(ctx, n, secs / subs.len() as f64);
        println!("STATS {stats}");
        if let Some(f) = failure {
            let path = write_replay(&f);
            println!("VIOLATION property={} replay={}", args.prop, path.display());
            std::process::exit(1);
        }
    }
    std::process::exit(0)
}

/// Starts the workers; returns what they have covered, per sub-check, or ends
/// with the first violation.
fn run_guided(args: &Args, secs: f64) -> Vec<Value> {
    let subs = props::subs(&args.prop);
    if !subs.iter().any(|s| s.can_be_guided()) {
        return vec![];
    }
    let bin = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("own path: {e}")));
    let children: Vec<_> = (0..SHARDS)
        .map(|i| {
            let mut c = std::process::Command::new(&bin);
            c.arg(&args.prop)
                .args(["--tier", if args.tier == Tier::Quick { "quick" } else { "thorough" }])
                .args(["--seed", &args.seed.to_string()])
                .arg("--root")
                .arg(&args.root)
                .args(["--worker", &i.to_string(), &secs.to_string()]);
            if let Some(o) = &args.only {
                c.args(["--only", o]);
            }
            c.stdout(std::process::Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| harness_error(&format!("cannot start {}: {e}", bin.display())))
        })
        .collect();
    let mut total: Vec<Value> = vec![];
    let mut violation = None;
    for c in children {
        let out = c
            .wait_with_output()
            .unwrap_or_else(|e| harness_error(&format!("guided worker: {e}")));
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        for l in text.lines() {
            let Some(v) = l.strip_prefix("STATS ").and_then(|j| serde_json::from_str::<Value>(j).ok()) else {
                continue;
            };
            match total.iter_mut().find(|t| t["sub"] == v["sub"]) {
                Some(t) => {
                    for k in ["cases", "nontrivial", "corpus", "features"] {
                        t[k] = json!(t[k].as_u64().unwrap_or(0) + v[k].as_u64().unwrap_or(0));
                    }
                }
                None => total.push(v),
            }
        }
        match out.status.code() {
            Some(0) => {}
            Some(1) if text.contains("VIOLATION") => violation = violation.or(Some(text)),
            c => harness_error(&format!("a guided worker ended with {c:?}")),
        }
    }
    for t in &total {
        println!("{} guided {t}", args.prop);
    }
    if let Some(text) = violation {
        text.lines().filter(|l| !l.starts_with("STATS")).for_each(|l| println!("{l}"));
        std::process::exit(1);
    }
    total
}

fn main() {
    let args = parse_args();
    install_panic_hook();
    let subs = props::subs(&args.prop);
    if subs.is_empty() {
        harness_error(&format!("unknown property {:?}", args.prop));
    }
    let _ = REPORT.set(Report {
        prop: args.prop.clone(),
        file: match args.worker {
            Some((n, _)) => format!("{}-guided{n}", args.prop),
            None => args.prop.clone(),
        },
        root: args.root.clone(),
        seed: args.seed,
    });
    let ctx = Ctx {
        tier: args.tier,
        seed: args.seed,
    };

    // A call that does not return is an error of the check, not a verdict.
    let limit = match args.tier {
        Tier::Quick => 600,
        Tier::Thorough => 6 * 3600,
    };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        harness_error("time limit reached");
    });

    if let Some(p) = &args.replay {
        let text = std::fs::read_to_string(p)
            .unwrap_or_else(|e| harness_error(&format!("cannot read {}: {e}", p.display())));
        let v: Value = serde_json::from_str(&text)
            .unwrap_or_else(|e| harness_error(&format!("cannot parse {}: {e}", p.display())));
        let name = v["sub"].as_str().unwrap_or_default();
        let Some(s) = subs.iter().find(|s| s.name() == name) else {
            harness_error(&format!("no sub-check {name:?} in {}", args.prop));
        };
        match s.replay(&v["input"]) {
            Ok(()) => {
                println!("replay of {} passes", p.display());
                return;
            }
            Err(m) => {
                println!("{name}: {m}");
                println!("VIOLATION property={} replay={}", args.prop, p.display());
                std::process::exit(1);
            }
        }
    }

    if let Some((n, secs)) = args.worker {
        worker(&args, &ctx, n, secs);
    }

    let start = Instant::now();
    let mut results = vec![];
    for s in &subs {
        if args.only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        let t = Instant::now();
        let r = s.run(&ctx);
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1} s{} {:?}",
            args.prop,
            r.name,
            r.stats.evaluations,
            r.stats.distinct.len() as u64 + r.stats.exhaustive_nontrivial,
            t.elapsed().as_secs_f64(),
            if r.failure.is_some() { " FAILED" } else { "" },
            r.stats.labels,
        );
        results.push(r);
    }

    let mut replay_path = None;
    if let Some(f) = results.iter().find_map(|r| r.failure.as_ref()) {
        replay_path = Some(write_replay(f));
    }

    let secs = args.guided.unwrap_or(match args.tier {
        Tier::Quick => 12.0,
        Tier::Thorough => 300.0,
    });
    let guided = if replay_path.is_none() { run_guided(&args, secs) } else { vec![] };
    let sum = |key: &str| guided.iter().filter_map(|g| g[key].as_u64()).sum::<u64>();
    let evaluations: u64 = sum("cases") + results.iter().map(|r| r.stats.evaluations).sum::<u64>();
    let distinct: u64 = results
        .iter()
        .map(|r| r.stats.distinct.len() as u64 + r.stats.exhaustive_nontrivial)
        .sum();
    let rule = results
        .iter()
        .map(|r| format!("{}: {}", r.name, r.rule))
        .collect::<Vec<_>>()
        .join(" | ")
        + " | the cases of the coverage-guided search count as evaluations; its non-trivial ones (same rules) are counted in `guided`, per worker, and not in distinct_nontrivial";
    let samples: Vec<Value> = results
        .iter()
        .flat_map(|r| r.stats.samples.iter().map(|s| json!({"check": r.name, "case": s})))
        .collect();
    let per: serde_json::Map<String, Value> = results
        .iter()
        .map(|r| {
            (
                r.name.to_string(),
                json!({
                    "cases": r.stats.evaluations,
                    "nontrivial_cases": r.stats.distinct.len() as u64 + r.stats.exhaustive_nontrivial,
                    "enumerated_completely": r.exhaustive,
                    "classes": r.stats.labels,
                }),
            )
        })
        .collect();
    let evidence = json!({
        "property": args.prop,
        "tier": match args.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": rule,
            "samples": samples,
            "exhaustive": results.iter().all(|r| r.exhaustive),
            "checks": per,
            "guided": guided,
        },
        "assumptions": props::assumptions(&args.prop),
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": results.iter().filter(|r| r.failure.is_some()).count(),
    });
    let dir = args.root.join("evidence");
    if let Err(e) = std::fs::create_dir_all(&dir).and_then(|()| {
        std::fs::write(
            dir.join(format!("{}.json", args.prop)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
    }) {
        harness_error(&format!("cannot write the evidence file: {e}"));
    }
    if let Some(p) = replay_path {
        println!("VIOLATION property={} replay={}", args.prop, p.display());
        std::process::exit(1);
    }
    println!("OK property={}", args.prop);
}
