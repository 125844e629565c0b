#[macro_use]
mod util;
mod alloc;
mod model;
mod props;
mod runner;

#[cfg(not(miri))]
#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

use runner::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use util::Tier;

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    let base = if shm.is_dir() { shm.to_owned() } else { std::env::temp_dir() };
    base.join(format!("carmen-verif-{}", std::process::id()))
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay(id: &str, tier: Tier, seed: u64, label: &str, case: u64, message: &str) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-seed{}-case{}.json", id, seed, case));
    let v = json!({"property": id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed, "case": case, "build": label, "message": message,
        "how": "cd /verif && ./check.sh replay <this file>"});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn check(id: &str) -> i32 {
    let spec = match props::spec(id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let began = std::time::Instant::now();
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let me = std::env::current_exe().unwrap();
    let quick = tier == Tier::Quick;
    // tools/mutate.py tries many changes with few cases each
    let asked = |name: &str| std::env::var(name).ok().and_then(|s| s.parse::<u64>().ok());
    let few = asked("VERIF_ONE_IN").map(|n| (spec.quick / n.max(1)).max(20));
    let mut plans = vec![Plan {
        workers: cpus,
        cases: few.unwrap_or(if quick { spec.quick } else { spec.thorough }),
        secs: if quick { 90 } else { 600 },
        exe: me,
        env: vec![],
        label: "asserts",
        cpu_limit: if few.is_some() { 5.0 } else { spec.cpu_limit },
    }];
    if let Some(asan) = std::env::var_os("VERIF_ASAN_BIN") {
        plans.push(Plan {
            workers: cpus,
            cases: if quick { spec.quick / 3 } else { spec.thorough / 8 },
            secs: if quick { 60 } else { 200 },
            exe: PathBuf::from(asan),
            env: vec![
                ("VERIF_NO_RLIMIT".into(), "1".into()),
                ("ASAN_OPTIONS".into(), "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1".into()),
            ],
            label: "address-sanitizer",
            cpu_limit: spec.cpu_limit * 4.0,
        });
    }
    if let Some(miri) = std::env::var_os("VERIF_MIRI_SH") {
        plans.push(Plan {
            workers: cpus,
            cases: 1_000_000,
            secs: if quick { 30 } else { 400 },
            exe: PathBuf::from(miri),
            env: vec![("VERIF_NO_RLIMIT".into(), "1".into())],
            label: "miri",
            cpu_limit: 1e9,
        });
    }
    let mut stages = Vec::new();
    let mut coverage = serde_json::Map::new();
    let mut code = 0;
    let mut violations = 0;
    for (i, plan) in plans.iter().enumerate() {
        let scratch = scratch_base().join(plan.label);
        let out = drive(spec, tier, seed, plan, &scratch);
        let _ = std::fs::remove_dir_all(scratch_base());
        if i == 0 {
            coverage = out.coverage.clone();
        } else {
            stages.push(json!({"build": plan.label, "coverage": Value::Object(out.coverage.clone())}));
        }
        match out.verdict {
            Verdict::Violated { case, message } => {
                let path = write_replay(id, tier, seed, plan.label, case, &message);
                println!("{} [{}] case {}: {}", id, plan.label, case, message);
                println!("VIOLATION property={} replay={}", id, path.display());
                violations = 1;
                code = 1;
                break;
            }
            Verdict::Inconclusive(m) => {
                println!("INCONCLUSIVE property={} [{}]: {}", id, plan.label, m);
                code = 2;
                break;
            }
            Verdict::Held => {
                println!(
                    "{} [{}]: held on {} cases ({} distinct non-trivial)",
                    id, plan.label, out.evaluations, out.distinct
                );
                if i == 0 && quick && few.is_none() && out.distinct < spec.min_distinct {
                    println!("INCONCLUSIVE property={}: only {} distinct non-trivial cases", id, out.distinct);
                    code = 2;
                    break;
                }
            }
        }
    }
    if !stages.is_empty() {
        coverage.insert("further_builds".into(), Value::Array(stages));
    }
    if let Ok(extra) = std::env::var("VERIF_EXTRA_COVERAGE") {
        if let Ok(v) = serde_json::from_str::<Value>(&extra) {
            coverage.insert("extra".into(), v);
        }
    }
    let evidence = json!({
        "property": id,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": Value::Object(coverage),
        "assumptions": [
            "the four git dependencies are replaced by the stand-ins in /verif/vendor",
            "held means: on the executions this run produced",
        ],
        "wall_s": began.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n").is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    code
}

fn replay(path: &str) -> i32 {
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path);
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let spec = match props::spec(id) {
        Some(s) => s,
        None => return 2,
    };
    install_panic_hook();
    let tier = tier_of(v["tier"].as_str().unwrap_or("quick"));
    let (seed, case) = (v["seed"].as_u64().unwrap_or(1), v["case"].as_u64().unwrap_or(0));
    let base = scratch_base();
    let mut ctx = util::Ctx::new(util::Rng::new(seed, id, case), case, tier, base.join("replay"));
    let r = run_case(spec, &mut ctx);
    let _ = std::fs::remove_dir_all(&base);
    match r {
        CaseResult::Held => {
            println!("{} seed {} case {}: held", id, seed, case);
            0
        }
        CaseResult::Violated(m) => {
            println!("{} seed {} case {}: {}", id, seed, case, runner::shortened(&m));
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        CaseResult::Broken(m) => {
            println!("{} seed {} case {}: {}", id, seed, case, runner::shortened(&m));
            2
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "replay" => replay(arg(2)),
        "list" => {
            for s in props::SPECS {
                println!("{}", s.id);
            }
            0
        }
        "worker" => worker(
            Job {
                prop: arg(2).to_string(),
                tier: tier_of(arg(3)),
                seed: num(4),
                scratch: PathBuf::from(arg(9)),
            },
            num(5),
            num(6),
            num(7),
            num(8),
        ),
        _ => {
            eprintln!("usage: carmen-verif check <property> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
