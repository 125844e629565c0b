//! Runs a monitor over many generated cases in worker processes, and turns what the workers
//! report (or how they die) into a verdict, a replay file and an evidence file.

use crate::props::{spec, Spec};
use crate::util::{Ctx, Rng, Tier};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = info.payload();
        let msg = if let Some(s) = payload.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = payload.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
        let mut last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if last.is_none() {
            *last = Some((msg, loc.unwrap_or_default()));
        }
    }));
}

/// Forget panics a case provoked on purpose and handled.
pub fn clear_panic() {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

pub enum CaseResult {
    Held,
    Violated(String),
    Broken(String),
}

pub fn run_case(spec: &Spec, ctx: &mut Ctx) -> CaseResult {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let _ = fs::create_dir_all(&ctx.dir);
    let r = catch_unwind(AssertUnwindSafe(|| (spec.run)(ctx)));
    rocksdb::verif::fail_open_after(None);
    rocksdb::verif::fail_put_after(None);
    rocksdb::verif::fail_get_after(None);
    rocksdb::verif::set_delays(0);
    rocksdb::verif::stall_after(None, 0);
    let _ = fs::remove_dir_all(&ctx.dir);
    match r {
        Ok(Ok(())) => CaseResult::Held,
        Ok(Err(m)) if m.contains("BROKEN: ") => CaseResult::Broken(m),
        Ok(Err(m)) => CaseResult::Violated(m),
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .take()
                .unwrap_or_else(|| ("panic".into(), "?".into()));
            if loc.starts_with("src/") {
                CaseResult::Broken(format!("the harness itself panicked at {}: {}", loc, msg))
            } else {
                CaseResult::Violated(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

fn one_line(s: &str) -> String {
    serde_json::to_string(&shortened(s)).unwrap()
}

/// The start and the end of a long message.
pub fn shortened(s: &str) -> String {
    let n = s.chars().count();
    if n <= 4000 {
        return s.to_string();
    }
    let (start, end): (String, String) = (s.chars().take(2500).collect(), s.chars().skip(n - 1000).collect());
    format!("{} ... {}", start, end)
}

pub struct Job {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
}

fn case_ctx(job: &Job, case: u64) -> Ctx {
    let rng = Rng::new(job.seed, &job.prop, case);
    Ctx::new(rng, case, job.tier, job.scratch.join(format!("c{}", case)))
}

/// A worker: runs cases start, start+stride, ... and reports on stdout.
pub fn worker(job: Job, start: u64, stride: u64, cases: u64, secs: u64) -> i32 {
    let spec = spec(&job.prop).expect("known property");
    install_panic_hook();
    #[cfg(not(miri))]
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        if std::env::var_os("VERIF_NO_RLIMIT").is_none() {
            let bytes = 3u64 << 30;
            let mut lim = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            libc::getrlimit(libc::RLIMIT_AS, &mut lim);
            lim.rlim_cur = bytes.min(lim.rlim_max);
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
    }
    let out = std::io::stdout();
    let began = Instant::now();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let (mut evaluations, mut nontrivial) = (0u64, 0u64);
    let mut case = start;
    while case < cases && began.elapsed() < Duration::from_secs(secs) {
        let mut ctx = case_ctx(&job, case);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "C {}", case);
            let _ = o.flush();
        }
        let verdict = run_case(&spec, &mut ctx);
        evaluations += 1;
        for (k, v) in &ctx.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in &ctx.maxima {
            let e = maxima.entry(k).or_insert(0);
            *e = (*e).max(*v);
        }
        match verdict {
            CaseResult::Held => {
                if ctx.nontrivial {
                    nontrivial += 1;
                    sigs.insert(ctx.signature());
                    if samples.len() < 2 {
                        if let Some(s) = ctx.sample.take() {
                            samples.push(json!({"case": case, "what": s}));
                        }
                    }
                }
            }
            CaseResult::Violated(m) => {
                println!("V {} {}", case, one_line(&m));
                break;
            }
            CaseResult::Broken(m) => {
                println!("B {} {}", case, one_line(&m));
                break;
            }
        }
        case += stride;
    }
    let sig_path = job.scratch.join(format!("sigs-{}", start));
    let mut bytes = Vec::with_capacity(sigs.len() * 8);
    for s in &sigs {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    let _ = fs::create_dir_all(&job.scratch);
    let _ = fs::write(&sig_path, &bytes);
    let stats = json!({"evaluations": evaluations, "nontrivial": nontrivial, "counts": counts,
        "maxima": maxima, "samples": samples});
    println!("S {}", stats);
    0
}

enum Event {
    Line(usize, String),
    Eof(usize),
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    // our own child
    let stat = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = stat.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64)
}

pub enum Verdict {
    Held,
    Violated { case: u64, message: String },
    Inconclusive(String),
}

pub struct Outcome {
    pub verdict: Verdict,
    pub coverage: Map<String, Value>,
    pub evaluations: u64,
    pub distinct: u64,
}

pub struct Plan {
    pub workers: u64,
    pub cases: u64,
    pub secs: u64,
    pub exe: PathBuf,
    pub env: Vec<(String, String)>,
    pub label: &'static str,
    pub cpu_limit: f64,
}

pub fn drive(spec: &Spec, tier: Tier, seed: u64, plan: &Plan, scratch: &Path) -> Outcome {
    let tier_name = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = fs::create_dir_all(scratch);
    let (tx, rx) = mpsc::channel();
    let mut children = Vec::new();
    for w in 0..plan.workers {
        let mut cmd = Command::new(&plan.exe);
        cmd.arg("worker")
            .arg(spec.id)
            .arg(tier_name)
            .arg(seed.to_string())
            .arg(w.to_string())
            .arg(plan.workers.to_string())
            .arg(plan.cases.to_string())
            .arg(plan.secs.to_string())
            .arg(scratch)
            .env("RAYON_NUM_THREADS", spec.rayon_threads.to_string())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        for (k, v) in &plan.env {
            cmd.env(k, v);
        }
        let mut child = cmd.spawn().expect("spawn worker");
        let so = child.stdout.take().unwrap();
        let mut se = child.stderr.take().unwrap();
        let tx2 = tx.clone();
        let wi = w as usize;
        std::thread::spawn(move || {
            for line in BufReader::new(so).lines() {
                match line {
                    Ok(l) => {
                        let _ = tx2.send(Event::Line(wi, l));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx2.send(Event::Eof(wi));
        });
        let err = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = se.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        children.push((child, Some(err)));
    }
    drop(tx);
    let n = children.len();
    let mut current: Vec<Option<(u64, f64)>> = vec![None; n]; // case and CPU time at its start
    let mut done = vec![false; n];
    let mut got_stats = vec![false; n];
    let mut verdict: Option<Verdict> = None;
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut last_poll = Instant::now();
    let began = Instant::now();
    let hard_wall = Duration::from_secs(plan.secs * 2 + 400);
    while done.iter().any(|d| !d) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Event::Line(w, l)) => {
                let (tag, rest) = if l.len() > 2 { l.split_at(2) } else { (l.as_str(), "") };
                match tag {
                    "C " => {
                        current[w] =
                            Some((rest.parse().unwrap_or(0), -1.0));
                    }
                    "V " | "B " => {
                        let mut it = rest.splitn(2, ' ');
                        let case = it.next().and_then(|c| c.parse().ok()).unwrap_or(0);
                        let message: String =
                            it.next().and_then(|m| serde_json::from_str(m).ok()).unwrap_or_default();
                        if verdict.is_none() {
                            verdict = Some(if tag == "V " {
                                Verdict::Violated { case, message }
                            } else {
                                Verdict::Inconclusive(format!("case {}: {}", case, message))
                            });
                        }
                    }
                    "S " => {
                        got_stats[w] = true;
                        if let Ok(v) = serde_json::from_str::<Value>(rest) {
                            evaluations += v["evaluations"].as_u64().unwrap_or(0);
                            nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
                            if let Some(m) = v["counts"].as_object() {
                                for (k, n) in m {
                                    *counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                                }
                            }
                            if let Some(m) = v["maxima"].as_object() {
                                for (k, n) in m {
                                    let e = maxima.entry(k.clone()).or_insert(0);
                                    *e = (*e).max(n.as_u64().unwrap_or(0));
                                }
                            }
                            if let Some(a) = v["samples"].as_array() {
                                samples.extend(a.iter().cloned());
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ok(Event::Eof(w)) => {
                done[w] = true;
                let status = children[w].0.wait();
                let err = children[w].1.take().and_then(|h| h.join().ok()).unwrap_or_default();
                if !got_stats[w] && verdict.is_none() {
                    use std::os::unix::process::ExitStatusExt;
                    let sig = status.as_ref().ok().and_then(|s| s.signal());
                    let case = current[w].map_or(0, |c| c.0);
                    let tail: String = err
                        .lines()
                        .filter(|l| !l.trim().is_empty())
                        .take(60)
                        .collect::<Vec<_>>()
                        .join("\n");
                    verdict = Some(match sig {
                        Some(libc::SIGKILL) | Some(libc::SIGTERM) => Verdict::Inconclusive(format!(
                            "a worker was killed from outside during case {}",
                            case
                        )),
                        Some(s) => Verdict::Violated {
                            case,
                            message: format!("the process died of signal {}: {}", s, tail),
                        },
                        None if tail.contains("Sanitizer") || tail.contains("Undefined Behavior") => {
                            Verdict::Violated { case, message: tail }
                        }
                        None => Verdict::Inconclusive(format!(
                            "a worker ended without a report ({:?}): {}",
                            status, tail
                        )),
                    });
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
        if verdict.is_some() {
            for (c, _) in children.iter_mut() {
                let _ = c.kill();
            }
        }
        if last_poll.elapsed() > Duration::from_secs(1) {
            last_poll = Instant::now();
            for w in 0..n {
                if done[w] {
                    continue;
                }
                let cpu = cpu_seconds(children[w].0.id());
                if let (Some((case, started)), Some(cpu)) = (current[w].as_mut(), cpu) {
                    if *started < 0.0 {
                        *started = cpu;
                    } else if cpu - *started > plan.cpu_limit && verdict.is_none() {
                        verdict = Some(Verdict::Violated {
                            case: *case,
                            message: format!(
                                "case did not finish within {} seconds of processor time (cases of \
                                 this kind take milliseconds): the operation does not terminate",
                                plan.cpu_limit
                            ),
                        });
                    }
                }
            }
            if began.elapsed() > hard_wall && verdict.is_none() {
                verdict = Some(Verdict::Inconclusive("the run took too long".into()));
            }
        }
    }
    for (c, _) in children.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let mut distinct: HashSet<[u8; 8]> = HashSet::new();
    for w in 0..plan.workers {
        if let Ok(b) = fs::read(scratch.join(format!("sigs-{}", w))) {
            for c in b.chunks_exact(8) {
                let mut a = [0u8; 8];
                a.copy_from_slice(c);
                distinct.insert(a);
            }
        }
    }
    let _ = fs::remove_dir_all(scratch);
    let mut coverage = Map::new();
    coverage.insert("evaluations".into(), json!(evaluations));
    coverage.insert("distinct_nontrivial".into(), json!(distinct.len()));
    coverage.insert("nontrivial".into(), json!(nontrivial));
    coverage.insert("rule".into(), json!(spec.rule));
    samples.truncate(6);
    coverage.insert("samples".into(), json!(samples));
    coverage.insert("observed".into(), json!(counts));
    if !maxima.is_empty() {
        coverage.insert("maxima".into(), json!(maxima));
    }
    let verdict = verdict.unwrap_or(Verdict::Held);
    Outcome { verdict, coverage, evaluations, distinct: distinct.len() as u64 }
}
