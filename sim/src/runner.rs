//! Seeded search over executions: sharding, watchdog, minimisation, replay files,
//! evidence. A run is a pure function of (property, seed, run index).
use crate::ctx::{fail, Ctx, HarnessError, Res, Stats, Violation};
use crate::props::{self, PropDef};
use crate::seam;
use crate::source::{run_seed, Source};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Outcome {
    pub res: Res,
    pub rec: Vec<u64>,
    pub digest: u64,
    pub stats: Stats,
    pub sig: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub harness_error: Option<String>,
}

/// One simulated execution, in a thread of its own (fresh hash keys, fresh clock).
pub fn execute(p: &'static PropDef, src: Source, keep_log: bool, thorough: bool) -> Outcome {
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut ctx = Ctx::new(src, keep_log, thorough);
            let hs = ctx.src.below(1 << 32);
            seam::enter(hs);
            let disk = DISK.fetch_add(1, Ordering::SeqCst);
            seam::mount(disk);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx)));
            seam::unmount();
            let mut he = None;
            let res = match r {
                Ok(r) => r,
                Err(e) => {
                    let m = if let Some(h) = e.downcast_ref::<HarnessError>() {
                        h.0.clone()
                    } else {
                        format!("panic in the harness: {}", crate::ctx::last_panic())
                    };
                    he = Some(m);
                    Ok(())
                },
            };
            if let Err(v) = &res {
                ctx.ev(format!("VIOLATION {}: {}", v.class, v.msg));
            }
            Outcome {
                res,
                rec: std::mem::take(&mut ctx.src.rec),
                digest: ctx.digest(),
                sig: ctx.signature(),
                nontrivial: ctx.nontrivial,
                stats: ctx.stats.clone(),
                log: std::mem::take(&mut ctx.log),
                harness_error: he,
            }
        })
        .expect("thread");
    h.join().expect("run thread")
}
static DISK: AtomicU64 = AtomicU64::new(1);

static RUN_START: AtomicU64 = AtomicU64::new(0);
pub const HANG_S: u64 = 60;
fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}
fn spawn_watchdog(t0: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = RUN_START.load(Ordering::SeqCst);
        if s != 0 && now_ms(t0) > s + HANG_S * 1000 {
            std::process::exit(98);
        }
    });
}

pub fn worker(a: &[String]) -> i32 {
    let p = props::find(&a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let thorough = a[2] == "thorough";
    let shard: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let runs: u64 = a[5].parse().unwrap();
    let deadline: f64 = a[6].parse().unwrap();
    let dir = &a[7];
    let first: u64 = a[8].parse().unwrap();
    let t0 = Instant::now();
    spawn_watchdog(t0);
    let prog = std::fs::File::create(format!("{dir}/{shard}.{first}.progress")).unwrap();
    use std::os::unix::fs::FileExt;
    let mut stats = Stats::default();
    let mut sigs: BTreeSet<u64> = Default::default();
    let mut evals = 0u64;
    let mut rechecked = 0u64;
    let mut viol: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut classes: BTreeSet<String> = Default::default();
    let mut steps = 0u64;
    let mut harness: Option<String> = None;
    let mut run = shard;
    while run < runs {
        if run < first {
            run += n;
            continue;
        }
        if t0.elapsed().as_secs_f64() > deadline {
            break;
        }
        let _ = prog.write_at(format!("{run:020}").as_bytes(), 0);
        RUN_START.store(now_ms(t0), Ordering::SeqCst);
        let keep = run < 3;
        let o = execute(p, Source::random(run_seed(seed, p.id, run)), keep, thorough);
        evals += 1;
        steps += o.rec.len() as u64;
        if let Some(h) = o.harness_error {
            harness = Some(format!("run {run}: {h}"));
            break;
        }
        for (k, v) in &o.stats.faults {
            *stats.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.stats.probes {
            *stats.probes.entry(k.clone()).or_default() += v;
        }
        stats.sim_s += o.stats.sim_s;
        stats.calls += o.stats.calls;
        if o.nontrivial {
            sigs.insert(o.sig);
        }
        if keep {
            let l: Vec<&String> = o.log.iter().take(40).collect();
            samples.push(json!({"run": run, "decisions": o.rec.len(), "digest": format!("{:016x}", o.digest), "events": l}));
        }
        if run % 97 == 5 || (p.recheck && run % 7 == 3) {
            let o2 = execute(p, Source::random(run_seed(seed, p.id, run)), false, thorough);
            rechecked += 1;
            if o2.digest != o.digest {
                if p.recheck {
                    viol.push(json!({"run": run, "class": "not-repeatable", "msg": format!("the same execution twice in one process gave digests {:016x} and {:016x}", o.digest, o2.digest), "choices": Value::Null, "digest": "0"}));
                    break;
                }
                harness = Some(format!("run {run} is not repeatable: {:016x} then {:016x}", o.digest, o2.digest));
                break;
            }
        }
        if let Err(v) = &o.res {
            if classes.insert(v.class.clone()) {
                viol.push(json!({"run": run, "class": v.class, "msg": v.msg, "choices": o.rec, "digest": format!("{:016x}", o.digest)}));
            }
            *stats.probes.entry("violating_runs".into()).or_default() += 1;
            if classes.len() >= p.max_classes {
                break;
            }
        }
        RUN_START.store(0, Ordering::SeqCst);
        run += n;
    }
    RUN_START.store(0, Ordering::SeqCst);
    let out = json!({
        "evals": evals, "steps": steps, "rechecked": rechecked, "sigs": sigs.iter().collect::<Vec<_>>(),
        "faults": stats.faults, "probes": stats.probes, "sim_s": stats.sim_s, "calls": stats.calls,
        "viol": viol, "samples": samples, "harness": harness,
    });
    std::fs::write(format!("{dir}/{shard}.{first}.json"), out.to_string()).unwrap();
    0
}

/// Edits the decision list while the same class of violation persists.
fn minimise(p: &'static PropDef, v: &Violation, rec: Vec<u64>, thorough: bool, budget_s: f64) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut best = rec;
    let mut tries = 0usize;
    let test = |c: &[u64], tries: &mut usize| -> Option<Vec<u64>> {
        *tries += 1;
        let o = execute(p, Source::replay(c.to_vec()), false, thorough);
        match &o.res {
            Err(w) if w.class == v.class && o.harness_error.is_none() => Some(o.rec),
            _ => None,
        }
    };
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_secs_f64() > budget_s {
                    return (best, tries);
                }
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[(i + size).min(best.len())..]);
                match test(&c, &mut tries) {
                    Some(r) if better(&r, &best) => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then single values down
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed().as_secs_f64() > budget_s {
                    return (best, tries);
                }
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(r) = test(&c, &mut tries) {
                        if better(&r, &best) {
                            best = r;
                        }
                    } else if size == 1 {
                        for nv in [1, best[i] / 2, best[i] - 1] {
                            if nv < best[i] {
                                let mut c = best.clone();
                                c[i] = nv;
                                if let Some(r) = test(&c, &mut tries) {
                                    if better(&r, &best) {
                                        best = r;
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                i += size;
            }
        }
        if best == before {
            return (best, tries);
        }
    }
}

/// where evidence and replay files go
fn home(p: &str) -> String {
    format!("{}/{p}", std::env::var("RNX_HOME").unwrap_or("/verif".into()))
}

fn known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(home("known_findings.json")) {
        if let Ok(j) = serde_json::from_str::<Value>(&s) {
            for e in j["findings"].as_array().cloned().unwrap_or_default() {
                if e["property"] == prop {
                    v.push((e["class"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

pub fn check(id: &str) -> i32 {
    let p = props::find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let envn = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = envn("RNX_RUNS").unwrap_or(if thorough { p.quick_runs * 2000 } else { p.quick_runs });
    let deadline = envn("RNX_SECONDS").unwrap_or(if thorough { 1800 } else { 400 }) as f64;
    let nw = envn("RNX_THREADS").unwrap_or(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64).max(1);
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("rnxsim-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let dirs = dir.to_str().unwrap().to_string();
    let spawn = |shard: u64, first: u64, left: f64| {
        std::process::Command::new(&exe)
            .args(["worker", id, &seed.to_string(), tier, &shard.to_string(), &nw.to_string(), &runs.to_string(), &left.to_string(), &dirs, &first.to_string()])
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<(u64, u64, std::process::Child)> = (0..nw).map(|s| (s, 0, spawn(s, 0, deadline))).collect();
    let mut viols: Vec<Value> = vec![];
    let mut merged = Stats::default();
    let (mut evals, mut steps, mut rechecked) = (0u64, 0u64, 0u64);
    let mut sigs: BTreeSet<u64> = Default::default();
    let mut samples: Vec<Value> = vec![];
    let mut harness: Option<String> = None;
    let mut deaths = 0;
    while let Some((shard, first, mut k)) = kids.pop() {
        let st = k.wait().unwrap();
        if !st.success() {
            // the run that killed the process is in the progress file
            let run = std::fs::read_to_string(format!("{dirs}/{shard}.{first}.progress")).ok().and_then(|s| s.trim().parse::<u64>().ok());
            let class = if st.code() == Some(98) { "hang" } else { "abort" };
            match run {
                Some(r) => {
                    viols.push(json!({"run": r, "class": class, "msg": format!("the process running this execution ended with {st} ({})", if class == "hang" { "no progress for 60 s" } else { "abort: stack or memory exhausted, or a double panic" }), "choices": Value::Null, "digest": "0"}));
                    deaths += 1;
                    let left = deadline - t0.elapsed().as_secs_f64();
                    if deaths < 3 && left > 5.0 {
                        let nf = r + 1;
                        kids.push((shard, nf, spawn(shard, nf, left)));
                    }
                },
                None => harness = Some(format!("worker {shard} ended with {st} before its first run")),
            }
            continue;
        }
        let j: Value = serde_json::from_str(&std::fs::read_to_string(format!("{dirs}/{shard}.{first}.json")).unwrap()).unwrap();
        evals += j["evals"].as_u64().unwrap();
        steps += j["steps"].as_u64().unwrap();
        rechecked += j["rechecked"].as_u64().unwrap();
        for s in j["sigs"].as_array().unwrap() {
            sigs.insert(s.as_u64().unwrap());
        }
        for (k, v) in j["faults"].as_object().unwrap() {
            *merged.faults.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        for (k, v) in j["probes"].as_object().unwrap() {
            *merged.probes.entry(k.clone()).or_default() += v.as_u64().unwrap();
        }
        merged.sim_s += j["sim_s"].as_f64().unwrap();
        merged.calls += j["calls"].as_u64().unwrap();
        viols.extend(j["viol"].as_array().unwrap().iter().cloned());
        samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        if let Some(h) = j["harness"].as_str() {
            harness = Some(h.to_string());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    // lowest run of each class
    let mut by_class: BTreeMap<String, Value> = Default::default();
    for v in viols {
        let c = v["class"].as_str().unwrap().to_string();
        let r = v["run"].as_u64().unwrap();
        match by_class.get(&c) {
            Some(o) if o["run"].as_u64().unwrap() <= r => {},
            _ => {
                by_class.insert(c, v);
            },
        }
    }
    let kf = known(id);
    let mut fresh: Vec<Value> = vec![];
    let mut known_hit: BTreeSet<String> = Default::default();
    for (c, v) in by_class {
        if kf.iter().any(|(k, _)| *k == c) {
            known_hit.insert(c);
        } else {
            fresh.push(v);
        }
    }
    fresh.sort_by_key(|v| v["run"].as_u64().unwrap());
    for (c, what) in &kf {
        println!("KNOWN-FINDING: property={id} {what} [{c}]");
    }
    let mut replays: Vec<String> = vec![];
    let nv = fresh.len();
    std::fs::create_dir_all(home("replays")).ok();
    let t1 = Instant::now();
    install_min_watchdog(t0);
    for v in fresh.iter().take(4) {
        let class = v["class"].as_str().unwrap();
        let run = v["run"].as_u64().unwrap();
        let path = home(&format!("replays/{id}-s{seed}-r{run}.json"));
        let mut doc = json!({
            "property": id, "seed": seed, "run": run, "tier": tier, "class": class, "msg": v["msg"],
            "choices": Value::Null, "digest": v["digest"], "trace": [], "minimised_from": Value::Null,
            "reproduce": format!("/verif/run.sh replay {path}"),
        });
        // written first, so that the report stands even if minimisation is cut short
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("VIOLATION property={id} replay={path}");
        println!("  run {run}: {class}: {}", v["msg"].as_str().unwrap_or(""));
        let _ = std::io::stdout().flush();
        if let Some(ch) = v["choices"].as_array() {
            let rec: Vec<u64> = ch.iter().map(|x| x.as_u64().unwrap()).collect();
            let n0 = rec.len();
            let vio = Violation { class: class.to_string(), msg: String::new() };
            let left = 60.0 - t1.elapsed().as_secs_f64();
            let (min, tries) = if left > 1.0 { minimise(p, &vio, rec, thorough, left.min(20.0)) } else { (rec, 0) };
            let o = execute(p, Source::replay(min.clone()), true, thorough);
            if let Err(w) = &o.res {
                if w.class == class {
                    doc["choices"] = json!(o.rec);
                    doc["digest"] = json!(format!("{:016x}", o.digest));
                    doc["msg"] = json!(w.msg);
                    doc["trace"] = json!(o.log);
                    doc["minimised_from"] = json!({"decisions": n0, "executions": tries});
                    println!("  minimised: {} decisions (from {n0}, {tries} executions): {}", o.rec.len(), w.msg);
                }
            }
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        }
        replays.push(path);
    }
    if nv > 4 {
        println!("  ... and {} further classes: {:?}", nv - 4, fresh[4..].iter().map(|v| v["class"].as_str().unwrap()).collect::<Vec<_>>());
    }
    let wall = t0.elapsed().as_secs_f64();
    samples.sort_by_key(|s| s["run"].as_u64().unwrap_or(0));
    let perh = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0).round();
    let unfired: Vec<&&str> = p.faults.iter().filter(|f| !merged.faults.contains_key(**f)).collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sigs.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": evals,
            "runs_per_hour": perh(evals),
            "seeds_per_hour": perh(evals),
            "decisions_drawn": steps,
            "library_calls": merged.calls,
            "simulated_seconds": merged.sim_s,
            "runs_reexecuted_and_compared": rechecked,
            "faults_injected": merged.faults,
            "fault_kinds_not_fired_this_run": unfired,
            "probes_reached": merged.probes,
            "distinct_measure": "distinct sets of (workload features, fault kinds and their bucketed counts, probes) reached by a run",
            "components_real": p.real,
            "components_stub": p.stub,
            "known_findings_hit": known_hit,
            "replay_files": replays,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nv,
    });
    std::fs::create_dir_all(home("evidence")).ok();
    std::fs::write(home(&format!("evidence/{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if nv > 0 {
        return 1;
    }
    if let Some(h) = harness {
        println!("HARNESS-ERROR property={id} {h}");
        return 3;
    }
    println!("OK property={id} tier={tier} seed={seed} runs={evals} distinct={} wall={wall:.1}s", sigs.len());
    0
}

fn install_min_watchdog(t0: Instant) {
    // minimisation may not outlive the check: the verdict is already printed
    std::thread::spawn(move || {
        let start = now_ms(t0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if now_ms(t0) > start + 180_000 {
                std::process::exit(1);
            }
        }
    });
}

pub fn replay(path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let p = props::find(j["property"].as_str().unwrap());
    let thorough = j["tier"] == "thorough";
    let src = match j["choices"].as_array() {
        Some(c) => Source::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Source::random(run_seed(j["seed"].as_u64().unwrap(), p.id, j["run"].as_u64().unwrap())),
    };
    let t0 = Instant::now();
    RUN_START.store(now_ms(t0), Ordering::SeqCst);
    spawn_watchdog(t0);
    let o = execute(p, src, true, thorough);
    for l in &o.log {
        println!("{l}");
    }
    if let Some(h) = o.harness_error {
        println!("HARNESS-ERROR {h}");
        return 3;
    }
    match o.res {
        Err(v) => {
            let same = j["class"] == v.class.as_str() && (j["digest"] == "0" || j["digest"] == format!("{:016x}", o.digest).as_str());
            println!("VIOLATION property={} replay={path}", p.id);
            println!("  {}: {}", v.class, v.msg);
            println!("  {}", if same { "reproduced exactly (class and execution digest)" } else { "differs from the recorded execution" });
            1
        },
        Ok(()) => {
            println!("no violation on this tree");
            0
        },
    }
}

/// runs a single (seed, run) with its log: for development
pub fn one(id: &str, run: u64) -> i32 {
    let p = props::find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let o = execute(p, Source::random(run_seed(seed, p.id, run)), true, false);
    for l in &o.log {
        println!("{l}");
    }
    println!("digest {:016x} res {:?} harness {:?}", o.digest, o.res, o.harness_error);
    0
}

/// digests of many runs: determinism proof across processes
pub fn digests(id: &str, n: u64) -> i32 {
    let p = props::find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for run in 0..n {
        let o = execute(p, Source::random(run_seed(seed, p.id, run)), false, false);
        println!("{run} {:016x} {}", o.digest, o.rec.len());
    }
    0
}

#[allow(dead_code)]
pub fn unreachable_res() -> Res {
    fail("harness", "")
}
