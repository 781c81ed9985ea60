mod alloc;
mod engine;
mod gens;
mod jsonp;
mod known;
mod model_dec;
mod model_enc;
mod docgen;
mod props;
mod util;

use engine::{CaseId, CheckResult, Ctx, Prop, Stats, Tape};
use serde_json::{Value, json};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

const STACK: usize = 8 << 20;
const THREAD_LIMIT: usize = 3 << 30;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map_or(1, |v| v as u64)
}
fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    let code = match args.get(1).map(String::as_str) {
        Some("run") => parent(&args[2]),
        Some("child") => child(&args[2], Path::new(&args[3])),
        Some("case") => one_case(&args[2], &args[3], &args[4]),
        Some("replay") => replay(Path::new(&args[2])),
        Some("list") => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        Some("sample") => sample(&args[2], args.get(3).and_then(|s| s.parse().ok()).unwrap_or(10)),
        _ => {
            eprintln!("usage: tvh run|replay|list|sample ...");
            2
        }
    };
    if let Some(d) = props::cli::SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d);
    }
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property in this build: {id}");
        std::process::exit(2)
    })
}

fn in_worker<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                alloc::set_thread_limit(THREAD_LIMIT);
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn run_case(p: &Prop, seed: u64, case: CaseId, ctx: &mut Ctx) -> (CheckResult, Vec<u64>, bool) {
    match case {
        CaseId::Enum(i) => (engine::run_enum(p, i, ctx), vec![], false),
        CaseId::Rand(i) => {
            let mut t = Tape::fresh(engine::case_seed(seed, p.id, i));
            let r = engine::run_tape(p, &mut t, ctx);
            let o = t.overrun;
            (r, t.data, o)
        }
    }
}

/// Explore; writes a result file. Exit code 0 whenever the exploration ended.
fn child(id: &str, dir: &Path) -> i32 {
    let p = find(id);
    let _ = props::cli::SCRATCH.set(dir.join("scratch"));
    let seed = env_seed();
    let thorough = env_thorough();
    let n_enum = (p.enum_count)(thorough);
    let mut n_rand = if thorough { p.thorough } else { p.quick };
    if let Some(n) = std::env::var("TVH_CASES").ok().and_then(|s| s.parse().ok()) {
        n_rand = n;
    }
    let total = n_enum + n_rand;
    let next = AtomicU64::new(0);
    let min_fail = AtomicU64::new(u64::MAX);
    let stats = Mutex::new(Stats::default());
    let fail = Mutex::new(None::<(u64, String, Vec<u64>)>);
    let progress = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(dir.join("progress")).unwrap();
    let chunk = (total / 4096).clamp(1, 256);
    std::thread::scope(|s| {
        for w in 0..p.threads {
            let (p, next, min_fail, stats, fail, progress) = (&p, &next, &min_fail, &stats, &fail, &progress);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    alloc::set_thread_limit(THREAD_LIMIT);
                    let mut local = Stats::default();
                    let slow: f64 = std::env::var("TVH_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(f64::MAX);
                    loop {
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= total {
                            break;
                        }
                        for i in lo..(lo + chunk).min(total) {
                            if i > min_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            let _ = progress.write_at(&(i + 1).to_le_bytes(), 8 * w as u64);
                            let case = if i < n_enum { CaseId::Enum(i) } else { CaseId::Rand(i - n_enum) };
                            let mut ctx = Ctx::default();
                            let at = Instant::now();
                            let (r, tape, over) = run_case(p, seed, case, &mut ctx);
                            if at.elapsed().as_secs_f64() > slow {
                                eprintln!("slow: case {i} ({:.1} s)", at.elapsed().as_secs_f64());
                            }
                            local.absorb(ctx, over);
                            if let Err(m) = r {
                                min_fail.fetch_min(i, Ordering::Relaxed);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                    *f = Some((i, m, tape));
                                }
                                break;
                            }
                        }
                    }
                    let _ = progress.write_at(&0u64.to_le_bytes(), 8 * w as u64);
                    stats.lock().unwrap().merge(local);
                })
                .unwrap();
        }
    });
    let stats = stats.into_inner().unwrap();
    // Samples: a few random cases, written out.
    let mut samples = vec![];
    let mut i = 0;
    while samples.len() < 6 && i < 60 && i < n_rand {
        let s = in_worker(|| {
            let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
            let _ = run_case(&p, seed, CaseId::Rand(i), &mut ctx);
            (ctx.nontrivial.is_some(), ctx.desc)
        });
        if s.0 && !s.1.is_empty() {
            samples.push(util::clip(&s.1, 1200));
        }
        i += 1;
    }
    if samples.is_empty() {
        for i in 0..n_enum.min(6) {
            let s = in_worker(|| {
                let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
                let _ = run_case(&p, seed, CaseId::Enum(i), &mut ctx);
                ctx.desc
            });
            if !s.is_empty() {
                samples.push(util::clip(&s, 1200));
            }
        }
    }
    let failure = fail.into_inner().unwrap().map(|(i, msg, tape)| {
        if i < n_enum {
            let desc = describe_enum(&p, i);
            json!({"kind":"enum","index":i,"message":msg,"case":desc})
        } else {
            // should shrinking hang or crash, the case as found is the report
            let desc = describe_tape(&p, &tape);
            let first = json!({"kind":"tape","index":i - n_enum,"seed":seed,"tape":tape,"message":msg,"case":desc,
                "evaluations":stats.evaluations,"distinct_nontrivial":stats.distinct.len()});
            let _ = std::fs::write(dir.join("failure.json"), first.to_string());
            let (t, m, evals) = in_worker(|| engine::shrink(&p, tape, msg, p.shrink));
            let desc = describe_tape(&p, &t);
            json!({"kind":"tape","index":i - n_enum,"seed":seed,"tape":t,"message":m,"case":desc,"shrink_evaluations":evals})
        }
    });
    let out = json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.distinct.len(),
        "nontrivial": stats.nontrivial_total,
        "labels": stats.labels,
        "overruns": stats.overruns,
        "known": stats.known,
        "enumerated": n_enum,
        "random": n_rand,
        "samples": samples,
        "failure": failure,
    });
    std::fs::write(dir.join("result.json"), out.to_string()).unwrap();
    0
}

fn describe_enum(p: &Prop, i: u64) -> String {
    in_worker(|| {
        let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
        let _ = engine::run_enum(p, i, &mut ctx);
        ctx.desc
    })
}
fn describe_tape(p: &Prop, t: &[u64]) -> String {
    in_worker(|| {
        let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
        let _ = engine::run_tape(p, &mut Tape::replay(t.to_vec()), &mut ctx);
        ctx.desc
    })
}

fn one_case(id: &str, kind: &str, idx: &str) -> i32 {
    let p = find(id);
    let idx: u64 = idx.parse().unwrap();
    let case = if kind == "enum" { CaseId::Enum(idx) } else { CaseId::Rand(idx) };
    let r = in_worker(|| run_case(&p, env_seed(), case, &mut Ctx::default()).0);
    match r {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

fn sample(id: &str, n: u64) -> i32 {
    let p = find(id);
    for i in 0..n {
        let (r, c) = in_worker(|| {
            let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
            let r = run_case(&p, env_seed(), CaseId::Rand(i), &mut ctx).0;
            (r, ctx)
        });
        println!("--- {i} nontrivial={} {:?} {:?}\n{}", c.nontrivial.is_some(), r, c.labels, util::clip(&c.desc, 3000));
    }
    0
}

fn replay(path: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let p = find(v["property"].as_str().unwrap());
    let (r, desc) = in_worker(|| {
        let mut ctx = Ctx { want_desc: true, ..Ctx::default() };
        let r = match v["kind"].as_str().unwrap() {
            "tape" => {
                let t: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                engine::run_tape(&p, &mut Tape::replay(t), &mut ctx)
            }
            "enum" => engine::run_enum(&p, v["index"].as_u64().unwrap(), &mut ctx),
            _ => {
                let seed = v["seed"].as_u64().unwrap();
                run_case(&p, seed, CaseId::Rand(v["index"].as_u64().unwrap()), &mut ctx).0
            }
        };
        (r, ctx.desc)
    });
    println!("{desc}");
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id);
            0
        }
        Err(m) => {
            println!("replay: property {} FAILS: {m}", p.id);
            1
        }
    }
}

enum End {
    Exit(std::process::ExitStatus),
    /// A worker is on the same case for too long, or the time is up.
    Stuck,
    /// Shrinking takes too long.
    Shrinking,
}

fn kill_group(c: &mut std::process::Child) {
    // the child leads its own group; the programs it runs are in it
    let _ = Command::new("/bin/kill").args(["-9", "--", &format!("-{}", c.id())]).stderr(Stdio::null()).status();
    let _ = c.kill();
    let _ = c.wait();
}

const STUCK: Duration = Duration::from_secs(100);
const SHRINK: Duration = Duration::from_secs(120);

fn watch(c: &mut std::process::Child, dir: &Path, limit: Duration) -> End {
    let t0 = Instant::now();
    let mut last: Vec<(u64, Instant)> = vec![];
    let mut shrinking = None;
    let mut round = 0u64;
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return End::Exit(s);
        }
        std::thread::sleep(Duration::from_millis(10));
        round += 1;
        if round % 100 != 0 {
            continue;
        }
        if shrinking.is_none() && dir.join("failure.json").exists() {
            shrinking = Some(Instant::now());
        }
        let stuck = if let Some(at) = shrinking {
            if at.elapsed() > SHRINK {
                kill_group(c);
                return End::Shrinking;
            }
            false
        } else {
            let prog = std::fs::read(dir.join("progress")).unwrap_or_default();
            let now: Vec<u64> = prog.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
            last.resize(now.len().max(last.len()), (0, Instant::now()));
            for (l, n) in last.iter_mut().zip(&now) {
                if l.0 != *n || *n == 0 {
                    *l = (*n, Instant::now());
                }
            }
            last.iter().any(|l| l.1.elapsed() > STUCK)
        };
        if stuck || t0.elapsed() > limit {
            kill_group(c);
            return End::Stuck;
        }
    }
}

/// Run one case on its own, within 60 s of processor time.
fn alone(exe: &Path, id: &str, kind: &str, idx: u64) -> Option<String> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new("/bin/bash")
        .args(["-c", "ulimit -S -t 60; ulimit -c 0; exec \"$@\"", "sh"])
        .arg(exe)
        .args(["case", id, kind, &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .process_group(0)
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(240) {
            kill_group(&mut c);
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    match (status.signal(), status.code()) {
        (Some(24), _) => Some("the case does not end within 60 s of processor time".into()),
        (Some(4 | 6 | 7 | 8 | 11), _) => Some(format!("the process dies: {status}")),
        (_, Some(alloc::EXIT_ALLOC)) => Some("the case goes over its allocation limit".into()),
        (_, Some(1)) => Some("the case fails".into()),
        _ => None,
    }
}

fn parent(id: &str) -> i32 {
    use std::os::unix::process::CommandExt;
    let p = find(id);
    let t0 = Instant::now();
    let thorough = env_thorough();
    let seed = env_seed();
    let dir = std::env::temp_dir().join(format!("tvh-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 500 });
    let mut c = Command::new(&exe).args(["child", id]).arg(&dir).stdin(Stdio::null()).process_group(0).spawn().unwrap();
    let end = watch(&mut c, &dir, limit);
    let code = finish(&p, &exe, &dir, &end, thorough, seed, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn finish(p: &Prop, exe: &Path, dir: &Path, end: &End, thorough: bool, seed: u64, t0: Instant) -> i32 {
    let id = p.id;
    let read = |f: &str| -> Option<Value> { std::fs::read_to_string(dir.join(f)).ok().and_then(|s| serde_json::from_str(&s).ok()) };
    let mut result = match end {
        End::Exit(s) if s.success() => read("result.json"),
        _ => None,
    };
    if result.is_none()
        && let Some(f) = read("failure.json") {
            eprintln!("{id}: shrinking did not end; reporting the case as found");
            result = Some(json!({"evaluations":f["evaluations"],"distinct_nontrivial":f["distinct_nontrivial"],"labels":{},"samples":[f["case"]],"failure":f}));
        }
    if result.is_none() {
        // A crash or a hang: find the case, and confirm it on its own, twice.
        match end {
            End::Exit(s) => eprintln!("{id}: the exploration process ended with {s}; looking for the case"),
            _ => eprintln!("{id}: the exploration process was stopped; looking for a case that does not end"),
        }
        let n_enum = (p.enum_count)(thorough);
        let prog = std::fs::read(dir.join("progress")).unwrap_or_default();
        let mut cases: Vec<u64> = prog.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|&v| v > 0).map(|v| v - 1).collect();
        cases.sort_unstable();
        cases.dedup();
        let total = cases.len() as u64;
        // all of them at once, then the first that fails again
        let first: Vec<Option<String>> = std::thread::scope(|s| {
            let h: Vec<_> = cases
                .iter()
                .map(|&i| {
                    let (kind, idx) = if i < n_enum { ("enum", i) } else { ("rand", i - n_enum) };
                    s.spawn(move || alone(exe, id, kind, idx))
                })
                .collect();
            h.into_iter().map(|x| x.join().unwrap()).collect()
        });
        let mut found = None;
        for (&i, r) in cases.iter().zip(&first) {
            let (kind, idx) = if i < n_enum { ("enum", i) } else { ("rand", i - n_enum) };
            if r.is_some()
                && let Some(m) = alone(exe, id, kind, idx) {
                    found = Some(json!({"kind":kind,"index":idx,"seed":seed,"message":m,"case":format!("{kind} case {idx} with seed {seed}; run it with: tvh case {id} {kind} {idx}")}));
                    break;
                }
        }
        match found {
            Some(f) => {
                result = Some(json!({"evaluations":total,"distinct_nontrivial":total,"labels":{},"samples":[f["case"]],"failure":f}));
            }
            None => {
                eprintln!("{id}: no single case reproduces it: inconclusive");
                return 2;
            }
        }
    }
    let r = result.unwrap();
    let failure = &r["failure"];
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = serde_json::Map::new();
    for k in ["evaluations", "distinct_nontrivial", "nontrivial", "enumerated", "random", "labels", "overruns", "samples"] {
        if !r[k].is_null() {
            cov.insert(k.to_string(), r[k].clone());
        }
    }
    cov.insert("rule".into(), json!(p.rule));
    if let Ok(s) = std::fs::read_to_string(dir.join("extra.json"))
        && let Ok(v) = serde_json::from_str::<Value>(&s) {
            cov.insert("extra".into(), v);
        }
    let ev = json!({
        "property": id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed as i64,
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": i32::from(!failure.is_null()),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if let Some(k) = r["known"].as_object() {
        for name in k.keys() {
            println!("KNOWN-FINDING: property={id} {name}");
        }
    }
    println!("{id}: {} cases, {} distinct non-trivial, {:.1} s", r["evaluations"], r["distinct_nontrivial"], wall);
    if failure.is_null() {
        return 0;
    }
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut rep = serde_json::Map::new();
    rep.insert("property".into(), json!(id));
    for (k, v) in failure.as_object().unwrap() {
        rep.insert(k.clone(), v.clone());
    }
    let path = rdir.join(format!("{id}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(&Value::Object(rep)).unwrap() + "\n").unwrap();
    // as text that can be read line by line whatever the input holds
    let plain = |v: &Value| -> String {
        util::clip(v.as_str().unwrap_or(""), 4000).chars().map(|c| if c.is_control() && c != '\n' { c.escape_default().to_string() } else { c.to_string() }).collect()
    };
    println!("{}", plain(&failure["case"]));
    println!("failure: {}", plain(&failure["message"]));
    println!("VIOLATION property={id} replay={}", path.display());
    1
}
