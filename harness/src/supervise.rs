//! Runs the exploration in worker processes and turns crashes, hangs and failures into verdicts.
use crate::ctx::Tier;
use crate::props::{self, Prop};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(90);

fn root() -> PathBuf {
    PathBuf::from(std::env::var("YMC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn binary(profile: &str) -> PathBuf {
    let t = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
    let host = if profile == "counted" { "x86_64-unknown-linux-gnu" } else { "" };
    Path::new(&t).join(host).join(profile).join("ymc")
}

struct Job {
    profile: String,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    upto: Option<u64>,
}

struct Running {
    job: Job,
    child: Child,
    progress: *const u64,
    last: u64,
    since: Instant,
    out: std::thread::JoinHandle<String>,
    err: std::thread::JoinHandle<String>,
    states: PathBuf,
}

enum End {
    Result(Value),
    Crash { idx: u64, how: String },
}

fn start(p: &Prop, tier: Tier, job: Job, dir: &Path, n: usize) -> Running {
    let progress = dir.join(format!("p{n}"));
    let states = dir.join(format!("s{n}"));
    std::fs::write(&progress, vec![0u8; 4096]).unwrap();
    let f = std::fs::OpenOptions::new().read(true).write(true).open(&progress).unwrap();
    let map = crate::sys::map_shared(&f);
    let mut c = Command::new(binary(&job.profile));
    c.arg("worker").arg(p.id);
    c.arg("--tier").arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg("--shard").arg(job.shard.to_string()).arg("--nshards").arg(job.nshards.to_string());
    c.arg("--progress").arg(&progress).arg("--states").arg(&states);
    if let Some(o) = job.only {
        c.arg("--only").arg(o.to_string());
    }
    if let Some(o) = job.upto {
        c.arg("--upto").arg(o.to_string());
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = c.spawn().expect("cannot start worker");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let err = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    Running { job, child, progress: map, last: u64::MAX, since: Instant::now(), out, err, states }
}

fn poll(r: &mut Running) -> Option<End> {
    use std::os::unix::process::ExitStatusExt;
    let idx = unsafe { std::ptr::read_volatile(r.progress) };
    if let Some(st) = r.child.try_wait().expect("wait failed") {
        let out = std::mem::replace(&mut r.out, std::thread::spawn(String::new)).join().unwrap();
        let err = std::mem::replace(&mut r.err, std::thread::spawn(String::new)).join().unwrap();
        if st.success() {
            if let Some(l) = out.lines().find(|l| l.starts_with("RESULT ")) {
                return Some(End::Result(serde_json::from_str(&l[7..]).expect("bad worker result")));
            }
        }
        let how = match st.signal() {
            Some(s) => format!("process died with signal {s}; {}", err.trim()),
            None => format!("process exited with {:?}; {}", st.code(), err.trim()),
        };
        return Some(End::Crash { idx, how });
    }
    if idx != r.last {
        r.last = idx;
        r.since = Instant::now();
    } else if r.since.elapsed() > HANG {
        let _ = r.child.kill();
        let _ = r.child.wait();
        return Some(End::Crash { idx, how: format!("no progress for {} s (hang)", HANG.as_secs()) });
    }
    None
}

fn run_all(p: &Prop, tier: Tier, jobs: Vec<Job>, dir: &Path) -> Vec<(Job, End, PathBuf)> {
    let mut n = 0;
    let mut done = vec![];
    let max = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(8).max(2);
    let mut queue: std::collections::VecDeque<Job> = jobs.into();
    let mut running: Vec<Running> = vec![];
    while !queue.is_empty() || !running.is_empty() {
        while running.len() < max && !queue.is_empty() {
            n += 1;
            running.push(start(p, tier, queue.pop_front().unwrap(), dir, n));
        }
        let mut i = 0;
        while i < running.len() {
            if let Some(e) = poll(&mut running[i]) {
                let r = running.swap_remove(i);
                done.push((r.job, e, r.states));
            } else {
                i += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    done
}

/// What the single job reports: failures as (idx, description, message).
fn failures(e: &End) -> Vec<(u64, String, String)> {
    match e {
        End::Result(v) => v["fails"]
            .as_array()
            .unwrap()
            .iter()
            .map(|f| {
                (
                    f["idx"].as_u64().unwrap(),
                    f["desc"].as_str().unwrap().to_string(),
                    f["msg"].as_str().unwrap().to_string(),
                )
            })
            .collect(),
        End::Crash { idx, how } => vec![(*idx, String::new(), how.clone())],
    }
}

/// The listed findings of the property: (signature of the case, what fails).
pub fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            // known: property=<id> case=<signature of the case> <what fails>
            if let Some(rest) = l.strip_prefix(&format!("known: property={id} case=")) {
                let (c, what) = rest.split_once(' ').unwrap_or((rest, ""));
                v.push((c.to_string(), what.to_string()));
            }
        }
    }
    v
}

fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick {
        "quick"
    } else {
        "thorough"
    }
}

pub fn supervise(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let dir = root().join("replay").join(format!("run-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = supervise_in(p, tier, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise_in(p: &Prop, tier: Tier, dir: &Path, t0: Instant) -> i32 {
    let nshards = if p.serial { 1 } else { 8 };
    let mut jobs = vec![];
    for prof in p.profiles {
        for s in 0..nshards {
            jobs.push(Job { profile: prof.to_string(), shard: s, nshards, only: None, upto: None });
        }
    }
    let done = run_all(p, tier, jobs, dir);

    let mut evals = 0u64;
    let mut transitions = 0u64;
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut families: Vec<(String, u64)> = vec![];
    let mut states: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut suspects: Vec<(String, u64, u64, u64, String, String)> = vec![];
    let mut per_profile: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: HashSet<String> = HashSet::new();
    for (job, end, sp) in &done {
        if let End::Result(v) = end {
            evals += v["evals"].as_u64().unwrap();
            *per_profile.entry(job.profile.clone()).or_default() += v["evals"].as_u64().unwrap();
            transitions += v["transitions"].as_u64().unwrap();
            known_hits.extend(v["known"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()));
            for (k, n) in v["outcomes"].as_object().unwrap() {
                *outcomes.entry(k.clone()).or_default() += n.as_u64().unwrap();
            }
            if job.profile == p.profiles[0] {
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            }
            for (i, f) in v["families"].as_array().unwrap().iter().enumerate() {
                if families.len() <= i {
                    families.push((f[0].as_str().unwrap().to_string(), 0));
                }
                families[i].1 += f[1].as_u64().unwrap();
            }
            for (suffix, set) in [("s", &mut states), ("n", &mut nontrivial)] {
                let mut path = sp.clone().into_os_string();
                path.push(suffix);
                if let Ok(b) = std::fs::read(&path) {
                    for c in b.chunks_exact(8) {
                        set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                    }
                }
            }
        }
        for (idx, desc, msg) in failures(end) {
            suspects.push((job.profile.clone(), job.shard, job.nshards, idx, desc, msg));
        }
    }
    // simplest first
    suspects.sort_by_key(|s| s.3);

    let mut violations = 0;
    let mut errors = 0;
    for (sig, what) in known(p.id) {
        if known_hits.contains(&sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, what);
        }
    }
    for (profile, shard, nsh, idx, desc, msg) in suspects.iter().take(4) {
        if violations > 0 && t0.elapsed() > Duration::from_secs(400) {
            break;
        }
        // replay the single case, then (for failures that depend on what ran before) the prefix of its shard
        let mut confirmed: Option<(&str, String, String)> = None;
        let one = run_all(
            p,
            tier,
            vec![Job { profile: profile.clone(), shard: *shard, nshards: *nsh, only: Some(*idx), upto: None }],
            dir,
        );
        let f = failures(&one[0].1);
        if let Some((_, d, m)) = f.into_iter().find(|f| f.0 == *idx) {
            confirmed = Some(("isolated", d, m));
        } else {
            let pre = run_all(
                p,
                tier,
                vec![Job { profile: profile.clone(), shard: *shard, nshards: *nsh, only: None, upto: Some(*idx) }],
                dir,
            );
            let f = failures(&pre[0].1);
            if let Some((_, d, m)) = f.into_iter().find(|f| f.0 == *idx) {
                confirmed = Some(("prefix", d, m));
            }
        }
        let Some((mode, d, m)) = confirmed else {
            eprintln!("ERROR: case {idx} ({profile}) failed once and did not fail again: {desc}: {msg}");
            errors += 1;
            continue;
        };
        let desc = if desc.is_empty() { d } else { desc.clone() };
        let sig = crate::ctx::signature(&desc);
        let file = root().join("replay").join(format!("{}-{}-{}.json", p.id, profile, idx));
        let body = json!({"property": p.id, "tier": tier_name(tier), "profile": profile, "shard": shard,
            "nshards": nsh, "case": idx, "mode": mode, "signature": sig, "description": desc, "message": m,
            "replay": format!("/verif/check.sh replay {}", file.display())});
        std::fs::write(&file, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        println!("VIOLATION property={} replay={}", p.id, file.display());
        println!("  case: {}\n  what: {}", printable(&desc), printable(&m));
        violations += 1;
    }

    if errors == 0 && violations == 0 && suspects.is_empty() && evals == 0 {
        eprintln!("ERROR: nothing explored");
        errors += 1;
    }

    samples.truncate(12);
    let mut cov = serde_json::Map::new();
    cov.insert("samples".into(), Value::Array(samples));
    cov.insert("exhaustive".into(), json!(true));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("families".into(), json!(families.iter().map(|(n, k)| json!({"space": n, "executions": k})).collect::<Vec<_>>()));
    cov.insert("outcomes".into(), json!(outcomes));
    cov.insert("executions_per_build".into(), json!(per_profile));
    if p.level == "fault_enumeration" {
        cov.insert("evaluations".into(), json!(evals));
        cov.insert("distinct_nontrivial".into(), json!(nontrivial.len()));
        cov.insert("compared_calls".into(), json!(transitions));
        cov.insert("model_states".into(), json!(states.len()));
    } else {
        cov.insert("states".into(), json!(states.len()));
        cov.insert("transitions".into(), json!(transitions));
        cov.insert("traces_validated_against_impl".into(), json!(evals));
    }
    let ev = json!({"property": p.id, "tier": tier_name(tier),
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": p.level, "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "violations": violations});
    let evdir = root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} executions, {} model states, {} compared steps, {} violations, {:.1} s",
        p.id,
        tier_name(tier),
        evals,
        states.len(),
        transitions,
        violations,
        t0.elapsed().as_secs_f64()
    );
    if violations > 0 {
        1
    } else if errors > 0 {
        2
    } else {
        0
    }
}

pub fn replay(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("cannot read replay file")).unwrap();
    let p = props::find(v["property"].as_str().unwrap()).unwrap();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let dir = root().join("replay").join(format!("run-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let idx = v["case"].as_u64().unwrap();
    let iso = v["mode"] == "isolated";
    let job = Job {
        profile: v["profile"].as_str().unwrap().to_string(),
        shard: v["shard"].as_u64().unwrap(),
        nshards: v["nshards"].as_u64().unwrap(),
        only: iso.then_some(idx),
        upto: (!iso).then_some(idx),
    };
    let done = run_all(p, tier, vec![job], &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match failures(&done[0].1).into_iter().find(|f| f.0 == idx) {
        Some((_, d, m)) => {
            println!("reproduced\n  case: {}\n  what: {}", printable(&d), printable(&m));
            1
        }
        None => {
            println!("did not reproduce");
            0
        }
    }
}

/// The text without raw control characters.
fn printable(t: &str) -> String {
    t.chars().map(|c| if c.is_control() { c.escape_default().to_string() } else { c.to_string() }).collect()
}
