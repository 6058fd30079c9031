//! Search driver: forks workers, forks one process per simulated run,
//! re-executes, minimises, reports.
use crate::choice::*;
use crate::props::{self, Prop};
use crate::report;
use crate::rt;
use crate::shim;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

#[derive(Clone)]
pub struct Plan {
    pub seed: u64,
    pub streams: Option<[Vec<(u32, u64)>; 4]>,
    pub trace: bool,
}

static SIG: AtomicU32 = AtomicU32::new(0);
static WAKE: AtomicU32 = AtomicU32::new(0);

extern "C" fn on_sig(sig: i32) {
    // report from the main thread, which has a normal stack
    SIG.store(sig as u32, Ordering::SeqCst);
    WAKE.store(1, Ordering::SeqCst);
    unsafe {
        rt::raw6(libc::SYS_futex, &WAKE as *const _ as i64, 129, 1, 0, 0, 0);
        loop {
            rt::raw6(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
        }
    }
}

fn child_main(p: &'static Prop, plan: &Plan) -> ! {
    report::shared_clear();
    let st = |k: S| match &plan.streams {
        Some(v) => Stream::replay(v[k as usize].clone()),
        None => Stream::random(mix(plan.seed, 100 + k as u64)),
    };
    rt::install(plan.seed, [st(S::W), st(S::F), st(S::S), st(S::N)], mix(plan.seed, 7));
    rt::sim().trace_on = plan.trace;
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sig as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGXCPU, libc::SIGALRM] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 40, rlim_max: 60 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::alarm(240);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    shim::CAP.store(shim::LIVE.load(Ordering::Relaxed) + (1536 << 20), Ordering::Relaxed);
    let id = rt::new_thread();
    assert_eq!(id, 0);
    let run = p.run;
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            rt::IN.with(|i| i.set(1));
            rt::thread_begin(0);
            shim::set_key();
            rt::IN.with(|i| i.set(0));
            let r = std::panic::catch_unwind(run);
            match r {
                Ok(()) => report::finish("ok", "", ""),
                Err(_) => {
                    let m = crate::ctx::god(|| rt::sim().panic_msg.take().unwrap_or_default());
                    if m.starts_with("src/") {
                        report::finish("error", "harness", &m)
                    } else {
                        report::finish("violation", "panic", &format!("uncaught panic: {}", m))
                    }
                }
            }
        })
        .unwrap();
    rt::start_root();
    loop {
        if WAKE.load(Ordering::SeqCst) != 0 {
            break;
        }
        unsafe {
            rt::raw6(libc::SYS_futex, &WAKE as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
    let sig = SIG.load(Ordering::SeqCst) as i32;
    rt::TID.with(|t| t.set(0));
    match sig {
        libc::SIGXCPU => report::finish("violation", "hang", "used 40 s of CPU in one simulated run without finishing"),
        libc::SIGALRM => report::finish("error", "stalled", "simulated run made no progress for 240 s of real time"),
        s => {
            let m = rt::sim().panic_msg.take().unwrap_or_default();
            // the moment at which the signal is seen is not part of the run
            rt::sim().hash = 0;
            let first = rt::sim().first_panic.take().unwrap_or_default();
            if first.starts_with("src/") {
                report::finish("error", "harness", &format!("{} / {}", first, m));
            }
            report::finish("violation", "abort", &format!("the process died with signal {} {}", s, m))
        }
    }
}

fn exec(p: &'static Prop, plan: &Plan) -> Value {
    report::shared_clear();
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            child_main(p, plan);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        match report::shared_take() {
            Some(v) => v,
            None => json!({"status": "error", "class": "harness", "msg": format!("run ended without a report, wait status {:#x}", st),
                "streams": [[],[],[],[]], "hash": 0, "seed": plan.seed}),
        }
    }
}

fn run_seed(base: u64, pid: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    rt::fnv(&mut h, pid.as_bytes());
    mix(mix(base, h), i)
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub matches: String,
    pub what: String,
}
/// Lines: `known: property=P class=C match="text" what=...`
pub fn known_findings() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF)) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: ") else { continue };
            let get = |k: &str| -> String {
                let key = format!("{}=", k);
                match r.find(&key) {
                    Some(i) => {
                        let t = &r[i + key.len()..];
                        if let Some(q) = t.strip_prefix('"') {
                            q.split('"').next().unwrap_or("").to_string()
                        } else {
                            t.split_whitespace().next().unwrap_or("").to_string()
                        }
                    }
                    None => String::new(),
                }
            };
            let what = r.split_once("what=").map(|x| x.1.to_string()).unwrap_or_default();
            out.push(Known { property: get("property"), class: get("class"), matches: get("match"), what });
        }
    }
    out
}
fn known_idx(known: &[Known], pid: &str, v: &Value) -> Option<usize> {
    let class = v["class"].as_str().unwrap_or("");
    let msg = v["msg"].as_str().unwrap_or("");
    known.iter().position(|k| k.property == pid && k.class == class && !k.matches.is_empty() && msg.contains(&k.matches))
}

fn setup_env() {
    unsafe {
        std::env::set_var("TMPDIR", "/tmp");
        std::env::set_var("HOME", "/root");
        std::env::set_var("RUST_BACKTRACE", "0");
        for k in ["http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "no_proxy", "NO_PROXY", "REQUEST_METHOD"] {
            std::env::remove_var(k);
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if rt::on_sim_thread() && rt::sim_exists() {
            let _g = rt::InGuard::new();
            let t = format!("{}: {}", loc, m);
            rt::note(&format!("panic {}", t));
            if rt::sim().first_panic.is_none() {
                rt::sim().first_panic = Some(t.clone());
            }
            rt::sim().panic_msg = Some(t);
        } else {
            eprintln!("panic at {}: {}", loc, m);
        }
    }));
    shim::init_key();
    report::shared_init();
}

/// counters shared by the workers
struct Board {
    stop: AtomicU32,
    next: AtomicU64,
}
fn board() -> &'static Board {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const Board)
    }
}

fn worker(p: &'static Prop, b: &Board, base: u64, deadline: Instant, min_runs: u64, max_runs: u64, known: &[Known]) -> Value {
    let mut runs = 0u64;
    let mut rechecks = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut sim_ns = 0u64;
    let mut switches = 0u64;
    let mut steps = 0u64;
    let mut faulted = 0u64;
    let mut peak = 0u64;
    let mut knowns: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut bad = Value::Null;
    loop {
        if b.stop.load(Ordering::Relaxed) != 0 {
            break;
        }
        let i = b.next.fetch_add(1, Ordering::Relaxed);
        if i >= max_runs || (i >= min_runs && Instant::now() >= deadline) {
            break;
        }
        let seed = run_seed(base, p.id, i);
        let plan = Plan { seed, streams: None, trace: false };
        let v = exec(p, &plan);
        runs += 1;
        let status = v["status"].as_str().unwrap_or("");
        let h = v["hash"].as_u64().unwrap_or(0);
        let mut again = i % 64 == 5;
        if status != "ok" {
            if let Some(k) = known_idx(known, p.id, &v) {
                let e = knowns.entry(k.to_string()).or_insert((0, seed, v["msg"].as_str().unwrap_or("").to_string()));
                e.0 += 1;
            } else {
                again = true;
                bad = v.clone();
            }
        }
        if again {
            rechecks += 1;
            let v2 = exec(p, &plan);
            if v2["hash"] != v["hash"] || v2["status"] != v["status"] || v2["class"] != v["class"] {
                let cpu = v["class"] == "hang" && v2["class"] == "hang";
                if !cpu {
                    bad = json!({"status": "error", "class": "nondeterminism",
                        "msg": format!("run {} seed {:#x} did not repeat: {}/{}/{} then {}/{}/{}", i, seed, v["status"], v["class"], v["hash"], v2["status"], v2["class"], v2["hash"])});
                    b.stop.store(1, Ordering::Relaxed);
                    break;
                }
            }
        }
        for (k, n) in v["counters"].as_object().into_iter().flatten() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
        for x in v["probes"].as_array().into_iter().flatten() {
            *probes.entry(x[0].as_str().unwrap_or("").to_string()).or_insert(0) += x[1].as_u64().unwrap_or(0);
        }
        if v["nontrivial"].as_bool().unwrap_or(false) {
            nontrivial.insert(h);
        }
        hashes.insert(h);
        scheds.insert(v["sched"].as_u64().unwrap_or(0));
        for x in v["states"].as_array().into_iter().flatten() {
            states.insert(x.as_u64().unwrap_or(0));
        }
        let hard = |k: &String| k.ends_with("_error") || ["crash", "power_loss", "disk_full", "clock_jump", "program_missing", "program_killed", "program_failed", "permission_denied", "damage"].contains(&k.as_str()) || k.starts_with("net_") || k.starts_with("dns_");
        if !v["fired"].as_array().map_or(true, |a| a.is_empty()) || v["counters"].as_object().map_or(false, |c| c.keys().any(hard)) {
            faulted += 1;
        }
        sim_ns += v["sim_ns"].as_u64().unwrap_or(0);
        switches += v["switches"].as_u64().unwrap_or(0);
        steps += v["steps"].as_u64().unwrap_or(0);
        peak = peak.max(v["peak"].as_u64().unwrap_or(0));
        if samples.len() < 6 && v["nontrivial"].as_bool().unwrap_or(false) && i % 7 == 3 {
            samples.push(json!({"run": i, "seed": format!("{:#x}", seed), "what": v["sample"], "faults": v["fired"], "choices": v["lens"]}));
        }
        if !bad.is_null() {
            bad["seed"] = json!(seed);
            bad["run"] = json!(i);
            b.stop.store(1, Ordering::Relaxed);
            break;
        }
    }
    json!({
        "runs": runs, "rechecks": rechecks, "counters": counters, "probes": probes,
        "nontrivial": nontrivial.into_iter().collect::<Vec<_>>(),
        "scheds": scheds.into_iter().collect::<Vec<_>>(),
        "states": states.into_iter().collect::<Vec<_>>(),
        "hashes": hashes.into_iter().collect::<Vec<_>>(),
        "samples": samples, "sim_ns": sim_ns, "switches": switches, "steps": steps, "faulted": faulted, "peak": peak,
        "knowns": knowns.iter().map(|(k, v)| json!([k, v.0, v.1, v.2])).collect::<Vec<_>>(),
        "bad": bad,
    })
}

fn streams_of(v: &Value) -> [Vec<(u32, u64)>; 4] {
    let mut out: [Vec<(u32, u64)>; 4] = Default::default();
    for (k, o) in out.iter_mut().enumerate() {
        for e in v[k].as_array().into_iter().flatten() {
            o.push((e[0].as_u64().unwrap_or(0) as u32, e[1].as_u64().unwrap_or(0)));
        }
    }
    out
}

fn minimise(p: &'static Prop, seed: u64, first: &Value, known: &[Known], budget: Duration) -> (Value, [Vec<(u32, u64)>; 4], u64) {
    let class = first["class"].clone();
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut cur = streams_of(&first["streams"]);
    let mut best = first.clone();
    let try_it = |st: &[Vec<(u32, u64)>; 4], n: &mut u64| -> Option<Value> {
        *n += 1;
        let v = exec(p, &Plan { seed, streams: Some(st.clone()), trace: false });
        if v["status"] == "violation" && v["class"] == class && known_idx(known, p.id, &v).is_none() { Some(v) } else { None }
    };
    // the recorded choices must reproduce it
    match try_it(&cur, &mut n) {
        Some(v) => best = v,
        None => return (best, cur, n),
    }
    let over = |t0: Instant| t0.elapsed() > budget;
    for round in 0..3 {
        let mut improved = false;
        for k in [1usize, 2, 3, 0] {
            // delete chunks of non-zero choices
            let mut chunk = cur[k].len().max(1);
            while chunk >= 1 && !over(t0) {
                let mut i = 0;
                while i < cur[k].len() && !over(t0) {
                    let mut c = cur.clone();
                    let e = (i + chunk).min(c[k].len());
                    c[k].drain(i..e);
                    if let Some(v) = try_it(&c, &mut n) {
                        cur = c;
                        best = v;
                        improved = true;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            // lower values
            let mut i = 0;
            while i < cur[k].len() && !over(t0) {
                let v0 = cur[k][i].1;
                for nv in [1, v0 / 2, v0.saturating_sub(1)] {
                    if nv == 0 || nv >= cur[k][i].1 {
                        continue;
                    }
                    let mut c = cur.clone();
                    c[k][i].1 = nv;
                    if let Some(v) = try_it(&c, &mut n) {
                        cur = c;
                        best = v;
                        improved = true;
                        break;
                    }
                }
                i += 1;
            }
        }
        // keep only what the run really used
        let used = streams_of(&best["streams"]);
        if used != cur {
            if let Some(v) = try_it(&used, &mut n) {
                cur = used;
                best = v;
            }
        }
        if !improved || over(t0) {
            break;
        }
        let _ = round;
    }
    (best, cur, n)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn check(pid: &str) -> i32 {
    let t0 = Instant::now();
    let p = match props::find(pid) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", pid);
            return 2;
        }
    };
    let base = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    setup_env();
    println!("VERIF_SEED={} property={} tier={}", base, pid, tier);
    let known = known_findings();
    let secs = env_u64("SIM_SECONDS", if thorough { 540 } else { p.secs });
    let min_runs = if thorough { p.min_runs } else { p.min_runs };
    let max_runs = env_u64("SIM_MAX_RUNS", u64::MAX);
    let workers = env_u64("SIM_WORKERS", 8);
    let _ = std::fs::create_dir_all(format!("{}/out", VERIF));
    let _ = std::fs::create_dir_all(format!("{}/evidence", VERIF));
    if let Some(w) = p.warm {
        w();
    }
    let b = board();
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut pids = vec![];
    let _ = std::io::stdout().flush();
    for k in 0..workers {
        unsafe {
            let pid_ = libc::fork();
            if pid_ == 0 {
                report::shared_init();
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let r = worker(p, b, base, deadline, min_runs, max_runs, &known);
                let path = format!("{}/out/{}.{}.{}.part", VERIF, pid, std::process::id(), k);
                std::fs::write(&path, serde_json::to_vec(&r).unwrap()).unwrap();
                libc::_exit(0);
            }
            pids.push((pid_, k));
        }
    }
    let mut parts: Vec<Value> = vec![];
    for (q, k) in pids {
        let mut st = 0;
        unsafe {
            libc::waitpid(q, &mut st, 0);
        }
        let path = format!("{}/out/{}.{}.{}.part", VERIF, pid, q, k);
        match std::fs::read(&path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => parts.push(v),
            None => {
                eprintln!("worker {} died (status {:#x})", k, st);
                return 2;
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    let sum = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let union = |k: &str| {
        let mut s: HashSet<u64> = HashSet::new();
        for p in &parts {
            for x in p[k].as_array().into_iter().flatten() {
                s.insert(x.as_u64().unwrap_or(0));
            }
        }
        s.len()
    };
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for p in &parts {
            for (n, v) in p[k].as_object().into_iter().flatten() {
                *m.entry(n.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        m
    };
    let mut bads: Vec<Value> = parts.iter().filter(|p| !p["bad"].is_null()).map(|p| p["bad"].clone()).collect();
    bads.sort_by_key(|v| (v["status"] != "violation", v["run"].as_u64().unwrap_or(0)));
    let runs = sum("runs");
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    // known findings
    let mut kn: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for p in &parts {
        for e in p["knowns"].as_array().into_iter().flatten() {
            let i: usize = e[0].as_str().unwrap_or("0").parse().unwrap_or(0);
            let x = kn.entry(i).or_insert((0, e[2].as_u64().unwrap_or(0)));
            x.0 += e[1].as_u64().unwrap_or(0);
        }
    }
    for k in known.iter().enumerate().filter(|(_, k)| k.property == pid) {
        let (n, seed) = kn.get(&k.0).copied().unwrap_or((0, 0));
        println!("KNOWN-FINDING: property={} {} [seen in {} runs, e.g. seed {:#x}]", pid, k.1.what, n, seed);
    }
    if let Some(v) = bads.first() {
        if v["status"] == "violation" {
            nviol = 1;
            code = 1;
            let seed = v["seed"].as_u64().unwrap();
            println!("violation found in run {} (seed {:#x}): {}: {}", v["run"], seed, v["class"], v["msg"]);
            let (m, st, tries) = minimise(p, seed, v, &known, Duration::from_secs(if thorough { 120 } else { 40 }));
            let traced = exec(p, &Plan { seed, streams: Some(st.clone()), trace: true });
            let nz: usize = st.iter().map(|s| s.len()).sum();
            let path = format!("{}/out/{}-{:016x}.replay.json", VERIF, pid, seed);
            let mut tr: Vec<Value> = traced["trace"].as_array().cloned().unwrap_or_default();
            if tr.len() > 3000 {
                tr = tr.split_off(tr.len() - 3000);
            }
            let minimal = traced["status"] == "violation" && traced["class"] == m["class"];
            let doc = json!({
                "property": pid, "seed": seed, "run": v["run"], "base_seed": base,
                "streams": if minimal { json!(st) } else { Value::Null },
                "class": m["class"], "msg": m["msg"], "hash": m["hash"],
                "minimised": {"choices": nz, "executions": tries, "original_choices": v["streams"].as_array().map(|a| a.iter().map(|x| x.as_array().map_or(0, |y| y.len())).sum::<usize>())},
                "faults": traced["fired"], "what": traced["sample"], "trace_tail": tr,
            });
            std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap()).unwrap();
            println!("minimised to {} non-zero choices in {} executions: {}", nz, tries, m["msg"].as_str().unwrap_or(""));
            println!("what: {}", traced["sample"]);
            println!("faults: {}", traced["fired"]);
            println!("VIOLATION property={} replay={}", pid, path);
        } else {
            code = 2;
            println!("ERROR of the check: {} {} (seed {})", v["class"], v["msg"], v["seed"]);
        }
    }
    let counters = merge("counters");
    let faults: BTreeMap<String, u64> = counters.clone();
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<Value> = parts.iter().flat_map(|p| p["samples"].as_array().cloned().unwrap_or_default()).take(8).collect();
    let ev = json!({
        "property": pid, "tier": if thorough { "thorough" } else { "quick" }, "seed": base as i64, "level": p.level,
        "wall_s": (wall * 100.0).round() / 100.0, "violations": nviol,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": union("nontrivial"),
            "rule": format!("{} A run is counted once per distinct event-log hash.", p.rule),
            "samples": samples,
            "runs_per_hour": (runs as f64 / search_s * 3600.0) as u64,
            "seeds": runs,
            "simulated_seconds": sum("sim_ns") as f64 / 1e9,
            "runs_with_hard_faults": sum("faulted"),
            "fault_and_event_counts": faults,
            "probes": merge("probes"),
            "distinct_event_logs": union("hashes"),
            "distinct_schedules": union("scheds"),
            "distinct_states": union("states"),
            "state_measure": p.state_measure,
            "scheduler_switches": sum("switches"),
            "simulated_calls": sum("steps"),
            "determinism_rechecks": sum("rechecks"),
            "peak_bytes": parts.iter().map(|p| p["peak"].as_u64().unwrap_or(0)).max().unwrap_or(0),
            "real_components": "ppt_rs from /repo's working tree (unmodified, all called code), std, zip, flate2, xml, uuid, chrono; for web properties also reqwest/hyper/tokio/mio; real pthreads run one at a time",
            "stub_components": p.stubs,
            "known_findings_seen": kn.values().map(|x| x.0).sum::<u64>(),
        }
    });
    std::fs::write(format!("{}/evidence/{}.json", VERIF, pid), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} with hard faults, {:.1} s",
        pid,
        if code == 0 { "held" } else { "NOT ok" },
        runs,
        union("nontrivial"),
        sum("faulted"),
        wall
    );
    code
}

pub fn replay(file: &str) -> i32 {
    let doc: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let pid = doc["property"].as_str().unwrap_or("");
    let Some(p) = props::find(pid) else { return 2 };
    setup_env();
    if let Some(w) = p.warm {
        w();
    }
    let seed = doc["seed"].as_u64().unwrap_or(0);
    let streams = if doc["streams"].is_null() { None } else { Some(streams_of(&doc["streams"])) };
    let v = exec(p, &Plan { seed, streams, trace: true });
    for l in v["trace"].as_array().into_iter().flatten() {
        println!("{}", l.as_str().unwrap_or(""));
    }
    println!("status {} class {} hash {} (recorded {})", v["status"], v["class"], v["hash"], doc["hash"]);
    println!("{}", v["msg"].as_str().unwrap_or(""));
    if v["status"] == "violation" && v["class"] == doc["class"] && v["hash"] == doc["hash"] {
        println!("VIOLATION property={} replay={}", pid, file);
        return 1;
    }
    if v["status"] == "ok" { 0 } else { 2 }
}

pub fn one(pid: &str, i: u64) -> i32 {
    let Some(p) = props::find(pid) else { return 2 };
    setup_env();
    if let Some(w) = p.warm {
        w();
    }
    let seed = run_seed(env_u64("VERIF_SEED", 1), p.id, i);
    let v = exec(p, &Plan { seed, streams: None, trace: true });
    if std::env::var("TRACE").is_ok() {
        for l in v["trace"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    println!("{}", v["stdout"].as_str().unwrap_or(""));
    for k in ["status", "class", "msg", "hash", "fired", "sample", "probes", "counters", "lens", "steps", "threads", "sim_ns", "peak"] {
        println!("{}: {}", k, v[k]);
    }
    0
}

/// Run seeds 0..n twice each and from a fresh order; every hash must repeat.
pub fn determinism(pid: &str, n: u64) -> i32 {
    let Some(p) = props::find(pid) else { return 2 };
    setup_env();
    if let Some(w) = p.warm {
        w();
    }
    let base = env_u64("VERIF_SEED", 1);
    let mut bad = 0;
    let mut all = 0xcbf29ce484222325u64;
    for i in 0..n {
        let seed = run_seed(base, p.id, i);
        let a = exec(p, &Plan { seed, streams: None, trace: true });
        let b = exec(p, &Plan { seed, streams: None, trace: true });
        rt::fnv(&mut all, &a["hash"].as_u64().unwrap_or(0).to_le_bytes());
        if a["hash"] != b["hash"] || a["status"] != b["status"] {
            bad += 1;
            println!("run {} differs: {} {} / {} {}", i, a["status"], a["hash"], b["status"], b["hash"]);
            let (x, y) = (a["trace"].as_array().unwrap(), b["trace"].as_array().unwrap());
            for j in 0..x.len().max(y.len()) {
                if x.get(j) != y.get(j) {
                    println!("  first difference at {}: {:?} / {:?}", j, x.get(j), y.get(j));
                    break;
                }
            }
        }
        // replaying the recorded choices must give the same run
        let c = exec(p, &Plan { seed, streams: Some(streams_of(&a["streams"])), trace: true });
        let d = exec(p, &Plan { seed, streams: None, trace: false });
        if d["hash"] != a["hash"] || d["status"] != a["status"] {
            bad += 1;
            println!("run {}: keeping the trace changes the run: {} {}", i, a["hash"], d["hash"]);
        }
        if c["hash"] != a["hash"] || c["status"] != a["status"] {
            bad += 1;
            println!("run {}: replay from choices differs: {} {}", i, a["status"], c["status"]);
            let (x, y) = (a["trace"].as_array().unwrap(), c["trace"].as_array().unwrap());
            for j in 0..x.len().max(y.len()) {
                if x.get(j) != y.get(j) {
                    println!("  first difference at {}: {:?} / {:?}", j, x.get(j), y.get(j));
                    break;
                }
            }
        }
    }
    println!("{}: {} runs, {} differences, digest {:016x}", pid, n, bad, all);
    (bad > 0) as i32
}
