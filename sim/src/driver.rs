//! Runs simulations in isolated processes, gathers evidence, reports violations.
use crate::ctx;
use crate::plan::*;
use crate::props::{check, gen, CLAIMED};
use crate::rngs::{hash_bytes, mix};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug)]
pub enum Outcome {
    Done(Report),
    Crash(String),
    Hang(String),
}

fn proc_stat(pid: i32) -> Option<(char, u64)> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

/// Run `f` in a forked process. `cpu`: limit in seconds of processor time.
pub fn forked(f: impl FnOnce() -> Report, cpu: u64) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let rl = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let rl = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &rl);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let r = r.unwrap_or_else(|_| Report { violation: Some(Violation { class: "harness".into(), msg: "the harness panicked".into() }), ..Default::default() });
            let mut b = bincode::serialize(&r).unwrap();
            let mut v = (b.len() as u64).to_le_bytes().to_vec();
            v.append(&mut b);
            let mut o = 0;
            while o < v.len() {
                let n = libc::write(fds[1], v[o..].as_ptr() as *const _, v.len() - o);
                if n <= 0 {
                    libc::_exit(3);
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let mut data = vec![];
        let mut hang: Option<String> = None;
        let mut last_cpu = 0;
        let mut idle = 0;
        let start = Instant::now();
        loop {
            let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut pfd, 1, 500);
            if n > 0 {
                let mut buf = [0u8; 65536];
                match file.read(&mut buf) {
                    Ok(0) => break,
                    Ok(k) => data.extend_from_slice(&buf[..k]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
                continue;
            }
            // asleep without using the processor: nothing can wake it
            match proc_stat(pid) {
                Some(('S', c)) => {
                    if c == last_cpu {
                        idle += 1;
                    } else {
                        idle = 0;
                    }
                    last_cpu = c;
                }
                Some(('Z', _)) => break,
                Some((_, c)) => {
                    idle = 0;
                    last_cpu = c;
                }
                None => {}
            }
            if idle > 120 {
                hang = Some("asleep for a minute".into());
            }
            if start.elapsed() > Duration::from_secs(cpu * 20) {
                hang = Some("no end".into());
            }
            if hang.is_some() {
                libc::kill(pid, libc::SIGKILL);
                break;
            }
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if let Some(h) = hang {
            return Outcome::Hang(h);
        }
        if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            return if s == libc::SIGXCPU || s == libc::SIGKILL {
                Outcome::Hang(format!("still running after {} s of processor time", cpu))
            } else {
                Outcome::Crash(format!("signal {}", s))
            };
        }
        if libc::WEXITSTATUS(status) == 0 && data.len() >= 8 {
            if let Ok(r) = bincode::deserialize(&data[8..]) {
                return Outcome::Done(r);
            }
        }
        Outcome::Crash(format!("exit status {}", libc::WEXITSTATUS(status)))
    }
}

const CPU: u64 = 40;
fn cpu_limit(prop: &str) -> u64 {
    if prop == "H02" {
        200
    } else {
        CPU
    }
}

/// one simulated run of a plan
pub fn run_plan(plan: &Plan) -> Report {
    let p = plan.clone();
    match forked(
        move || {
            let mut rec = Rec::default();
            if let Err(v) = check(&p, &mut rec) {
                rec.r.violation = Some(v);
            }
            rec.r
        },
        cpu_limit(&plan.prop),
    ) {
        Outcome::Done(r) => r,
        Outcome::Crash(m) => Report { violation: Some(Violation { class: "crash".into(), msg: format!("the process died: {}", m) }), ..Default::default() },
        Outcome::Hang(m) => Report { violation: Some(Violation { class: "hang".into(), msg: m }), ..Default::default() },
    }
}

// ---------------------------------------------------------------- both builds (C01)

/// the instrumented builds share the work on T01: the one that stops at atomics comes
/// first and hands its counts to the one that also stops at statics
fn build_bin(build: &str) -> String {
    format!("{}/target/{}/sim", verif(), build)
}
const STATICS_RUNS: u64 = 6000;

fn shipped_bin() -> String {
    format!("{}/target/shipped/sim", verif())
}

/// event digests of a plan in this build
fn events(plan: &Plan) -> Vec<u64> {
    let r = run_plan(plan);
    match r.violation {
        Some(v) => vec![hash_bytes(v.class.as_bytes())],
        None => r.digests,
    }
}
fn events_shipped(plan: &Plan) -> Option<Vec<u64>> {
    let f = scratch(&format!("c01-{}.json", std::process::id()));
    std::fs::write(&f, serde_json::to_string(plan).unwrap()).ok()?;
    let o = std::process::Command::new(shipped_bin()).args(["events", &f]).output().ok()?;
    let _ = std::fs::remove_file(&f);
    serde_json::from_slice(&o.stdout).ok()
}
fn compare_builds(plan: &Plan) -> Option<Violation> {
    let a = events(plan);
    let b = events_shipped(plan)?;
    if a == b {
        return None;
    }
    let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let step = plan.tasks.first().and_then(|t| t.get(at));
    Some(Violation { class: "builds-differ".into(), msg: format!("operation {} differs between the checked and the unchecked optimised build: {:?}", at, step.map(|s| format!("{:?}", s.op)).unwrap_or_default().chars().take(400).collect::<String>()) })
}

/// violation of a plan, whatever its property needs
pub fn violation_of(plan: &Plan) -> Option<Violation> {
    if plan.prop == "C01" {
        return compare_builds(plan);
    }
    run_plan(plan).violation
}

// ---------------------------------------------------------------- workers

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    runs: u64,
    counters: BTreeMap<String, u64>,
    logs: Vec<u64>,
    nontrivial: u64,
    found: Option<(u64, Violation)>,
}

fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    let i = if BUILD == "statics" { i | 1 << 40 } else { i };
    let s = mix(&[seed, hash_bytes(prop.as_bytes()), i]);
    // now and then a run of H02 counts every relabelling
    match (prop, i % 1000) {
        ("H02", 0) => s & !0xfff,
        ("H02", _) => s | 1,
        _ => s,
    }
}

struct Flag(*mut u64);
impl Flag {
    fn new() -> Flag {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            Flag(p as *mut u64)
        }
    }
    fn stop(&self) -> &AtomicBool {
        unsafe { &*(self.0 as *const AtomicBool) }
    }
    fn next(&self) -> &AtomicU64 {
        unsafe { &*(self.0.add(8) as *const AtomicU64) }
    }
}

fn worker(prop: &str, seed: u64, runs: u64, deadline: Instant, flag: &Flag) -> Sum {
    let mut s = Sum::default();
    let mut logs = HashSet::new();
    loop {
        let i = flag.next().fetch_add(1, Ordering::SeqCst);
        if i >= runs || flag.stop().load(Ordering::SeqCst) || Instant::now() > deadline {
            break;
        }
        let rs = run_seed(prop, seed, i);
        let pr = prop.to_string();
        let r = match forked(
            move || {
                let plan = gen(&pr, rs);
                let mut rec = Rec::default();
                if let Err(v) = check(&plan, &mut rec) {
                    rec.r.violation = Some(v);
                }
                rec.r.digests.clear();
                rec.r
            },
            cpu_limit(prop),
        ) {
            Outcome::Done(r) => r,
            Outcome::Crash(m) => Report { violation: Some(Violation { class: "crash".into(), msg: format!("the process died: {}", m) }), ..Default::default() },
            Outcome::Hang(m) => Report { violation: Some(Violation { class: "hang".into(), msg: m }), ..Default::default() },
        };
        s.runs += 1;
        for (k, v) in r.counters {
            *s.counters.entry(k).or_default() += v;
        }
        if r.nontrivial {
            s.nontrivial += 1;
            logs.insert(r.log);
        }
        if let Some(v) = r.violation {
            s.found = Some((i, v));
            flag.stop().store(true, Ordering::SeqCst);
            break;
        }
    }
    s.logs = logs.into_iter().collect();
    s
}

fn search(prop: &str, seed: u64, runs: u64, workers: usize, cap: Duration) -> Sum {
    let flag = Flag::new();
    let deadline = Instant::now() + cap;
    let mut files = vec![];
    for w in 0..workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let s = worker(prop, seed, runs, deadline, &flag);
                let b = bincode::serialize(&s).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                use std::io::Write;
                let _ = f.write_all(&b);
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            files.push((w, pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut total = Sum::default();
    let mut logs = HashSet::new();
    for (_, pid, mut f) in files {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        unsafe {
            libc::waitpid(pid, std::ptr::null_mut(), 0);
        }
        let s: Sum = bincode::deserialize(&b).expect("a worker died");
        total.runs += s.runs;
        total.nontrivial += s.nontrivial;
        for (k, v) in s.counters {
            *total.counters.entry(k).or_default() += v;
        }
        logs.extend(s.logs);
        if let Some(f) = s.found {
            if total.found.as_ref().map_or(true, |t| f.0 < t.0) {
                total.found = Some(f);
            }
        }
    }
    total.logs = logs.into_iter().collect();
    total.logs.sort();
    total
}

/// C01: both builds go through the same plans
fn search_builds(seed: u64, runs: u64, workers: usize, cap: Duration) -> Sum {
    let me = std::env::current_exe().unwrap();
    let half = (workers / 2).max(1) as u64;
    let mut procs = vec![];
    for w in 0..half {
        for bin in [me.to_str().unwrap().to_string(), shipped_bin()] {
            let f = scratch(&format!("c01-{}-{}-{}", std::process::id(), w, procs.len() % 2));
            let out = std::fs::File::create(&f).unwrap();
            let p = std::process::Command::new(&bin).args(["batch", &seed.to_string(), &w.to_string(), &half.to_string(), &runs.to_string(), &cap.as_secs().to_string()]).stdout(out).spawn().expect("cannot start the other build");
            procs.push((f, p));
        }
    }
    let mut s = Sum::default();
    let mut logs = HashSet::new();
    let mut texts = vec![];
    for (f, mut p) in procs {
        let st = p.wait().unwrap();
        assert!(st.success(), "a batch failed");
        texts.push(std::fs::read_to_string(&f).unwrap());
        let _ = std::fs::remove_file(&f);
    }
    for pair in texts.chunks(2) {
        for (a, b) in pair[0].lines().zip(pair[1].lines()) {
            if let Some(c) = a.strip_prefix('#') {
                let c: BTreeMap<String, u64> = serde_json::from_str(c).unwrap();
                for (k, v) in c {
                    *s.counters.entry(k).or_default() += v;
                }
                continue;
            }
            if b.starts_with('#') {
                continue;
            }
            let ia = a.split(' ').next().unwrap();
            let ib = b.split(' ').next().unwrap();
            if ia != ib {
                break;
            }
            s.runs += 1;
            s.nontrivial += 1;
            logs.insert(hash_bytes(a.split_once(' ').unwrap().1.as_bytes()));
            if a != b {
                let i: u64 = ia.parse().unwrap();
                if s.found.as_ref().map_or(true, |f| i < f.0) {
                    s.found = Some((i, Violation { class: "builds-differ".into(), msg: "the event logs of the two builds differ".into() }));
                }
                break;
            }
        }
    }
    s.logs = logs.into_iter().collect();
    s.logs.sort();
    s
}

fn batch(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, w, step, runs, cap) = (n(0), n(1), n(2), n(3), n(4));
    let end = Instant::now() + Duration::from_secs(cap);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = w;
    while i < runs && Instant::now() < end {
        let plan = gen("C01", run_seed("C01", seed, i));
        let r = run_plan(&plan);
        for (k, v) in r.counters {
            *counters.entry(k).or_default() += v;
        }
        let d = match r.violation {
            Some(v) => v.class,
            None => format!("{} {:016x}", r.digests.len(), mix(&r.digests)),
        };
        println!("{} {}", i, d);
        i += step;
    }
    println!("#{}", serde_json::to_string(&counters).unwrap());
    0
}

// ---------------------------------------------------------------- commands

fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}
fn scratch(name: &str) -> String {
    let d = format!("{}/work", verif());
    let _ = std::fs::create_dir_all(&d);
    format!("{}/{}", d, name)
}

/// quick runs, chosen to take about 20 s on 8 cores
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "G01" => 100000,
        "G02" => 40000,
        "G03" => 80000,
        "G04" => 80000,
        "E01" => 35000,
        "E02" => 24000,
        "H01" => 60000,
        "H02" => 1000,
        "K01" => 50000,
        "V01" => 28000,
        "T01" if BUILD == "statics" => STATICS_RUNS,
        "T01" => 14000,
        "S01" => 70000,
        "S02" => 60000,
        "S03" => 34000,
        "S04" => 85000,
        "S05" => 50000,
        "W01" => 90000,
        "W02" => 20000,
        "W03" => 18000,
        "C01" => 20000,
        _ => 100,
    }
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "G01" => "10-40 random generations with degenerate and healthy sources; non-trivial: at least one grid was generated and checked",
        "G02" => "2-6 puzzle generations from solved, redundant and minimal uniquely solvable sudokus, each checked for subset, uniqueness and minimality; non-trivial: a puzzle was generated",
        "G03" => "2-6 puzzle generations, each checked group of symmetric cells by group; non-trivial: a puzzle was generated",
        "G04" => "3-10 generations from contradictory and ambiguous sudokus; non-trivial: such a generation took place",
        "E01" => "2-6 operations, each repeated under another clock, entropy, dispatch, thread and history; non-trivial: a random operation drew numbers or a non-random one ran",
        "E02" => "1-3 random operations, each failed at every draw (sampled beyond 36) and retried; non-trivial: a failure was injected",
        "H01" => "2-5 chains of 1-6 shuffles; non-trivial: a shuffle was checked for equivalence",
        "H02" => "a batch of 150-9000 healthy random sequences for one operation with tests of coverage and independence, every 1000th run a batch of 11 million shuffles in which each of the 362880 relabellings and each arrangement of rows and of columns must occur; non-trivial: the batch was evaluated",
        "K01" => "1-3 sudokus compared with a brute-force canonical form, then along a chain of shuffles; non-trivial: a canonical form was asked for",
        "V01" => "10-30 searches with cut-offs by limit and buffer under a memory quota against a reference count; non-trivial: a search with known count ran",
        "T01" => "1-4 callers on threads under a seeded schedule, or one with a long history or re-entrant callbacks; every outcome compared with the same operation alone in a fresh process; non-trivial: at least one task switch, re-entrant call or history of more than 20 operations",
        "S01" | "S02" | "S03" => "1-4 strategy sessions with inserts, queries, clones, restarts and solves; non-trivial: a log with at least one step was examined",
        "S04" => "1-4 strategy sessions of up to 40 inserts, queries, clones, restarts, compared step by step with a reference model; non-trivial: a full candidate state was compared",
        "S05" => "1-4 strategy sessions with drops and rebuilds, compared with the uninterrupted session; non-trivial: at least one rebuild",
        "W01" => "1-3 printouts, each repeated with a sink that fails at every write (sampled beyond 100) and at sampled bytes; non-trivial: a value was printed",
        "W02" => "5-30 transfers through fragmenting, interrupting, failing and damaging transports; non-trivial: a transfer took place",
        "W03" => "20-80 texts and byte arrays, well-formed or damaged, against reference readers; non-trivial: a text was read",
        "C01" => "a workload of another property executed by both builds; non-trivial: the event logs were compared",
        _ => "",
    };
    format!("One case is one simulated run derived from one seed: {}. Distinct: by the hash of the run's event log (all outcomes, draws and, where tasks interleave, the sequence of switches).", what)
}

fn main_check(prop: &str, tier: &str, seed: u64, runs: Option<u64>, workers: usize, cap: Option<u64>) -> i32 {
    let start = Instant::now();
    // SIM_SCALE: percentage of the usual number of runs, for experiments
    let scale = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100u64);
    let given = std::env::var("SIM_MERGE").ok().and_then(|f| {
        let b = std::fs::read(&f).ok()?;
        let _ = std::fs::remove_file(&f);
        bincode::deserialize::<(f64, Sum)>(&b).ok()
    });
    let all_runs = runs;
    let runs = runs.unwrap_or(if tier == "thorough" { quick_runs(prop) * 40 } else { (quick_runs(prop) * scale / 100).max(1) });
    let cap = Duration::from_secs(cap.unwrap_or(if tier == "thorough" { if prop == "T01" { 360 } else { 720 } } else { 240 }));
    let mut s = if prop == "C01" { search_builds(seed, runs, workers, cap) } else { search(prop, seed, runs, workers, cap) };
    let mut wall = start.elapsed().as_secs_f64();
    if prop == "T01" && BUILD == "race" && s.found.is_none() {
        use std::os::unix::process::CommandExt;
        let f = scratch(&format!("t01-{}", std::process::id()));
        std::fs::write(&f, bincode::serialize(&(wall, s)).unwrap()).unwrap();
        let mut c = std::process::Command::new(build_bin("statics"));
        c.args(["check", "T01", "--tier", tier, "--workers", &workers.to_string(), "--seed", &seed.to_string()]).env("SIM_MERGE", &f);
        if let Some(r) = all_runs {
            c.args(["--runs", &(r / 2).max(1).to_string()]);
        }
        println!("ERROR: cannot run the other build: {}", c.exec());
        return 2;
    }
    if let Some((w, g)) = given {
        wall += w;
        *s.counters.entry("runs that stop at statics".into()).or_default() += s.runs;
        *s.counters.entry("runs that stop at atomics".into()).or_default() += g.runs;
        s.runs += g.runs;
        s.nontrivial += g.nontrivial;
        for (k, v) in g.counters {
            *s.counters.entry(k).or_default() += v;
        }
        s.logs.extend(g.logs);
        s.logs.sort();
        s.logs.dedup();
    }
    let mut code = 0;
    let mut replay = None;
    let mut n_viol = 0;
    if let Some((i, v)) = &s.found {
        let rs = run_seed(prop, seed, *i);
        let plan = gen(prop, rs);
        if v.class == "harness" {
            println!("ERROR: harness failure in run {} (seed {:#x}): {}", i, rs, v.msg);
            code = 2;
        } else {
            let first = violation_of(&plan);
            let class = first.as_ref().map_or(v.class.clone(), |f| f.class.clone());
            if first.is_none() {
                println!("note: run {} does not reproduce from its seed in a fresh process", i);
            }
            let (small, sv, tried) = crate::shrink::shrink(&plan, &class, Duration::from_secs(60), &mut |p| violation_of(p));
            let sv = sv.or(first).unwrap_or(v.clone());
            let dir = format!("{}/replays", verif());
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{}/{}-{:016x}.json", dir, prop, rs);
            let doc = serde_json::json!({"property": prop, "seed": rs, "run": i, "class": sv.class, "what": sv.msg, "shrink_attempts": tried, "original_size": crate::shrink::size(&plan), "size": crate::shrink::size(&small), "plan": small});
            std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("{} ({}): {}", prop, sv.class, sv.msg);
            println!("VIOLATION property={} replay={}", prop, path);
            replay = Some(path);
            n_viol = 1;
            code = 1;
        }
    }
    evidence(prop, tier, seed, &s, wall, n_viol, replay);
    println!("{} {} runs {} (distinct non-trivial {}) in {:.1} s, operations {}", prop, tier, s.runs, s.logs.len(), wall, s.counters.get("operations").unwrap_or(&0));
    if s.runs == 0 || s.logs.is_empty() && code == 0 {
        println!("ERROR: nothing was explored");
        return 2;
    }
    code
}

fn evidence(prop: &str, tier: &str, seed: u64, s: &Sum, wall: f64, violations: u64, replay: Option<String>) {
    let faults: BTreeMap<&str, u64> = s.counters.iter().filter_map(|(k, v)| k.strip_prefix("fault: ").map(|k| (k, *v))).collect();
    let probes: BTreeMap<&String, &u64> = s.counters.iter().filter(|(k, _)| !k.starts_with("fault: ")).collect();
    let mut samples = vec![];
    for i in 0..3u64.min(s.runs) {
        let rs = run_seed(prop, seed, i);
        let p = gen(prop, rs);
        let mut t = serde_json::to_string(&p).unwrap();
        if t.len() > 1500 {
            let mut k = 1500;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
            t += "...";
        }
        samples.push(serde_json::json!({"run": i, "seed": rs, "plan": t}));
    }
    let c = |k: &str| s.counters.get(k).copied().unwrap_or(0);
    let crossings = c("draws from the ambient source") + c("draws from caller sources") + c("allocations") + c("seam crossings");
    let doc = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.logs.len(),
            "nontrivial_runs": s.nontrivial,
            "rule": rule(prop),
            "samples": samples,
            "runs_per_hour": (s.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (s.runs as f64 / wall * 3600.0) as u64,
            "simulated_time": {"note": "the system reads no clock; simulated time is counted in crossings of the simulator's seams (random draws, allocations, yield points)", "seam_crossings": crossings},
            "faults_injected": faults,
            "probes": probes,
            "distinct_states_or_interleavings": {"measure": "hash of the run's event log; for interleaved tasks it includes every task switch with its position", "distinct": s.logs.len()},
            "components": {
                "real": ["all of the sudoku crate (generator, solver, strategies, canonicalisation, text, serde) from /repo's working tree", "rand's distributions and slice shuffling", "serde, serde_json, bincode"],
                "stub": ["rand's ThreadRng: numbers come from the plan's stream", "getrandom and getrandom(2), clock_gettime inside library calls: simulated", "random sources, sinks and transports: the simulator's", "global allocator: counting, with quota"]
            },
            "replay": replay,
        },
        "assumptions": [
            "the reference solver, canonicaliser, readers and session model in /verif/sim/src are right; they share no code with the library",
            "seams are complete: the library takes input only through arguments, rand, getrandom, the clock and the allocator"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let d = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(format!("{}/{}.json", d, prop), serde_json::to_string_pretty(&doc).unwrap()).unwrap();
}

fn load(path: &str) -> Plan {
    let t = std::fs::read_to_string(path).expect("cannot read the replay file");
    let v: serde_json::Value = serde_json::from_str(&t).expect("not JSON");
    let p: Plan = serde_json::from_value(v.get("plan").cloned().unwrap_or(v)).expect("not a plan");
    assert!(valid(&p), "the plan is not well-formed");
    p
}

pub fn main() -> i32 {
    ctx::install();
    crate::gens::prepare();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let seed = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let workers = opt("--workers").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = a.get(1).cloned().unwrap_or_default();
            if !CLAIMED.contains(&prop.as_str()) {
                eprintln!("unknown property {}", prop);
                return 2;
            }
            let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            main_check(&prop, &tier, seed, opt("--runs").and_then(|s| s.parse().ok()), workers, opt("--cap").and_then(|s| s.parse().ok()))
        }
        Some("replay") => {
            let p = load(&a[1]);
            if !p.build.is_empty() && p.build != BUILD {
                use std::os::unix::process::CommandExt;
                println!("ERROR: {}", std::process::Command::new(build_bin(&p.build)).args(&a).exec());
                return 2;
            }
            match violation_of(&p) {
                Some(v) => {
                    println!("{} ({}): {}", p.prop, v.class, v.msg);
                    println!("VIOLATION property={} replay={}", p.prop, a[1]);
                    1
                }
                None => {
                    println!("{}: no violation", p.prop);
                    0
                }
            }
        }
        Some("plan") => {
            let prop = &a[1];
            let i: u64 = a[2].parse().unwrap();
            println!("{}", serde_json::to_string_pretty(&gen(prop, run_seed(prop, seed, i))).unwrap());
            0
        }
        Some("events") => {
            println!("{}", serde_json::to_string(&events(&load(&a[1]))).unwrap());
            0
        }
        Some("batch") => batch(&a[1..]),
        Some("selftest") => selftest(seed, &a),
        Some("profile") => {
            // time per run, in this process
            for prop in CLAIMED {
                if a.get(1).map_or(false, |x| x != prop) {
                    continue;
                }
                let n = 40;
                let t = Instant::now();
                for i in 0..n {
                    let _ = gen(prop, run_seed(prop, seed, i));
                }
                let tg = t.elapsed().as_secs_f64() / n as f64;
                let t = Instant::now();
                let mut worst: f64 = 0.0;
                for i in 0..n {
                    let t1 = Instant::now();
                    let r = run_plan(&gen(prop, run_seed(prop, seed, i)));
                    worst = worst.max(t1.elapsed().as_secs_f64());
                    if let Some(v) = r.violation {
                        println!("{} run {}: {:?}", prop, i, v);
                    }
                }
                println!("{} gen {:.2} ms, run {:.2} ms, worst {:.1} ms", prop, tg * 1e3, t.elapsed().as_secs_f64() / n as f64 * 1e3, worst * 1e3);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | plan PROP RUN | selftest");
            2
        }
    }
}

/// the same seeds twice, with different numbers of workers: equal logs
fn selftest(seed: u64, a: &[String]) -> i32 {
    let mut bad = 0;
    for prop in CLAIMED {
        if prop == "C01" || a.get(1).map_or(false, |x| !x.starts_with('-') && x != prop) {
            continue;
        }
        let n = if prop == "H02" { 8 } else { 300 };
        let x = search(prop, seed, n, 8, Duration::from_secs(600));
        let y = search(prop, seed, n, 3, Duration::from_secs(600));
        let same = x.logs == y.logs && x.counters == y.counters;
        println!("{} {} runs, {} distinct: {}", prop, n, x.logs.len(), if same { "repeatable" } else { "NOT REPEATABLE" });
        if !same {
            bad += 1;
            for (k, v) in &x.counters {
                if y.counters.get(k) != Some(v) {
                    println!("  {}: {} / {:?}", k, v, y.counters.get(k));
                }
            }
        }
    }
    if bad > 0 {
        1
    } else {
        0
    }
}
