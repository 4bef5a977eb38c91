//! Deterministic simulation of the stores shipped with the project: seeded search, minimisation, replay.

#[path = "../../sim/src/det.rs"]
mod det;
mod fsx;
mod kinds;
#[path = "../../sim/src/rng.rs"]
mod rng;
mod run;

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::HashSet;
use std::path::PathBuf;
use std::time::Duration;
use std::time::Instant;

use run::Cfg;
use run::Phase;
use run::Report;
use run::Violation;
use serde_json::json;
use serde_json::Value;

fn generate(prop: &str, seed: u64) -> Cfg {
    let mut r = rng::Rng::new(rng::mix(seed, 4242));
    let kinds: &[&str] = match prop {
        "C29" => &["memstore", "example-memstore"],
        "C33" => &["rocksstore", "sledstore", "rocksstore"],
        _ => &["memstore", "memstore", "rocksstore", "sledstore"],
    };
    let kind = r.pick(kinds).to_string();
    let persist = kind.starts_with("rocks") || kind.starts_with("sled");
    let crashes = if !persist || prop == "C34" { 0 } else { r.range(1, 4) };
    let mut phases = vec![];
    for i in 0..=crashes {
        let ops = if r.chance(0.3) { r.range(3, 15) } else { r.range(15, if persist { 50 } else { 120 }) };
        let at = if i == crashes || r.chance(0.1) {
            None
        } else {
            let n = match r.below(4) {
                0 => r.range(1, 25),
                _ => r.range(1, 140),
            };
            let m = match r.below(10) {
                0..=2 => fsx::Mode::CrashBefore,
                3..=4 => fsx::Mode::CrashTorn,
                5..=7 => fsx::Mode::CrashAfter,
                8 if kind == "rocksstore" => *r.pick(&[fsx::Mode::Eio, fsx::Mode::Enospc]),
                9 if kind == "rocksstore" => fsx::Mode::Short,
                _ => fsx::Mode::CrashBefore,
            };
            Some((n, m))
        };
        phases.push(Phase { ops, at });
    }
    Cfg { property: prop.into(), seed, kind, phases, skip: BTreeSet::new() }
}

// ---- one process per run ------------------------------------------------------------------------------

fn scratch() -> PathBuf {
    let shm = PathBuf::from("/dev/shm");
    let base = if shm.is_dir() { shm } else { std::env::temp_dir() };
    base.join(format!("storesim.{}", unsafe { libc::getpid() }))
}

struct Kid {
    pid: i32,
    buf: Vec<u8>,
    dir: PathBuf,
    since: Instant,
}

struct Pool<T> {
    jobs: usize,
    n: u64,
    kids: BTreeMap<i32, (Kid, T)>,
}

impl<T> Pool<T> {
    fn new(jobs: usize) -> Self {
        Pool { jobs: jobs.max(1), n: 0, kids: BTreeMap::new() }
    }
    fn start(&mut self, cfg: &Cfg, tag: T) {
        self.n += 1;
        let dir = scratch().join(format!("r{}", self.n));
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let cpu = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
                let r = run::run(cfg, &dir, false);
                let v = serde_json::to_vec(&r).unwrap();
                let mut o = 0;
                while o < v.len() {
                    let k = libc::write(fds[1], v[o..].as_ptr() as *const libc::c_void, v.len() - o);
                    if k <= 0 {
                        break;
                    }
                    o += k as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            self.kids.insert(fds[0], (Kid { pid, buf: vec![], dir, since: Instant::now() }, tag));
        }
    }
    fn next(&mut self) -> Option<(T, Report)> {
        loop {
            if self.kids.is_empty() {
                return None;
            }
            let mut p: Vec<libc::pollfd> = self.kids.keys().map(|fd| libc::pollfd { fd: *fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(p.as_mut_ptr(), p.len() as libc::nfds_t, 1000) };
            for x in p {
                if x.revents == 0 {
                    if self.kids[&x.fd].0.since.elapsed() > Duration::from_secs(120) {
                        unsafe { libc::kill(self.kids[&x.fd].0.pid, libc::SIGKILL) };
                    }
                    continue;
                }
                let mut b = [0u8; 65536];
                let k = unsafe { libc::read(x.fd, b.as_mut_ptr() as *mut libc::c_void, b.len()) };
                if k > 0 {
                    self.kids.get_mut(&x.fd).unwrap().0.buf.extend_from_slice(&b[..k as usize]);
                    continue;
                }
                let (c, tag) = self.kids.remove(&x.fd).unwrap();
                let mut st = 0;
                unsafe {
                    libc::close(x.fd);
                    libc::waitpid(c.pid, &mut st, 0);
                }
                let _ = std::fs::remove_dir_all(&c.dir);
                let r = match serde_json::from_slice::<Report>(&c.buf) {
                    Ok(r) if libc::WIFEXITED(st) => r,
                    _ => Report { harness: Some(format!("the process ended with status {:x}", st)), ..Default::default() },
                };
                return Some((tag, r));
            }
        }
    }
    fn kill_all(&mut self) {
        for (c, _) in self.kids.values() {
            unsafe { libc::kill(c.pid, libc::SIGKILL) };
        }
        while self.next().is_some() {}
    }
}

fn run_one(c: &Cfg) -> Report {
    let mut p = Pool::new(1);
    p.n = 1_000_000 + rng::mix(c.seed, c.skip.len() as u64) % 1_000_000;
    p.start(c, ());
    p.next().unwrap().1
}

fn hit<'a>(p: &str, r: &'a Report, known: &[(String, String)]) -> Option<&'a Violation> {
    r.violations.iter().find(|v| v.tags.iter().any(|t| t == p) && !known.iter().any(|k| k.0 == p && v.kind == k.1))
}

fn known(dir: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read(format!("{}/known_findings.json", dir)) else { return vec![] };
    let v: Value = serde_json::from_slice(&s).unwrap_or(Value::Null);
    v["stores"].as_array().map(|a| a.iter().map(|k| (k["property"].as_str().unwrap_or("").into(), k["kind"].as_str().unwrap_or("").into())).collect()).unwrap_or_default()
}

/// Leave out phases and operations as long as the same violation remains.
fn minimise(p: &str, k: &[(String, String)], start: &Cfg, kind: &str, jobs: usize, budget: Duration) -> (Cfg, Report, u64) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut best_r = run_one(&best);
    let mut tried = 0;
    let first = |cands: Vec<Cfg>, tried: &mut u64| -> Option<(Cfg, Report)> {
        let mut pool: Pool<usize> = Pool::new(jobs);
        let mut found: Option<(usize, Report)> = None;
        let mut it = cands.iter().enumerate();
        loop {
            while pool.kids.len() < pool.jobs && found.is_none() && t0.elapsed() < budget {
                let Some((i, c)) = it.next() else { break };
                pool.start(c, i);
                *tried += 1;
            }
            let Some((i, r)) = pool.next() else { break };
            let same = hit(p, &r, k).map(|v| v.kind == kind).unwrap_or(false);
            if same && found.as_ref().map(|f| i < f.0).unwrap_or(true) {
                found = Some((i, r));
            }
        }
        found.map(|(i, r)| (cands[i].clone(), r))
    };
    let all = |c: &Cfg| -> Vec<(usize, usize, u64)> {
        let mut v = vec![];
        for (i, ph) in c.phases.iter().enumerate() {
            for a in 0..4 {
                for o in 1..=ph.ops {
                    if !c.skip.contains(&(i, a, o)) {
                        v.push((i, a, o));
                    }
                }
            }
        }
        v
    };
    let mut chunk = all(&best).len().div_ceil(2).max(1);
    while t0.elapsed() < budget {
        let ops = all(&best);
        let cands: Vec<Cfg> = ops
            .chunks(chunk)
            .map(|x| {
                let mut c = best.clone();
                c.skip.extend(x.iter().copied());
                c
            })
            .collect();
        match first(cands, &mut tried) {
            Some((c, r)) => {
                best = c;
                best_r = r;
            }
            None if chunk == 1 => break,
            None => chunk = chunk.div_ceil(2),
        }
    }
    (best, best_r, tried)
}

fn replay(f: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(f).expect("no replay file")).expect("not a replay file");
    let cfg: Cfg = serde_json::from_value(v["cfg"].clone()).expect("not a replay file");
    let r = run_one(&cfg);
    let full = run::run(&cfg, &scratch().join("t"), true);
    for l in &full.log {
        println!("{}", l);
    }
    for x in &r.violations {
        println!("{:?} {} | {}", x.tags, x.kind, x.detail);
    }
    let was = v["violation"]["kind"].as_str().unwrap_or("");
    let same = r.violations.iter().any(|x| x.kind == was);
    println!("trace {:016x} (recorded {}), {}", r.trace, v["trace"].as_str().unwrap_or("-"), if same { "the recorded violation happens" } else { "the recorded violation does not happen" });
    if r.violations.is_empty() {
        0
    } else {
        println!("VIOLATION property={} replay={}", cfg.property, f);
        1
    }
}

struct Opts {
    property: String,
    seed: u64,
    seconds: u64,
    jobs: usize,
    tier: String,
    dir: String,
    merge: bool,
}

fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let p = &o.property;
    let kn = known(&o.dir);
    let base = o.seed.wrapping_mul(10_000_000);
    let probe = generate(p, base);
    let (a, b) = (run_one(&probe), run_one(&probe));
    let same = serde_json::to_string(&a).unwrap() == serde_json::to_string(&b).unwrap();
    let mut pool: Pool<u64> = Pool::new(o.jobs);
    let (mut next, mut runs, mut nontrivial, mut polls, mut switches, mut again_n) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut traces = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut calls: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness = vec![];
    let mut samples = vec![];
    let mut found: Option<(u64, Violation)> = None;
    loop {
        while pool.kids.len() < pool.jobs && t0.elapsed() < Duration::from_secs(o.seconds) && found.is_none() {
            pool.start(&generate(p, base + next), next);
            next += 1;
        }
        let Some((i, r)) = pool.next() else { break };
        runs += 1;
        polls += r.polls;
        switches += r.switches;
        let fresh = traces.insert(r.trace);
        if fresh && r.switches > 5 && !r.states.is_empty() {
            nontrivial += 1;
            if samples.len() < 5 {
                let c = generate(p, base + i);
                samples.push(json!({"seed": c.seed, "store": c.kind, "phases": c.phases, "faults": r.faults, "polls": r.polls, "switches": r.switches, "trace": format!("{:016x}", r.trace)}));
            }
        }
        states.extend(r.states.iter());
        for (m, t) in [(&r.faults, &mut faults), (&r.seen, &mut seen), (&r.calls, &mut calls)] {
            for (k, v) in m {
                *t.entry(k.clone()).or_default() += v;
            }
        }
        if let Some(x) = &r.harness {
            harness.push((base + i, x.clone()));
        }
        for v in &r.violations {
            if !v.tags.iter().any(|t| t == p) {
                *other.entry(format!("{:?} {}", v.tags, v.kind)).or_default() += 1;
            } else if kn.iter().any(|k| k.0 == *p && k.1 == v.kind) {
                *known_seen.entry(v.kind.clone()).or_default() += 1;
            }
        }
        if found.is_none() {
            if let Some(v) = hit(p, &r, &kn) {
                let again = run_one(&generate(p, base + i));
                match hit(p, &again, &kn) {
                    Some(x) if x.kind == v.kind => found = Some((base + i, v.clone())),
                    _ => again_n += 1,
                }
            }
        }
        if found.is_some() {
            pool.kill_all();
            break;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut file = None;
    let mut info = Value::Null;
    if let Some((seed, v)) = &found {
        let start = generate(p, *seed);
        let (c, r, tried) = minimise(p, &kn, &start, &v.kind, o.jobs, Duration::from_secs(if o.tier == "quick" { 20 } else { 90 }));
        let v2 = hit(p, &r, &kn).cloned().unwrap_or(v.clone());
        let full = run::run(&c, &scratch().join("t"), true);
        let dir = format!("{}/out/{}", o.dir, p);
        let _ = std::fs::create_dir_all(&dir);
        let f = format!("{}/store-seed-{}.json", dir, seed);
        let doc = json!({"violation": v2, "trace": format!("{:016x}", r.trace), "cfg": c, "schedule": full.log, "how": "replay with: ./check.sh replay <this file>"});
        std::fs::write(&f, serde_json::to_vec_pretty(&doc).unwrap()).expect("cannot write the replay file");
        println!("{} | {}", v2.kind, v2.detail);
        println!("seed {} minimised to {} operations in {} runs", seed, full.log.len(), tried);
        info = json!({"seed": seed, "kind": v2.kind, "detail": v2.detail, "operations_after": full.log.len(), "runs_to_minimise": tried, "replay": f});
        file = Some(f);
    }
    for (kp, kk) in kn.iter().filter(|k| k.0 == *p) {
        println!("KNOWN-FINDING: property={} {} (met in {} runs of this campaign)", kp, kk, known_seen.get(kk).copied().unwrap_or(0));
    }
    for (s, h) in harness.iter().take(3) {
        println!("WARNING: run {} gave no verdict: {}", s, h);
    }
    let wall = t0.elapsed().as_secs_f64();
    let cov = json!({
        "evaluations": runs,
        "distinct_nontrivial": nontrivial,
        "rule": "One evaluation is one simulated life of one store: seed -> store, operations of a log writer, two log readers, the state machine worker and a snapshot builder, their interleaving, and for persistent stores the system calls at which the process dies or an error is injected. Distinct: another hash over operations and task switches. Non-trivial: more than five task switches.",
        "samples": samples,
        "seeds": {"first": base, "count": next},
        "runs_per_hour": (runs as f64 / search_s * 3600.0) as u64,
        "simulated_seconds": 0,
        "task_polls_scheduled": polls,
        "task_switches": switches,
        "distinct_interleavings": traces.len(),
        "interleaving_measure": "hash of operations and task switches of a run",
        "distinct_states": states.len(),
        "state_measure": "hash of (conflicting tail, uncommitted, unapplied, beyond snapshot, kept below snapshot, installing, building, operations in progress, phase) at each operation of the writer",
        "faults_injected": faults,
        "situations_reached": seen,
        "api_calls": calls,
        "one_seed_twice_identical": same,
        "runs_without_verdict": harness.len(),
        "unreproducible": again_n,
        "violations_of_other_properties_seen": other,
        "known_findings_seen": known_seen,
        "violation": info,
        "components": {
            "real": ["stores/memstore", "examples/memstore log store", "stores/rocksstore with RocksDB", "stores/sledstore with sled (its thread pool replaced: work is done at once)", "openraft storage helper (start of the engine)"],
            "simulated": ["scheduler of the tasks that use the store", "lock acquisition points inside the in-memory stores (tokio's cooperative budget)", "write/pwrite/fsync/fdatasync system calls of the store", "the engine's calls (generated within the storage contract)"],
            "not_run": ["RaftCore (see the checks of the cluster)"]
        },
    });
    let path = format!("{}/evidence/{}.json", o.dir, p);
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.dir));
    let ev = if o.merge {
        // the cluster part of the check wrote its evidence before
        let mut v: Value = std::fs::read(&path).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(json!({"coverage": {}}));
        v["coverage"]["stores_alone"] = cov;
        v["wall_s"] = json!(v["wall_s"].as_f64().unwrap_or(0.0) + wall);
        if found.is_some() {
            v["violations"] = json!(1);
        }
        v
    } else {
        json!({"property": p, "tier": o.tier, "seed": o.seed, "level": "exploration", "coverage": cov,
            "assumptions": ["System calls that returned survive the death of the process; bytes of RocksDB's log that were not flushed may be lost in part.", "The engine's calls respect the storage contract (property C30).", "RocksDB and sled themselves are correct."],
            "wall_s": wall, "violations": if found.is_some() { 1 } else { 0 }})
    };
    std::fs::write(&path, serde_json::to_vec_pretty(&ev).unwrap()).expect("cannot write evidence");
    println!("{} (stores): {} runs ({} distinct non-trivial), {} states, {} faults, {:.0}s", p, runs, nontrivial, states.len(), faults.values().sum::<u64>(), wall);
    if let Some(f) = file {
        println!("VIOLATION property={} replay={}", p, f);
        return 1;
    }
    if runs == 0 || harness.len() as u64 * 20 > runs {
        println!("ERROR: {} of {} runs gave no verdict", harness.len(), runs);
        return 2;
    }
    0
}

fn survey(p: &str, seed: u64, runs: u64, jobs: usize) -> i32 {
    let mut pool: Pool<u64> = Pool::new(jobs);
    let mut t: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut next = 0;
    let t0 = Instant::now();
    loop {
        while pool.kids.len() < pool.jobs && next < runs {
            pool.start(&generate(p, seed + next), next);
            next += 1;
        }
        let Some((i, r)) = pool.next() else { break };
        for v in &r.violations {
            let e = t.entry(format!("{:?} {}", v.tags, v.kind)).or_insert((0, seed + i, v.detail.clone()));
            e.0 += 1;
        }
        if let Some(x) = r.harness {
            let e = t.entry(format!("HARNESS {}", x)).or_insert((0, seed + i, String::new()));
            e.0 += 1;
        }
        for (k, v) in r.seen.iter().chain(&r.faults) {
            *seen.entry(k.clone()).or_default() += v;
        }
    }
    for (k, v) in t {
        println!("{:5} seed {} {} | {}", v.0, v.1, k, v.2.chars().take(400).collect::<String>());
    }
    println!("{:?}\n{} runs in {:.1}s", seen, next, t0.elapsed().as_secs_f64());
    0
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: u64| arg(&a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let dir = scratch();
    if let Err(e) = det::self_check().and_then(|_| fsx::self_check(&dir)) {
        eprintln!("ERROR {}", e);
        std::process::exit(2);
    }
    let prop = arg(&a, "--property").unwrap_or_default();
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("one") => {
            let c = generate(&prop, num("--seed", 1));
            let r = run::run(&c, &dir.join("t"), true);
            println!("{:?}", c);
            for l in &r.log {
                println!("{}", l);
            }
            println!("{:#?}\n{:?} {:?} {:?} trace {:x} polls {} switches {}", r.violations, r.harness, r.faults, r.seen, r.trace, r.polls, r.switches);
            i32::from(!r.violations.is_empty())
        }
        Some("survey") => survey(&prop, num("--seed", 1), num("--runs", 200), num("--jobs", 8) as usize),
        Some("check") => check(&Opts {
            property: prop,
            seed: num("--seed", 1),
            seconds: num("--seconds", 45),
            jobs: num("--jobs", 8) as usize,
            tier: arg(&a, "--tier").unwrap_or("quick".into()),
            dir: arg(&a, "--dir").unwrap_or("/verif".into()),
            merge: a.iter().any(|x| x == "--merge"),
        }),
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: storesim one|survey|check|replay ...");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}
