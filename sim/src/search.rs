//! Seeded search over runs, minimisation of what it finds, replay files, evidence.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::HashSet;
use std::time::Duration;
use std::time::Instant;

use serde_json::json;
use serde_json::Value;

use crate::driver::Report;
use crate::plan;
use crate::plan::Cfg;
use crate::pool::Done;
use crate::pool::Pool;
use crate::rt::Policy;
use crate::world::Violation;

pub struct Opts {
    pub property: String,
    pub seed: u64,
    pub seconds: u64,
    pub jobs: usize,
    pub tier: String,
    pub dir: String,
}

/// What a dead process means.
fn as_report(d: Done) -> Report {
    match d {
        Done::Report(r) => *r,
        Done::Died(s) => {
            let spin = s == format!("signal {}", libc::SIGXCPU);
            Report {
                violations: vec![Violation {
                    tags: if spin { vec!["C27".into(), "C18".into()] } else { vec!["C27".into()] },
                    kind: if spin { "a node computes for ever".into() } else { "the process is aborted".into() },
                    detail: s,
                    at_ns: 0,
                }],
                ..Default::default()
            }
        }
    }
}

fn run_one(c: &Cfg) -> Report {
    let mut p = Pool::new(1);
    p.start(c, ());
    as_report(p.next().unwrap().1)
}

pub fn load(f: &str) -> (Cfg, Value) {
    let v: Value = serde_json::from_slice(&std::fs::read(f).expect("cannot read the replay file")).expect("not a replay file");
    let c = v.get("cfg").cloned().unwrap_or(v.clone());
    (serde_json::from_value(c).expect("not a replay file"), v)
}

pub fn replay(f: &str) -> i32 {
    let (c, v) = load(f);
    let r = run_one(&c);
    let want = v["violation"]["kind"].as_str().unwrap_or("").to_string();
    let want_trace = v["trace"].as_str().unwrap_or("").to_string();
    let got = r.violations.iter().find(|x| x.kind == want);
    for x in &r.violations {
        println!("{:?} {}: {} (at {} ms)", x.tags, x.kind, x.detail, x.at_ns / 1_000_000);
    }
    let tr = format!("{:016x}", r.trace);
    println!("trace {} recorded {}", tr, want_trace);
    match got {
        Some(x) => {
            let same = tr == want_trace && Some(x.detail.as_str()) == v["violation"]["detail"].as_str();
            println!("{}", if same { "reproduced exactly" } else { "the same kind of violation, but another execution (the code has changed?)" });
            println!("VIOLATION property={} replay={}", c.property, f);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

pub fn survey(prop: &str, seed: u64, runs: u64, jobs: usize) -> i32 {
    let props: Vec<String> = if prop == "all" { (1..=31).map(|i| format!("C{:02}", i)).collect() } else { vec![prop.to_string()] };
    let mut pool: Pool<(String, u64)> = Pool::new(jobs);
    let mut todo: Vec<(String, u64)> = vec![];
    for i in 0..runs {
        for p in &props {
            todo.push((p.clone(), seed + i));
        }
    }
    todo.reverse();
    let mut table: BTreeMap<(String, String), (u64, String, String)> = BTreeMap::new();
    let mut harness: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut polls = vec![];
    let t0 = Instant::now();
    let mut n = 0u64;
    loop {
        while !pool.full() && !todo.is_empty() {
            let (p, s) = todo.pop().unwrap();
            let mut c = plan::generate(&p, s);
            // a developer's switch: look for the known finding about leaders that lose unflushed logs
            c.leader_loss = std::env::var("LEADER_LOSS").is_ok();
            pool.start(&c, (p, s));
        }
        let Some(((p, s), d)) = pool.next() else { break };
        n += 1;
        let r = as_report(d);
        polls.push((r.polls, r.sim_ns, format!("{} {}", p, s)));
        for (k, v) in r.probes {
            *probes.entry(k).or_default() += v;
        }
        for (k, v) in r.faults {
            *faults.entry(k).or_default() += v;
        }
        if let Some(h) = r.harness_err {
            let e = harness.entry(h).or_insert((0, format!("{} {}", p, s)));
            e.0 += 1;
        }
        for v in r.violations {
            let e = table.entry((format!("{:?}", v.tags), v.kind)).or_insert((0, v.detail, format!("{} {}", p, s)));
            e.0 += 1;
        }
    }
    let el = t0.elapsed().as_secs_f64();
    println!("{} runs in {:.1}s", n, el);
    println!("probes {:?}", probes);
    println!("faults {:?}", faults);
    polls.sort();
    println!("polls median {:?} max {:?}", polls.get(polls.len() / 2), polls.last());
    for (k, v) in harness {
        println!("HARNESS {} x {} [{}]", v.0, k, v.1);
    }
    for ((t, k), (c, d, s)) in table {
        println!("{:>5} {} {} | {} [{}]", c, t, k, d, s);
    }
    0
}

/// Known findings: violations of a genuine defect that is recorded and not repaired.
#[derive(Clone, Debug, serde::Deserialize)]
struct Known {
    property: String,
    /// the kind of the violation
    kind: String,
    /// all of these occur in its detail
    #[serde(default)]
    detail_has: Vec<String>,
    what: String,
    #[serde(default)]
    fixed: Option<String>,
    /// a stored run that shows it, relative to the directory of the framework
    #[serde(default)]
    replay: Option<String>,
}

fn known(dir: &str) -> Vec<Known> {
    let Ok(b) = std::fs::read(format!("{}/known_findings.json", dir)) else { return vec![] };
    let v: Value = serde_json::from_slice(&b).expect("known_findings.json");
    let l: Vec<Known> = serde_json::from_value(v["findings"].clone()).expect("known_findings.json");
    l.into_iter().filter(|k| k.fixed.is_none()).collect()
}

fn matches<'a>(k: &'a [Known], p: &str, v: &Violation) -> Option<&'a Known> {
    k.iter().find(|k| k.property == p && k.kind == v.kind && k.detail_has.iter().all(|s| v.detail.contains(s)))
}

fn hit<'a>(p: &str, k: &[Known], r: &'a Report) -> Option<&'a Violation> {
    if r.harness_err.is_some() {
        return None;
    }
    r.violations.iter().find(|v| v.tags.iter().any(|t| t == p) && matches(k, p, v).is_none())
}

/// Smaller configurations to try, most drastic first.
fn simpler(c: &Cfg) -> Vec<Cfg> {
    let mut out = vec![];
    let mut add = |f: &dyn Fn(&mut Cfg)| {
        let mut d = c.clone();
        f(&mut d);
        if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
            out.push(d);
        }
    };
    add(&|d| {
        d.drop_p = 0.0;
        d.dup_p = 0.0;
        d.slow_p = 0.0;
    });
    add(&|d| d.drop_p = 0.0);
    add(&|d| d.dup_p = 0.0);
    add(&|d| d.slow_p = 0.0);
    add(&|d| {
        d.partial_p = 0.0;
        d.too_large = None;
    });
    add(&|d| d.short_read = None);
    add(&|d| d.snap_io = 0);
    add(&|d| d.cancel_p = 0.0);
    add(&|d| {
        d.wake_delay_p = 0.0;
        d.poll_cost_ns = 0;
    });
    add(&|d| d.policy = Policy::Fifo);
    add(&|d| d.clock_ppm = vec![0; 7]);
    add(&|d| d.read_p = 0.0);
    add(&|d| d.ff_p = 0.0);
    add(&|d| d.clients = 1);
    add(&|d| d.clients = 0);
    add(&|d| d.start_learners = false);
    add(&|d| d.init_all = false);
    add(&|d| d.v1 = false);
    add(&|d| d.n = (d.n - 1).max(d.voters));
    add(&|d| d.snap_every = None);
    if c.gap_us < 200_000 {
        add(&|d| d.gap_us *= 4);
    }
    let last = c.events.last().map(|e| e.0 / 1000 + 10).unwrap_or(300);
    if last < c.dur_ms {
        add(&|d| d.dur_ms = last);
    }
    if c.dur_ms > 600 {
        add(&|d| d.dur_ms = d.dur_ms * 2 / 3);
    }
    out
}

/// Delta debugging over the events, then simplification of the configuration.
fn minimise(o: &Opts, k: &[Known], start: &Cfg, kind: &str, budget: Duration) -> (Cfg, Report, u64) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut best_r = run_one(start);
    let mut tried = 0;
    let good = |r: &Report| hit(&o.property, k, r).map(|v| v.kind == kind).unwrap_or(false);
    // candidates are tried in batches, in parallel; the first good one in order wins
    let batch = |cands: Vec<Cfg>, tried: &mut u64| -> Option<(Cfg, Report)> {
        for ch in cands.chunks(o.jobs) {
            if t0.elapsed() > budget {
                return None;
            }
            let mut p = Pool::new(o.jobs);
            for (i, c) in ch.iter().enumerate() {
                p.start(c, i);
            }
            let mut res: BTreeMap<usize, Report> = BTreeMap::new();
            while let Some((i, d)) = p.next() {
                *tried += 1;
                res.insert(i, as_report(d));
            }
            for (i, r) in res {
                if good(&r) {
                    return Some((ch[i].clone(), r));
                }
            }
        }
        None
    };
    let mut changed = true;
    while changed && t0.elapsed() < budget {
        changed = false;
        let mut size = best.events.len();
        while size >= 1 {
            let mut cands = vec![];
            let n = best.events.len();
            let mut i = 0;
            while i < n {
                let mut c = best.clone();
                let j = (i + size).min(n);
                c.events.drain(i..j);
                cands.push(c);
                i = j;
            }
            match batch(cands, &mut tried) {
                Some((c, r)) => {
                    best = c;
                    best_r = r;
                    changed = true;
                    size = size.min(best.events.len());
                    if size == 0 {
                        break;
                    }
                }
                None => size /= 2,
            }
        }
        while let Some((c, r)) = batch(simpler(&best), &mut tried) {
            best = c;
            best_r = r;
            changed = true;
        }
    }
    (best, best_r, tried)
}

fn describe(c: &Cfg) -> Value {
    let kinds: BTreeSet<String> = c.events.iter().map(|e| format!("{:?}", e.1).split(['(', ' ']).next().unwrap_or("").to_string()).collect();
    json!({
        "seed": c.seed, "profile": c.profile, "nodes": c.n, "voters": c.voters, "events": c.events.len(), "event_kinds": kinds,
        "message_loss": c.drop_p, "duplication": c.dup_p, "slow_messages": c.slow_p, "schedule": format!("{:?}", c.policy),
        "chunked_snapshots": c.v1, "snapshot_every": c.snap_every, "real_log_store": c.real_store,
        "first_event": c.events.first().map(|e| format!("{:?}", e)),
    })
}

/// Situations a campaign for this property must have reached to mean anything.
fn needs(p: &str) -> &'static [&'static str] {
    match p {
        "C01" | "C02" | "C03" | "C28" => &["leader elected", "vote granted"],
        "C04" => &["truncate", "replication conflict"],
        "C07" | "C14" => &["snapshot installed"],
        "C08" => &["read on another node"],
        "C10" | "C11" | "C12" => &["joint membership proposed", "learner added"],
        "C15" => &["snapshot chunk sent", "snapshot installed"],
        "C16" => &["purge"],
        "C17" => &["compaction observed"],
        "C18" => &["recovered"],
        "C21" => &["transfer request sent", "transfer hands over"],
        "C22" => &["initialize succeeds"],
        "C23" => &["node stopped after storage error"],
        "C31" => &["switches observed"],
        _ => &["recovered"],
    }
}

pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let p = o.property.clone();
    let kn = known(&o.dir);
    let base = o.seed.wrapping_mul(10_000_000);

    // one seed twice: is the simulation deterministic at all?
    let probe = plan::generate(&p, base);
    let (a, b) = (run_one(&probe), run_one(&probe));
    let deterministic = serde_json::to_string(&a).unwrap() == serde_json::to_string(&b).unwrap();
    if !deterministic {
        println!("WARNING: one seed gave two executions ({:x} and {:x})", a.trace, b.trace);
    }

    // and once more in a process of its own, as a replay would
    let elsewhere = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", "--property", &p, "--seed", &base.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .map(|x| String::from_utf8_lossy(&x.stdout).contains(&format!("trace {:x} ", a.trace)))
        .unwrap_or(false);
    if !elsewhere {
        println!("WARNING: another process gives another execution");
    }

    // the stored runs of the known findings
    let mut known_stored: BTreeMap<String, bool> = BTreeMap::new();
    for k in kn.iter().filter(|k| k.property == p) {
        if let Some(f) = &k.replay {
            let (c, _) = load(&format!("{}/{}", o.dir, f));
            let r = run_one(&c);
            known_stored.insert(k.what.clone(), r.violations.iter().any(|v| matches(std::slice::from_ref(k), &p, v).is_some()));
        }
    }

    let mut pool: Pool<u64> = Pool::new(o.jobs);
    let mut next = 0u64;
    let mut runs = 0u64;
    let mut traces: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut states: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut calls: BTreeMap<String, u64> = BTreeMap::new();
    let mut sim_ns = 0u128;
    let mut polls = 0u128;
    let (mut committed, mut acked, mut reads, mut leaders) = (0u64, 0u64, 0u64, 0u64);
    let mut harness: Vec<(u64, String)> = vec![];
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut found: Option<(u64, Violation)> = None;
    let mut flaky = 0u64;
    let limit = Duration::from_secs(o.seconds);
    loop {
        while !pool.full() && t0.elapsed() < limit && found.is_none() {
            let c = plan::generate(&p, base + next);
            pool.start(&c, next);
            next += 1;
        }
        let Some((i, d)) = pool.next() else { break };
        let r = as_report(d);
        runs += 1;
        sim_ns += r.sim_ns as u128;
        polls += r.polls as u128;
        committed += r.committed;
        acked += r.acked;
        reads += r.reads;
        leaders += r.leaders;
        let fresh = traces.insert(r.trace);
        if fresh && r.committed > 0 && (!r.faults.is_empty() || r.leaders > 0) {
            nontrivial += 1;
            if samples.len() < 6 {
                let mut s = describe(&plan::generate(&p, base + i));
                s["faults_injected"] = json!(r.faults);
                s["committed_entries"] = json!(r.committed);
                s["simulated_ms"] = json!(r.sim_ns / 1_000_000);
                s["trace"] = json!(format!("{:016x}", r.trace));
                samples.push(s);
            }
        }
        if states.len() < 8_000_000 {
            states.extend(r.states.iter().copied());
        }
        for (k, v) in &r.faults {
            let e = faults.entry(k.clone()).or_default();
            e.0 += v;
            e.1 += 1;
        }
        for (k, v) in &r.probes {
            *probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.calls {
            *calls.entry(k.clone()).or_default() += v;
        }
        if let Some(h) = &r.harness_err {
            harness.push((base + i, h.clone()));
        }
        for v in &r.violations {
            if v.tags.iter().any(|t| *t == p) {
                if let Some(k) = matches(&kn, &p, v) {
                    *known_seen.entry(k.what.clone()).or_default() += 1;
                }
            } else {
                *other.entry(format!("{:?} {}", v.tags, v.kind)).or_default() += 1;
            }
        }
        if found.is_none() {
            if let Some(v) = hit(&p, &kn, &r) {
                // believed only when it happens again
                let again = run_one(&plan::generate(&p, base + i));
                match hit(&p, &kn, &again) {
                    Some(x) if x.kind == v.kind => found = Some((base + i, v.clone())),
                    _ => flaky += 1,
                }
            }
        }
        if found.is_some() {
            pool.kill_all();
            break;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut replay_file = None;
    let mut min_info = Value::Null;
    if let Some((seed, v)) = &found {
        let start = plan::generate(&p, *seed);
        let budget = Duration::from_secs(if o.tier == "quick" { 25 } else { 120 });
        // whatever happens while it is made smaller, the violation found is reported
        let (cfg, r, tried) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| minimise(o, &kn, &start, &v.kind, budget)))
            .unwrap_or_else(|_| (start.clone(), run_one(&start), 0));
        let v2 = hit(&p, &kn, &r).cloned().unwrap_or(v.clone());
        let dir = format!("{}/out/{}", o.dir, p);
        let _ = std::fs::create_dir_all(&dir);
        let f = format!("{}/seed-{}.json", dir, seed);
        let doc = json!({
            "violation": v2, "trace": format!("{:016x}", r.trace), "cfg": cfg,
            "original_seed": seed, "original_events": start.events.len(), "minimised_events": cfg.events.len(),
            "how": "replay with: ./check.sh replay <this file>",
        });
        std::fs::write(&f, serde_json::to_vec_pretty(&doc).unwrap()).expect("cannot write the replay file");
        min_info = json!({"seed": seed, "kind": v2.kind, "detail": v2.detail, "events_before": start.events.len(), "events_after": cfg.events.len(), "runs_to_minimise": tried, "replay": f,
            "events": cfg.events.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>()});
        println!("{} | {}", v2.kind, v2.detail);
        println!("seed {} minimised from {} to {} events in {} runs", seed, start.events.len(), cfg.events.len(), tried);
        replay_file = Some(f);
    }
    for k in kn.iter().filter(|k| k.property == p) {
        let n = known_seen.get(&k.what).copied().unwrap_or(0);
        let stored = match known_stored.get(&k.what) {
            Some(true) => "its stored run shows it",
            Some(false) => "its stored run does not show it on this tree",
            None => "no stored run",
        };
        println!("KNOWN-FINDING: property={} {} ({}; met in {} runs of this campaign)", p, k.what, stored, n);
    }
    let missing: Vec<&str> = needs(&p).iter().copied().filter(|x| !probes.contains_key(*x)).collect();
    if !missing.is_empty() {
        println!("WARNING: never reached in this campaign: {:?}", missing);
    }
    for (s, h) in harness.iter().take(3) {
        println!("WARNING: run {} gave no verdict: {}", s, h);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": "One evaluation is one simulated history of a whole cluster: seed -> configuration, network, disks, clocks, scheduler policy, client traffic and a timed plan of faults and administration biased towards this property. Distinct: another hash over the sequence (task polled, group, time step). Non-trivial: at least one log entry was committed and a leader acted.",
            "samples": samples,
            "seeds": {"first": base, "count": next},
            "runs_per_hour": (runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": (sim_ns / 1_000_000_000) as u64,
            "simulated_seconds_per_wall_second": ((sim_ns as f64 / 1e9) / search_s) as u64,
            "task_polls_scheduled": polls as u64,
            "distinct_interleavings": traces.len(),
            "interleaving_measure": "hash of the sequence of scheduled tasks and time steps of a run",
            "distinct_states": states.len(),
            "state_measure": "hash of all nodes' (role, term rank, log length class, commit/applied/snapshot/purge distances, membership shape) whenever a node publishes metrics",
            "faults_injected": faults.iter().map(|(k, v)| (k.clone(), json!({"times": v.0, "runs": v.1}))).collect::<BTreeMap<_, _>>(),
            "situations_reached": probes,
            "api_calls_completed": calls,
            "committed_entries": committed, "acknowledged_writes": acked, "linearizable_reads_checked": reads, "leaderships": leaders,
            "one_seed_twice_identical": deterministic,
            "one_seed_in_another_process_identical": elsewhere,
            "runs_without_verdict": harness.len(),
            "unreproducible": flaky,
            "required_situations_missing": missing,
            "violations_of_other_properties_seen": other,
            "known_findings_seen": known_seen,
            "known_findings_stored_run_shows_it": known_stored,
            "violation": min_info,
            "components": {
                "real": ["openraft: RaftCore, Engine and all handlers, replication and heartbeat tasks, state machine worker, snapshot transport (sender and receiver), storage helper, Raft API, metrics and wait", "tokio sync primitives", "futures::select", "memstore LogStore in the runs marked real_log_store"],
                "simulated": ["async runtime: scheduler, timers, clocks, task crash", "network", "log storage and state machine storage with volatile and durable images", "clients and administrator", "entropy (getrandom)"],
                "not_run": ["TokioRuntime and other runtimes", "rocksdb and sled stores", "example networks (HTTP)"]
            },
        },
        "assumptions": ["A crash keeps exactly the writes that were reported durable plus a random prefix of the unreported ones.", "Storage keeps the documented contract except for the injected errors.", "The network never delivers a message that was not sent."],
        "wall_s": wall,
        "violations": if found.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.dir));
    std::fs::write(format!("{}/evidence/{}.json", o.dir, p), serde_json::to_vec_pretty(&ev).unwrap()).expect("cannot write evidence");
    println!(
        "{}: {} runs ({} distinct non-trivial), {} simulated seconds, {} states, {} faults, {:.0}s",
        p,
        runs,
        nontrivial,
        sim_ns / 1_000_000_000,
        states.len(),
        faults.values().map(|v| v.0).sum::<u64>(),
        wall
    );
    if let Some(f) = replay_file {
        println!("VIOLATION property={} replay={}", p, f);
        return 1;
    }
    if runs > 100 && nontrivial == 0 {
        println!("ERROR: no run of this campaign got anywhere: {:?}", other);
        return 2;
    }
    if runs == 0 || harness.len() as u64 * 20 > runs {
        println!("ERROR: {} of {} runs gave no verdict", harness.len(), runs);
        return 2;
    }
    0
}
