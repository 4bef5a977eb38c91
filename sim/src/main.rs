//! Deterministic simulation of openraft with fault injection: seeded search, minimisation and replay.

mod det;
mod driver;
mod lin;
mod net;
mod oracle;
mod plan;
mod pool;
mod rng;
mod rt;
mod search;
mod store;
mod types;
mod world;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = det::self_check() {
        eprintln!("ERROR {}", e);
        std::process::exit(2);
    }
    let num = |k: &str, d: u64| arg(&a, k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let prop = arg(&a, "--property").unwrap_or_default();
    let code = match a.get(1).map(|s| s.as_str()) {
        // one seed, in this process, with its log
        Some("one") => {
            let cfg = match arg(&a, "--file") {
                Some(f) => search::load(&f).0,
                None => plan::generate(&prop, num("--seed", 1)),
            };
            if a.iter().any(|x| x == "--cfg") {
                println!("{}", serde_json::to_string_pretty(&cfg).unwrap());
            }
            trace_init();
            let r = driver::run(&cfg, a.iter().any(|x| x == "--verbose"));
            println!("{:#?}", r.violations);
            println!(
                "harness {:?}\nfaults {:?}\nprobes {:?}\ncalls {:?}\ntrace {:x} polls {} simulated {}ms committed {} acked {} reads {} leaders {}",
                r.harness_err,
                r.faults,
                r.probes,
                r.calls,
                r.trace,
                r.polls,
                r.sim_ns / 1_000_000,
                r.committed,
                r.acked,
                r.reads,
                r.leaders
            );
            i32::from(!r.violations.is_empty())
        }
        // many seeds: a table of what was found, for triage
        Some("survey") => search::survey(&prop, num("--seed", 1), num("--runs", 200), num("--jobs", 8) as usize),
        Some("check") => search::check(&search::Opts {
            property: prop,
            seed: num("--seed", 1),
            seconds: num("--seconds", 45),
            jobs: num("--jobs", 8) as usize,
            tier: arg(&a, "--tier").unwrap_or("quick".into()),
            dir: arg(&a, "--dir").unwrap_or("/verif".into()),
        }),
        Some("replay") => search::replay(&a[2]),
        _ => {
            eprintln!("usage: raftsim one|survey|check|replay ...");
            2
        }
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // Thread-local destructors of a finished simulation are of no interest.
    unsafe { libc::_exit(code) }
}

#[cfg(feature = "trace")]
fn trace_init() {
    tracing_subscriber::fmt().with_env_filter(tracing_subscriber::EnvFilter::from_default_env()).with_writer(std::io::stdout).without_time().init();
}
#[cfg(not(feature = "trace"))]
fn trace_init() {}
