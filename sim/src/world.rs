//! Shared simulated world: nodes, their disks, fault state, statistics and violations.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;

use crate::oracle::Oracle;
use crate::plan::Cfg;
use crate::plan::Op;
use crate::rng::mix;
use crate::rng::Rng;
use crate::rt;
use crate::rt::GroupId;
use crate::store::Disk;
use crate::types::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Down,
    Booting,
    Up,
    /// `Raft::new` failed or the core stopped; waiting for a restart
    Stopped,
}

#[derive(Clone, Debug)]
pub struct Armed {
    pub op: Op,
    pub left: u64,
    pub kind: ArmedKind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ArmedKind {
    /// fail; true: the effect takes place all the same
    Error(bool),
    /// crash before / in the middle / after
    Crash(u8, u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    ErrBefore,
    ErrAfter,
    CrashBefore,
    CrashMid,
    CrashAfter,
}

pub struct Node {
    pub id: Nid,
    pub group: GroupId,
    pub inc: u64,
    pub status: Status,
    pub disk: Disk,
    pub raft: Option<Raft>,
    pub metrics: Option<Metrics>,
    /// a storage error was returned in this incarnation
    pub poisoned: Option<u64>,
    pub shutdown: Option<u64>,
    /// this incarnation was asked to campaign (API or transfer request)
    pub asked_to_elect: bool,
    pub asked_to_heartbeat: u64,
    /// snapshots being built by this group
    pub builds: (usize, u64),
    /// [tick, heartbeat, elect] and since when (ns) they have this value
    pub sw: [(bool, u64); 3],
    /// last time something disturbed this node's own pace (stall, slow disk, clock jump, boot)
    pub disturbed: u64,
    pub armed: Vec<Armed>,
    pub full_until: u64,
    pub slow_until: u64,
    pub slow_mult: u64,
    pub boots: u64,
    pub want_restart: bool,
    pub last_fatal_seen: Option<u64>,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Violation {
    pub tags: Vec<String>,
    pub kind: String,
    pub detail: String,
    pub at_ns: u64,
}

pub struct World {
    pub cfg: Cfg,
    pub nodes: Vec<Node>,
    pub net: Rng,
    pub disk_rng: Rng,
    pub cli: Rng,
    pub o: Oracle,
    pub cut: [u64; 8],
    /// extra delay in us of a link; u64::MAX: everything is lost
    pub link: BTreeMap<(u64, u64), u64>,
    pub healed: bool,
    pub heal_at: u64,
    pub drop_p: f64,
    pub dup_p: f64,
    pub slow_p: f64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub violations: Vec<Violation>,
    pub kinds: BTreeSet<String>,
    pub harness_err: Option<String>,
    pub verbose: bool,
    pub quiet: bool,
    pub ended: bool,
    pub state_sig: BTreeSet<u64>,
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|x| f(x.borrow_mut().as_mut().expect("no world")))
}

pub fn init(cfg: &Cfg, verbose: bool) {
    let s = cfg.seed;
    let nodes = (0..cfg.n)
        .map(|id| Node {
            id,
            group: 0,
            inc: 0,
            status: Status::Down,
            disk: Disk::new(cfg, id),
            raft: None,
            metrics: None,
            poisoned: None,
            shutdown: None,
            asked_to_elect: false,
            asked_to_heartbeat: 0,
            builds: (0, 0),
            sw: [(true, 0); 3],
            disturbed: 0,
            armed: vec![],
            full_until: 0,
            slow_until: 0,
            slow_mult: 1,
            boots: 0,
            want_restart: false,
            last_fatal_seen: None,
        })
        .collect();
    let world = World {
        cfg: cfg.clone(),
        nodes,
        net: Rng::new(mix(s, 11)),
        disk_rng: Rng::new(mix(s, 12)),
        cli: Rng::new(mix(s, 13)),
        o: Oracle::default(),
        cut: [0; 8],
        link: BTreeMap::new(),
        healed: false,
        heal_at: 0,
        drop_p: cfg.drop_p,
        dup_p: cfg.dup_p,
        slow_p: cfg.slow_p,
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        violations: vec![],
        kinds: BTreeSet::new(),
        harness_err: None,
        verbose,
        quiet: false,
        ended: false,
        state_sig: BTreeSet::new(),
    };
    W.with(|x| *x.borrow_mut() = Some(world));
}

pub fn harness_error(m: String) {
    w(|w| {
        if w.harness_err.is_none() {
            w.harness_err = Some(m);
        }
    })
}

pub fn on_panic(group: GroupId, msg: &str) {
    w(|w| {
        if group == rt::HARNESS {
            if w.harness_err.is_none() {
                w.harness_err = Some(format!("harness task panicked: {}", msg));
            }
            return;
        }
        let Some(n) = w.nodes.iter().find(|n| n.group == group) else { return };
        let (id, pois, booting) = (n.id, n.poisoned.is_some(), n.status == Status::Booting);
        w.log(|| format!("n{} PANIC {}", id, msg));
        if msg.contains("/verif/sim/") || msg.contains("at src/") {
            if w.harness_err.is_none() {
                w.harness_err = Some(format!("simulator code panicked: {}", msg));
            }
            return;
        }
        if pois {
            w.probe("panic-after-storage-error");
            return;
        }
        let loc = msg.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string();
        let file = loc.split(':').next().unwrap_or("").to_string();
        let tags: &[&str] = if booting { &["C27", "C13"] } else { &["C27"] };
        w.violate(tags, &format!("panic in {}", file), format!("n{} panicked: {}", id, msg));
    })
}

const SAFETY: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

impl World {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let t = rt::now();
            println!("{:>12.3}ms {}", t as f64 / 1e6, f());
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }
    pub fn violate(&mut self, tags: &[&str], kind: &str, detail: String) {
        if self.violations.len() >= 40 || !self.kinds.insert(format!("{}{:?}", kind, tags)) {
            return;
        }
        let mut tags: Vec<String> = tags.iter().map(|s| s.to_string()).collect();
        // what this configuration promises: all safety properties
        if cfg!(feature = "single-term-leader") && !tags.iter().any(|t| t == "C28" || t == "C18" || t == "C24") && tags.iter().any(|t| SAFETY.contains(&t.as_str())) {
            tags.push("C28".into());
        }
        self.log(|| format!("!!!! VIOLATION {:?} {}: {}", tags, kind, detail));
        self.violations.push(Violation {
            tags,
            kind: kind.to_string(),
            // the stored run of the known finding about exactly this
            detail: if self.cfg.leader_loss { format!("{} [a restarted leader had lost unflushed entries it had already sent]", detail) } else { detail },
            at_ns: rt::now(),
        });
    }
    pub fn node(&mut self, n: Nid) -> &mut Node {
        &mut self.nodes[n as usize]
    }
    pub fn up(&self, n: Nid) -> bool {
        self.nodes[n as usize].status == Status::Up
    }
    /// The node that reports itself leader with the greatest vote.
    pub fn leader(&self) -> Option<Nid> {
        self.nodes
            .iter()
            .filter(|n| n.status == Status::Up)
            .filter_map(|n| n.metrics.as_ref().map(|m| (n.id, m)))
            .filter(|(_, m)| m.state == openraft::ServerState::Leader && m.running_state.is_ok())
            .max_by_key(|(_, m)| vkey(&m.vote))
            .map(|(id, _)| id)
    }
    pub fn is_cut(&self, a: Nid, b: Nid) -> bool {
        self.cut[a as usize] >> b & 1 == 1
    }
    /// What happens to this storage operation.
    pub fn storage_fault(&mut self, n: Nid, op: Op) -> Fault {
        let now = rt::now();
        let healed = self.healed;
        let nd = &mut self.nodes[n as usize];
        if healed {
            return Fault::None;
        }
        let is_write = !matches!(op, Op::ReadLog | Op::GetSnapshot);
        if nd.full_until > now && is_write {
            nd.poisoned.get_or_insert(now);
            self.fault("disk full");
            self.log(|| format!("n{} disk full at {:?}", n, op));
            return Fault::ErrBefore;
        }
        let mut hit = None;
        for i in 0..nd.armed.len() {
            if nd.armed[i].op == op {
                nd.armed[i].left = nd.armed[i].left.saturating_sub(1);
                if nd.armed[i].left == 0 && hit.is_none() {
                    hit = Some(i);
                }
            }
        }
        let Some(i) = hit else { return Fault::None };
        let a = nd.armed.remove(i);
        self.log(|| format!("n{} armed fault fires at {:?}: {:?}", n, op, a.kind));
        match a.kind {
            ArmedKind::Error(after) => {
                self.nodes[n as usize].poisoned.get_or_insert(now);
                self.fault(match (op, after) {
                    (Op::ReadLog | Op::GetSnapshot, _) => "read error",
                    (_, false) => "write error",
                    (_, true) => "write error after effect",
                });
                if after {
                    Fault::ErrAfter
                } else {
                    Fault::ErrBefore
                }
            }
            ArmedKind::Crash(ph, down) => {
                self.nodes[n as usize].disk.crash_down = down;
                self.fault(match ph {
                    0 => "crash before storage op",
                    1 => "crash inside storage op",
                    _ => "crash after storage op",
                });
                match ph {
                    0 => Fault::CrashBefore,
                    1 => Fault::CrashMid,
                    _ => Fault::CrashAfter,
                }
            }
        }
    }
}
