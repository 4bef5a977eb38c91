//! Run configuration and the plan of timed events (client-side administration and faults): a pure
//! function of (profile, seed). A replay file is exactly one `Cfg`.

use serde::Deserialize;
use serde::Serialize;

use crate::rng::mix;
use crate::rng::Rng;
use crate::rt::Policy;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Who {
    Id(u64),
    /// the node that currently acts as leader (or node `fallback` modulo n)
    Leader,
    /// the k-th running node that is not the leader
    Follower(u64),
}

/// Storage operations faults can be attached to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Op {
    SaveVote,
    Append,
    Flush,
    Truncate,
    Purge,
    SaveCommitted,
    ReadLog,
    Apply,
    BuildSnapshot,
    InstallSnapshot,
    GetSnapshot,
}
pub const OPS: [Op; 11] = [
    Op::SaveVote,
    Op::Append,
    Op::Flush,
    Op::Truncate,
    Op::Purge,
    Op::SaveCommitted,
    Op::ReadLog,
    Op::Apply,
    Op::BuildSnapshot,
    Op::InstallSnapshot,
    Op::GetSnapshot,
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Change {
    /// replace all voters by this set (bit mask), retain removed voters as learners or not
    Voters(u64, bool),
    AddVoterIds(u64, bool),
    /// add voters together with their nodes (no need to be learners before)
    AddVoters(u64, bool),
    RemoveVoters(u64, bool),
    RemoveNodes(u64),
    AddNodes(u64),
    SetNodes(u64),
    ReplaceAllNodes(u64),
    /// remove the current leader from the voters
    RemoveLeader(bool),
    /// invalid: empty voter set
    Empty,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    /// crash, and restart after the given number of us (u64::MAX: stays down until the heal phase)
    Crash(Who, u64),
    CrashAll(u64),
    /// crash `who` at its nth next operation of this kind: before (0), in the middle (1), after (2)
    CrashAt(Who, Op, u8, u64, u64),
    /// fail the nth next operation of this kind; true: the effect takes place all the same
    DiskError(Who, Op, u64, bool),
    /// every write fails for a while
    DiskFull(Who, u64),
    DiskSlow(Who, u64, u64),
    /// two sides, bit mask of one side
    Partition(u64),
    /// bit masks: messages from the first set to the second are lost
    OneWay(u64, u64),
    /// isolate one node
    Isolate(Who),
    Heal,
    /// lossy / slow single link, us delay
    LinkBad(u64, u64, u64),
    Stall(Who, u64),
    ClockJump(Who, u64),
    Elect(Who),
    Heartbeat(Who),
    Snapshot(Who),
    /// purge up to (applied index of the node) - delta
    PurgeLog(Who, i64),
    Transfer(Who, Who),
    AddLearner(u64, bool),
    Member(Change),
    Switch(Who, Option<bool>, Option<bool>, Option<bool>),
    Shutdown(Who, u64),
    Initialize(u64, u64),
    /// a burst of client writes sent to one node
    Burst(Who, u64),
    /// concurrent reads on all nodes
    Reads(Who),
    Probe(Who),
    WaitApi(Who),
    /// pause / resume client traffic
    Quiet(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub property: String,
    pub profile: String,
    pub seed: u64,
    pub n: u64,
    pub voters: u64,
    pub init_all: bool,
    pub dur_ms: u64,

    pub hb_ms: u64,
    pub el_min: u64,
    pub el_max: u64,
    pub max_payload: u64,
    pub lag: u64,
    pub snap_every: Option<u64>,
    pub chunk: u64,
    pub keep: u64,
    pub purge_batch: u64,
    pub install_timeout_ms: u64,

    pub net_min_us: u64,
    pub net_mean_us: u64,
    pub drop_p: f64,
    pub dup_p: f64,
    pub slow_p: f64,
    pub slow_ms: u64,
    pub fast_unreachable: bool,
    pub v1: bool,
    pub partial_p: f64,
    pub too_large: Option<u64>,
    pub backoff_ms: u64,
    pub snap_kbps: u64,

    pub flush_us: u64,
    pub read_us: u64,
    pub sync_p: f64,
    pub committed_mode: u8,
    pub short_read: Option<u64>,
    /// the snapshot data moves less than asked for (1), and makes its caller wait (2)
    #[serde(default)]
    pub snap_io: u8,
    /// probability that a call, or the handling of a message, is dropped half way
    #[serde(default)]
    pub cancel_p: f64,
    pub sm_mode: u8,
    pub apply_us: u64,
    pub build_us: u64,
    pub snap_pad: u64,
    pub real_store: bool,
    /// a crashing leader may lose entries it had sent (known finding K1)
    #[serde(default)]
    pub leader_loss: bool,

    pub policy: Policy,
    pub wake_delay_p: f64,
    pub wake_delay_us: u64,
    pub poll_cost_ns: u64,
    pub clock_ppm: Vec<i64>,

    pub clients: u64,
    pub gap_us: u64,
    pub keys: u64,
    pub read_p: f64,
    pub ff_p: f64,
    pub req_pad: u64,
    pub start_learners: bool,
    /// true: nothing is ever injected; stability is asserted
    pub calm: bool,

    pub events: Vec<(u64, Ev)>,
}

/// What a property wants more of: relative weights of the event kinds and switches of the profile.
#[derive(Clone, Debug)]
pub struct Bias {
    pub crash: f64,
    pub crash_at: f64,
    pub ops: &'static [Op],
    pub disk_err: f64,
    pub part: f64,
    pub stall: f64,
    pub clock: f64,
    pub elect: f64,
    pub snap: f64,
    pub purge: f64,
    pub transfer: f64,
    pub member: f64,
    pub switch: f64,
    pub shutdown: f64,
    pub burst: f64,
    pub reads: f64,
    pub init: f64,
    pub loss: f64,
    pub probe: f64,
    pub calm: f64,
    pub small_snap: f64,
    pub v1: f64,
    pub partial: f64,
    pub linkbad: f64,
    pub real_store: f64,
    pub wait: f64,
    pub n_min: u64,
    pub start_learners: f64,
    pub long_idle: f64,
}

const ALL_OPS: &[Op] = &OPS;
const VOTE_OPS: &[Op] = &[Op::SaveVote, Op::Flush, Op::Append];
const LOG_OPS: &[Op] = &[Op::Append, Op::Flush, Op::Truncate, Op::SaveCommitted];
const SM_OPS: &[Op] = &[Op::Apply, Op::SaveCommitted, Op::InstallSnapshot, Op::BuildSnapshot];
const SNAP_OPS: &[Op] = &[Op::InstallSnapshot, Op::BuildSnapshot, Op::Purge, Op::GetSnapshot];

impl Default for Bias {
    fn default() -> Self {
        Bias {
            crash: 1.0,
            crash_at: 1.0,
            ops: ALL_OPS,
            disk_err: 0.0,
            part: 1.0,
            stall: 0.5,
            clock: 0.2,
            elect: 0.4,
            snap: 0.4,
            purge: 0.2,
            transfer: 0.2,
            member: 0.5,
            switch: 0.0,
            shutdown: 0.1,
            burst: 0.7,
            reads: 0.3,
            init: 0.0,
            loss: 1.0,
            probe: 0.5,
            calm: 0.0,
            small_snap: 0.5,
            v1: 0.3,
            partial: 0.25,
            linkbad: 0.5,
            real_store: 0.0,
            wait: 0.1,
            n_min: 3,
            start_learners: 0.3,
            long_idle: 0.0,
        }
    }
}

pub fn bias(prop: &str) -> Bias {
    let d = Bias::default();
    match prop {
        "C01" => Bias { elect: 2.5, part: 2.0, crash_at: 1.5, ops: VOTE_OPS, member: 0.7, transfer: 0.5, stall: 1.0, clock: 0.6, ..d },
        "C02" => Bias { elect: 2.5, crash_at: 3.0, crash: 1.5, ops: VOTE_OPS, part: 1.5, ..d },
        "C03" => Bias { elect: 2.0, part: 2.5, crash: 1.5, burst: 2.0, ops: LOG_OPS, member: 0.7, linkbad: 1.0, ..d },
        "C04" => Bias { part: 2.5, elect: 1.5, burst: 2.5, crash: 1.5, ops: LOG_OPS, partial: 0.5, linkbad: 1.0, ..d },
        "C05" => Bias { part: 1.5, burst: 2.0, crash_at: 2.0, ops: LOG_OPS, member: 2.0, stall: 0.8, ..d },
        "C06" => Bias { crash: 2.5, crash_at: 2.0, burst: 1.5, part: 1.0, snap: 0.8, member: 0.7, ..d },
        "C07" => Bias { crash: 1.5, crash_at: 2.0, ops: SM_OPS, snap: 2.0, small_snap: 0.9, burst: 1.5, part: 1.2, ..d },
        "C08" => Bias { reads: 4.0, part: 2.5, elect: 1.5, burst: 1.0, stall: 1.5, clock: 0.6, transfer: 0.6, crash: 0.7, ..d },
        "C09" => Bias { burst: 3.0, part: 2.5, elect: 1.0, crash: 0.7, linkbad: 1.0, stall: 1.0, ..d },
        "C10" => Bias { member: 5.0, part: 1.2, elect: 0.8, crash: 1.0, n_min: 4, ..d },
        "C11" => Bias { member: 4.0, probe: 2.0, part: 2.0, crash: 1.5, crash_at: 1.0, ops: LOG_OPS, snap: 1.0, small_snap: 0.8, n_min: 4, ..d },
        "C12" => Bias { member: 4.0, part: 1.2, crash: 0.7, elect: 0.0, transfer: 0.0, n_min: 4, start_learners: 0.6, stall: 0.8, ..d },
        "C13" => Bias { crash: 3.0, crash_at: 4.0, snap: 1.0, purge: 0.8, small_snap: 0.8, member: 0.6, shutdown: 0.5, ..d },
        "C14" => Bias { snap: 3.0, small_snap: 1.0, purge: 1.0, part: 2.0, crash_at: 1.5, ops: SNAP_OPS, burst: 1.5, linkbad: 1.0, v1: 0.5, ..d },
        "C15" => Bias { snap: 2.5, small_snap: 1.0, purge: 1.0, part: 1.5, loss: 2.0, v1: 1.0, crash: 1.0, burst: 1.5, linkbad: 1.5, ..d },
        "C16" => Bias { snap: 2.0, purge: 3.0, small_snap: 0.9, part: 1.5, crash_at: 1.5, ops: SNAP_OPS, burst: 1.5, ..d },
        "C17" => Bias { snap: 1.0, small_snap: 1.0, burst: 2.0, part: 1.2, crash_at: 1.0, ops: SNAP_OPS, stall: 0.7, ..d },
        "C18" => Bias { part: 2.0, crash: 1.5, stall: 1.0, snap: 0.8, member: 0.8, linkbad: 1.5, partial: 0.4, elect: 0.6, shutdown: 0.3, ..d },
        "C19" => Bias { calm: 0.5, crash: 0.5, part: 1.5, elect: 1.5, stall: 0.5, clock: 0.5, transfer: 0.3, long_idle: 0.5, ..d },
        "C20" => Bias { part: 3.0, elect: 2.0, stall: 1.5, crash: 0.7, linkbad: 1.5, burst: 1.0, member: 0.6, long_idle: 0.3, ..d },
        "C21" => Bias { transfer: 5.0, part: 1.0, burst: 1.5, crash: 0.7, linkbad: 0.7, calm: 0.0, ..d },
        "C22" => Bias { init: 4.0, crash: 2.0, crash_at: 1.5, part: 1.0, elect: 0.5, member: 0.2, ..d },
        "C23" => Bias { disk_err: 4.0, crash: 0.5, part: 0.7, snap: 1.0, small_snap: 0.8, burst: 1.0, ..d },
        "C24" => Bias { shutdown: 3.0, disk_err: 0.5, crash: 0.5, part: 1.5, burst: 2.0, reads: 1.0, member: 1.0, wait: 1.0, snap: 0.8, ..d },
        "C25" => Bias { wait: 3.0, crash: 1.0, snap: 1.0, small_snap: 0.8, part: 1.2, member: 0.7, probe: 1.0, ..d },
        "C26" => Bias { partial: 1.0, part: 1.5, burst: 2.5, loss: 1.5, linkbad: 1.5, crash: 1.0, snap: 0.6, ..d },
        "C27" => Bias { member: 1.0, snap: 1.2, purge: 1.2, transfer: 0.5, elect: 1.2, switch: 0.2, init: 0.3, wait: 0.5, small_snap: 0.7, ..d },
        "C28" => Bias { elect: 2.5, part: 2.0, crash_at: 1.2, ops: VOTE_OPS, member: 0.5, stall: 0.8, ..d },
        "C29" => Bias { real_store: 1.0, crash: 0.0, crash_at: 0.0, part: 2.0, elect: 1.5, burst: 2.0, snap: 1.0, small_snap: 0.8, purge: 1.0, ..d },
        "C30" => Bias { part: 2.0, elect: 1.2, burst: 2.0, snap: 1.2, purge: 1.0, small_snap: 0.8, crash_at: 1.0, member: 0.7, ..d },
        "C31" => Bias { switch: 5.0, part: 1.0, elect: 0.6, crash: 0.5, member: 0.3, transfer: 0.0, ..d },
        _ => d,
    }
}

pub fn generate(prop: &str, seed: u64) -> Cfg {
    let b = bias(prop);
    let mut r = Rng::new(mix(seed, 0xC0FFEE ^ prop.bytes().fold(7, |a, c| mix(a, c as u64))));
    let calm = r.chance(b.calm);
    let n = *r.pick(&[3, 3, 3, 4, 5, 5, 6]);
    let n = n.max(b.n_min).min(7);
    let voters = match r.below(10) {
        0 => 1,
        1 => 2.min(n),
        2..=6 => 3.min(n),
        7 => 4.min(n),
        _ => n.min(5),
    };
    let hb = *r.pick(&[30, 50, 50, 100]);
    let el_min = hb * r.range(3, 6);
    let el_max = el_min + hb * r.range(1, 4);
    let net_mean = *r.pick(&[200, 500, 1000, 2500]);
    let small = r.chance(b.small_snap);
    let loss = r.chance(0.6 * b.loss) && !calm;
    let dup = r.chance(0.5 * b.loss) && !calm;
    let slow = r.chance(0.5 * b.loss) && !calm;
    let partial = r.chance(b.partial) && !calm;
    let crashy = b.crash + b.crash_at > 0.0;
    let real_store = r.chance(b.real_store) && !crashy;
    let mut c = Cfg {
        property: prop.to_string(),
        profile: if calm { "calm".into() } else { "faults".into() },
        seed,
        n,
        voters,
        init_all: r.chance(0.3),
        dur_ms: *r.pick(&[2500, 4000, 4000, 6000]),
        hb_ms: hb,
        el_min,
        el_max,
        max_payload: *r.pick(&[1, 2, 3, 8, 50, 300]),
        lag: *r.pick(&[1, 3, 10, 5000]),
        snap_every: if small { Some(*r.pick(&[2, 4, 8, 16])) } else { *r.pick(&[None, Some(40), Some(20)]) },
        chunk: *r.pick(&[16, 64, 200, 4096]),
        keep: *r.pick(&[0, 0, 1, 3, 20]),
        purge_batch: *r.pick(&[1, 1, 3, 8]),
        install_timeout_ms: *r.pick(&[100, 200, 500]),
        net_min_us: *r.pick(&[10, 100, 300]),
        net_mean_us: net_mean,
        drop_p: if loss { *r.pick(&[0.01, 0.05, 0.15, 0.3]) } else { 0.0 },
        dup_p: if dup { *r.pick(&[0.01, 0.05, 0.2]) } else { 0.0 },
        slow_p: if slow { *r.pick(&[0.005, 0.02, 0.1]) } else { 0.0 },
        slow_ms: *r.pick(&[20, 100, 400, 1500]),
        fast_unreachable: r.chance(0.5),
        v1: r.chance(b.v1),
        partial_p: if partial { *r.pick(&[0.05, 0.2, 0.5]) } else { 0.0 },
        too_large: if partial && r.chance(0.6) { Some(*r.pick(&[1, 2, 5])) } else { None },
        backoff_ms: *r.pick(&[20, 100, 300]),
        snap_kbps: *r.pick(&[50, 500, 10000]),
        flush_us: *r.pick(&[20, 200, 1000, 3000]),
        read_us: *r.pick(&[1, 20, 200]),
        sync_p: *r.pick(&[0.0, 0.1, 0.9]),
        committed_mode: r.below(3) as u8,
        snap_io: *r.pick(&[0, 0, 1, 2]),
        cancel_p: if calm { 0.0 } else { *r.pick(&[0.0, 0.0, 0.0, 0.02, 0.2]) },
        short_read: if r.chance(0.35) { Some(*r.pick(&[1, 2, 4])) } else { None },
        sm_mode: r.below(3) as u8,
        apply_us: *r.pick(&[1, 20, 200, 1500]),
        build_us: *r.pick(&[10, 1000, 20000, 100000]),
        snap_pad: *r.pick(&[0, 50, 300, 1500]),
        real_store,
        leader_loss: false,
        policy: *r.pick(&[Policy::Random, Policy::Random, Policy::Prio, Policy::Fifo]),
        wake_delay_p: *r.pick(&[0.0, 0.01, 0.05, 0.2]),
        wake_delay_us: *r.pick(&[5, 50, 500]),
        poll_cost_ns: *r.pick(&[0, 200, 2000]),
        clock_ppm: (0..7).map(|_| r.range(0, 40000) as i64 - 20000).collect(),
        clients: r.range(1, 4),
        gap_us: *r.pick(&[2000, 8000, 20000, 60000]),
        keys: r.range(1, 3),
        read_p: *r.pick(&[0.1, 0.3, 0.5]),
        ff_p: *r.pick(&[0.0, 0.2]),
        req_pad: *r.pick(&[0, 0, 20]),
        start_learners: r.chance(b.start_learners),
        calm,
        events: vec![],
    };
    // keep one snapshot transfer well inside its timeout on a healthy network
    if c.snap_kbps == 50 {
        c.snap_pad = c.snap_pad.min(300);
    }
    if !r.chance(0.3) {
        c.clock_ppm = vec![0; 7];
    }
    if prop == "C08" || prop == "C20" {
        c.read_p = *r.pick(&[0.4, 0.6]);
    }
    if r.chance(b.long_idle) {
        c.clients = 0;
        c.dur_ms = 8000;
    }
    if calm {
        c.dur_ms = 8000;
        c.wake_delay_p = c.wake_delay_p.min(0.05);
        c.flush_us = c.flush_us.min(1000);
        c.clock_ppm = c.clock_ppm.iter().map(|x| x / 4).collect();
        c.net_mean_us = c.net_mean_us.min(1000);
        c.apply_us = c.apply_us.min(200);
        c.partial_p = 0.0;
        c.too_large = None;
        return c;
    }
    let mut kinds: Vec<(f64, u8)> = vec![
        (b.crash, 0),
        (b.crash_at, 1),
        (b.disk_err, 2),
        (b.part, 3),
        (b.stall, 4),
        (b.clock, 5),
        (b.elect, 6),
        (b.snap, 7),
        (b.purge, 8),
        (b.transfer, 9),
        (b.member, 10),
        (b.switch, 11),
        (b.shutdown, 12),
        (b.burst, 13),
        (b.reads, 14),
        (b.init, 15),
        (b.probe, 16),
        (b.wait, 17),
        (b.linkbad, 18),
        (0.3, 19),
    ];
    // swarm: each run leaves out a random subset of the kinds
    let keep_p = *r.pick(&[0.35, 0.6, 0.85]);
    for k in kinds.iter_mut() {
        // what the property is about is seldom left out
        let p = if k.0 >= 2.0 { 0.9 } else { keep_p };
        if !r.chance(p) {
            k.0 = 0.0;
        }
    }
    let total: f64 = kinds.iter().map(|k| k.0).sum();
    let count = *r.pick(&[3, 6, 10, 16, 28]);
    let mut evs = vec![];
    if total > 0.0 {
        for _ in 0..count {
            let mut t = r.range(250_000, c.dur_ms * 1000);
            if b.init >= 2.0 && r.chance(0.5) {
                t = r.range(0, 600_000);
            }
            let mut x = r.f() * total;
            let mut k = 0;
            for (w, id) in &kinds {
                if *w <= 0.0 {
                    continue;
                }
                k = *id;
                if x < *w {
                    break;
                }
                x -= *w;
            }
            gen_event(&mut r, &b, &c, k, t, &mut evs);
        }
    }
    // everything that was ever logged is read again at a restart: no snapshot, an empty state machine, and memberships far from the end
    if matches!(prop, "C11" | "C13" | "C06" | "C22") && r.chance(0.2) {
        evs.retain(|e| !matches!(e.1, Ev::Snapshot(_) | Ev::PurgeLog(..)));
        c.snap_every = None;
        c.sm_mode = 0;
        c.committed_mode = *r.pick(&[0, 0, 2]);
        c.clients = 4;
        c.gap_us = *r.pick(&[2000, 4000]);
        c.apply_us = c.apply_us.min(200);
        c.read_p = 0.1;
        let mut t = 700_000;
        while t < c.dur_ms * 1000 {
            let m = match r.below(4) {
                0 => Ev::Member(Change::SetNodes(subset(&mut r, n))),
                1 => Ev::AddLearner(r.below(n), false),
                2 => Ev::Member(Change::AddVoters(1 << r.below(n), true)),
                _ => Ev::Member(Change::RemoveVoters(1 << r.below(n), true)),
            };
            evs.push((t, m));
            let d = r.range(30_000, 400_000);
            match r.below(4) {
                0 => evs.push((t + d, Ev::CrashAll(r.range(0, 50_000)))),
                _ => {
                    let w = who(&mut r, n);
                    evs.push((t + d, Ev::Crash(w, r.range(0, 50_000))))
                }
            }
            t += d + r.range(100_000, 600_000);
        }
    }
    evs.sort_by_key(|e| e.0);
    c.events = evs;
    c
}

fn who(r: &mut Rng, n: u64) -> Who {
    match r.below(10) {
        0..=3 => Who::Leader,
        4..=6 => Who::Follower(r.below(n)),
        _ => Who::Id(r.below(n)),
    }
}

fn subset(r: &mut Rng, n: u64) -> u64 {
    loop {
        let m = r.u64() & ((1 << n) - 1);
        if m != 0 {
            return m;
        }
    }
}

fn down_time(r: &mut Rng, c: &Cfg) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => r.range(0, 5_000),
        2 | 3 => r.range(5_000, c.el_max * 1000),
        4 => r.range(c.el_max * 1000, c.el_max * 5000),
        _ => u64::MAX,
    }
}

fn gen_event(r: &mut Rng, b: &Bias, c: &Cfg, kind: u8, t: u64, out: &mut Vec<(u64, Ev)>) {
    let n = c.n;
    let el = c.el_max * 1000;
    match kind {
        0 => {
            if r.chance(0.15) {
                out.push((t, Ev::CrashAll(r.range(0, el))));
            } else {
                let w = who(r, n);
                let d = down_time(r, c);
                out.push((t, Ev::Crash(w, d)));
            }
        }
        1 => {
            let w = who(r, n);
            let op = *r.pick(b.ops);
            let d = down_time(r, c);
            out.push((t, Ev::CrashAt(w, op, r.below(3) as u8, r.range(1, 4), d)));
        }
        2 => {
            let w = who(r, n);
            match r.below(10) {
                0 => out.push((t, Ev::DiskFull(w, r.range(1000, el * 2)))),
                _ => out.push((t, Ev::DiskError(w, *r.pick(&OPS), r.range(1, 4), r.chance(0.4)))),
            }
        }
        3 => {
            let e = match r.below(6) {
                0 | 1 => Ev::Isolate(who(r, n)),
                2 | 3 => Ev::Partition(subset(r, n)),
                4 => Ev::OneWay(subset(r, n), subset(r, n)),
                _ => Ev::Isolate(Who::Leader),
            };
            out.push((t, e));
            // most partitions heal; some while an election or truncation is in progress
            if r.chance(0.85) {
                let d = *r.pick(&[el / 3, el, el * 2, el * 4]);
                out.push((t + r.range(d / 2, d), Ev::Heal));
            }
        }
        4 => {
            let w = who(r, n);
            if r.chance(0.4) {
                out.push((t, Ev::DiskSlow(w, r.range(el / 2, el * 3), *r.pick(&[20, 100, 500]))));
            } else {
                out.push((t, Ev::Stall(w, r.range(1000, el * 2))));
            }
        }
        5 => out.push((t, Ev::ClockJump(who(r, n), r.range(1000, el * 2)))),
        6 => {
            // sometimes two at once, or on the leader itself
            let w = who(r, n);
            out.push((t, Ev::Elect(w)));
            if r.chance(0.4) {
                let w = who(r, n);
                out.push((t + r.range(0, 3000), Ev::Elect(w)));
            }
        }
        7 => {
            let w = who(r, n);
            out.push((t, Ev::Snapshot(w)));
        }
        8 => {
            let w = who(r, n);
            out.push((t, Ev::Snapshot(w)));
            out.push((t + r.range(0, c.build_us * 3 + 20_000), Ev::PurgeLog(w, r.below(5) as i64 - 1)));
        }
        9 => {
            let to = who(r, n);
            out.push((t, Ev::Transfer(Who::Leader, to)));
            match r.below(4) {
                0 => out.push((t + r.range(0, 5000), Ev::Burst(Who::Leader, 3))),
                1 => out.push((t + r.range(0, 3000), Ev::Crash(to, r.range(0, el * 2)))),
                _ => {}
            }
        }
        10 => {
            let e = match r.below(14) {
                0..=2 => Ev::AddLearner(r.below(n), r.chance(0.4)),
                3 | 4 => Ev::Member(Change::Voters(subset(r, n), r.chance(0.5))),
                5 => Ev::Member(Change::AddVoterIds(subset(r, n), r.chance(0.5))),
                6 | 7 => Ev::Member(Change::AddVoters(subset(r, n) & subset(r, n) | 1 << r.below(n), r.chance(0.5))),
                8 => Ev::Member(Change::RemoveVoters(1 << r.below(n), r.chance(0.5))),
                9 => Ev::Member(Change::RemoveNodes(1 << r.below(n))),
                10 => Ev::Member(Change::RemoveLeader(r.chance(0.4))),
                11 => Ev::Member(match r.below(4) {
                    0 => Change::AddNodes(subset(r, n)),
                    1 => Change::SetNodes(subset(r, n)),
                    2 => Change::ReplaceAllNodes(subset(r, n)),
                    _ => Change::Empty,
                }),
                _ => Ev::Member(Change::Voters(subset(r, n) | subset(r, n), r.chance(0.5))),
            };
            out.push((t, e));
            match r.below(6) {
                0 => {
                    let w = who(r, n);
                    let d = down_time(r, c);
                    out.push((t + r.range(0, 20_000), Ev::Crash(w, d)))
                }
                1 => {
                    out.push((t + r.range(0, 10_000), Ev::Isolate(Who::Leader)));
                    out.push((t + r.range(el, el * 3), Ev::Heal));
                }
                2 => out.push((t + r.range(0, 3000), Ev::Member(Change::Voters(subset(r, n), r.chance(0.5))))),
                _ => {}
            }
        }
        11 => {
            let w = who(r, n);
            let o = |r: &mut Rng| match r.below(3) {
                0 => None,
                1 => Some(false),
                _ => Some(r.chance(0.3)),
            };
            let (a, bb, cc) = (o(r), o(r), o(r));
            out.push((t, Ev::Switch(w, a, bb, cc)));
            if r.chance(0.5) {
                let w = who(r, n);
                let k = r.below(2);
                out.push((t + r.range(0, el * 3), if k == 0 { Ev::Elect(w) } else { Ev::Heartbeat(w) }));
            }
            if r.chance(0.6) {
                out.push((t + r.range(el, el * 5), Ev::Switch(w, Some(true), Some(true), Some(true))));
            }
        }
        12 => {
            let w = who(r, n);
            let d = down_time(r, c);
            if r.chance(0.6) {
                out.push((t.saturating_sub(r.range(0, 2000)), Ev::Burst(w, r.range(1, 5))));
            }
            out.push((t, Ev::Shutdown(w, d)));
        }
        13 => {
            let w = if r.chance(0.7) { Who::Leader } else { who(r, n) };
            out.push((t, Ev::Burst(w, r.range(1, 30))));
            if r.chance(0.3) {
                // leave unreplicated entries behind
                out.push((t + r.range(0, 2000), Ev::Isolate(w)));
                out.push((t + r.range(3000, 8000), Ev::Burst(w, r.range(1, 5))));
                out.push((t + r.range(el, el * 4), Ev::Heal));
            }
        }
        14 => {
            let w = who(r, n);
            out.push((t, Ev::Reads(w)));
            out.push((t + r.range(0, el), Ev::Reads(who(r, n))));
        }
        15 => {
            let m = if r.chance(0.6) { (1 << c.voters) - 1 } else { subset(r, n) };
            out.push((t, Ev::Initialize(r.below(n), m)));
        }
        16 => out.push((t, Ev::Probe(who(r, n)))),
        17 => out.push((t, Ev::WaitApi(who(r, n)))),
        18 => {
            let (a, bb) = (r.below(n), r.below(n));
            out.push((t, Ev::LinkBad(a, bb, *r.pick(&[5_000, 50_000, 400_000, u64::MAX]))));
            out.push((t + r.range(el / 2, el * 4), Ev::LinkBad(a, bb, 0)));
        }
        _ => {
            if r.chance(0.5) {
                out.push((t, Ev::Heartbeat(who(r, n))));
            } else {
                out.push((t, Ev::Quiet(true)));
                out.push((t + r.range(el, el * 4), Ev::Quiet(false)));
            }
        }
    }
}
