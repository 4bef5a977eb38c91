//! What must hold: checks made while a run proceeds, at the storage, network and API boundaries, against
//! an independent record of every entry ever stored, every vote ever made durable and one reference log.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::rc::Rc;

use openraft::raft::AppendEntriesRequest;
use openraft::raft::AppendEntriesResponse;
use openraft::raft::TransferLeaderRequest;
use openraft::raft::VoteRequest;
use openraft::raft::VoteResponse;
use openraft::EntryPayload;

use crate::rt;
use crate::rt::GroupId;
use crate::rt::MS;
use crate::types::*;
use crate::world::Status;
use crate::world::World;

/// Everything known about one log id.
pub struct EInfo {
    pub fp: u64,
    pub prev: Option<LogId>,
    /// the last membership at or before this entry
    pub last_mem: Option<LogId>,
    pub entry: Entry,
    /// nodes on which this entry was durable at some time
    pub dur: u64,
    pub first_at: u64,
    pub first_node: Nid,
}

/// One committed entry.
pub struct Ref {
    pub lid: LogId,
    pub sm_fp: u64,
    pub resp: Resp,
    pub vote: LKey,
    pub acked: bool,
}

/// A membership change that was asked for.
pub struct Asked {
    pub g: GroupId,
    pub req: openraft::ChangeMembers<TC>,
    pub retain: bool,
    pub start: u64,
    pub ended: Option<u64>,
    /// what the node had applied, and the membership among that, when it was asked
    pub applied: Option<LogId>,
    pub mem: StoredMembership,
}

type Shape = (Vec<BTreeSet<u64>>, BTreeMap<u64, openraft::BasicNode>);

/// The documented next membership on the way from `m` to what is asked for.
fn changed(cfgs: &[BTreeSet<u64>], m: &Membership, req: &openraft::ChangeMembers<TC>, retain: bool) -> Shape {
    use openraft::ChangeMembers::*;
    let mut nodes: BTreeMap<u64, openraft::BasicNode> = m.nodes().map(|(i, x)| (*i, x.clone())).collect();
    let last = cfgs.last().cloned().unwrap_or_default();
    let goal = match req {
        AddVoterIds(s) => last.union(s).copied().collect(),
        AddVoters(x) => {
            for (k, v) in x {
                nodes.entry(*k).or_insert(v.clone());
            }
            last.iter().chain(x.keys()).copied().collect()
        }
        RemoveVoters(s) => last.difference(s).copied().collect(),
        ReplaceAllVoters(s) => s.clone(),
        AddNodes(x) => {
            for (k, v) in x {
                nodes.entry(*k).or_insert(v.clone());
            }
            return (cfgs.to_vec(), nodes);
        }
        SetNodes(x) => {
            nodes.extend(x.clone());
            return (cfgs.to_vec(), nodes);
        }
        RemoveNodes(s) => {
            nodes.retain(|k, _| !s.contains(k));
            return (cfgs.to_vec(), nodes);
        }
        ReplaceAllNodes(x) => return (cfgs.to_vec(), x.clone()),
    };
    let next: Vec<BTreeSet<u64>> = if cfgs.contains(&goal) { vec![goal] } else { vec![last, goal] };
    if !retain {
        let keep: BTreeSet<u64> = next.iter().flatten().copied().collect();
        for x in cfgs.iter().flatten() {
            if !keep.contains(x) {
                nodes.remove(x);
            }
        }
    }
    (next, nodes)
}

/// A linearizable read that was asked for.
#[derive(Clone, Debug)]
pub struct Barrier {
    pub n: Nid,
    pub g: GroupId,
    /// local time of the call
    pub at: u64,
    pub mems: Vec<Membership>,
    pub lens: BTreeMap<LKey, usize>,
}

pub struct Acting {
    pub node: Nid,
    pub at: u64,
    pub log: BTreeMap<u64, LogId>,
    pub covered: Option<u64>,
    pub checked: usize,
}

#[derive(Default)]
pub struct NodeO {
    /// (leader, arrival in local ns, incarnation) of the last replication message accepted
    pub lease: Option<(LKey, u64, u64)>,
    /// leaders that asked for a transfer (seen by this node)
    pub transfers: BTreeSet<LKey>,
    /// transfer requests received: (leader, receiver is the target, arrival in local ns, log end of the leader)
    pub transfer_reqs: Vec<(LKey, bool, u64, Option<LogId>)>,
    /// how often somebody asked this node to campaign
    pub elect_calls: u64,
    /// own votes under which a transfer was broadcast, and the incarnation
    pub gave_up: BTreeMap<LKey, u64>,
    /// vote -> target -> latest local send time of a message the target accepted
    pub acks: BTreeMap<LKey, BTreeMap<Nid, u64>>,
    pub installed_max: Option<u64>,
    pub user_purge: Option<u64>,
    /// incarnation, and what it has been told to purge
    pub purge_due: Option<(u64, u64)>,
    pub last_metrics: Option<(u64, Metrics)>,
    pub last_own_vote_at: u64,
    pub sends: BTreeMap<Nid, SendRec>,
    pub last_read_at: u64,
    pub last_hb_trigger: u64,
    pub snap_max: Option<LogId>,
    /// last log id of the newest snapshot anyone sent to this node
    pub snap_sent: Option<LogId>,
    pub saved_committed: Option<LogId>,
    pub builds: u64,
    pub elections: u64,
    /// leading since: vote, incarnation, time
    pub lead_since: Option<(LKey, u64, u64)>,
}

#[derive(Clone, Default)]
pub struct SendRec {
    pub at: u64,
    pub prev: Option<LogId>,
    pub commit: Option<LogId>,
    pub empty: bool,
    pub acked: bool,
    pub seq: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Write,
    Read,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Pending,
    Ok,
    Rejected,
    Unknown,
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub id: u64,
    pub kind: OpKind,
    pub key: u8,
    pub got: Option<u64>,
    pub inv: u64,
    pub ret: u64,
    pub outcome: Outcome,
    pub node: Nid,
    pub at: u64,
}

#[derive(Default)]
pub struct Oracle {
    /// membership changes asked for
    pub asked: BTreeMap<u64, Asked>,
    pub entries: BTreeMap<LogId, EInfo>,
    pub reqs: BTreeMap<u64, Vec<LogId>>,
    pub refs: Vec<Ref>,
    pub tip: Sm,
    pub acting: BTreeMap<LKey, Acting>,
    /// nodes that durably saved this (uncommitted or committed) vote
    pub grants: BTreeMap<LKey, u64>,
    /// effective membership of a candidate when it made the vote its own
    pub elect_mem: BTreeMap<LKey, Vec<StoredMembership>>,
    /// memberships in force for a leader over its life
    pub lead_mem: BTreeMap<LKey, Vec<Membership>>,
    pub snaps: BTreeMap<String, (SnapshotMeta, Rc<Vec<u8>>)>,
    pub rejected: BTreeSet<u64>,
    pub ops: Vec<OpRec>,
    pub node: Vec<NodeO>,
    pub leaders_by_term: BTreeMap<u64, Nid>,
    pub vote_requests: u64,
    /// requests to take over that reached a node
    pub transfer_arrivals: u64,
    pub max_term: u64,
    pub appends_sent: Vec<(u64, Nid, Nid)>,
    /// a known finding that makes everything after it meaningless
    pub derailed: Option<String>,
}

#[derive(Clone, Copy, Debug)]
pub struct Arrival {
    pub vote: Option<Vote>,
    pub vol_vote: Option<Vote>,
    pub last: Option<LogId>,
    pub truncs: u64,
    pub local: u64,
    pub inc: u64,
    pub poisoned: bool,
}

pub fn key_ge(a: LKey, b: LKey) -> bool {
    if cfg!(feature = "single-term-leader") {
        a.0 > b.0 || a == b
    } else {
        a >= b
    }
}

/// The order of votes. With one leader per term, two votes of a term for different nodes have no order,
/// but an elected leader's is above one that was not elected.
pub fn vote_ge(a: &Vote, b: &Vote) -> bool {
    let (x, y) = (vkey(a), vkey(b));
    if x == y {
        return a.committed >= b.committed;
    }
    if cfg!(feature = "single-term-leader") && x.0 == y.0 {
        return a.committed && !b.committed;
    }
    x > y
}

fn vopt(v: &Option<Vote>) -> String {
    match v {
        None => "-".into(),
        Some(v) => format!("{}", v),
    }
}

impl Oracle {
    /// A node has written this entry to stable storage.
    pub fn durable(&mut self, n: Nid, e: &Entry) {
        if let Some(i) = self.entries.get_mut(&e.log_id) {
            i.dur |= 1 << n;
        }
    }
    pub fn ever_durable(&self, n: Nid, l: &LogId) -> bool {
        self.entries.get(l).map(|i| i.dur >> n & 1 == 1).unwrap_or(false)
    }
    pub fn is_committed(&self, l: &LogId) -> bool {
        self.refs.get(l.index as usize).map(|r| r.lid == *l).unwrap_or(false)
    }
    pub fn membership_of(&self, l: &Option<LogId>) -> Option<StoredMembership> {
        let l = l.as_ref()?;
        let e = self.entries.get(l)?;
        let m = e.last_mem?;
        match &self.entries.get(&m)?.entry.payload {
            EntryPayload::Membership(x) => Some(StoredMembership::new(Some(m), x.clone())),
            _ => None,
        }
    }
    pub fn committed_membership(&self) -> Option<StoredMembership> {
        self.membership_of(&self.refs.last().map(|r| r.lid))
    }
}

impl World {
    pub fn no(&mut self, n: Nid) -> &mut NodeO {
        while self.o.node.len() <= n as usize {
            self.o.node.push(NodeO::default());
        }
        &mut self.o.node[n as usize]
    }

    // ------------------------------------------------------------------ storage side

    /// Proposals of `k` lost in a crash of the leader before anyone else saw them.
    pub fn forget(&mut self, n: Nid, k: LKey, from: Option<u64>) {
        let lost: Vec<LogId> = self
            .o
            .entries
            .iter()
            .filter(|(l, i)| lid_of_vote(l, k) && Some(l.index) > from && i.dur == 0 && i.first_node == n)
            .map(|(l, _)| *l)
            .collect();
        for lid in lost {
            if !self.o.is_committed(&lid) {
                self.forget1(n, lid);
            }
        }
    }
    fn forget1(&mut self, n: Nid, lid: LogId) {
        let i = self.o.entries.remove(&lid).unwrap();
        self.log(|| format!("n{} lost {} which nobody saw", n, fmt_lid(&Some(lid))));
        self.probe("own proposal lost in a crash");
        match &i.entry.payload {
            EntryPayload::Normal(r) => {
                if let Some(v) = self.o.reqs.get_mut(&r.id) {
                    v.retain(|l| *l != lid);
                }
            }
            EntryPayload::Membership(m) => {
                for v in self.o.lead_mem.values_mut() {
                    if let Some(p) = v.iter().rposition(|x| x == m) {
                        v.remove(p);
                        break;
                    }
                }
            }
            _ => {}
        }
    }

    pub fn on_append(&mut self, n: Nid, es: &[Entry]) {
        let now = rt::now();
        let mut last = self.nodes[n as usize].disk.vol.last();
        let vol_vote = self.nodes[n as usize].disk.vol.vote;
        let booting_or_up = self.nodes[n as usize].status;
        if es.is_empty() {
            self.violate(&["C30"], "append of nothing", format!("n{}", n));
            return;
        }
        for e in es {
            let lid = e.log_id;
            let next = last.map(|l| l.index + 1).unwrap_or(0);
            self.log(|| format!("n{} append {} {}", n, fmt_lid(&Some(lid)), payload_str(e)));
            if lid.index > next {
                self.violate(
                    &["C30", "C16", "C04"],
                    "append leaves a hole in the log",
                    format!("n{} appends {} after {} ({:?})", n, fmt_lid(&Some(lid)), fmt_lid(&last), booting_or_up),
                );
            } else if lid.index < next {
                self.violate(
                    &["C30", "C04"],
                    "append overwrites a stored entry",
                    format!("n{} appends {} while the log ends at {}", n, fmt_lid(&Some(lid)), fmt_lid(&last)),
                );
            }
            let prev = if lid.index == 0 {
                None
            } else {
                self.nodes[n as usize].disk.vol.get(lid.index - 1).or(last.filter(|l| l.index + 1 == lid.index))
            };
            if let (Some(p), true) = (prev, lid.index > 0) {
                if p > lid {
                    self.violate(
                        &["C04", "C03"],
                        "log ids go backwards",
                        format!("n{} appends {} after {}", n, fmt_lid(&Some(lid)), fmt_lid(&prev)),
                    );
                }
            }
            let fp = payload_fp(e);
            // does this node propose it, as the leader of its own vote?
            let mine = vol_vote.map(|v| v.committed && lid_of_vote(&lid, vkey(&v)) && vkey(&v).1 == n).unwrap_or(false);
            if let Some(i) = self.o.entries.get(&lid) {
                let (ifp, iprev, ifirst) = (i.fp, i.prev, i.first_node);
                if ifp != fp {
                    let t = format!(
                        "{} stored by n{} and by n{} with another payload: {} / {}",
                        fmt_lid(&Some(lid)),
                        ifirst,
                        n,
                        payload_str(&i.entry),
                        payload_str(e)
                    );
                    self.violate(&["C04", "C01", "C03", "C26", "C28"], "one log id, two entries", t);
                } else if lid.index > 0 && prev.is_some() && iprev.is_some() && iprev != prev {
                    let t = format!(
                        "{} follows {} on n{} and {} on n{}",
                        fmt_lid(&Some(lid)),
                        fmt_lid(&iprev),
                        ifirst,
                        fmt_lid(&prev),
                        n
                    );
                    self.violate(&["C04", "C03", "C26"], "one log id, two histories", t);
                }
                continue_last(&mut last, lid);
                continue;
            }
            // first time anyone stores this entry
            let init = lid.index == 0 && lid_leader(&lid).0 == 0;
            if !init && !mine {
                self.violate(
                    &["C04", "C01", "C26"],
                    "a node stores an entry nobody proposed",
                    format!("n{} stores {} under vote {}", n, fmt_lid(&Some(lid)), vopt(&vol_vote)),
                );
            }
            let prev_mem = prev.and_then(|p| self.o.entries.get(&p).and_then(|x| x.last_mem));
            let mut last_mem = prev_mem;
            match &e.payload {
                EntryPayload::Membership(m) => {
                    last_mem = Some(lid);
                    if !init {
                        self.check_new_membership(n, lid, m, prev_mem);
                    }
                    if mine {
                        let k = vkey(&vol_vote.unwrap());
                        self.o.lead_mem.entry(k).or_default().push(m.clone());
                    }
                    if m.get_joint_config().len() > 1 {
                        self.probe("joint membership proposed");
                    } else {
                        self.probe("uniform membership proposed");
                    }
                }
                EntryPayload::Normal(r) => {
                    if self.o.rejected.contains(&r.id) {
                        self.violate(
                            &["C09"],
                            "a rejected write enters the log",
                            format!("n{} request {} at {}", n, r.id, fmt_lid(&Some(lid))),
                        );
                    }
                    let v = self.o.reqs.entry(r.id).or_default();
                    v.push(lid);
                    if v.len() > 1 {
                        let t = format!("request {} is at {:?}", r.id, v.iter().map(|l| fmt_lid(&Some(*l))).collect::<Vec<_>>());
                        self.violate(&["C09"], "one submission, two log entries", t);
                    }
                }
                EntryPayload::Blank => {}
            }
            if mine {
                let k = vkey(&vol_vote.unwrap());
                let inc = self.nodes[n as usize].inc;
                if self.no(n).gave_up.get(&k) == Some(&inc) {
                    self.violate(
                        &["C21"],
                        "a leader that gave up leadership accepts an entry",
                        format!("n{} proposes {} after its transfer request was sent", n, fmt_lid(&Some(lid))),
                    );
                }
            }
            self.o.entries.insert(lid, EInfo { fp, prev, last_mem, entry: e.clone(), dur: 0, first_at: now, first_node: n });
            continue_last(&mut last, lid);
        }
        fn continue_last(last: &mut Option<LogId>, lid: LogId) {
            *last = Some(lid);
        }
    }

    fn check_new_membership(&mut self, n: Nid, lid: LogId, m: &Membership, prev: Option<LogId>) {
        let Some(p) = prev else {
            self.violate(
                &["C10", "C22"],
                "membership without a predecessor",
                format!("n{} proposes membership {} on a log without one", n, fmt_lid(&Some(lid))),
            );
            return;
        };
        let Some(pe) = self.o.entries.get(&p) else { return };
        let EntryPayload::Membership(pm) = pe.entry.payload.clone() else { return };
        let pm = &pm;
        let a = configs(pm);
        let b = configs(m);
        let shared = a.iter().any(|c| b.contains(c));
        let t = format!("{} {:?} after {} {:?}", fmt_lid(&Some(lid)), b, fmt_lid(&Some(p)), a);
        if !shared {
            self.violate(&["C10"], "consecutive memberships share no voter config", t.clone());
        }
        if b.is_empty() || b.iter().any(|c| c.is_empty()) {
            self.violate(&["C10"], "membership with an empty voter config", t.clone());
        }
        for c in &b {
            for x in c {
                if !m.nodes().any(|(id, _)| id == x) {
                    self.violate(&["C10"], "voter without a node", t.clone());
                }
            }
        }
        if !self.o.is_committed(&p) {
            self.violate(&["C10"], "membership proposed before the previous one is committed", t.clone());
        }
        // what was asked for, and nothing else
        let g = self.nodes[n as usize].group;
        let now = rt::now();
        let asked: Vec<_> = self.o.asked.values().filter(|q| q.g == g && q.ended.map(|e| e + 3000 * MS >= now).unwrap_or(true)).collect();
        let ok = asked.iter().any(|q| changed(&a, pm, &q.req, q.retain) == (b.clone(), m.nodes().map(|(i, x)| (*i, x.clone())).collect()));
        if ok {
            self.probe("membership is what was asked for");
        } else {
            let nodes = |m: &Membership| m.nodes().map(|(i, x)| format!("{}={}", i, x.addr)).collect::<Vec<_>>().join(" ");
            let t = format!("n{} {} nodes {} before {}; asked for {:?}", n, t, nodes(m), nodes(pm), asked.iter().map(|q| (&q.req, q.retain)).collect::<Vec<_>>());
            self.violate(&["C10"], "a membership nobody asked for", t);
        }
    }

    /// A membership request is refused for a reason that one of the memberships the node may have held gives.
    pub fn check_refused(&mut self, n: Nid, cid: u64, e: &openraft::error::ChangeMembershipError<TC>) {
        use openraft::error::ChangeMembershipError::*;
        let q = &self.o.asked[&cid];
        let from = q.mem.log_id().map(|l| l.index).unwrap_or(0);
        let mut cands: Vec<(Option<LogId>, Membership)> = vec![(*q.mem.log_id(), q.mem.membership().clone())];
        let eff = self.nodes[n as usize].disk.effective();
        cands.push((*eff.log_id(), eff.membership().clone()));
        for (l, e) in &self.o.entries {
            if let EntryPayload::Membership(m) = &e.entry.payload {
                if l.index >= from {
                    cands.push((Some(*l), m.clone()));
                }
            }
        }
        let ok = match e {
            EmptyMembership(_) => cands.iter().any(|(_, m)| changed(&configs(m), m, &q.req, q.retain).0.iter().any(|c| c.is_empty())),
            LearnerNotFound(x) => cands.iter().any(|(_, m)| {
                let (cfgs, nodes) = changed(&configs(m), m, &q.req, q.retain);
                cfgs.iter().any(|c| c.contains(&x.node_id)) && !nodes.contains_key(&x.node_id)
            }),
            InProgress(x) => {
                cands.iter().any(|(l, _)| *l == x.membership_log_id) && x.committed != x.membership_log_id && q.applied < x.membership_log_id
            }
        };
        let t = format!("n{} {:?} retain {}: {}; applied {} membership {:?}", n, q.req, q.retain, e, fmt_lid(&q.applied), q.mem);
        self.probe("refused membership request");
        if !ok {
            self.violate(&["C10", "C09"], "a membership request is refused without a reason", t);
        }
    }

    pub fn on_truncate(&mut self, n: Nid, lid: &LogId) {
        self.log(|| format!("n{} truncate from {}", n, fmt_lid(&Some(*lid))));
        self.probe("truncate");
        let d = &mut self.nodes[n as usize].disk;
        d.truncations += 1;
        let stored = d.vol.log.get(&lid.index).map(|e| e.log_id);
        let tail: Vec<LogId> = d.vol.log.range(lid.index..).map(|x| x.1.log_id).collect();
        let applied = d.sm.applied;
        let vote = d.vol.vote.map(|v| vkey(&v)).unwrap_or((0, 0));
        if stored != Some(*lid) {
            self.violate(
                &["C30"],
                "truncate from an entry that is not stored",
                format!("n{} truncate {}, stored {}", n, fmt_lid(&Some(*lid)), fmt_lid(&stored)),
            );
        }
        // Before a snapshot that conflicts with the local log is installed, everything not known to be
        // committed is dropped: the snapshot's last log is on a quorum without this node.
        let conflict = tail.iter().find(|l| self.o.refs.get(l.index as usize).map(|r| r.lid != **l).unwrap_or(false)).copied();
        let for_snapshot = match (conflict, self.no(n).snap_sent) {
            (Some(c), Some(s)) => s.index >= c.index,
            _ => false,
        };
        let stale = conflict.map(|c| c.index <= lid.index).unwrap_or(false);
        for l in tail {
            if self.o.is_committed(&l) {
                // A leader that lost its leadership without knowing may replace a copy of an entry committed under
                // a later vote on a node that has not heard of that vote: it is none of the copies that count.
                if self.o.refs.get(l.index as usize).map(|r| r.lid == l && !key_ge(vote, r.vote)).unwrap_or(false) {
                    self.probe("copy removed by an earlier leader");
                    break;
                }
                if for_snapshot {
                    self.probe("conflicting log dropped for a snapshot");
                    break;
                }
                self.violate(
                    &["C03", "C30", "C06", "C04"],
                    "a committed entry is removed from a log",
                    format!("n{} truncates {} (from {})", n, fmt_lid(&Some(l)), fmt_lid(&Some(*lid))),
                );
            }
        }
        if applied.map(|a| a.index) >= Some(lid.index) && !stale {
            self.violate(
                &["C30", "C07", "C03"],
                "an applied entry is truncated",
                format!("n{} applied {} truncates {}", n, fmt_lid(&applied), fmt_lid(&Some(*lid))),
            );
        }
    }

    pub fn on_purge(&mut self, n: Nid, lid: &LogId) {
        self.log(|| format!("n{} purge upto {}", n, fmt_lid(&Some(*lid))));
        self.probe("purge");
        let keep = self.cfg.keep;
        let d = &self.nodes[n as usize].disk;
        let stored = d.vol.log.get(&lid.index).map(|e| e.log_id);
        let snap = d.snap.as_ref().and_then(|s| s.meta.last_log_id);
        let dur = d.max_sm_dur;
        let booting = self.nodes[n as usize].status != Status::Up;
        let lastlog = d.vol.last();
        let purged = d.vol.purged;
        let no_snapshots = d.sm_mode == 2;
        if purged > Some(*lid) {
            self.violate(
                &["C16", "C30"],
                "purge goes backwards",
                format!("n{} purge {} after {}", n, fmt_lid(&Some(*lid)), fmt_lid(&purged)),
            );
        }
        // In memory-only snapshot mode the state machine itself is the durable cover.
        let cover = if booting || no_snapshots { snap.max(dur) } else { snap };
        if cover.map(|c| c.index) < Some(lid.index) {
            self.violate(
                &["C16"],
                "purge beyond the snapshot",
                format!("n{} purges {} but holds a snapshot of {}", n, fmt_lid(&Some(*lid)), fmt_lid(&cover)),
            );
        }
        if stored.is_some() && stored != Some(*lid) && !self.o.is_committed(lid) {
            self.violate(
                &["C16", "C30"],
                "purge of a log id that is not stored",
                format!("n{} purge {}, stored {}", n, fmt_lid(&Some(*lid)), fmt_lid(&stored)),
            );
        }
        if !self.o.is_committed(lid) {
            self.violate(
                &["C16", "C06"],
                "purge of an uncommitted entry",
                format!("n{} purge {}", n, fmt_lid(&Some(*lid))),
            );
        }
        // retention
        let no = self.no(n);
        let (inst, user) = (no.installed_max, no.user_purge);
        if !booting && inst < Some(lid.index) && user < Some(lid.index) && lastlog.map(|l| l.index) >= Some(lid.index) {
            let max = snap.map(|s| s.index as i64 - keep as i64).unwrap_or(-1);
            if lid.index as i64 > max {
                self.violate(
                    &["C16"],
                    "purge ignores the retention setting",
                    format!("n{} purges {} with snapshot {} and {} entries to keep", n, fmt_lid(&Some(*lid)), fmt_lid(&snap), keep),
                );
            }
        }
    }

    pub fn check_read(&mut self, n: Nid, s: u64, e: u64, limited: bool) {
        let d = &self.nodes[n as usize].disk;
        let first = d.vol.log.keys().next().copied();
        let last = d.vol.log.keys().next_back().copied();
        if s >= e {
            return;
        }
        let ok = match (first, last) {
            (Some(f), Some(l)) => s >= f && e <= l + 1,
            _ => false,
        };
        if !ok {
            let up = self.nodes[n as usize].status == Status::Up;
            let vote = d.vol.vote;
            let leader = vote.map(|v| v.committed && vkey(&v).1 == n).unwrap_or(false);
            self.log(|| format!("n{} reads [{},{}) but stores {:?}..={:?} limited={}", n, s, e, first, last, limited));
            if up && leader && self.nodes[n as usize].poisoned.is_none() {
                self.violate(
                    &["C30", "C16"],
                    "read of entries that are not stored",
                    format!("n{} (leader) reads [{},{}) but stores {:?}..={:?}", n, s, e, first, last),
                );
            } else {
                self.probe("read outside of the log");
            }
        }
    }

    pub fn check_save_vote(&mut self, n: Nid, v: &Vote) {
        if vkey(v).1 == n && !v.committed {
            self.check_transfer_campaign(n);
            // it campaigns: there is no lease it observes any more
            self.no(n).lease = None;
        }
        let prev = self.nodes[n as usize].disk.vol.vote;
        self.log(|| format!("n{} save_vote {} (was {})", n, v, vopt(&prev)));
        let ok = match &prev {
            None => true,
            Some(p) => v >= p,
        };
        if !ok {
            self.violate(&["C02", "C30"], "a vote is written in decreasing order", format!("n{} {} after {}", n, v, vopt(&prev)));
        }
        let k = vkey(v);
        self.o.max_term = self.o.max_term.max(k.0);
        if k.1 == n && !v.committed {
            let eff = self.nodes[n as usize].disk.effective();
            let now = rt::now();
            self.probe("election started");
            self.no(n).last_own_vote_at = now;
            self.no(n).elections += 1;
            let asked = self.nodes[n as usize].asked_to_elect;
            if !asked && !is_voter(eff.membership(), n) {
                self.violate(
                    &["C12"],
                    "a node that is not a voter campaigns",
                    format!("n{} starts an election {} with membership {:?}", n, v, configs(eff.membership())),
                );
            }
            let sw = self.nodes[n as usize].sw;
            let disturbed = self.nodes[n as usize].disturbed;
            let grace = (self.cfg.el_max + 4 * self.cfg.hb_ms) * MS;
            for (i, what) in [(0usize, "tick"), (2usize, "elections")] {
                // a tick already under way may still act
                let since = sw[i].1.max(disturbed);
                if !asked && !sw[i].0 && now > since + grace {
                    self.violate(
                        &["C31"],
                        "a node campaigns by timeout although switched off",
                        format!("n{} campaigns, {} disabled since {}ms", n, what, (now - sw[i].1) / MS),
                    );
                }
            }
            self.o.elect_mem.entry(k).or_default().push(eff);
        }
    }

    /// A node that campaigns while its leader is alive does so because it was told to take over: only
    /// when its log has reached the one the leader had, or after it has waited for an election timeout.
    fn check_transfer_campaign(&mut self, n: Nid) {
        let inc = self.nodes[n as usize].inc;
        let now = rt::local_time(self.nodes[n as usize].group);
        let el = self.cfg.el_min * MS;
        let d = &self.nodes[n as usize].disk;
        let (prev, last) = (d.vol.vote, d.vol.last());
        let Some(k) = prev.filter(|v| v.committed).map(|v| vkey(&v)) else { return };
        let no = self.no(n);
        let heard = no.lease.map(|l| l.0 == k && l.2 == inc && now < l.1 + el).unwrap_or(false);
        if !heard || no.elect_calls > 0 {
            return;
        }
        let reqs: Vec<_> = no.transfer_reqs.iter().filter(|r| r.0 == k).copied().collect();
        if reqs.is_empty() {
            return;
        }
        self.probe("campaign because of a transfer");
        let due = |r: &(LKey, bool, u64, Option<LogId>)| !r.1 || r.3.map(|x| x.index) <= last.map(|x| x.index) || now + MS >= r.2 + el;
        if !reqs.iter().any(due) {
            self.violate(
                &["C21"],
                "the target of a transfer campaigns before its log has reached the leader's",
                format!("n{} with log end {} campaigns against {:?}; transfer requests {:?}", n, fmt_lid(&last), k, reqs),
            );
        }
    }

    pub fn on_vote_durable(&mut self, n: Nid, prev: Option<Vote>, v: Vote) {
        let ok = match &prev {
            None => true,
            Some(p) => vote_ge(&v, p),
        };
        if !ok {
            self.violate(&["C02"], "the durable vote goes backwards", format!("n{} {} after {}", n, v, vopt(&prev)));
        }
        *self.o.grants.entry(vkey(&v)).or_default() |= 1 << n;
    }

    pub fn check_save_committed(&mut self, n: Nid, c: Option<LogId>) {
        self.log(|| format!("n{} save_committed {}", n, fmt_lid(&c)));
        let d = &self.nodes[n as usize].disk;
        let prev = d.vol.committed;
        let last = d.vol.last();
        let snap = d.snap.as_ref().and_then(|s| s.meta.last_log_id).max(d.sm.applied);
        if c < prev {
            self.violate(
                &["C30"],
                "the saved commit position decreases",
                format!("n{} {} after {}", n, fmt_lid(&c), fmt_lid(&prev)),
            );
        }
        let Some(l) = c else { return };
        if last.map(|x| x.index) < Some(l.index) && snap.map(|x| x.index) < Some(l.index) {
            self.violate(
                &["C30"],
                "the saved commit position is beyond the log",
                format!("n{} {} with log end {} and snapshot {}", n, fmt_lid(&c), fmt_lid(&last), fmt_lid(&snap)),
            );
        } else {
            let d = &self.nodes[n as usize].disk;
            let stored = d.vol.log.get(&l.index).map(|e| e.log_id);
            if stored.is_some() && stored != c {
                self.violate(
                    &["C30", "C05", "C03"],
                    "the saved commit position names another entry than the log",
                    format!("n{} {} stored {}", n, fmt_lid(&c), fmt_lid(&stored)),
                );
            }
        }
        self.committed(n, l, "saved commit position", None);
    }

    /// Somebody treats `lid` as committed.
    pub fn committed(&mut self, n: Nid, lid: LogId, src: &'static str, key: Option<LKey>) {
        let i = lid.index as usize;
        if let Some(r) = self.o.refs.get(i) {
            if r.lid != lid {
                let mut tags = vec!["C03", "C07", "C05"];
                if r.acked {
                    tags.push("C06");
                }
                let t = format!("n{} ({}) has {} but {} was committed", n, src, fmt_lid(&Some(lid)), fmt_lid(&Some(r.lid)));
                self.violate(&tags, "two entries committed at one index", t);
            }
            return;
        }
        if self.o.derailed.is_some() {
            return;
        }
        // first time: `n` must be the leader that committed it
        let vv = self.nodes[n as usize].disk.vol.vote;
        let k = key.or(vv.map(|v| vkey(&v))).unwrap_or((0, 0));
        let mut apply_tags: Vec<&'static str> = vec!["C05"];
        if src == "applied entry" {
            apply_tags.push("C07");
        }
        if src == "client response" {
            apply_tags.push("C06");
        }
        if self.nodes[n as usize].poisoned.is_some() {
            apply_tags.push("C23");
        }
        if !lid_of_vote(&lid, k) {
            self.violate(
                &apply_tags,
                "an entry of another leader is committed on its own",
                format!("n{} ({}) commits {} under vote {:?}", n, src, fmt_lid(&Some(lid)), k),
            );
        }
        // collect the chain back to the committed tip
        let mut chain = vec![];
        let mut cur = Some(lid);
        let tip = self.o.refs.last().map(|r| r.lid);
        loop {
            let Some(c) = cur else { break };
            if (c.index as usize) < self.o.refs.len() {
                break;
            }
            chain.push(c);
            let Some(e) = self.o.entries.get(&c) else {
                self.violate(
                    &apply_tags,
                    "an entry that was never stored is committed",
                    format!("n{} ({}) commits {} and {} is unknown", n, src, fmt_lid(&Some(lid)), fmt_lid(&Some(c))),
                );
                return;
            };
            cur = e.prev;
        }
        if cur != tip {
            let mut tags = vec!["C03", "C07"];
            if self.o.refs.last().map(|r| r.acked).unwrap_or(false) {
                tags.push("C06");
            }
            self.violate(
                &tags,
                "the committed history forks",
                format!("n{} ({}) commits {} that follows {} instead of {}", n, src, fmt_lid(&Some(lid)), fmt_lid(&cur), fmt_lid(&tip)),
            );
            return;
        }
        // flushed on a quorum
        let mask = self.o.entries[&lid].dur;
        let mut cands: Vec<Membership> = vec![];
        if let Some(m) = self.o.membership_of(&Some(lid)) {
            cands.push(m.membership().clone());
        }
        for e in self.nodes[n as usize].disk.vol.log.range(lid.index + 1..) {
            if let EntryPayload::Membership(m) = &e.1.payload {
                cands.push(m.clone());
            }
        }
        if !cands.iter().any(|m| is_quorum(&configs(m), mask)) {
            let mut tags = apply_tags.clone();
            let masks: Vec<_> = cands.iter().map(configs).collect();
            let mut any = 0;
            for m in &cands {
                for (id, _) in m.nodes() {
                    any |= 1 << id;
                }
            }
            if cands.iter().any(|m| {
                let all: u64 = m.nodes().map(|(id, _)| 1u64 << id).sum();
                let c: BTreeSet<u64> = m.nodes().map(|(id, _)| *id).collect();
                let _ = all;
                is_quorum(&[c], mask)
            }) {
                tags.push("C12");
            }
            tags.push("C11");
            tags.push("C26");
            self.violate(
                &tags,
                "an entry is committed without a flushed quorum",
                format!(
                    "n{} ({}) commits {} flushed on {:#b}, membership {:?}",
                    n,
                    src,
                    fmt_lid(&Some(lid)),
                    mask & any.max(mask),
                    masks
                ),
            );
        }
        // leaders of greater votes must hold it
        let mut bad = vec![];
        for (ak, a) in self.o.acting.range(k..) {
            if *ak == k || !key_ge(*ak, k) {
                continue;
            }
            for l in &chain {
                let ok = match a.log.get(&l.index) {
                    Some(x) => x == l,
                    None => a.covered >= Some(l.index),
                };
                if !ok {
                    bad.push(format!("n{} leads under {:?} without {} committed under {:?}", a.node, ak, fmt_lid(&Some(*l)), k));
                }
            }
        }
        for t in bad.into_iter().take(1) {
            self.violate(&["C03"], "a leader lacks a committed entry", t);
        }
        for l in chain.into_iter().rev() {
            let e = self.o.entries[&l].entry.clone();
            let resp = self.o.tip.apply(&e);
            let sm_fp = self.o.tip.fp();
            self.log(|| format!("== committed {} ({} at n{})", fmt_lid(&Some(l)), src, n));
            self.o.refs.push(Ref { lid: l, sm_fp, resp, vote: k, acked: false });
        }
    }

    pub fn on_apply(&mut self, n: Nid, e: &Entry) {
        let d = &self.nodes[n as usize].disk;
        let applied = d.sm.applied;
        let next = applied.map(|a| a.index + 1).unwrap_or(0);
        let poisoned = self.nodes[n as usize].poisoned.is_some();
        let lid = e.log_id;
        self.log(|| format!("n{} apply {} {}", n, fmt_lid(&Some(lid)), payload_str(e)));
        if lid.index != next {
            self.violate(
                if lid.index < next { &["C07", "C09"] } else { &["C07"] },
                if lid.index < next { "an entry is applied twice" } else { "an entry is skipped" },
                format!("n{} applies {} after {}", n, fmt_lid(&Some(lid)), fmt_lid(&applied)),
            );
        }
        self.committed(n, lid, "applied entry", None);
        if let Some(i) = self.o.entries.get(&lid) {
            if i.fp != payload_fp(e) {
                let t = format!("n{} applies {} with another payload", n, fmt_lid(&Some(lid)));
                self.violate(&["C07", "C04"], "an entry is applied with another payload", t);
            }
        }
        if poisoned {
            self.probe("apply after storage error");
        }
    }

    pub fn after_apply(&mut self, n: Nid, e: &Entry, r: &Resp) {
        let i = e.log_id.index as usize;
        let fp = self.nodes[n as usize].disk.sm.fp();
        let Some(x) = self.o.refs.get(i) else { return };
        if x.lid == e.log_id && x.sm_fp != fp {
            let t = format!("n{} at {} ({} instead of {})", n, fmt_lid(&Some(e.log_id)), fp, x.sm_fp);
            self.violate(&["C07"], "a state machine diverges", t);
        } else if x.lid == e.log_id && x.resp != *r {
            let t = format!("n{} at {}: {:?} instead of {:?}", n, fmt_lid(&Some(e.log_id)), r, x.resp);
            self.violate(&["C07"], "a state machine diverges", t);
        }
    }

    pub fn on_install(&mut self, n: Nid, meta: &SnapshotMeta, bytes: &[u8]) {
        self.log(|| format!("n{} install snapshot {} {} bytes ({})", n, fmt_lid(&meta.last_log_id), bytes.len(), meta.snapshot_id));
        self.probe("snapshot installed");
        let applied = self.nodes[n as usize].disk.sm.applied;
        if let Some((m, b)) = self.o.snaps.get(&meta.snapshot_id) {
            if b.as_slice() != bytes {
                let t = format!("n{} {}: {} bytes, sent {} bytes", n, meta.snapshot_id, bytes.len(), b.len());
                self.violate(&["C15", "C14"], "the installed snapshot is not the one that was sent", t);
            } else if m.last_log_id != meta.last_log_id || m.last_membership != meta.last_membership {
                let t = format!("n{} {}", n, meta.snapshot_id);
                self.violate(&["C14"], "the metadata of an installed snapshot is wrong", t);
            }
        } else {
            self.violate(&["C15", "C14"], "an unknown snapshot is installed", format!("n{} {}", n, meta.snapshot_id));
        }
        match Sm::decode(bytes) {
            Err(e) => {
                self.violate(&["C15", "C14"], "a corrupt snapshot is installed", format!("n{} {}: {}", n, meta.snapshot_id, e));
            }
            Ok(sm) => {
                if sm.applied != meta.last_log_id || sm.membership != meta.last_membership {
                    self.violate(
                        &["C14", "C15"],
                        "the content of an installed snapshot does not match its metadata",
                        format!("n{} {} contains {}", n, meta.snapshot_id, fmt_lid(&sm.applied)),
                    );
                }
            }
        }
        if let Some(l) = meta.last_log_id {
            self.committed(n, l, "installed snapshot", None);
            let no = self.no(n);
            no.installed_max = no.installed_max.max(Some(l.index));
        }
        if meta.last_log_id < applied {
            self.violate(
                &["C14", "C07"],
                "installing a snapshot moves the state machine backwards",
                format!("n{} applied {} installs {}", n, fmt_lid(&applied), fmt_lid(&meta.last_log_id)),
            );
        }
    }

    pub fn on_built(&mut self, n: Nid, meta: &SnapshotMeta, data: &Rc<Vec<u8>>, sm: &Sm) {
        self.log(|| format!("n{} built snapshot {} {} bytes", n, meta.snapshot_id, data.len()));
        self.probe("snapshot built");
        self.no(n).builds += 1;
        if self.cfg.policy == rt::Policy::Fifo {
            self.probe("snapshot built under fifo scheduling");
        }
        self.o.snaps.insert(meta.snapshot_id.clone(), (meta.clone(), data.clone()));
        if let Some(l) = sm.applied {
            if let Some(r) = self.o.refs.get(l.index as usize) {
                if r.sm_fp != sm.fp() {
                    let t = format!("n{} {}", n, meta.snapshot_id);
                    self.violate(&["C14", "C07"], "a snapshot differs from the committed history", t);
                }
            }
        }
    }

    // ------------------------------------------------------------------ network side

    /// Has this vote, or a greater one, reached the node's disk?
    fn was_durable(&self, n: Nid, k: LKey) -> bool {
        let same = cfg!(feature = "single-term-leader") && self.o.grants.get(&k).map(|m| m >> n & 1 == 1).unwrap_or(false);
        same || key_ge(self.dur_key(n), k)
    }

    fn dur_key(&self, n: Nid) -> LKey {
        self.nodes[n as usize].disk.dur.vote.map(|v| vkey(&v)).unwrap_or((0, 0))
    }

    /// Is there a quorum of durable grants for this vote?
    pub fn granted(&self, k: LKey, n: Nid) -> Result<(), String> {
        let mask = self.o.grants.get(&k).copied().unwrap_or(0);
        let mut mems: Vec<Membership> =
            self.o.elect_mem.get(&k).map(|v| v.iter().map(|m| m.membership().clone()).collect()).unwrap_or_default();
        if mems.is_empty() {
            return Err(format!("n{} never asked for vote {:?}", n, k));
        }
        mems.push(self.nodes[n as usize].disk.effective().membership().clone());
        if mems.iter().any(|m| is_quorum(&configs(m), mask)) {
            return Ok(());
        }
        Err(format!("vote {:?} of n{}: durable on {:#b}, membership {:?}", k, n, mask, configs(&mems[0])))
    }

    pub fn check_acting(&mut self, n: Nid, v: &Vote, src: &'static str) {
        let k = vkey(v);
        if let Some(a) = self.o.acting.get(&k) {
            if a.node != n {
                let t = format!("n{} and n{} lead under {:?} ({})", a.node, n, k, src);
                self.violate(&["C01", "C28"], "two leaders under one vote", t);
            }
            return;
        }
        if k.1 != n {
            self.violate(
                &["C01", "C25"],
                "a node leads under the vote of another",
                format!("n{} leads under {:?} ({})", n, k, src),
            );
        }
        self.probe("leader elected");
        self.log(|| format!("** n{} leads under {:?} ({})", n, k, src));
        let mut tags = vec!["C01"];
        if src == "metrics" {
            tags.push("C25");
        }
        if self.nodes[n as usize].poisoned.is_some() {
            tags.push("C23");
        }
        if let Err(t) = self.granted(k, n) {
            tags.push("C12");
            tags.push("C11");
            tags.push("C02");
            self.violate(&tags, "a node leads without a quorum of durable grants", format!("{} ({})", t, src));
        }
        let clash = match self.o.leaders_by_term.get(&k.0) {
            Some(o) if *o != n => Some(*o),
            _ => None,
        };
        if let Some(o) = clash {
            if cfg!(feature = "single-term-leader") {
                self.violate(&["C28", "C01"], "two leaders in one term", format!("n{} and n{} in term {}", o, n, k.0));
            } else {
                self.probe("two leaders in one term (legal)");
            }
        }
        self.o.leaders_by_term.insert(k.0, n);
        let d = &self.nodes[n as usize].disk;
        let log: BTreeMap<u64, LogId> = d.vol.log.iter().map(|(i, e)| (*i, e.log_id)).collect();
        let covered = d
            .vol
            .purged
            .map(|p| p.index)
            .max(d.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|l| l.index))
            .max(d.sm.applied.map(|l| l.index));
        let eff = d.effective().membership().clone();
        let mut bad = None;
        for r in &self.o.refs {
            if r.vote == k || !key_ge(k, r.vote) {
                continue;
            }
            let ok = match log.get(&r.lid.index) {
                Some(x) => *x == r.lid,
                None => covered >= Some(r.lid.index),
            };
            if !ok {
                bad = Some(format!(
                    "n{} leads under {:?} without {} committed under {:?} (has {})",
                    n,
                    k,
                    fmt_lid(&Some(r.lid)),
                    r.vote,
                    fmt_lid(&log.get(&r.lid.index).copied())
                ));
                break;
            }
        }
        if let Some(t) = bad {
            self.violate(&["C03", "C06"], "a leader lacks a committed entry", t);
        }
        let mems = self.o.elect_mem.get(&k).cloned().unwrap_or_default();
        let lm = self.o.lead_mem.entry(k).or_default();
        lm.push(eff);
        for m in mems {
            lm.push(m.membership().clone());
        }
        self.o.acting.insert(k, Acting { node: n, at: rt::now(), log, covered, checked: 0 });
    }

    pub fn on_send_append(&mut self, n: Nid, to: Nid, req: &AppendEntriesRequest<TC>) {
        self.log(|| {
            format!(
                "n{}->n{} append vote={} prev={} [{}] commit={}",
                n,
                to,
                req.vote,
                fmt_lid(&req.prev_log_id),
                req.entries.iter().map(|e| fmt_lid(&Some(e.log_id))).collect::<Vec<_>>().join(","),
                fmt_lid(&req.leader_commit)
            )
        });
        let k = vkey(&req.vote);
        if !req.vote.committed {
            self.violate(&["C01", "C02"], "replication under an uncommitted vote", format!("n{} {}", n, req.vote));
        }
        self.o.appends_sent.push((rt::now(), n, to));
        let dk = self.dur_key(n);
        if !self.was_durable(n, k) {
            self.violate(
                &["C02"],
                "a vote is used before it is durable",
                format!("n{} sends replication with {:?}, durable {:?}", n, k, dk),
            );
        }
        self.check_acting(n, &req.vote, "replication");
        if let Some(l) = req.entries.last() {
            let d = &mut self.nodes[n as usize].disk;
            let i = d.sent.filter(|s| s.0 == k).map(|s| s.1).unwrap_or(0).max(l.log_id.index);
            if d.sent.map(|s| s.0) <= Some(k) {
                d.sent = Some((k, i));
            }
        }
        let mut prev = req.prev_log_id;
        for e in &req.entries {
            let lid = e.log_id;
            if prev.map(|p| p.index + 1).unwrap_or(0) != lid.index {
                self.violate(
                    &["C26", "C04"],
                    "replication sends entries out of order",
                    format!("n{}->n{} {} after {}", n, to, fmt_lid(&Some(lid)), fmt_lid(&prev)),
                );
            }
            match self.o.entries.get(&lid) {
                None => {
                    self.violate(
                        &["C26", "C04"],
                        "replication sends an entry that was never stored",
                        format!("n{}->n{} {}", n, to, fmt_lid(&Some(lid))),
                    );
                }
                Some(i) => {
                    let (ip, ifp) = (i.prev, i.fp);
                    if ifp != payload_fp(e) || (prev.is_some() && ip.is_some() && ip != prev) {
                        self.violate(
                            &["C26", "C04"],
                            "replication sends a wrong entry",
                            format!("n{}->n{} {} after {} (recorded after {})", n, to, fmt_lid(&Some(lid)), fmt_lid(&prev), fmt_lid(&ip)),
                        );
                    }
                }
            }
            if !lid_of_vote(&lid, k) && !lid_older_than(&lid, k) {
                self.violate(
                    &["C26", "C01"],
                    "replication sends an entry of a later leader",
                    format!("n{}->n{} {} under {:?}", n, to, fmt_lid(&Some(lid)), k),
                );
            }
            prev = Some(lid);
        }
        if let Some(c) = req.leader_commit {
            self.committed(n, c, "leader commit", Some(k));
        }
        // idle resend with heartbeats off
        let now = rt::now();
        let sw = self.nodes[n as usize].sw;
        let disturbed = self.nodes[n as usize].disturbed;
        let asked_hb = self.nodes[n as usize].asked_to_heartbeat;
        let grace = (2 * self.cfg.el_max + 8 * self.cfg.hb_ms) * MS;
        let healed = self.healed;
        let no = self.no(n);
        let last_read = no.last_read_at;
        let rec = no.sends.entry(to).or_default();
        let same = rec.empty && req.entries.is_empty() && rec.prev == req.prev_log_id && rec.commit == req.leader_commit && rec.acked;
        rec.at = now;
        rec.prev = req.prev_log_id;
        rec.commit = req.leader_commit;
        rec.empty = req.entries.is_empty();
        rec.acked = false;
        rec.seq += 1;
        let recent = last_read.max(asked_hb).max(disturbed);
        if same && !healed && now > recent + grace {
            for (i, what) in [(0usize, "tick"), (1usize, "heartbeats")] {
                if !sw[i].0 && now > sw[i].1 + grace {
                    self.violate(
                        &["C31"],
                        "a leader sends timed heartbeats although switched off",
                        format!("n{}->n{}, {} disabled since {}ms", n, to, what, (now - sw[i].1) / MS),
                    );
                }
            }
        }
    }

    /// A leader writes an entry of its own term without waiting for a client: nothing older is committed before.
    fn check_own_entry(&mut self, n: Nid, v: &Vote) {
        let k = vkey(v);
        let now = rt::now();
        let (inc, disturbed, slow) = (self.nodes[n as usize].inc, self.nodes[n as usize].disturbed, self.nodes[n as usize].slow_until);
        let last = self.nodes[n as usize].disk.vol.last();
        let grace = (2 * self.cfg.el_max + 500) * MS;
        let no = self.no(n);
        match no.lead_since {
            Some((a, b, t)) if a == k && b == inc => {
                if now < t.max(disturbed).max(slow) + grace {
                    return;
                }
                self.probe("leader has an entry of its own");
                if !last.map(|l| lid_of_vote(&l, k)).unwrap_or(false) {
                    let t = format!("n{} leads with {} since {}ms, log end {}", n, v, (now - t) / MS, fmt_lid(&last));
                    self.violate(&["C18", "C08", "C05"], "a leader writes no entry of its own term", t);
                }
            }
            _ => no.lead_since = Some((k, inc, now)),
        }
    }

    pub fn on_send_vote(&mut self, n: Nid, to: Nid, req: &VoteRequest<TC>) {
        self.log(|| format!("n{}->n{} vote {} last={}", n, to, req.vote, fmt_lid(&req.last_log_id)));
        self.o.vote_requests += 1;
        let k = vkey(&req.vote);
        let dk = self.dur_key(n);
        if !self.was_durable(n, k) {
            self.violate(
                &["C02", "C01"],
                "a vote is used before it is durable",
                format!("n{} requests {:?}, durable {:?}", n, k, dk),
            );
        }
        if k.1 != n || req.vote.committed {
            self.violate(&["C01", "C02"], "a vote request for somebody else", format!("n{} requests {}", n, req.vote));
        }
    }

    pub fn on_send_snapshot(&mut self, n: Nid, to: Nid, v: &Vote, meta: &SnapshotMeta) {
        self.log(|| format!("n{}->n{} snapshot {} vote={}", n, to, meta.snapshot_id, v));
        self.o.appends_sent.push((rt::now(), n, to));
        let k = vkey(v);
        let dk = self.dur_key(n);
        if !self.was_durable(n, k) {
            self.violate(&["C02"], "a vote is used before it is durable", format!("n{} snapshot {:?}, durable {:?}", n, k, dk));
        }
        self.check_acting(n, v, "snapshot replication");
        if let Some(l) = meta.last_log_id {
            let t = self.no(to);
            t.snap_sent = t.snap_sent.max(Some(l));
            self.committed(n, l, "sent snapshot", Some(k));
        }
    }

    pub fn on_send_transfer(&mut self, n: Nid, to: Nid, req: &TransferLeaderRequest<TC>) {
        self.log(|| format!("n{}->n{} transfer {} to n{}", n, to, req.from_leader(), req.to_node_id()));
        self.probe("transfer request sent");
        let k = vkey(req.from_leader());
        let inc = self.nodes[n as usize].inc;
        self.no(n).gave_up.insert(k, inc);
    }

    pub fn on_arrive(&mut self, to: Nid, _from: Nid, _k: LKey) -> Arrival {
        let local = rt::local_time(self.nodes[to as usize].group);
        let nd = &self.nodes[to as usize];
        Arrival {
            vote: nd.disk.dur.vote,
            vol_vote: nd.disk.vol.vote,
            last: nd.disk.vol.last(),
            truncs: nd.disk.truncations,
            local,
            inc: nd.inc,
            poisoned: nd.poisoned.is_some(),
        }
    }

    pub fn on_arrive_transfer(&mut self, to: Nid, req: &TransferLeaderRequest<TC>) {
        let k = vkey(req.from_leader());
        self.o.transfer_arrivals += 1;
        self.no(to).transfers.insert(k);
        let now = rt::local_time(self.nodes[to as usize].group);
        let (mine, need) = (*req.to_node_id() == to, req.last_log_id().copied());
        self.no(to).transfer_reqs.push((k, mine, now, need));
        if *req.to_node_id() == to {
            self.nodes[to as usize].asked_to_elect = true;
        }
    }

    pub fn on_append_reply(
        &mut self,
        n: Nid,
        from: Nid,
        req: &AppendEntriesRequest<TC>,
        resp: &AppendEntriesResponse<TC>,
        a: Arrival,
    ) {
        let k = vkey(&req.vote);
        self.log(|| format!("n{}: reply to n{} {:?} (append vote={} prev={} +{})", n, from, short_resp(resp), req.vote, fmt_lid(&req.prev_log_id), req.entries.len()));
        if matches!(resp, AppendEntriesResponse::HigherVote(_)) {
            if let AppendEntriesResponse::HigherVote(h) = resp {
                let dk = self.dur_key(n);
                if !self.was_durable(n, vkey(h)) {
                    self.violate(&["C02"], "a vote is visible before it is durable", format!("n{} replies {} durable {:?}", n, h, dk));
                }
            }
            return;
        }
        let inc = self.nodes[n as usize].inc;
        if inc != a.inc {
            return;
        }
        let poisoned = self.nodes[n as usize].poisoned.is_some();
        if let Some(av) = a.vote {
            if !key_ge(k, vkey(&av)) && !vote_ge(&req.vote, &av) {
                self.violate(
                    &["C02"],
                    "a message of a smaller vote is accepted",
                    format!("n{} accepts {:?} from n{}, durable vote was {}", n, k, from, av),
                );
            }
        }
        // Only success makes a promise that survives a crash; a conflict still reveals the vote.
        let dk = self.dur_key(n);
        if !self.was_durable(n, k) {
            let mut t = vec!["C02"];
            if poisoned {
                t.push("C23");
            }
            self.violate(
                &t,
                "replication is accepted before the vote is durable",
                format!("n{} accepts {:?} from n{} ({:?}), durable {:?}", n, k, from, short_resp(resp), dk),
            );
        }
        if self.nodes[n as usize].disk.vol.vote.map(|v| vkey(&v) == k).unwrap_or(false) {
            self.no(n).lease = Some((k, a.local, inc));
        }
        if !matches!(resp, AppendEntriesResponse::Success | AppendEntriesResponse::PartialSuccess(_)) {
            self.probe("replication conflict");
            return;
        }
        let mut upto: Vec<LogId> = req.entries.iter().map(|e| e.log_id).collect();
        if let AppendEntriesResponse::PartialSuccess(p) = resp {
            upto.retain(|l| Some(*l) <= *p);
        }
        upto.extend(req.prev_log_id);
        for l in upto {
            let d = &self.nodes[n as usize].disk;
            let cov = d.max_sm_dur.map(|x| x.index).max(d.dur.purged.map(|x| x.index));
            if self.o.ever_durable(n, &l) || (cov >= Some(l.index) && self.o.is_committed(&l)) {
                continue;
            }
            let mut t = vec!["C05", "C06", "C26"];
            if poisoned {
                t.push("C23");
            }
            let stored = d.vol.log.get(&l.index).map(|e| e.log_id);
            self.violate(
                &t,
                "an entry is acknowledged before it is flushed",
                format!("n{} acknowledges {} to n{}; stored {}, flushed upto {}", n, fmt_lid(&Some(l)), from, fmt_lid(&stored), fmt_lid(&self.nodes[n as usize].disk.dur.last())),
            );
            break;
        }
        // no conflicting suffix behind what was accepted
        let vol = &self.nodes[n as usize].disk.vol;
        let vk = vol.vote.map(|v| vkey(&v));
        if vk == Some(k) && self.nodes[n as usize].disk.truncations == a.truncs {
            let mut lastl: Option<LogId> = None;
            let mut bad = None;
            // all of it now and then, otherwise its end
            let from_i = if req.prev_log_id.map(|l| l.index % 16 == 0).unwrap_or(true) && vol.log.len() < 3000 { 0 } else { vol.last().map(|l| l.index.saturating_sub(100)).unwrap_or(0) };
            for (i, e) in vol.log.range(from_i..) {
                if let Some(l) = lastl {
                    if let Some(x) = self.o.entries.get(&e.log_id) {
                        if l.index + 1 == *i && x.prev.is_some() && x.prev != Some(l) {
                            bad = Some(format!("n{} stores {} after {} (proposed after {})", n, fmt_lid(&Some(e.log_id)), fmt_lid(&Some(l)), fmt_lid(&x.prev)));
                        }
                    }
                    if l.index + 1 != *i {
                        bad = Some(format!("n{} has a hole between {} and {}", n, l.index, i));
                    }
                }
                lastl = Some(e.log_id);
            }
            if let Some(t) = bad {
                self.violate(&["C04", "C16", "C30"], "a stored log is not one history", t);
            }
        }
    }

    pub fn on_vote_reply(&mut self, n: Nid, from: Nid, req: &VoteRequest<TC>, resp: &VoteResponse<TC>, a: Arrival) {
        let k = vkey(&req.vote);
        self.log(|| format!("n{}: reply to n{} vote {} granted={} own={}", n, from, req.vote, resp.vote_granted, resp.vote));
        let dk = self.dur_key(n);
        if !self.was_durable(n, vkey(&resp.vote)) && vkey(&resp.vote).0 > 0 {
            let poisoned = self.nodes[n as usize].poisoned.is_some();
            let t: &[&str] = if poisoned { &["C02", "C23"] } else { &["C02"] };
            self.violate(t, "a vote is visible before it is durable", format!("n{} replies {} durable {:?}", n, resp.vote, dk));
        }
        if !resp.vote_granted {
            return;
        }
        let poisoned = self.nodes[n as usize].poisoned.is_some();
        self.probe("vote granted");
        if !self.was_durable(n, k) {
            let t: &[&str] = if poisoned { &["C02", "C01", "C23"] } else { &["C02", "C01"] };
            self.violate(t, "a vote is granted before it is durable", format!("n{} grants {:?}, durable {:?}", n, k, dk));
        }
        if self.nodes[n as usize].inc != a.inc {
            return;
        }
        if let Some(av) = a.vote {
            if !key_ge(k, vkey(&av)) {
                self.violate(
                    &["C02", "C01"],
                    "a smaller vote is granted",
                    format!("n{} grants {:?} to n{}, durable vote was {}", n, k, from, av),
                );
            }
        }
        if self.nodes[n as usize].disk.truncations == a.truncs && req.last_log_id < a.last {
            self.violate(
                &["C03"],
                "a vote is granted to a candidate with an older log",
                format!("n{} (log end {}) grants {:?} with log end {}", n, fmt_lid(&a.last), k, fmt_lid(&req.last_log_id)),
            );
        }
        // leader lease
        let now = rt::local_time(self.nodes[n as usize].group);
        let vol_now = a.vol_vote;
        let el = self.cfg.el_max * MS;
        if let Some((lk, at, inc)) = self.no(n).lease {
            let still = vol_now.map(|v| vkey(&v) == lk && v.committed).unwrap_or(false);
            let transferred = self.no(n).transfers.contains(&lk);
            if inc == a.inc && still && lk.1 != from && k.1 != lk.1 && !transferred && a.local > at && now < at + el {
                self.violate(
                    &["C19"],
                    "a vote is granted within the lease of a live leader",
                    format!("n{} grants {:?} {}us after hearing from leader {:?}", n, k, (now - at) / 1000, lk),
                );
            }
        }
    }

    pub fn on_snapshot_reply(&mut self, n: Nid, from: Nid, v: &Vote, meta: &SnapshotMeta, resp: &Vote, a: Arrival) {
        self.log(|| format!("n{}: reply to n{} snapshot {} vote={}", n, from, meta.snapshot_id, resp));
        let k = vkey(v);
        if self.nodes[n as usize].inc != a.inc || !key_ge(k, vkey(resp)) {
            return;
        }
        if let Some(av) = a.vote {
            if !key_ge(k, vkey(&av)) && !vote_ge(v, &av) {
                self.violate(
                    &["C02"],
                    "a message of a smaller vote is accepted",
                    format!("n{} accepts a snapshot of {:?} from n{}, durable vote was {}", n, k, from, av),
                );
            }
        }
        let Some(l) = meta.last_log_id else { return };
        let d = &self.nodes[n as usize].disk;
        let cov = d.max_sm_dur.map(|x| x.index);
        if cov < Some(l.index) && !self.o.ever_durable(n, &l) {
            let poisoned = self.nodes[n as usize].poisoned.is_some();
            let mut t = vec!["C14", "C05", "C26"];
            if poisoned {
                t.push("C23");
            }
            self.violate(
                &t,
                "a snapshot is acknowledged before it is installed",
                format!("n{} acknowledges {} to n{}, state machine durable at {:?}", n, meta.snapshot_id, from, cov),
            );
        }
    }

    /// The sender learns the result of a replication message.
    pub fn on_ack(&mut self, n: Nid, g: GroupId, to: Nid, k: LKey, sent: u64, accepted: bool) {
        if self.nodes[n as usize].group != g {
            return;
        }
        if let Some(r) = self.no(n).sends.get_mut(&to) {
            r.acked = accepted;
        }
        if accepted {
            let e = self.no(n).acks.entry(k).or_default().entry(to).or_default();
            *e = (*e).max(sent);
        }
    }

    /// A member is contacted where the membership in force says: that of the state machine, or a later one.
    pub fn check_address(&mut self, n: Nid, g: GroupId, to: Nid, node: &openraft::BasicNode) {
        if self.nodes[n as usize].group != g {
            return;
        }
        let floor = self.nodes[n as usize].disk.sm.membership.clone();
        let at = |m: &Membership| m.get_node(&to).map(|x| x.addr == node.addr).unwrap_or(false);
        let first = floor.log_id().map(|l| l.index + 1).unwrap_or(0);
        let later = self.o.entries.iter().any(|(l, e)| match &e.entry.payload {
            EntryPayload::Membership(m) => l.index >= first && at(m),
            _ => false,
        });
        if !later && !at(floor.membership()) {
            let t = format!("n{} contacts n{} at {}, applied membership {} {:?}", n, to, node.addr, fmt_lid(floor.log_id()), floor.membership().get_node(&to));
            self.violate(&["C10"], "a member is contacted at an address its membership does not give", t);
        } else if node.addr.contains('@') {
            self.probe("contact at a changed address");
        }
    }

    // ------------------------------------------------------------------ linearizable reads

    fn mem_now(&self, n: Nid) -> Vec<Membership> {
        let mut v = vec![self.nodes[n as usize].disk.effective().membership().clone()];
        if let Some(m) = &self.nodes[n as usize].metrics {
            v.push(m.membership_config.membership().clone());
        }
        v
    }

    pub fn barrier_begin(&mut self, n: Nid) -> Barrier {
        let mems = self.mem_now(n);
        let lens = self.o.lead_mem.iter().filter(|(k, _)| k.1 == n).map(|(k, v)| (*k, v.len())).collect();
        Barrier { n, at: rt::local_time(self.nodes[n as usize].group), g: self.nodes[n as usize].group, mems, lens }
    }

    /// A barrier was granted: a quorum of a membership in force meanwhile accepted a message sent since it was asked for.
    pub fn barrier_end(&mut self, b: &Barrier) {
        let n = b.n;
        if self.nodes[n as usize].group != b.g {
            return;
        }
        let mut mems = b.mems.clone();
        mems.extend(self.mem_now(n));
        let keys: Vec<LKey> = self.o.lead_mem.keys().filter(|k| k.1 == n).copied().collect();
        let mut seen = vec![];
        for k in keys {
            let mut m = mems.clone();
            m.extend(self.o.lead_mem[&k].iter().skip(b.lens.get(&k).copied().unwrap_or(0).saturating_sub(1)).cloned());
            let mut mask = 1u64 << n;
            for (id, at) in self.no(n).acks.get(&k).cloned().unwrap_or_default() {
                if at >= b.at {
                    mask |= 1 << id;
                }
            }
            if m.iter().any(|x| is_quorum(&configs(x), mask)) {
                self.probe("barrier granted by a quorum");
                return;
            }
            seen.push((k, mask));
        }
        // the only voter needs nobody
        if mems.iter().any(|x| is_quorum(&configs(x), 1u64 << n)) {
            self.probe("barrier granted by a quorum");
            return;
        }
        self.violate(
            &["C08", "C12"],
            "a barrier is granted without a quorum",
            format!("n{} accepted by {:?} since the call, membership {:?}", n, seen, mems.iter().map(configs).collect::<Vec<_>>()),
        );
    }

    // ------------------------------------------------------------------ metrics side

    pub fn on_metrics(&mut self, n: Nid, m: &Metrics, last_log: Option<LogId>) {
        let inc = self.nodes[n as usize].inc;
        let poisoned = self.nodes[n as usize].poisoned.is_some();
        let d = &self.nodes[n as usize].disk;
        let dk = d.dur.vote;
        let applied = d.sm.applied;
        let snap = d.snap.as_ref().and_then(|s| s.meta.last_log_id);
        let purged = d.vol.purged;
        let smx = self.no(n).snap_max.max(snap);
        self.no(n).snap_max = smx;
        // truthful
        if vkey(&m.vote).0 > 0 && !self.was_durable(n, vkey(&m.vote)) {
            let t: &[&str] = if poisoned { &["C25", "C23"] } else { &["C25"] };
            self.violate(t, "metrics report a vote that is not durable", format!("n{} {} durable {}", n, m.vote, vopt(&dk)));
        }
        if m.last_applied > applied {
            let t: &[&str] = if poisoned { &["C25", "C23"] } else { &["C25"] };
            self.violate(t, "metrics report more than is applied", format!("n{} {} applied {}", n, fmt_lid(&m.last_applied), fmt_lid(&applied)));
        }
        if m.snapshot > smx.max(if self.cfg.sm_mode == 2 { applied } else { None }) {
            let t: &[&str] = if poisoned { &["C25", "C23", "C14"] } else { &["C25", "C14"] };
            self.violate(t, "metrics report a snapshot that does not exist", format!("n{} {} has {}", n, fmt_lid(&m.snapshot), fmt_lid(&snap)));
        }
        if m.purged > purged {
            let t: &[&str] = if poisoned { &["C25", "C23"] } else { &["C25"] };
            self.violate(t, "metrics report more than is purged", format!("n{} {} purged {}", n, fmt_lid(&m.purged), fmt_lid(&purged)));
        }
        // monotonic
        if let Some((i, p)) = self.no(n).last_metrics.clone() {
            if i == inc {
                #[allow(clippy::neg_cmp_op_on_partial_ord)]
                if !(m.vote >= p.vote) {
                    self.violate(&["C25", "C02"], "the reported vote goes backwards", format!("n{} {} after {}", n, m.vote, p.vote));
                }
                if m.last_applied < p.last_applied {
                    self.violate(
                        &["C25", "C14"],
                        "the reported applied position goes backwards",
                        format!("n{} {} after {}", n, fmt_lid(&m.last_applied), fmt_lid(&p.last_applied)),
                    );
                }
                if m.snapshot < p.snapshot {
                    self.violate(
                        &["C25", "C14"],
                        "the reported snapshot goes backwards",
                        format!("n{} {} after {}", n, fmt_lid(&m.snapshot), fmt_lid(&p.snapshot)),
                    );
                }
                if m.purged < p.purged {
                    self.violate(
                        &["C25", "C16"],
                        "the reported purged position goes backwards",
                        format!("n{} {} after {}", n, fmt_lid(&m.purged), fmt_lid(&p.purged)),
                    );
                }
            }
        }
        if let Some(l) = m.last_applied {
            self.committed(n, l, "reported applied position", None);
        }
        if m.state == openraft::ServerState::Leader && m.vote.committed {
            self.check_acting(n, &m.vote, "metrics");
            self.check_own_entry(n, &m.vote);
        }
        if let (Some(l), true) = (m.current_leader, m.vote.committed) {
            let k = vkey(&m.vote);
            if k.0 > 0 {
                // the vote is the one on disk, the leader may be that of a newer one being written
                let newer = self.o.grants.keys().any(|g| g.0 >= k.0 && g.1 == l);
                if l != k.1 && !newer && !cfg!(feature = "single-term-leader") {
                    self.violate(&["C25"], "metrics report a leader other than that of the vote", format!("n{} leader n{} vote {}", n, l, m.vote));
                }
                if l < self.cfg.n {
                    if let Err(t) = self.granted(k, l) {
                        self.violate(&["C25", "C01"], "metrics report a leader that was never elected", format!("n{} reports n{}: {}", n, l, t));
                    }
                }
            }
        }
        // effective membership
        if let Some(exp) = self.o.membership_of(&last_log) {
            let got = m.membership_config.as_ref();
            if got.log_id() != exp.log_id() || got.membership() != exp.membership() {
                self.violate(
                    &["C11"],
                    "the effective membership is not the last one in the log",
                    format!(
                        "n{} log end {} reports membership {} {:?}, the last is {} {:?}",
                        n,
                        fmt_lid(&last_log),
                        fmt_lid(got.log_id()),
                        configs(got.membership()),
                        fmt_lid(exp.log_id()),
                        configs(exp.membership())
                    ),
                );
            }
        }
        // replication progress
        if let Some(r) = &m.replication {
            let lk = vkey(&m.vote);
            let mut bad = None;
            for (t, l) in r {
                let Some(l) = l else { continue };
                if *t >= self.cfg.n {
                    continue;
                }
                let td = &self.nodes[*t as usize].disk;
                let cov = td.max_sm_dur.map(|x| x.index);
                if self.o.ever_durable(*t, l) || (cov >= Some(l.index) && self.o.is_committed(l)) {
                    continue;
                }
                bad = Some(format!("n{} ({:?}) records {} as matched on n{}", n, lk, fmt_lid(&Some(*l)), t));
                break;
            }
            if let Some(t) = bad {
                self.violate(&["C26", "C05", "C25"], "the recorded progress is beyond what the follower stored", t);
            }
        }
        // quorum-acknowledged time
        if let (Some(q), true) = (m.last_quorum_acked, m.vote.committed && vkey(&m.vote).1 == n && m.state == openraft::ServerState::Leader) {
            let k = vkey(&m.vote);
            let t = q.into_inner().0;
            let now = rt::local_time(self.nodes[n as usize].group);
            let acks = self.no(n).acks.get(&k).cloned().unwrap_or_default();
            let mut mask = 1u64 << n;
            for (id, at) in &acks {
                if *at >= t {
                    mask |= 1 << id;
                }
            }
            let mut mems = self.o.lead_mem.get(&k).cloned().unwrap_or_default();
            mems.push(m.membership_config.membership().clone());
            if !mems.iter().any(|m| is_quorum(&configs(m), mask)) {
                self.violate(
                    &["C20"],
                    "the reported quorum-acknowledgement time is overstated",
                    format!(
                        "n{} {:?} reports {}us ago; accepted sends: {:?}, membership {:?}",
                        n,
                        k,
                        now.saturating_sub(t) / 1000,
                        acks.iter().map(|(i, a)| (*i, now.saturating_sub(*a) / 1000)).collect::<Vec<_>>(),
                        configs(m.membership_config.membership())
                    ),
                );
            }
            if t > now {
                self.violate(&["C20"], "the reported quorum-acknowledgement time is in the future", format!("n{}", n));
            }
        }
        // a voter is a follower, others are learners
        let real = m.membership_config.log_id().is_some();
        if real && m.running_state.is_ok() && matches!(m.state, openraft::ServerState::Follower | openraft::ServerState::Learner) {
            let voter = m.membership_config.membership().voter_ids().any(|x| x == n);
            if voter != (m.state == openraft::ServerState::Follower) {
                let x = format!("n{} {:?} membership {}", n, m.state, m.membership_config);
                self.violate(&["C25", "C12"], "metrics report a state that is not that of the membership", x);
            }
        }
        // per-node acknowledgement times
        if let (Some(h), true) = (&m.heartbeat, m.vote.committed && vkey(&m.vote).1 == n && m.state == openraft::ServerState::Leader) {
            let k = vkey(&m.vote);
            let acks = self.no(n).acks.get(&k).cloned().unwrap_or_default();
            self.probe("per-node acknowledgement times");
            for (t, at) in h {
                let Some(at) = at else { continue };
                let at = at.into_inner().0;
                if *t != n && acks.get(t).copied().unwrap_or(0) < at {
                    let x = format!("n{} {:?} reports {} for n{}, last accepted {:?}", n, k, at, t, acks.get(t));
                    self.violate(&["C20", "C25"], "the reported acknowledgement time of a node is overstated", x);
                    break;
                }
            }
            if let Some(r) = &m.replication {
                let nodes: BTreeSet<Nid> = m.membership_config.membership().nodes().map(|x| *x.0).collect();
                let a: BTreeSet<Nid> = r.keys().copied().collect();
                let b: BTreeSet<Nid> = h.keys().copied().collect();
                if a != nodes || b != nodes {
                    let x = format!("n{} {:?} replication {:?} heartbeat {:?} members {:?}", n, k, a, b, nodes);
                    self.violate(&["C25", "C12"], "a leader tracks other nodes than the members", x);
                }
            }
        }
        // an own commit needs the acting leader to be followed by the membership it uses
        if m.vote.committed && vkey(&m.vote).1 == n {
            let k = vkey(&m.vote);
            let mm = m.membership_config.membership().clone();
            let v = self.o.lead_mem.entry(k).or_default();
            if v.last() != Some(&mm) {
                v.push(mm);
            }
        }
        self.no(n).last_metrics = Some((inc, m.clone()));
        let sig = {
            let mut h = 1;
            for nd in &self.nodes {
                h = crate::rng::mix(h, nd.status as u64);
                if let Some(m) = &nd.metrics {
                    h = crate::rng::mix(h, m.state as u64);
                }
                let d = &nd.disk;
                h = crate::rng::mix(h, d.vol.vote.map(|v| v.committed as u64 + 1).unwrap_or(0));
                h = crate::rng::mix(h, d.vol.log.len().min(6) as u64);
                h = crate::rng::mix(h, d.pending().min(3) as u64);
                h = crate::rng::mix(h, configs(d.effective().membership()).len() as u64);
                h = crate::rng::mix(h, d.snap.is_some() as u64);
            }
            crate::rng::mix(h, self.cut.iter().filter(|c| **c != 0).count() as u64)
        };
        if self.state_sig.len() < 5000 {
            self.state_sig.insert(sig);
        }
    }
}

pub fn payload_str(e: &Entry) -> String {
    match &e.payload {
        EntryPayload::Blank => "blank".into(),
        EntryPayload::Normal(r) => format!("k{}={}", r.key, r.id),
        EntryPayload::Membership(m) => format!("members {:?}/{:?}", configs(m), m.nodes().map(|x| *x.0).collect::<Vec<_>>()),
    }
}

fn short_resp(r: &AppendEntriesResponse<TC>) -> String {
    match r {
        AppendEntriesResponse::Success => "success".into(),
        AppendEntriesResponse::PartialSuccess(x) => format!("partial {}", fmt_lid(x)),
        AppendEntriesResponse::Conflict => "conflict".into(),
        AppendEntriesResponse::HigherVote(v) => format!("higher vote {}", v),
    }
}
