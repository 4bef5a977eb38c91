//! Simulated storage behind openraft's storage traits: an ordered write-ahead log with volatile and
//! durable images, and a state machine with snapshots. A crash keeps a prefix of the writes.

use std::collections::BTreeMap;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::ops::Bound;
use std::ops::RangeBounds;
use std::rc::Rc;

use openraft::storage::IOFlushed;
use openraft::storage::LogState;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftStateMachine;
use openraft::storage::Snapshot;
use openraft::OptionalSend;
use openraft::RaftLogReader;
use openraft::RaftSnapshotBuilder;

use crate::driver;
use crate::plan::Cfg;
use crate::plan::Op;
use crate::rt;
use crate::rt::GroupId;
use crate::types::*;
use crate::world::w;
use crate::world::Fault;
use crate::world::World;

#[derive(Clone, Default, Debug)]
pub struct LogImg {
    pub vote: Option<Vote>,
    pub log: BTreeMap<u64, Entry>,
    pub purged: Option<LogId>,
    pub committed: Option<LogId>,
}

impl LogImg {
    pub fn last(&self) -> Option<LogId> {
        self.log.values().next_back().map(|e| e.log_id).or(self.purged)
    }
    pub fn get(&self, i: u64) -> Option<LogId> {
        match self.log.get(&i) {
            Some(e) => Some(e.log_id),
            None => self.purged.filter(|p| p.index == i),
        }
    }
    pub fn apply(&mut self, op: &WOp) {
        match op {
            WOp::Vote(v) => self.vote = Some(*v),
            WOp::Append(es) => {
                for e in es {
                    self.log.insert(e.log_id.index, e.clone());
                }
            }
            WOp::Truncate(i) => {
                self.log.split_off(i);
            }
            WOp::Purge(l) => {
                self.log = self.log.split_off(&(l.index + 1));
                if self.purged < Some(*l) {
                    self.purged = Some(*l);
                }
            }
            WOp::Committed(c) => self.committed = *c,
        }
    }
}

#[derive(Clone, Debug)]
pub enum WOp {
    Vote(Vote),
    Append(Vec<Entry>),
    Truncate(u64),
    Purge(LogId),
    Committed(Option<LogId>),
}

pub struct Pend {
    op: WOp,
    cb: Option<IOFlushed<TC>>,
    id: u64,
}

#[derive(Clone)]
pub struct Snap {
    pub meta: SnapshotMeta,
    pub data: Rc<Vec<u8>>,
}

pub struct Disk {
    pub vol: LogImg,
    pub dur: LogImg,
    pend: VecDeque<Pend>,
    next_id: u64,
    flushed_id: u64,
    flush_armed: bool,
    broken: bool,
    /// writes whose flush failed
    lost: Vec<WOp>,
    pub sm: Sm,
    pub snap: Option<Snap>,
    pub snap_counter: u64,
    pub sm_mode: u8,
    /// greatest state machine position ever durable on this node
    pub max_sm_dur: Option<LogId>,
    pub truncations: u64,
    pub crash_down: u64,
    /// entries this node sent as a leader: (vote, index of the last one)
    pub sent: Option<((u64, u64), u64)>,
    pub real: Option<memstore::LogStore<TC>>,
}

impl Disk {
    pub fn new(cfg: &Cfg, _id: Nid) -> Disk {
        Disk {
            vol: LogImg::default(),
            dur: LogImg::default(),
            pend: VecDeque::new(),
            next_id: 1,
            flushed_id: 0,
            flush_armed: false,
            broken: false,
            lost: vec![],
            sm: Sm::default(),
            snap: None,
            snap_counter: 0,
            sm_mode: cfg.sm_mode,
            max_sm_dur: None,
            truncations: 0,
            crash_down: 0,
            sent: None,
            real: if cfg.real_store { Some(memstore::LogStore::default()) } else { None },
        }
    }
    pub fn pending(&self) -> usize {
        self.pend.len()
    }
    /// The last membership in the log, or that of the state machine / snapshot below it.
    pub fn effective(&self) -> StoredMembership {
        for e in self.vol.log.values().rev() {
            if let openraft::EntryPayload::Membership(m) = &e.payload {
                return StoredMembership::new(Some(e.log_id), m.clone());
            }
        }
        let a = self.sm.membership.clone();
        if let Some(s) = &self.snap {
            if s.meta.last_membership.log_id() > a.log_id() {
                return s.meta.last_membership.clone();
            }
        }
        a
    }
    /// Does the node's log, snapshot or state machine contain `lid`?
    pub fn covers(&self, lid: &LogId, committed: bool) -> bool {
        if let Some(x) = self.vol.get(lid.index) {
            return x == *lid;
        }
        committed
            && (self.vol.purged.map(|p| p.index) >= Some(lid.index)
                || self.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|p| p.index) >= Some(lid.index)
                || self.sm.applied.map(|p| p.index) >= Some(lid.index))
    }
    pub fn pristine(&self) -> bool {
        self.vol.vote.is_none() && self.vol.log.is_empty() && self.vol.purged.is_none() && self.sm.applied.is_none()
    }
}

impl World {
    /// The process of node `n` dies: a prefix of the pending writes survives.
    pub fn crash_disk(&mut self, n: Nid) {
        let k = self.nodes[n as usize].disk.pend.len() as u64;
        let keep = if self.disk_rng.chance(0.3) { 0 } else { self.disk_rng.below(k + 1) };
        let keep = self.keep_sent(n, keep);
        let d = &mut self.nodes[n as usize].disk;
        let mut done = vec![];
        let mut lost = 0;
        let mut torn = 0;
        for (i, p) in std::mem::take(&mut d.pend).into_iter().enumerate() {
            let i = i as u64;
            if i < keep {
                done.push(p.op);
            } else if i == keep {
                if let WOp::Append(es) = &p.op {
                    let part = self.disk_rng.below(es.len() as u64) as usize;
                    if part > 0 {
                        done.push(WOp::Append(es[..part].to_vec()));
                        torn = 1;
                    }
                }
                lost += 1;
            } else {
                lost += 1;
            }
        }
        for op in done {
            self.make_durable(n, op);
        }
        // nor does a leader lose with a failed flush what it had sent (see `keep_sent`)
        let d = &mut self.nodes[n as usize].disk;
        let failed = std::mem::take(&mut d.lost);
        if let (Some((k, last)), false) = (d.sent, self.cfg.leader_loss) {
            let own = d.dur.vote.map(|v| v.committed && vkey(&v) == k).unwrap_or(false);
            let sent = |op: &WOp| matches!(op, WOp::Append(es) if es.iter().any(|e| lid_of_vote(&e.log_id, k) && e.log_id.index <= last));
            if own {
                let need = failed.iter().rposition(sent).map(|i| i + 1).unwrap_or(0);
                for op in failed.into_iter().take(need) {
                    let d = &self.nodes[n as usize].disk;
                    match &op {
                        WOp::Vote(_) => continue,
                        WOp::Append(es) if d.dur.last().map(|l| l.index + 1).unwrap_or(0) != es[0].log_id.index => continue,
                        _ => self.make_durable(n, op),
                    }
                }
            }
        }
        if torn > 0 {
            self.fault("crash with torn append");
        }
        if lost > 0 {
            self.fault("crash loses unflushed writes");
        }
        let d = &mut self.nodes[n as usize].disk;
        // Own proposals that left no trace anywhere never existed.
        let own = d.dur.vote.filter(|v| v.committed && vkey(v).1 == n).map(|v| vkey(&v));
        let sent = d.sent.filter(|s| Some(s.0) == own).map(|s| s.1);
        let from = d.dur.last().map(|l| l.index).max(sent);
        d.vol = d.dur.clone();
        d.flush_armed = false;
        d.broken = false;
        d.flushed_id = d.next_id - 1;
        match d.sm_mode {
            0 => {
                d.sm = match &d.snap {
                    Some(s) => Sm::decode(&s.data).unwrap_or_default(),
                    None => Sm::default(),
                }
            }
            1 => {}
            _ => d.snap = None,
        }
        if let Some(k) = own {
            self.forget(n, k, from);
        }
    }

    /// How many pending writes survive a crash. A node whose stored vote says it is the leader resumes
    /// leadership at restart, reusing the log ids of the entries it lost. With entries that had been
    /// sent to others before they were flushed that breaks every guarantee: known finding K1 (see
    /// DESIGN.md). Except in the run that shows K1 the disk is lucky enough to retain such entries.
    fn keep_sent(&mut self, n: Nid, keep: u64) -> u64 {
        let d = &self.nodes[n as usize].disk;
        let Some((k, last)) = d.sent else { return keep };
        let mut vote = d.dur.vote;
        for p in d.pend.iter().take(keep as usize) {
            if let WOp::Vote(v) = &p.op {
                vote = Some(*v);
            }
        }
        if !vote.map(|v| v.committed && vkey(&v) == k).unwrap_or(false) {
            return keep;
        }
        let mut need = 0;
        for (i, p) in d.pend.iter().enumerate() {
            if let WOp::Append(es) = &p.op {
                if es.iter().any(|e| lid_of_vote(&e.log_id, k) && e.log_id.index <= last) {
                    need = i as u64 + 1;
                }
            }
        }
        if need <= keep {
            return keep;
        }
        if self.cfg.leader_loss {
            self.fault("leader crash loses entries it had sent");
            return keep;
        }
        need
    }

    fn make_durable(&mut self, n: Nid, op: WOp) {
        match &op {
            WOp::Append(es) => {
                for e in es {
                    self.o.durable(n, e);
                }
            }
            WOp::Vote(v) => {
                let prev = self.nodes[n as usize].disk.dur.vote;
                self.on_vote_durable(n, prev, *v);
            }
            _ => {}
        }
        self.nodes[n as usize].disk.dur.apply(&op);
    }

    fn submit(&mut self, n: Nid, op: WOp, cb: Option<IOFlushed<TC>>) -> u64 {
        let d = &mut self.nodes[n as usize].disk;
        d.vol.apply(&op);
        let id = d.next_id;
        d.next_id += 1;
        d.pend.push_back(Pend { op, cb, id });
        id
    }

    /// Complete the first `k` pending writes. Returns the callbacks to run (outside of the borrow).
    fn complete(&mut self, n: Nid, k: usize) -> Vec<IOFlushed<TC>> {
        let mut cbs = vec![];
        for _ in 0..k {
            let Some(p) = self.nodes[n as usize].disk.pend.pop_front() else { break };
            self.make_durable(n, p.op);
            self.nodes[n as usize].disk.flushed_id = p.id;
            if let Some(cb) = p.cb {
                cbs.push(cb);
            }
        }
        cbs
    }
    fn slow(&self, n: Nid) -> u64 {
        let nd = &self.nodes[n as usize];
        if !self.healed && nd.slow_until > rt::now() {
            nd.slow_mult.max(1)
        } else {
            1
        }
    }
}

/// The bundled in-memory store is its own durable image.
fn settle(n: Nid) {
    w(|w| {
        let k = w.nodes[n as usize].disk.pend.len();
        let _ = w.complete(n, k);
    })
}

fn io_err(m: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, format!("injected: {}", m))
}

/// Never returns: the process is gone, or the call hangs.
async fn hang() {
    std::future::pending::<()>().await
}

fn gone(n: Nid, g: GroupId) -> bool {
    !rt::group_alive(g) || w(|w| w.nodes[n as usize].group != g)
}

fn arm_flush(n: Nid, g: GroupId) {
    let d = w(|w| {
        let m = w.slow(n);
        let mean = w.cfg.flush_us * rt::US;
        let nd = &mut w.nodes[n as usize];
        if nd.disk.flush_armed || nd.disk.pend.is_empty() || nd.disk.broken {
            return None;
        }
        nd.disk.flush_armed = true;
        // a slow disk recovers when its time is over
        let left = nd.slow_until.saturating_sub(rt::now());
        let d = mean / 4 + w.disk_rng.exp(mean);
        Some((d * m).min(left + d))
    });
    if let Some(d) = d {
        rt::after(d, move || flush(n, g));
    }
}

fn flush(n: Nid, g: GroupId) {
    if gone(n, g) {
        return;
    }
    // a stalled process does not run its I/O completion either
    let st = rt::group_stalled_until(g);
    if st > rt::now() {
        rt::after(st - rt::now(), move || flush(n, g));
        return;
    }
    w(|w| w.node(n).disk.flush_armed = false);
    // the node hears of a failed flush only through a callback, now or at its next write
    let (heard, before) = w(|w| (w.node(n).disk.pend.iter().any(|p| p.cb.is_some()), w.node(n).poisoned));
    let f = w(|w| w.storage_fault(n, Op::Flush));
    if !heard && before.is_none() {
        w(|w| w.node(n).poisoned = None);
    }
    match f {
        Fault::CrashBefore | Fault::CrashMid => {
            driver::crash_now(n);
            return;
        }
        Fault::CrashAfter => {
            w(|w| {
                let k = w.nodes[n as usize].disk.pend.len();
                let _ = w.complete(n, k);
            });
            driver::crash_now(n);
            return;
        }
        Fault::ErrBefore | Fault::ErrAfter => {
            let cbs = w(|w| {
                if f == Fault::ErrAfter {
                    let d = &mut w.nodes[n as usize].disk;
                    // the first write reached the disk although its flush failed
                    if let Some(p) = d.pend.front() {
                        let op = p.op.clone();
                        w.make_durable(n, op);
                    }
                }
                let d = &mut w.nodes[n as usize].disk;
                d.broken = true;
                let p = std::mem::take(&mut d.pend);
                d.lost.extend(p.iter().map(|p| p.op.clone()));
                p.into_iter().filter_map(|p| p.cb).collect::<Vec<_>>()
            });
            rt::in_group(g, || {
                for cb in cbs {
                    cb.io_completed(Err(io_err("flush")));
                }
            });
            return;
        }
        Fault::None => {}
    }
    let cbs = w(|w| {
        let len = w.nodes[n as usize].disk.pend.len() as u64;
        let k = if w.disk_rng.chance(0.5) { len } else { 1 + w.disk_rng.below(len.max(1)) };
        w.complete(n, k as usize)
    });
    rt::in_group(g, || {
        for cb in cbs {
            cb.io_completed(Ok(()));
        }
    });
    arm_flush(n, g);
}

async fn wait_durable(n: Nid, g: GroupId, id: u64) -> bool {
    loop {
        if gone(n, g) {
            hang().await;
        }
        let (f, broken) = w(|w| (w.node(n).disk.flushed_id >= id, w.node(n).disk.broken));
        if f {
            return true;
        }
        if broken {
            w(|w| {
                w.node(n).poisoned.get_or_insert(rt::now());
            });
            return false;
        }
        arm_flush(n, g);
        rt::sleep_ns(20 * rt::US).await;
    }
}

async fn delay(n: Nid, mean_us: u64, p: f64) {
    let d = w(|w| {
        let m = w.slow(n);
        if m > 1 || w.disk_rng.chance(p) {
            Some(w.disk_rng.exp(mean_us * rt::US) * m)
        } else {
            None
        }
    });
    if let Some(mut d) = d {
        // a slow disk recovers when its time is over, or when the faults stop
        while d > 0 {
            let step = d.min(50 * rt::MS);
            rt::sleep_ns(step).await;
            d -= step;
            if w(|w| w.slow(n)) == 1 && d > mean_us * rt::US {
                d = mean_us * rt::US;
            }
        }
    }
}

fn to_range<RB: RangeBounds<u64>>(r: &RB) -> (u64, u64) {
    let s = match r.start_bound() {
        Bound::Included(x) => *x,
        Bound::Excluded(x) => *x + 1,
        Bound::Unbounded => 0,
    };
    let e = match r.end_bound() {
        Bound::Included(x) => *x + 1,
        Bound::Excluded(x) => *x,
        Bound::Unbounded => u64::MAX,
    };
    (s, e)
}

#[derive(Clone)]
pub struct LogStore {
    pub n: Nid,
    pub g: GroupId,
    pub real: Option<memstore::LogStore<TC>>,
}

impl LogStore {
    async fn enter(&self) {
        if gone(self.n, self.g) {
            hang().await;
        }
    }
    async fn crash(&self) {
        driver::crash_now(self.n);
        hang().await;
    }
    async fn read(&mut self, s: u64, e: u64, limited: bool) -> Result<Vec<Entry>, StorageError> {
        self.enter().await;
        let n = self.n;
        let f = w(|w| w.storage_fault(n, Op::ReadLog));
        match f {
            Fault::None => {}
            Fault::ErrBefore | Fault::ErrAfter => {
                return Err(StorageError::read_logs(&io_err("read")));
            }
            _ => self.crash().await,
        }
        let mut v = w(|w| {
            w.check_read(n, s, e, limited);
            let d = &w.nodes[n as usize].disk;
            if s >= e {
                return vec![];
            }
            let mut v: Vec<Entry> = d.vol.log.range(s..e).map(|x| x.1.clone()).collect();
            if limited {
                if let Some(k) = w.cfg.short_read {
                    let keep = 1 + w.disk_rng.below(k) as usize;
                    if v.len() > keep {
                        v.truncate(keep);
                        w.fault("short read");
                    }
                }
            }
            v
        });
        if let Some(r) = &mut self.real {
            let got = r.try_get_log_entries(s..e).await?;
            // the reference image was read before; nothing may have changed it in between except a
            // concurrent writer, in which case compare with the image as of now
            let full = w(|w| w.nodes[n as usize].disk.vol.log.range(s..e.max(s)).map(|x| x.1.clone()).collect::<Vec<_>>());
            if got != full && !got.starts_with(&v) {
                w(|w| {
                    w.violate(
                        &["C29"],
                        "bundled log store returned other entries than stored",
                        format!("n{} read [{},{}): got {} entries, expected {}", n, s, e, got.len(), full.len()),
                    )
                });
            }
            let k = v.len();
            v = got;
            if limited && v.len() > k {
                v.truncate(k);
            }
        }
        let us = w(|w| w.cfg.read_us);
        delay(n, us, 0.5).await;
        self.enter().await;
        Ok(v)
    }
}

impl RaftLogReader<TC> for LogStore {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Entry>, StorageError> {
        let (s, e) = to_range(&range);
        self.read(s, e, false).await
    }
    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Entry>, StorageError> {
        self.read(start, end, true).await
    }
    async fn read_vote(&mut self) -> Result<Option<Vote>, StorageError> {
        self.enter().await;
        let n = self.n;
        let v = w(|w| w.node(n).disk.vol.vote);
        if let Some(r) = &mut self.real {
            let got = r.read_vote().await?;
            if got != v {
                w(|w| w.violate(&["C29"], "bundled log store returned another vote", format!("n{} {:?} {:?}", n, got, v)));
            }
        }
        Ok(v)
    }
}

impl RaftLogStorage<TC> for LogStore {
    type LogReader = Self;

    async fn get_log_state(&mut self) -> Result<LogState<TC>, StorageError> {
        self.enter().await;
        let n = self.n;
        let st = w(|w| {
            let d = &w.nodes[n as usize].disk;
            LogState { last_purged_log_id: d.vol.purged, last_log_id: d.vol.last() }
        });
        if let Some(r) = &mut self.real {
            let got = r.get_log_state().await?;
            if got.last_log_id != st.last_log_id || got.last_purged_log_id != st.last_purged_log_id {
                w(|w| w.violate(&["C29"], "bundled log store reports another log state", format!("n{} {:?} {:?}", n, got, st)));
            }
        }
        Ok(st)
    }

    async fn get_log_reader(&mut self) -> Self {
        self.clone()
    }

    async fn save_vote(&mut self, vote: &Vote) -> Result<(), StorageError> {
        self.enter().await;
        let (n, g) = (self.n, self.g);
        let vote = *vote;
        let f = w(|w| {
            w.check_save_vote(n, &vote);
            w.storage_fault(n, Op::SaveVote)
        });
        match f {
            Fault::None => {}
            Fault::ErrBefore => return Err(StorageError::write_vote(&io_err("save_vote"))),
            Fault::CrashBefore => self.crash().await,
            Fault::CrashMid => {
                w(|w| w.submit(n, WOp::Vote(vote), None));
                self.crash().await
            }
            Fault::CrashAfter | Fault::ErrAfter => {
                w(|w| {
                    w.submit(n, WOp::Vote(vote), None);
                    let k = w.nodes[n as usize].disk.pend.len();
                    // callbacks of earlier appends are lost with the process
                    let _ = w.complete(n, k);
                });
                if f == Fault::CrashAfter {
                    self.crash().await;
                }
                return Err(StorageError::write_vote(&io_err("save_vote")));
            }
        }
        if let Some(r) = &mut self.real {
            r.save_vote(&vote).await?;
            let cbs = w(|w| {
                w.submit(n, WOp::Vote(vote), None);
                let k = w.nodes[n as usize].disk.pend.len();
                w.complete(n, k)
            });
            drop(cbs);
            return Ok(());
        }
        let (id, sync) = w(|w| {
            let id = w.submit(n, WOp::Vote(vote), None);
            let p = w.cfg.sync_p;
            (id, w.disk_rng.chance(p))
        });
        if sync {
            let cbs = w(|w| {
                let k = w.nodes[n as usize].disk.pend.len();
                w.complete(n, k)
            });
            for cb in cbs {
                cb.io_completed(Ok(()));
            }
        }
        if !wait_durable(n, g, id).await {
            return Err(StorageError::write_vote(&io_err("flush of vote")));
        }
        Ok(())
    }

    async fn save_committed(&mut self, committed: Option<LogId>) -> Result<(), StorageError> {
        self.enter().await;
        let (n, g) = (self.n, self.g);
        let f = w(|w| {
            w.check_save_committed(n, committed);
            w.storage_fault(n, Op::SaveCommitted)
        });
        let mode = w(|w| w.cfg.committed_mode);
        match f {
            Fault::None => {}
            Fault::ErrBefore | Fault::ErrAfter => return Err(StorageError::write_logs(&io_err("save_committed"))),
            Fault::CrashBefore => self.crash().await,
            _ => {
                if mode > 0 {
                    w(|w| w.submit(n, WOp::Committed(committed), None));
                }
                self.crash().await
            }
        }
        if let Some(r) = &mut self.real {
            r.save_committed(committed).await?;
        }
        if mode == 0 && self.real.is_none() {
            return Ok(());
        }
        let id = w(|w| w.submit(n, WOp::Committed(committed), None));
        if self.real.is_some() {
            settle(n);
            return Ok(());
        }
        arm_flush(n, g);
        if mode == 2 && self.real.is_none() && !wait_durable(n, g, id).await {
            return Err(StorageError::write_logs(&io_err("flush of committed")));
        }
        Ok(())
    }

    async fn read_committed(&mut self) -> Result<Option<LogId>, StorageError> {
        self.enter().await;
        let n = self.n;
        let v = w(|w| w.node(n).disk.vol.committed);
        if let Some(r) = &mut self.real {
            let got = r.read_committed().await?;
            if got != v {
                w(|w| w.violate(&["C29"], "bundled log store returned another commit position", format!("n{} {:?} {:?}", n, got, v)));
            }
        }
        Ok(v)
    }

    async fn append<I>(&mut self, entries: I, callback: IOFlushed<TC>) -> Result<(), StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        self.enter().await;
        let (n, g) = (self.n, self.g);
        if w(|w| w.node(n).disk.broken) {
            w(|w| {
                w.node(n).poisoned.get_or_insert(rt::now());
            });
            callback.io_completed(Err(io_err("append after a failed flush")));
            return Ok(());
        }
        let es: Vec<Entry> = entries.into_iter().collect();
        let f = w(|w| {
            w.on_append(n, &es);
            w.storage_fault(n, Op::Append)
        });
        match f {
            Fault::None => {}
            Fault::ErrBefore => return Err(StorageError::write_logs(&io_err("append"))),
            Fault::CrashBefore => self.crash().await,
            Fault::CrashMid => {
                w(|w| w.submit(n, WOp::Append(es), None));
                self.crash().await;
                return Ok(());
            }
            Fault::CrashAfter => {
                w(|w| {
                    w.submit(n, WOp::Append(es), None);
                    let k = w.nodes[n as usize].disk.pend.len();
                    let _ = w.complete(n, k);
                });
                self.crash().await;
                return Ok(());
            }
            Fault::ErrAfter => {
                w(|w| w.submit(n, WOp::Append(es), None));
                arm_flush(n, g);
                return Err(StorageError::write_logs(&io_err("append")));
            }
        }
        if let Some(r) = &mut self.real {
            w(|w| {
                w.submit(n, WOp::Append(es.clone()), None);
                let k = w.nodes[n as usize].disk.pend.len();
                let _ = w.complete(n, k);
            });
            r.append(es, callback).await?;
            return Ok(());
        }
        let sync = w(|w| {
            w.submit(n, WOp::Append(es), Some(callback));
            let p = w.cfg.sync_p;
            w.disk_rng.chance(p)
        });
        if sync {
            // the callback runs before the call returns
            let cbs = w(|w| {
                let k = w.nodes[n as usize].disk.pend.len();
                w.probe("callback before append returns");
                w.complete(n, k)
            });
            for cb in cbs {
                cb.io_completed(Ok(()));
            }
        } else {
            arm_flush(n, g);
        }
        delay(n, 20, 0.1).await;
        self.enter().await;
        Ok(())
    }

    async fn truncate(&mut self, log_id: LogId) -> Result<(), StorageError> {
        self.enter().await;
        let (n, g) = (self.n, self.g);
        let f = w(|w| {
            w.on_truncate(n, &log_id);
            w.storage_fault(n, Op::Truncate)
        });
        match f {
            Fault::None => {}
            Fault::ErrBefore => return Err(StorageError::write_logs(&io_err("truncate"))),
            Fault::CrashBefore => self.crash().await,
            Fault::ErrAfter => {
                w(|w| w.submit(n, WOp::Truncate(log_id.index), None));
                arm_flush(n, g);
                return Err(StorageError::write_logs(&io_err("truncate")));
            }
            Fault::CrashMid => {
                w(|w| w.submit(n, WOp::Truncate(log_id.index), None));
                self.crash().await;
            }
            Fault::CrashAfter => {
                w(|w| {
                    w.submit(n, WOp::Truncate(log_id.index), None);
                    let k = w.nodes[n as usize].disk.pend.len();
                    let _ = w.complete(n, k);
                });
                self.crash().await;
            }
        }
        if let Some(r) = &mut self.real {
            r.truncate(log_id).await?;
        }
        w(|w| w.submit(n, WOp::Truncate(log_id.index), None));
        if self.real.is_some() {
            settle(n);
        }
        arm_flush(n, g);
        delay(n, 20, 0.1).await;
        self.enter().await;
        Ok(())
    }

    async fn purge(&mut self, log_id: LogId) -> Result<(), StorageError> {
        self.enter().await;
        let (n, g) = (self.n, self.g);
        let f = w(|w| {
            w.on_purge(n, &log_id);
            w.storage_fault(n, Op::Purge)
        });
        match f {
            Fault::None => {}
            Fault::ErrBefore => return Err(StorageError::write_logs(&io_err("purge"))),
            Fault::CrashBefore => self.crash().await,
            Fault::ErrAfter => {
                w(|w| w.submit(n, WOp::Purge(log_id), None));
                arm_flush(n, g);
                return Err(StorageError::write_logs(&io_err("purge")));
            }
            Fault::CrashMid => {
                w(|w| w.submit(n, WOp::Purge(log_id), None));
                self.crash().await;
            }
            Fault::CrashAfter => {
                w(|w| {
                    w.submit(n, WOp::Purge(log_id), None);
                    let k = w.nodes[n as usize].disk.pend.len();
                    let _ = w.complete(n, k);
                });
                self.crash().await;
            }
        }
        if let Some(r) = &mut self.real {
            r.purge(log_id).await?;
        }
        w(|w| w.submit(n, WOp::Purge(log_id), None));
        if self.real.is_some() {
            settle(n);
        }
        arm_flush(n, g);
        delay(n, 20, 0.1).await;
        self.enter().await;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

pub struct SmStore {
    pub n: Nid,
    pub g: GroupId,
}

impl SmStore {
    async fn enter(&self) {
        if gone(self.n, self.g) {
            hang().await;
        }
    }
    async fn crash(&self) {
        driver::crash_now(self.n);
        hang().await;
    }
    pub fn read(&self, key: u8) -> Option<u64> {
        w(|w| w.node(self.n).disk.sm.kv.get(&key).copied())
    }
    pub fn applied(&self) -> Option<LogId> {
        w(|w| w.node(self.n).disk.sm.applied)
    }
}

fn sm_durable(w: &mut World, n: Nid) {
    let d = &mut w.nodes[n as usize].disk;
    if d.sm_mode > 0 && d.sm.applied > d.max_sm_dur {
        d.max_sm_dur = d.sm.applied;
    }
    if let Some(s) = &d.snap {
        if d.sm_mode < 2 && s.meta.last_log_id > d.max_sm_dur {
            d.max_sm_dur = s.meta.last_log_id;
        }
    }
}

impl RaftStateMachine<TC> for SmStore {
    type SnapshotBuilder = SnapBuilder;

    async fn applied_state(&mut self) -> Result<(Option<LogId>, StoredMembership), StorageError> {
        self.enter().await;
        let n = self.n;
        Ok(w(|w| {
            let d = &w.nodes[n as usize].disk;
            (d.sm.applied, d.sm.membership.clone())
        }))
    }

    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError>
    where
        I: IntoIterator<Item = Entry> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        self.enter().await;
        let n = self.n;
        let es: Vec<Entry> = entries.into_iter().collect();
        let f = w(|w| w.storage_fault(n, Op::Apply));
        let us = w(|w| w.cfg.apply_us);
        match f {
            Fault::ErrBefore => {
                let l = es.first().map(|e| e.log_id).unwrap_or_default();
                return Err(StorageError::apply(l, &io_err("apply")));
            }
            Fault::CrashBefore => self.crash().await,
            _ => {}
        }
        delay(n, us, 0.6).await;
        self.enter().await;
        let mid = es.len() / 2;
        let mut res = vec![];
        for (i, e) in es.iter().enumerate() {
            if i == mid && f == Fault::CrashMid {
                self.crash().await;
            }
            let r = w(|w| {
                w.on_apply(n, e);
                let r = w.nodes[n as usize].disk.sm.apply(e);
                w.after_apply(n, e, &r);
                sm_durable(w, n);
                r
            });
            res.push(r);
            if i + 1 < es.len() {
                delay(n, us / 2, 0.1).await;
                self.enter().await;
            }
        }
        match f {
            Fault::CrashAfter => self.crash().await,
            Fault::ErrAfter => {
                let l = es.first().map(|e| e.log_id).unwrap_or_default();
                return Err(StorageError::apply(l, &io_err("apply")));
            }
            _ => {}
        }
        delay(n, us / 2, 0.2).await;
        self.enter().await;
        Ok(res)
    }

    async fn get_snapshot_builder(&mut self) -> SnapBuilder {
        self.enter().await;
        let n = self.n;
        let sm = w(|w| w.node(n).disk.sm.clone());
        SnapBuilder { n, g: self.g, sm }
    }

    async fn begin_receiving_snapshot(&mut self) -> Result<Box<SnapFile>, StorageError> {
        self.enter().await;
        Ok(Box::new(SnapFile::new(vec![], w(|w| w.cfg.snap_io))))
    }

    async fn install_snapshot(
        &mut self,
        meta: &SnapshotMeta,
        snapshot: Box<SnapFile>,
    ) -> Result<(), StorageError> {
        self.enter().await;
        let n = self.n;
        let bytes = snapshot.into_inner();
        let f = w(|w| w.storage_fault(n, Op::InstallSnapshot));
        match f {
            Fault::ErrBefore => return Err(StorageError::write_snapshot(Some(meta.signature()), &io_err("install"))),
            Fault::CrashBefore | Fault::CrashMid => self.crash().await,
            _ => {}
        }
        let us = w(|w| w.cfg.build_us);
        delay(n, us, 0.7).await;
        self.enter().await;
        w(|w| {
            w.on_install(n, meta, &bytes);
            if let Ok(sm) = Sm::decode(&bytes) {
                let d = &mut w.nodes[n as usize].disk;
                d.sm = sm;
                if d.snap.as_ref().and_then(|s| s.meta.last_log_id) < meta.last_log_id {
                    d.snap = Some(Snap { meta: meta.clone(), data: Rc::new(bytes) });
                }
            }
            sm_durable(w, n);
        });
        match f {
            Fault::CrashAfter => self.crash().await,
            Fault::ErrAfter => return Err(StorageError::write_snapshot(Some(meta.signature()), &io_err("install"))),
            _ => {}
        }
        delay(n, 50, 0.3).await;
        self.enter().await;
        Ok(())
    }

    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TC>>, StorageError> {
        self.enter().await;
        let n = self.n;
        let f = w(|w| w.storage_fault(n, Op::GetSnapshot));
        match f {
            Fault::None => {}
            Fault::ErrBefore | Fault::ErrAfter => return Err(StorageError::read_snapshot(None, &io_err("get_snapshot"))),
            _ => self.crash().await,
        }
        delay(n, 50, 0.3).await;
        self.enter().await;
        Ok(w(|w| {
            let mode = w.cfg.snap_io;
            w.node(n).disk.snap.as_ref().map(|s| Snapshot {
                meta: s.meta.clone(),
                snapshot: Box::new(SnapFile::new(s.data.as_ref().clone(), mode)),
            })
        }))
    }
}

pub struct SnapBuilder {
    n: Nid,
    g: GroupId,
    sm: Sm,
}

/// A snapshot is being built.
struct Building(Nid, rt::GroupId);
impl Building {
    fn start(n: Nid, g: rt::GroupId) -> Self {
        w(|w| {
            let b = &mut w.node(n).builds;
            *b = if b.0 == g { (g, b.1 + 1) } else { (g, 1) };
            if b.1 > 1 {
                let t = format!("n{} builds {} snapshots at once", n, b.1);
                w.violate(&["C17"], "a node builds more than one snapshot at a time", t);
            }
        });
        Building(n, g)
    }
}
impl Drop for Building {
    fn drop(&mut self) {
        // a node that crashes drops everything, maybe while the world is in use
        if rt::group_alive(self.1) {
            w(|w| {
                let b = &mut w.node(self.0).builds;
                if b.0 == self.1 {
                    b.1 -= 1;
                }
            })
        }
    }
}

impl RaftSnapshotBuilder<TC> for SnapBuilder {
    async fn build_snapshot(&mut self) -> Result<Snapshot<TC>, StorageError> {
        let (n, g) = (self.n, self.g);
        if gone(n, g) {
            hang().await;
        }
        let _one = Building::start(n, g);
        let f = w(|w| w.storage_fault(n, Op::BuildSnapshot));
        match f {
            Fault::ErrBefore => return Err(StorageError::write_snapshot(None, &io_err("build"))),
            Fault::CrashBefore | Fault::CrashMid => {
                driver::crash_now(n);
                hang().await;
            }
            _ => {}
        }
        let us = w(|w| w.cfg.build_us);
        delay(n, us, 0.9).await;
        if gone(n, g) {
            hang().await;
        }
        let snap = w(|w| {
            let pad = w.cfg.snap_pad;
            let pad = if pad > 0 { w.disk_rng.below(pad + 1) as usize } else { 0 };
            let data = self.sm.encode(pad);
            let d = &mut w.nodes[n as usize].disk;
            d.snap_counter += 1;
            let meta = SnapshotMeta {
                last_log_id: self.sm.applied,
                last_membership: self.sm.membership.clone(),
                snapshot_id: format!("{}-n{}-{}", fmt_lid(&self.sm.applied), n, d.snap_counter),
            };
            let data = Rc::new(data);
            // keep the newest
            if d.snap.as_ref().map(|s| s.meta.last_log_id <= meta.last_log_id).unwrap_or(true) {
                d.snap = Some(Snap { meta: meta.clone(), data: data.clone() });
            }
            sm_durable(w, n);
            w.on_built(n, &meta, &data, &self.sm);
            Snapshot { meta, snapshot: Box::new(SnapFile::new(data.as_ref().clone(), w.cfg.snap_io)) }
        });
        match f {
            Fault::CrashAfter => {
                driver::crash_now(n);
                hang().await;
            }
            Fault::ErrAfter => return Err(StorageError::write_snapshot(None, &io_err("build"))),
            _ => {}
        }
        delay(n, 50, 0.3).await;
        if gone(n, g) {
            hang().await;
        }
        Ok(snap)
    }
}
