//! One simulated life of a store: a writer of the log, readers of the log, an applier and installer of the
//! state machine, and a builder of snapshots work on it as the engine does, interleaved by a seeded
//! scheduler; processes die and storage fails at chosen system calls. Everything the store returns is
//! compared with a reference model.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::future::Future;
use std::io::Cursor;
use std::ops::Bound;
use std::panic::AssertUnwindSafe;
use std::path::Path;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::Condvar;
use std::sync::Mutex;
use std::task::Context;
use std::task::Poll;
use std::task::Wake;
use std::task::Waker;
use std::time::Duration;

use openraft::storage::IOFlushed;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftStateMachine;
use openraft::storage::StorageHelper;
use openraft::CommittedLeaderId;
use openraft::RaftLogReader;
use openraft::RaftSnapshotBuilder;
use openraft::SnapshotMeta;
use serde::Deserialize;
use serde::Serialize;

use crate::fsx;
use crate::kinds::*;
use crate::rng::mix;
use crate::rng::Rng;

type Vote = openraft::Vote<u64>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub property: String,
    pub seed: u64,
    pub kind: String,
    pub phases: Vec<Phase>,
    /// operations left out: (phase, actor, number)
    pub skip: BTreeSet<(usize, usize, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    /// operations of each actor
    pub ops: u64,
    /// what happens at the n-th system call that writes (none: the process dies between two operations)
    pub at: Option<(u64, fsx::Mode)>,
}

pub const ACTORS: [&str; 5] = ["writer", "reader", "reader", "state machine", "builder"];
const WRITER: usize = 0;
const SM: usize = 3;
const BUILDER: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub tags: Vec<String>,
}

#[derive(Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub harness: Option<String>,
    pub trace: u64,
    pub polls: u64,
    pub switches: u64,
    pub calls: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub seen: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub log: Vec<String>,
}

#[derive(Clone)]
struct Img {
    log: BTreeMap<u64, Rc<Ent>>,
    purged: Option<LogId>,
}
impl Img {
    fn last(&self) -> Option<LogId> {
        self.log.values().next_back().map(|e| e.lid).or(self.purged)
    }
}

struct W {
    cfg: Cfg,
    phase: usize,
    persist: bool,
    trace_on: bool,
    rep: Report,
    sched: Rng,
    /// the history the cluster agrees on
    truth: Vec<Rc<Ent>>,
    next_term: u64,
    serial: u64,
    /// reference image of the log and all versions of it, with the first that a reader may still see
    img: Img,
    vers: Vec<Img>,
    /// purged entries that were still there when the process started
    leftover: BTreeSet<LogId>,
    stable: usize,
    /// the first version a restart may find
    durable: usize,
    vote: Option<Vote>,
    votes: Vec<Option<Vote>>,
    vote_durable: usize,
    committed: Option<u64>,
    saved_committed: Option<LogId>,
    /// number of entries applied; while a batch is being applied `apply_hi` is where it ends
    applied: u64,
    apply_hi: u64,
    installed_durable: u64,
    /// (position) snapshots whose building or installing has returned / started
    snap_done: u64,
    snap_started: BTreeSet<u64>,
    building: Option<u64>,
    builder_ready: bool,
    installing: bool,
    purge_after_install: Option<u64>,
    inside: [bool; 5],
    failed: bool,
    finished: [bool; 5],
}

type H = Rc<RefCell<W>>;

impl W {
    fn violate(&mut self, tags: &[&str], kind: &str, detail: String) {
        let kind = format!("{}: {}", self.cfg.kind, kind);
        if self.trace_on {
            self.rep.log.push(format!("VIOLATION {} | {}", kind, detail));
        }
        if self.rep.violations.len() < 20 && !self.rep.violations.iter().any(|v| v.kind == kind) {
            self.rep.violations.push(Violation { kind, detail, tags: tags.iter().map(|x| x.to_string()).collect() });
        }
    }
    /// Tags of a broken promise of the log store.
    fn log_tags(&self) -> &'static [&'static str] {
        if self.persist {
            &["C34", "C33"]
        } else {
            &["C29", "C34"]
        }
    }
    fn call(&mut self, a: usize, s: String) {
        let name = s.split([' ', '(']).next().unwrap_or("").to_string();
        *self.rep.calls.entry(format!("{} {}", self.cfg.kind, name)).or_default() += 1;
        for b in s.bytes() {
            self.rep.trace = mix(self.rep.trace, b as u64 + 7);
        }
        if self.trace_on {
            self.rep.log.push(format!("[{}] {}: {}", self.phase, ACTORS[a], s));
        }
    }
    fn saw(&mut self, s: &str) {
        *self.rep.seen.entry(s.to_string()).or_default() += 1;
    }
    /// The state machine after the first n entries.
    fn state_at(&self, n: u64) -> SmState {
        let mut s = SmState::default();
        for e in &self.truth[..n as usize] {
            s.applied = Some(e.lid);
            match &e.pl {
                Pl::Blank => {}
                Pl::Set(k, v) => {
                    s.data.insert(k.clone(), v.clone());
                }
                Pl::Mem(c) => s.mem = (Some(e.lid), c.clone()),
            }
        }
        s
    }
    /// how many entries of the true history are below or at this position
    fn pos(&self, l: Option<LogId>) -> u64 {
        l.map(|l| l.index + 1).unwrap_or(0)
    }
    /// a run with more applying and building, and fewer installations
    fn busy(&self) -> bool {
        mix(self.cfg.seed, 77) % 2 == 0
    }
    fn new_entry(&mut self, index: u64, term: u64, node: u64, r: &mut Rng) -> Rc<Ent> {
        self.serial += 1;
        let pl = if index == 0 || r.chance(if self.busy() { 0.3 } else { 0.12 }) {
            let mut c = vec![];
            for _ in 0..r.range(1, 2) {
                let mut s = BTreeSet::new();
                for n in 1..=5 {
                    if r.chance(0.5) {
                        s.insert(n);
                    }
                }
                s.insert(1);
                c.push(s);
            }
            Pl::Mem(c)
        } else if r.chance(0.15) {
            Pl::Blank
        } else {
            let v = if r.chance(0.05) { "x".repeat(r.range(200, 3000) as usize) } else { String::new() };
            Pl::Set(format!("k{}", r.below(6)), format!("v{}{}", self.serial, v))
        };
        Rc::new(Ent { lid: LogId::new(CommittedLeaderId::new(term, node), index), pl })
    }
    /// the true history up to n entries
    fn extend_truth(&mut self, n: u64, r: &mut Rng) {
        while (self.truth.len() as u64) < n {
            let i = self.truth.len() as u64;
            let t = if i == 0 { 0 } else { self.next_term };
            let e = self.new_entry(i, t, if i == 0 { 0 } else { 1 }, r);
            self.truth.push(e);
            if r.chance(0.1) {
                self.next_term += 1;
            }
        }
    }
    /// entries of the node's log that agree with the true history: up to this count
    fn true_len(&self) -> u64 {
        let mut n = self.pos(self.img.purged);
        while let (Some(a), Some(b)) = (self.img.log.get(&n), self.truth.get(n as usize)) {
            if a.lid != b.lid {
                break;
            }
            n += 1;
        }
        n
    }
    fn version(&mut self) {
        let i = self.img.clone();
        self.vers.push(i);
    }
    fn state_hash(&mut self) {
        let last = self.pos(self.img.last());
        let t = self.true_len();
        let c = |x: u64| x.min(6);
        let v = [
            c(last - t.min(last)),
            c(t.saturating_sub(self.committed.map(|x| x + 1).unwrap_or(0))),
            c(self.committed.map(|x| x + 1).unwrap_or(0).saturating_sub(self.applied)),
            c(self.applied.saturating_sub(self.snap_done)),
            c(self.snap_done.saturating_sub(self.pos(self.img.purged))),
            self.installing as u64,
            self.building.is_some() as u64,
            self.inside.iter().fold(0, |a, b| a * 2 + *b as u64),
            self.phase.min(3) as u64,
            self.cfg.kind.len() as u64,
        ];
        let h = v.iter().fold(17, |a, b| mix(a, *b));
        self.rep.states.push(h);
    }
}

// ---- scheduler ----------------------------------------------------------------------------------------

struct Flag {
    set: Mutex<bool>,
    cv: Arc<(Mutex<u64>, Condvar)>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        *self.set.lock().unwrap() = true;
        let mut g = self.cv.0.lock().unwrap();
        *g += 1;
        self.cv.1.notify_all();
    }
}

async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}

/// Drive a call into a store: at a random point tokio's cooperative budget runs out, so that the locks
/// inside the store are points where another task may run. `None`: the process died meanwhile.
async fn call<F: Future>(h: &H, a: usize, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    h.borrow_mut().inside[a] = true;
    let r = std::future::poll_fn(|cx| {
        let left = {
            let mut w = h.borrow_mut();
            if w.sched.chance(0.4) {
                None
            } else {
                Some(w.sched.below(3))
            }
        };
        RT.with(|rt| {
            rt.block_on(std::future::poll_fn(|_| {
                if let Some(left) = left {
                    let nw = noop();
                    for _ in 0..(128 - left) {
                        let mut b = Box::pin(tokio::task::consume_budget());
                        let mut n = Context::from_waker(&nw);
                        let _ = b.as_mut().poll(&mut n);
                    }
                }
                let p = f.as_mut().poll(cx);
                if left.is_some() && p.is_pending() {
                    // the runtime wakes a task that ran out of budget only at its own next turn
                    cx.waker().wake_by_ref();
                }
                Poll::Ready(p)
            }))
        })
    })
    .await;
    h.borrow_mut().inside[a] = false;
    if fsx::frozen() {
        std::mem::forget(r);
        return None;
    }
    Some(r)
}

fn noop() -> Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: Arc<Self>) {}
    }
    Waker::from(Arc::new(N))
}

enum End {
    Done,
    Frozen,
    Failed,
    Stuck(String),
    Panic(String),
}

fn schedule(h: &H, mut tasks: Vec<(usize, Pin<Box<dyn Future<Output = ()>>>)>, threads: bool) -> End {
    let cv = Arc::new((Mutex::new(0u64), Condvar::new()));
    let flags: Vec<Arc<Flag>> = tasks.iter().map(|_| Arc::new(Flag { set: Mutex::new(true), cv: cv.clone() })).collect();
    let mut live: Vec<usize> = (0..tasks.len()).collect();
    let mut last = usize::MAX;
    let mut n = 0u64;
    // a task that tends to run, so that long bursts happen too
    let sticky = h.borrow_mut().sched.f() * 0.98;
    while !live.is_empty() {
        let mut ready: Vec<usize> = live.iter().copied().filter(|i| *flags[*i].set.lock().unwrap()).collect();
        if ready.is_empty() {
            // everyone waits: for a thread of the store, or for ever
            let g = cv.0.lock().unwrap();
            let (g, to) = cv
                .1
                .wait_timeout_while(g, Duration::from_secs(if threads { 20 } else { 0 }), |_| {
                    !live.iter().any(|i| *flags[*i].set.lock().unwrap())
                })
                .unwrap();
            drop(g);
            if to.timed_out() {
                let who: Vec<&str> = live.iter().map(|i| ACTORS[tasks[*i].0]).collect();
                return End::Stuck(format!("{:?} wait for ever", who));
            }
            continue;
        }
        ready.sort();
        let i = {
            let mut w = h.borrow_mut();
            w.rep.polls += 1;
            if ready.contains(&last) && w.sched.chance(sticky) {
                last
            } else {
                *w.sched.pick(&ready)
            }
        };
        if i != last {
            let mut w = h.borrow_mut();
            w.rep.switches += 1;
            w.rep.trace = mix(w.rep.trace, 100 + tasks[i].0 as u64);
        }
        last = i;
        *flags[i].set.lock().unwrap() = false;
        let wk = Waker::from(flags[i].clone());
        let mut cx = Context::from_waker(&wk);
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| tasks[i].1.as_mut().poll(&mut cx)));
        if fsx::frozen() {
            return End::Frozen;
        }
        match r {
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                return End::Panic(format!("{} panicked: {}", ACTORS[tasks[i].0], m));
            }
            Ok(Poll::Ready(())) => live.retain(|x| *x != i),
            Ok(Poll::Pending) => {
                // An operation that waits for a thread of the store is let finish before anything else
                // is chosen: what happens next must not depend on how fast that thread is.
                if threads && !*flags[i].set.lock().unwrap() {
                    let others = {
                        let w = h.borrow();
                        (0..5).any(|a| a != tasks[i].0 && w.inside[a])
                    };
                    let lim = if others { 200 } else { 20_000 };
                    let g = cv.0.lock().unwrap();
                    let f = flags[i].clone();
                    let _ = cv.1.wait_timeout_while(g, Duration::from_millis(lim), |_| !*f.set.lock().unwrap()).unwrap();
                    if fsx::frozen() {
                        return End::Frozen;
                    }
                }
            }
        }
        if h.borrow().failed {
            return End::Failed;
        }
        n += 1;
        if n > 200_000 {
            return End::Stuck("no progress".into());
        }
    }
    End::Done
}

// ---- actors -------------------------------------------------------------------------------------------

fn op_rng(h: &H, a: usize, k: u64) -> Rng {
    let w = h.borrow();
    Rng::new(mix(mix(w.cfg.seed, 1000 * w.phase as u64 + a as u64), k))
}

fn skipped(h: &H, a: usize, k: u64) -> bool {
    let w = h.borrow();
    w.cfg.skip.contains(&(w.phase, a, k))
}

fn io_failed(h: &H, a: usize, what: &str, e: String) {
    let mut w = h.borrow_mut();
    w.failed = true;
    let injected = fsx::with(|f| f.done.iter().any(|d| *d == "I/O error" || *d == "disk full")).unwrap_or(false);
    if injected {
        w.saw("storage error reported");
    } else {
        let t: &[&str] = if a == SM || a == BUILDER { &["C34"] } else { w.log_tags() };
        w.violate(t, "an operation failed without a fault", format!("{} of {}: {}", what, ACTORS[a], e));
    }
}

async fn writer<K: Kind>(h: H, mut l: K::L, ops: u64) {
    let a = WRITER;
    let mut k = 0;
    loop {
        yield_now().await;
        // the purge that follows an installed snapshot comes before anything else
        let must = h.borrow().purge_after_install;
        if must.is_none() {
            k += 1;
            if k > ops {
                if h.borrow().installing {
                    continue;
                }
                break;
            }
            if skipped(&h, a, k) {
                continue;
            }
        }
        let mut r = op_rng(&h, a, k);
        h.borrow_mut().state_hash();
        let busy = h.borrow().busy();
        let x = if must.is_some() {
            90
        } else if busy && r.chance(0.3) {
            60
        } else {
            r.below(100)
        };
        let installing = h.borrow().installing;
        if installing && must.is_none() && !(45..65).contains(&x) {
            continue;
        }
        match x {
            // append
            0..=44 => {
                let es: Vec<Rc<Ent>> = {
                    let mut w = h.borrow_mut();
                    let t = w.true_len();
                    let end = w.pos(w.img.last());
                    let hi = if r.chance(0.2) { 12 } else { 4 };
                    let n = r.range(1, hi);
                    let mut v = vec![];
                    if t == end && r.chance(0.75) {
                        w.extend_truth(end + n, &mut r);
                        v.extend(w.truth[end as usize..(end + n) as usize].iter().cloned());
                    } else {
                        // a leader that will not succeed: conflicting entries
                        let term = w.img.last().map(|l| l.leader_id.get_term()).unwrap_or(0).max(w.next_term);
                        for i in 0..n {
                            let e = w.new_entry(end + i, term, 9, &mut r);
                            v.push(e);
                        }
                        w.next_term = w.next_term.max(term + 1);
                        // entries of the true history that nobody has yet are written later, in a later term
                        w.saw("conflicting entries appended");
                    }
                    v
                };
                let last = es.last().unwrap().lid;
                {
                    let mut w = h.borrow_mut();
                    w.call(a, format!("append {} up to {}", es.len(), last));
                    for e in &es {
                        w.img.log.insert(e.lid.index, e.clone());
                        if K::PERSIST {
                            w.version();
                        }
                    }
                    if !K::PERSIST {
                        w.version();
                    }
                }
                let (cb, probe) = IOFlushed::<K::C>::observed(last);
                let probe = Arc::new(Mutex::new((probe, None::<bool>, 0u32)));
                let p2 = probe.clone();
                let look = move || {
                    let mut g = p2.lock().unwrap();
                    while let Some(x) = (g.0)() {
                        g.1 = Some(x);
                        g.2 += 1;
                    }
                    g.1
                };
                let l2 = look.clone();
                fsx::with(|f| f.probe = Some(Box::new(l2)));
                let ents: Vec<_> = es.iter().map(|e| K::entry(e)).collect();
                let Some(res) = call(&h, a, l.append(ents, cb)).await else { return };
                fsx::with(|f| f.probe = None);
                let got = look();
                let times = probe.lock().unwrap().2;
                if let Err(e) = res {
                    if got == Some(true) {
                        let mut w = h.borrow_mut();
                        let t = w.log_tags();
                        w.violate(t, "a failed append was reported as flushed", e.to_string());
                    }
                    io_failed(&h, a, "append", e.to_string());
                    return;
                }
                let mut w = h.borrow_mut();
                if got != Some(true) || times != 1 {
                    let t = w.log_tags();
                    w.violate(t, "append returned without reporting the flush exactly once", format!("{} reports, last {:?}", times, got));
                }
                w.stable = w.vers.len() - 1;
                w.durable = w.stable;
            }
            // vote
            45..=56 => {
                let v = {
                    let mut w = h.borrow_mut();
                    let t = w.vote.map(|v| v.leader_id.get_term()).unwrap_or(0) + r.range(1, 3);
                    let n = r.range(1, 5);
                    let mut v = if r.chance(0.5) { Vote::new(t, n) } else { Vote::new_committed(t, n) };
                    if let Some(o) = w.vote {
                        if !o.committed && r.chance(0.4) {
                            v = o;
                            v.committed = true;
                        }
                    }
                    w.call(a, format!("save_vote {}", v));
                    w.vote = Some(v);
                    let x = w.vote;
                    w.votes.push(x);
                    v
                };
                let Some(res) = call(&h, a, l.save_vote(&v)).await else { return };
                if let Err(e) = res {
                    io_failed(&h, a, "save_vote", e.to_string());
                    return;
                }
                let mut w = h.borrow_mut();
                w.vote_durable = w.votes.len() - 1;
            }
            // commit
            57..=64 => {
                let c = {
                    let mut w = h.borrow_mut();
                    let t = w.true_len();
                    if t == 0 || installing {
                        continue;
                    }
                    let lo = w.committed.unwrap_or(0);
                    let c = if r.chance(0.5) { t - 1 } else { r.range(lo.min(t - 1), t - 1) };
                    if Some(c) <= w.committed || c as usize >= w.truth.len() {
                        continue;
                    }
                    w.committed = Some(c);
                    let l = w.truth[c as usize].lid;
                    w.call(a, format!("save_committed {}", l));
                    l
                };
                let Some(res) = call(&h, a, l.save_committed(Some(c))).await else { return };
                if let Err(e) = res {
                    io_failed(&h, a, "save_committed", e.to_string());
                    return;
                }
                h.borrow_mut().saved_committed = Some(c);
                let Some(res) = call(&h, a, l.read_committed()).await else { return };
                let want = if K::COMMITTED { Some(c) } else { None };
                if res.as_ref().ok() != Some(&want) {
                    let mut w = h.borrow_mut();
                    let t = w.log_tags();
                    w.violate(t, "read_committed returned another log id than saved", format!("{:?} {:?}", res, want));
                }
            }
            // truncate
            65..=74 => {
                let at = {
                    let mut w = h.borrow_mut();
                    let t = w.true_len();
                    let end = w.pos(w.img.last());
                    let floor = w.committed.map(|c| c + 1).unwrap_or(0).max(w.pos(w.img.purged)).max(w.applied);
                    if floor >= end {
                        continue;
                    }
                    let from = if t < end && r.chance(0.7) { t.max(floor) } else { r.range(floor, end - 1) };
                    let lid = w.img.log[&from].lid;
                    w.call(a, format!("truncate {}", lid));
                    w.saw("truncate");
                    w.img.log.split_off(&from);
                    w.version();
                    // entries of the true history above are not agreed on by anyone any more
                    lid
                };
                let Some(res) = call(&h, a, l.truncate(at)).await else { return };
                if let Err(e) = res {
                    io_failed(&h, a, "truncate", e.to_string());
                    return;
                }
                let mut w = h.borrow_mut();
                w.stable = w.vers.len() - 1;
                w.durable = w.stable;
            }
            // purge
            75..=90 => {
                let upto = {
                    let mut w = h.borrow_mut();
                    let lim = w.snap_done.min(w.applied);
                    let lo = w.pos(w.img.purged);
                    let p = match must {
                        Some(p) => {
                            w.purge_after_install = None;
                            p
                        }
                        None if lim > lo => r.range(lo + 1, lim),
                        None => continue,
                    };
                    let lid = w.truth[p as usize - 1].lid;
                    w.call(a, format!("purge {}", lid));
                    w.saw("purge");
                    w.img.purged = Some(lid);
                    w.version();
                    w.img.log = w.img.log.split_off(&p);
                    w.version();
                    lid
                };
                let Some(res) = call(&h, a, l.purge(upto)).await else { return };
                if let Err(e) = res {
                    io_failed(&h, a, "purge", e.to_string());
                    return;
                }
                let mut w = h.borrow_mut();
                // a purge need not be durable when it returns
                w.stable = w.vers.len() - 1;
            }
            // log state
            _ => {
                let Some(res) = call(&h, a, l.get_log_state()).await else { return };
                let mut w = h.borrow_mut();
                w.call(a, "get_log_state".into());
                let (p, last) = (w.img.purged, w.img.last());
                match res {
                    Err(e) => {
                        drop(w);
                        io_failed(&h, a, "get_log_state", e.to_string());
                        return;
                    }
                    Ok(s) if s.last_purged_log_id != p || s.last_log_id != last => {
                        let t = w.log_tags();
                        w.violate(t, "wrong log state", format!("got {:?}, expected purged {:?} last {:?}", s, p, last));
                    }
                    _ => {}
                }
            }
        }
    }
}

fn short(e: &[Ent]) -> String {
    let v: Vec<String> = e.iter().map(|e| format!("{}", e.lid)).collect();
    if v.len() > 12 {
        format!("{} .. {} ({})", v[..3].join(" "), v[v.len() - 3..].join(" "), v.len())
    } else {
        v.join(" ")
    }
}

async fn reader<K: Kind>(h: H, mut l: K::L, a: usize, ops: u64) {
    let mut rd = l.get_log_reader().await;
    for k in 1..=ops {
        yield_now().await;
        if skipped(&h, a, k) {
            continue;
        }
        let mut r = op_rng(&h, a, k);
        if r.chance(0.1) {
            let lo = h.borrow().vote_durable;
            let Some(res) = call(&h, a, rd.read_vote()).await else { return };
            let mut w = h.borrow_mut();
            w.call(a, "read_vote".into());
            match res {
                Err(e) => {
                    drop(w);
                    io_failed(&h, a, "read_vote", e.to_string());
                    return;
                }
                Ok(v) => {
                    if !w.votes[lo..].contains(&v) {
                        let t = w.log_tags();
                        let x = format!("got {:?}, saved {:?}", v, &w.votes[lo..]);
                        w.violate(t, "read_vote returned a vote that is not the last saved", x);
                    }
                }
            }
            continue;
        }
        let (s, e, how, lo) = {
            let mut w = h.borrow_mut();
            let last = w.pos(w.img.last());
            let first = w.pos(w.img.purged);
            let any = r.chance(0.25);
            let s = if any { r.below(last + 3) } else { r.range(first, last) };
            let hi = if r.chance(0.2) { 30 } else { 6 };
            let e = s + r.below(hi);
            let how = r.below(6);
            let lo = w.stable;
            w.call(a, format!("read [{},{}) way {}", s, e, how));
            (s, e, how, lo)
        };
        let inc_end = e.saturating_sub(1);
        let res = match how {
            // the usual way
            0 | 1 => call(&h, a, rd.try_get_log_entries(s..e)).await,
            2 if e > s => call(&h, a, rd.limited_get_log_entries(s, e)).await,
            3 if e > s => call(&h, a, rd.try_get_log_entries(s..=inc_end)).await,
            4 if e > s && s > 0 => call(&h, a, rd.try_get_log_entries((Bound::Excluded(s - 1), Bound::Excluded(e)))).await,
            5 if e > s => call(&h, a, rd.try_get_log_entries((Bound::Included(s), Bound::Included(inc_end)))).await,
            _ => call(&h, a, rd.try_get_log_entries(s..e)).await,
        };
        let Some(res) = res else { return };
        let got: Vec<Ent> = match res {
            Ok(v) => v.iter().map(|e| K::unentry(e)).collect(),
            Err(e) => {
                io_failed(&h, a, "reading", e.to_string());
                return;
            }
        };
        let mut w = h.borrow_mut();
        let ok = w.vers[lo..].iter().any(|v| {
            // what a purge that a crash interrupted left behind is ignored by the engine
            let got: Vec<&Ent> = got.iter().filter(|e| Some(e.lid.index) > v.purged.map(|p| p.index) || !w.leftover.contains(&e.lid)).collect();
            let want = if e > s { v.log.range(s..e).map(|x| x.1.clone()).collect::<Vec<_>>() } else { vec![] };
            want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| **a == **b)
        });
        if w.vers.len() - 1 > lo {
            w.saw("read while the log changes");
        }
        if !ok {
            let now: Vec<Ent> = w.img.log.range(s..e.max(s)).map(|x| (**x.1).clone()).collect();
            let t = w.log_tags();
            w.violate(t, "reading the log returned other entries than stored", format!("[{},{}) got {} | stored {}", s, e, short(&got), short(&now)));
        }
    }
}

async fn state_machine<K: Kind>(h: H, mut s: K::S, ops: u64, slot: Rc<RefCell<Option<<K::S as RaftStateMachine<K::C>>::SnapshotBuilder>>>) {
    let a = SM;
    for k in 1..=ops {
        yield_now().await;
        if skipped(&h, a, k) {
            continue;
        }
        let mut r = op_rng(&h, a, k);
        let busy = h.borrow().busy();
        let mut x = r.below(100);
        if busy && x >= 58 && r.chance(0.6) {
            x = if r.chance(0.5) { 0 } else { 70 };
        }
        match x {
            // apply
            0..=49 => {
                let (lo, n) = {
                    let mut w = h.borrow_mut();
                    let lim = w.committed.map(|c| c + 1).unwrap_or(0);
                    if lim <= w.applied {
                        continue;
                    }
                    let lo = w.applied;
                    let n = if r.chance(0.5) { lim - lo } else { r.range(1, lim - lo) };
                    w.apply_hi = lo + n;
                    w.call(a, format!("apply {} from {}", n, lo));
                    (lo, n)
                };
                let es: Vec<_> = h.borrow().truth[lo as usize..(lo + n) as usize].iter().map(|e| K::entry(e)).collect();
                let Some(res) = call(&h, a, s.apply(es)).await else { return };
                match res {
                    Err(e) => {
                        io_failed(&h, a, "apply", e.to_string());
                        return;
                    }
                    Ok(v) => {
                        let mut w = h.borrow_mut();
                        let mut st = w.state_at(lo);
                        let mut want = vec![];
                        for e in &w.truth[lo as usize..(lo + n) as usize] {
                            want.push(match &e.pl {
                                Pl::Set(k, v) => {
                                    let old = st.data.insert(k.clone(), v.clone());
                                    if K::PREVIOUS {
                                        old
                                    } else {
                                        Some(v.clone())
                                    }
                                }
                                _ => None,
                            });
                        }
                        let got: Vec<_> = v.iter().map(|x| K::resp(x)).collect();
                        if got != want {
                            w.violate(&["C34"], "wrong responses of apply", format!("entries from {}: got {:?}, expected {:?}", lo, got, want));
                        }
                        w.applied = lo + n;
                    }
                }
            }
            // position
            50..=57 => {
                let Some(res) = call(&h, a, s.applied_state()).await else { return };
                let mut w = h.borrow_mut();
                w.call(a, "applied_state".into());
                let want = w.state_at(w.applied);
                match res {
                    Ok((l, m)) => {
                        let m = K::unstored(&m);
                        if l != want.applied || (m.0.is_some() || want.mem.0.is_some()) && m != want.mem {
                            w.violate(&["C34"], "wrong applied state", format!("got {:?} {:?}, expected {:?} {:?}", l, m, want.applied, want.mem));
                        }
                    }
                    Err(e) => {
                        drop(w);
                        io_failed(&h, a, "applied_state", e.to_string());
                        return;
                    }
                }
            }
            // current snapshot
            58..=69 => {
                let lo = h.borrow().snap_done;
                let Some(res) = call(&h, a, s.get_current_snapshot()).await else { return };
                let mut w = h.borrow_mut();
                w.call(a, "get_current_snapshot".into());
                match res {
                    Err(e) => {
                        drop(w);
                        io_failed(&h, a, "get_current_snapshot", e.to_string());
                        return;
                    }
                    Ok(None) => {
                        if lo > 0 {
                            w.violate(&["C34"], "the current snapshot is gone", format!("there was one at {}", lo));
                        }
                    }
                    Ok(Some(sn)) => check_snapshot::<K>(&mut w, &sn, lo, u64::MAX, "current", &["C34"]),
                }
            }
            // hand out a builder
            70..=84 => {
                {
                    let w = h.borrow();
                    if w.building.is_some() {
                        continue;
                    }
                }
                let Some(b) = call(&h, a, s.get_snapshot_builder()).await else { return };
                let mut w = h.borrow_mut();
                w.call(a, "get_snapshot_builder".into());
                w.building = Some(w.applied);
                w.builder_ready = true;
                *slot.borrow_mut() = Some(b);
            }
            // install
            85..=94 => {
                let n = {
                    let mut w = h.borrow_mut();
                    if w.installing || w.inside[WRITER] || w.purge_after_install.is_some() {
                        continue;
                    }
                    // from a leader ahead of this node
                    let c = w.committed.map(|c| c + 1).unwrap_or(0).max(w.applied);
                    let mut n = c + r.range(1, 12);
                    let t = w.true_len();
                    // an entry that conflicts at the snapshot's position is removed first by the engine:
                    // here such a log ends at or below the snapshot
                    let end = w.pos(w.img.last());
                    if end > t {
                        n = n.max(end);
                    }
                    if n > t {
                        // what this node has above was never agreed on: the cluster went on otherwise
                        w.truth.truncate(t as usize);
                    }
                    w.extend_truth(n, &mut r);
                    w.installing = true;
                    w.call(a, format!("install_snapshot up to {}", n - 1));
                    w.saw("install snapshot");
                    if end > t {
                        w.saw("install over a conflicting log");
                    }
                    if w.building.is_some() {
                        w.saw("install while a snapshot is built");
                    }
                    w.snap_started.insert(n);
                    n
                };
                let st = h.borrow().state_at(n);
                let bytes = K::encode(&st);
                let meta = SnapshotMeta::<K::C> {
                    last_log_id: st.applied,
                    last_membership: K::stored(&st.mem),
                    snapshot_id: format!("leader-{}-{}", n, k),
                };
                let Some(rc) = call(&h, a, s.begin_receiving_snapshot()).await else { return };
                match rc {
                    Ok(mut c) => {
                        if !c.get_ref().is_empty() || c.position() != 0 {
                            h.borrow_mut().violate(&["C34"], "begin_receiving_snapshot gave a buffer that is not empty", format!("{} bytes", c.get_ref().len()));
                        }
                        *c = Cursor::new(bytes);
                        let Some(res) = call(&h, a, s.install_snapshot(&meta, c)).await else { return };
                        if let Err(e) = res {
                            io_failed(&h, a, "install_snapshot", e.to_string());
                            return;
                        }
                    }
                    Err(e) => {
                        io_failed(&h, a, "begin_receiving_snapshot", e.to_string());
                        return;
                    }
                }
                let mut w = h.borrow_mut();
                w.applied = n;
                w.apply_hi = n;
                w.installed_durable = n;
                w.committed = w.committed.max(Some(n - 1));
                w.snap_done = w.snap_done.max(n);
                w.installing = false;
                w.purge_after_install = Some(n);
            }
            // what is in there, seen through a snapshot of it
            _ => {
                let busy = h.borrow().building.is_some();
                if busy {
                    continue;
                }
                h.borrow_mut().building = Some(0);
                let Some(mut b) = call(&h, a, s.get_snapshot_builder()).await else { return };
                let n = {
                    let mut w = h.borrow_mut();
                    w.call(a, "build_snapshot (inspect)".into());
                    let n = w.applied;
                    w.snap_started.insert(n);
                    n
                };
                let Some(res) = call(&h, a, b.build_snapshot()).await else { return };
                let mut w = h.borrow_mut();
                w.building = None;
                match res {
                    Ok(sn) => {
                        check_snapshot::<K>(&mut w, &sn, n, n, "built", &["C34"]);
                        w.snap_done = w.snap_done.max(n);
                    }
                    Err(e) => {
                        drop(w);
                        io_failed(&h, a, "build_snapshot", e.to_string());
                        return;
                    }
                }
            }
        }
    }
    h.borrow_mut().finished[SM] = true;
}

fn check_snapshot<K: Kind>(w: &mut W, sn: &openraft::storage::Snapshot<K::C>, lo: u64, hi: u64, what: &str, tags: &[&str]) {
    let n = w.pos(sn.meta.last_log_id);
    if n < lo {
        w.violate(tags, &format!("the {} snapshot is older than one known before", what), format!("at {:?}, before at {}", sn.meta.last_log_id, lo as i64 - 1));
    }
    if n > hi || n as usize > w.truth.len() {
        w.violate(tags, &format!("the {} snapshot is ahead of the state machine", what), format!("at {:?}, state machine at {}", sn.meta.last_log_id, hi as i64 - 1));
        return;
    }
    let want = w.state_at(n);
    let m = K::unstored(&sn.meta.last_membership);
    if sn.meta.last_log_id != want.applied || (m.0.is_some() || want.mem.0.is_some()) && m != want.mem {
        w.violate(tags, &format!("the {} snapshot's meta data is wrong", what), format!("{:?}, expected {:?} {:?}", sn.meta, want.applied, want.mem));
    }
    match K::decode(sn.snapshot.get_ref()) {
        None => w.violate(tags, &format!("the {} snapshot cannot be decoded", what), format!("{} bytes", sn.snapshot.get_ref().len())),
        Some(mut g) => {
            if g.mem.0.is_none() && want.mem.0.is_none() {
                g.mem = want.mem.clone();
            }
            if g != want {
                w.violate(tags, &format!("the {} snapshot's content is not the state at its position", what), diff(&g, &want));
            }
        }
    }
}

fn diff(g: &SmState, w: &SmState) -> String {
    let cut = |s: &String| s.chars().take(12).collect::<String>();
    let mut o = vec![];
    if g.applied != w.applied {
        o.push(format!("position {:?} expected {:?}", g.applied, w.applied));
    }
    if g.mem != w.mem {
        o.push(format!("membership {:?} expected {:?}", g.mem, w.mem));
    }
    for k in g.data.keys().chain(w.data.keys()).collect::<BTreeSet<_>>() {
        if g.data.get(k) != w.data.get(k) {
            o.push(format!("{} = {:?} expected {:?}", k, g.data.get(k).map(cut), w.data.get(k).map(cut)));
        }
    }
    o.join("; ")
}

async fn builder<K: Kind>(h: H, slot: Rc<RefCell<Option<<K::S as RaftStateMachine<K::C>>::SnapshotBuilder>>>) {
    let a = BUILDER;
    loop {
        yield_now().await;
        let b = slot.borrow_mut().take();
        let Some(mut b) = b else {
            if h.borrow().finished[SM] {
                return;
            }
            continue;
        };
        // the task that builds may be late
        let late = { h.borrow_mut().sched.below(12) };
        for _ in 0..late {
            yield_now().await;
        }
        let lo = {
            let mut w = h.borrow_mut();
            w.call(a, "build_snapshot".into());
            let lo = w.building.unwrap_or(0);
            lo
        };
        let Some(res) = call(&h, a, b.build_snapshot()).await else { return };
        let mut w = h.borrow_mut();
        w.building = None;
        match res {
            Ok(sn) => {
                let hi = w.apply_hi;
                let hi = if w.installing { u64::MAX } else { hi };
                check_snapshot::<K>(&mut w, &sn, lo, hi, "built", &["C34"]);
                let n = w.pos(sn.meta.last_log_id);
                if n > lo {
                    w.saw("built a later state than when asked");
                }
                w.snap_done = w.snap_done.max(n);
            }
            Err(e) => {
                drop(w);
                io_failed(&h, a, "build_snapshot", e.to_string());
                return;
            }
        }
    }
}

// ---- a run --------------------------------------------------------------------------------------------

/// Poll a future to the end on this thread, waiting for the store's threads.
fn block<F: Future>(f: F) -> Option<F::Output> {
    let cv = Arc::new((Mutex::new(0u64), Condvar::new()));
    let flag = Arc::new(Flag { set: Mutex::new(false), cv: cv.clone() });
    let wk = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&wk);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        let g = cv.0.lock().unwrap();
        let (g, to) = cv.1.wait_timeout_while(g, Duration::from_secs(20), |_| !*flag.set.lock().unwrap()).unwrap();
        drop(g);
        if to.timed_out() {
            return None;
        }
        *flag.set.lock().unwrap() = false;
    }
}

pub fn run(cfg: &Cfg, work: &Path, trace_on: bool) -> Report {
    match cfg.kind.as_str() {
        "memstore" => go::<Mem>(cfg, work, trace_on),
        "example-memstore" => go::<MemEx>(cfg, work, trace_on),
        "rocksstore" => go::<Rocks>(cfg, work, trace_on),
        "sledstore" => go::<Sled>(cfg, work, trace_on),
        k => Report { harness: Some(format!("no such store {}", k)), ..Default::default() },
    }
}

fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|p| p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
}

fn go<K: Kind>(cfg: &Cfg, work: &Path, trace_on: bool) -> Report {
    let h: H = Rc::new(RefCell::new(W {
        cfg: cfg.clone(),
        phase: 0,
        persist: K::PERSIST,
        trace_on,
        rep: Report::default(),
        sched: Rng::new(mix(cfg.seed, 77)),
        truth: vec![],
        next_term: 1,
        serial: 0,
        img: Img { log: BTreeMap::new(), purged: None },
        vers: vec![Img { log: BTreeMap::new(), purged: None }],
        leftover: BTreeSet::new(),
        stable: 0,
        durable: 0,
        vote: None,
        votes: vec![None],
        vote_durable: 0,
        committed: None,
        saved_committed: None,
        applied: 0,
        apply_hi: 0,
        installed_durable: 0,
        snap_done: 0,
        snap_started: BTreeSet::new(),
        building: None,
        builder_ready: false,
        installing: false,
        purge_after_install: None,
        inside: [false; 5],
        failed: false,
        finished: [false; 5],
    }));
    let mut old: Vec<K::L> = vec![];
    let _ = std::fs::remove_dir_all(work);
    for (i, ph) in cfg.phases.iter().enumerate() {
        let dir = work.join(format!("d{}", i));
        let next = work.join(format!("d{}", i + 1));
        if K::PERSIST {
            let _ = std::fs::create_dir_all(&dir);
        }
        {
            let mut w = h.borrow_mut();
            w.phase = i;
            w.sched = Rng::new(mix(mix(cfg.seed, 77), i as u64));
            w.failed = false;
            w.inside = [false; 5];
            w.finished = [false; 5];
            w.building = None;
            w.installing = false;
            w.purge_after_install = None;
        }
        fsx::arm(&dir, &next, K::OWN_RECOVERY, true, true, if K::PERSIST { ph.at } else { None }, mix(cfg.seed, 900 + i as u64));
        // open, and start as the engine starts
        let opened = caught(|| block(K::open(&dir)));
        if K::OWN_RECOVERY {
            fsx::start();
        }
        if fsx::frozen() {
            finish_phase::<K>(&h);
            if let Ok(Some(x)) = opened {
                old.push(x.0);
            }
            h.borrow_mut().saw("crash while opening");
            continue;
        }
        let (mut l, mut s) = match opened {
            Ok(Some(x)) => x,
            o => {
                let why = o.err().unwrap_or("it hangs".into());
                let injected = fsx::with(|f| f.done.iter().any(|d| *d == "I/O error" || *d == "disk full")).unwrap_or(false);
                if injected {
                    // a process that cannot start is started again
                    fsx::freeze_now();
                    finish_phase::<K>(&h);
                    continue;
                }
                h.borrow_mut().violate(&["C33"], "the store does not open after a crash", why);
                break;
            }
        };
        if i > 0 && K::PERSIST {
            let ok = caught(|| block(recovered::<K>(&h, &mut l, &mut s)));
            if fsx::frozen() {
                old.push(l);
                finish_phase::<K>(&h);
                h.borrow_mut().saw("crash while starting");
                continue;
            }
            match ok {
                Ok(Some(true)) => {}
                Ok(Some(false)) => {
                    old.push(l);
                    if h.borrow().failed {
                        // an injected error: the process stops and is started again
                        fsx::freeze_now();
                        finish_phase::<K>(&h);
                        continue;
                    }
                    break;
                }
                Ok(None) => {
                    h.borrow_mut().violate(&["C33"], "an operation never returns after a restart", String::new());
                    break;
                }
                Err(p) => {
                    h.borrow_mut().violate(&["C33"], "the store panics after a restart", p);
                    break;
                }
            }
        }
        if !h.borrow().rep.violations.is_empty() {
            break;
        }
        let slot = Rc::new(RefCell::new(None));
        let tasks: Vec<(usize, Pin<Box<dyn Future<Output = ()>>>)> = vec![
            (0, Box::pin(writer::<K>(h.clone(), l.clone(), ph.ops))),
            (1, Box::pin(reader::<K>(h.clone(), l.clone(), 1, ph.ops))),
            (2, Box::pin(reader::<K>(h.clone(), l.clone(), 2, ph.ops))),
            (3, Box::pin(state_machine::<K>(h.clone(), s, ph.ops, slot.clone()))),
            (4, Box::pin(builder::<K>(h.clone(), slot.clone()))),
        ];
        let end = schedule(&h, tasks, false);
        drop(slot);
        match end {
            End::Done | End::Failed | End::Frozen => {}
            End::Stuck(x) => {
                h.borrow_mut().violate(&["C29", "C34", "C33"], "an operation never returns", x);
            }
            End::Panic(x) => {
                let injected = fsx::with(|f| f.done.iter().any(|d| *d == "I/O error" || *d == "disk full")).unwrap_or(false);
                if !injected {
                    let t: Vec<&str> = { h.borrow().log_tags().to_vec() };
                    h.borrow_mut().violate(&t, "the store panics", x);
                }
            }
        }
        if K::PERSIST {
            fsx::freeze_now();
        }
        old.push(l);
        finish_phase::<K>(&h);
        if !h.borrow().rep.violations.is_empty() {
            break;
        }
        if !K::PERSIST {
            break;
        }
    }
    drop(old);
    let _ = std::fs::remove_dir_all(work);
    let w = Rc::try_unwrap(h).map(|x| x.into_inner().rep);
    w.unwrap_or_else(|h| std::mem::take(&mut h.borrow_mut().rep))
}

/// After the death of the process.
fn finish_phase<K: Kind>(h: &H) {
    let Some(f) = fsx::disarm() else { return };
    let mut w = h.borrow_mut();
    for d in &f.done {
        *w.rep.faults.entry(d.to_string()).or_default() += 1;
    }
    if K::PERSIST {
        if !f.done.iter().any(|d| d.starts_with("crash ") && !d.contains("loses")) {
            *w.rep.faults.entry("crash between operations".into()).or_default() += 1;
        }
        if f.acked_in_flight {
            // the caller had been told: nothing of this append may be lost
            w.saw("crash after the report of a flush");
            w.durable = w.vers.len() - 1;
        }
        w.rep.trace = mix(w.rep.trace, f.count);
        let c = f.count;
        if w.trace_on {
            let d = format!("[{}] process dies: {:?} after {} system calls", w.phase, f.done, c);
            w.rep.log.push(d);
        }
    }
}

fn injected() -> bool {
    fsx::with(|f| f.done.iter().any(|d| *d == "I/O error" || *d == "disk full")).unwrap_or(false)
}

/// What a restart finds. False: stop here.
async fn recovered<K: Kind>(h: &H, l: &mut K::L, s: &mut K::S) -> bool {
    macro_rules! get {
        ($what:expr, $e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => {
                    let mut w = h.borrow_mut();
                    if injected() {
                        w.failed = true;
                    } else {
                        w.violate(&["C33"], concat!("after a crash ", $what, " fails"), e.to_string());
                    }
                    return false;
                }
            }
        };
    }
    let mut rd = l.get_log_reader().await;
    let vote = get!("read_vote", rd.read_vote().await);
    let st = get!("get_log_state", l.get_log_state().await);
    let (applied, mem) = get!("applied_state", s.applied_state().await);
    let ents: Vec<Ent> = get!("reading the log", rd.try_get_log_entries(0..u64::MAX).await).iter().map(|e| K::unentry(e)).collect();
    let cur = get!("get_current_snapshot", s.get_current_snapshot().await);
    if fsx::frozen() {
        return true;
    }
    {
        let mut w = h.borrow_mut();
        w.saw("restart");
        let t = ["C33"];
        let lo = w.vote_durable;
        if !w.votes[lo..].contains(&vote) {
            let x = format!("found {:?}, acknowledged {:?}", vote, w.votes[lo]);
            w.violate(&t, "a saved vote was lost in a crash", x);
        }
        // the log: one of the versions since the last that had been reported durable; entries at and below
        // the purge position are ignored by the engine
        let norm = |log: Vec<&Ent>, p: Option<LogId>| -> Vec<Ent> { log.into_iter().filter(|e| Some(e.lid.index) > p.map(|p| p.index)).cloned().collect() };
        let found = norm(ents.iter().collect(), st.last_purged_log_id);
        let lo = w.durable;
        let ok = w.vers[lo..].iter().position(|v| v.purged == st.last_purged_log_id && norm(v.log.values().map(|x| &**x).collect(), v.purged) == found);
        if ok.is_none() {
            let v = &w.vers[lo];
            let x = format!(
                "found purged {:?}, {} | reported durable: purged {:?}, {} ({} later versions)",
                st.last_purged_log_id,
                short(&found),
                v.purged,
                short(&v.log.values().map(|x| (**x).clone()).collect::<Vec<_>>()),
                w.vers.len() - 1 - lo
            );
            w.violate(&t, "the log after a crash is not the log that was reported durable", x);
        }
        if let Some(k) = ok {
            if lo + k + 1 < w.vers.len() {
                w.saw("crash loses unreported writes");
            }
        }
        let last = found.last().map(|e| e.lid).or(st.last_purged_log_id);
        if st.last_log_id != last {
            // entries below the purge position may still be there and be the last
            let raw = ents.last().map(|e| e.lid);
            if !(found.is_empty() && st.last_log_id == raw.max(st.last_purged_log_id)) && st.last_log_id != raw {
                w.violate(&t, "wrong log state after a crash", format!("{:?}, entries up to {:?}", st, last));
            }
        }
        // the state machine
        let n = w.pos(applied);
        let m = K::unstored(&mem);
        if n as usize > w.truth.len() || n > w.apply_hi.max(*w.snap_started.iter().next_back().unwrap_or(&0)) {
            w.violate(&t, "the state machine is ahead of everything applied after a crash", format!("{:?}", applied));
            return false;
        }
        let want = w.state_at(n);
        if applied != want.applied || (m.0.is_some() || want.mem.0.is_some()) && m != want.mem {
            w.violate(&t, "wrong applied state after a crash", format!("{:?} {:?}, expected {:?} {:?}", applied, m, want.applied, want.mem));
        }
        if n < w.installed_durable {
            let x = format!("at {:?}, installed up to {}", applied, w.installed_durable - 1);
            w.violate(&t, "an installed snapshot was lost in a crash", x);
        }
        if n < w.pos(st.last_purged_log_id) {
            w.violate(&t, "entries are purged that the state machine lost in a crash", format!("purged {:?}, state machine {:?}", st.last_purged_log_id, applied));
        }
        match &cur {
            Some(c) => {
                let p = w.pos(st.last_purged_log_id);
                check_snapshot::<K>(&mut w, c, 0, u64::MAX, "recovered", &t);
                let n = w.pos(c.meta.last_log_id);
                if n < p {
                    w.violate(&t, "the snapshot after a crash does not reach the purged entries", format!("purged {:?}, snapshot {:?}", st.last_purged_log_id, c.meta.last_log_id));
                }
            }
            None => {}
        }
        if !w.rep.violations.is_empty() {
            return false;
        }
    }
    // the state machine's content, before anything else happens to it
    // (as a snapshot, which thereby becomes the current one: only in some runs)
    let look = { h.borrow_mut().sched.chance(0.5) };
    if look {
        let mut b = s.get_snapshot_builder().await;
        let n = h.borrow().pos(applied);
        let sn = get!("build_snapshot", b.build_snapshot().await);
        if fsx::frozen() {
            return true;
        }
        let mut w = h.borrow_mut();
        check_snapshot::<K>(&mut w, &sn, n, n, "first", &["C33"]);
        w.saw("state machine compared after restart");
    }
    // the engine's own start: it may purge what the state machine has, and that need not be durable
    {
        let mut w = h.borrow_mut();
        let p = w.pos(st.last_purged_log_id);
        w.leftover = ents.iter().filter(|e| e.lid.index < p).map(|e| e.lid).collect();
        let before = Img {
            log: ents.iter().filter(|e| e.lid.index >= p).map(|e| (e.lid.index, Rc::new(e.clone()))).collect(),
            purged: st.last_purged_log_id,
        };
        let n = w.pos(applied);
        w.vers = vec![before.clone()];
        // it first drops what conflicts with the state machine
        let mut mid = before.clone();
        if let (Some(a), Some(l)) = (applied, mid.log.values().next_back().map(|e| e.lid)) {
            if l < a && l.index >= a.index {
                mid.log.split_off(&a.index);
                w.vers.push(mid.clone());
                let mut first = before.clone();
                first.purged = applied;
                first.log = first.log.split_off(&n);
                w.vers.push(first);
                w.saw("the engine drops conflicting entries at its start");
            }
        }
        let mut after = mid;
        if applied > after.purged {
            after.purged = applied;
            after.log = after.log.split_off(&n);
        }
        w.vers.push(after);
        w.durable = 0;
    }
    let r = StorageHelper::<K::C, K::L, K::S>::new(l, s).get_initial_state().await;
    if fsx::frozen() {
        return true;
    }
    get!("starting the engine", r);
    let st = get!("get_log_state", l.get_log_state().await);
    let (applied, _) = get!("applied_state", s.applied_state().await);
    let ents: Vec<Ent> = get!("reading the log", rd.try_get_log_entries(0..u64::MAX).await).iter().map(|e| K::unentry(e)).collect();
    let cur = get!("get_current_snapshot", s.get_current_snapshot().await);
    if fsx::frozen() {
        return true;
    }
    let mut w = h.borrow_mut();
    w.vote = vote;
    w.votes = vec![vote];
    w.vote_durable = 0;
    let p = w.pos(st.last_purged_log_id);
    let n = w.pos(applied);
    let idx: Vec<u64> = ents.iter().map(|e| e.lid.index).filter(|i| *i >= p).collect();
    if idx.iter().enumerate().any(|(k, i)| *i != p + k as u64) || p > n || p + (idx.len() as u64) < n {
        let x = format!("purged {:?}, entries {:?}..{:?}, applied {:?}", st.last_purged_log_id, idx.first(), idx.last(), applied);
        w.violate(&["C33"], "a hole in the log after the start", x);
        return false;
    }
    w.img = Img {
        log: ents.into_iter().filter(|e| e.lid.index >= p).map(|e| (e.lid.index, Rc::new(e))).collect(),
        purged: st.last_purged_log_id,
    };
    let i = w.img.clone();
    // what the engine did need not be durable
    w.vers.push(i);
    w.stable = w.vers.len() - 1;
    w.durable = 0;
    w.applied = w.pos(applied);
    w.apply_hi = w.applied;
    let t = w.true_len();
    w.committed = Some(w.committed.map(|c| c + 1).unwrap_or(0).min(t).max(w.applied)).filter(|x| *x > 0).map(|x| x - 1);
    let n = cur.map(|c| w.pos(c.meta.last_log_id)).unwrap_or(0);
    w.snap_done = n;
    w.installed_durable = w.installed_durable.min(w.applied);
    // what nobody has any more is not history
    let keep = w.committed.map(|c| c + 1).unwrap_or(0).max(t).max(w.applied).max(n);
    w.truth.truncate(keep as usize);
    let hi = w.img.last().map(|l| l.leader_id.get_term()).unwrap_or(0);
    w.next_term = w.next_term.max(hi + 1);
    w.snap_started = BTreeSet::from([n]);
    true
}

