//! Runs one simulated history: node lifecycles, clients, planned events, the heal phase and the checks
//! of bounded liveness at the end.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

use openraft::error::ChangeMembershipError;
use openraft::error::ClientWriteError;
use openraft::error::InitializeError;
use openraft::error::RaftError;
use openraft::raft::ClientWriteResponse;
use openraft::AsyncRuntime;
use openraft::BasicNode;
use openraft::ChangeMembers;
use openraft::Config;
use openraft::EntryPayload;
use openraft::ServerState;
use openraft::SnapshotPolicy;

use crate::lin;
use crate::net::Factory;
use crate::oracle::Asked;
use crate::oracle::OpKind;
use crate::oracle::OpRec;
use crate::oracle::Outcome;
use crate::plan::Cfg;
use crate::plan::Change;
use crate::plan::Ev;

use crate::plan::Who;
use crate::rng::mix;
use crate::rt;
use crate::rt::spawn_in;
use crate::rt::HARNESS;
use crate::rt::MS;
use crate::rt::SEC;
use crate::rt::US;
use crate::store::LogStore;
use crate::store::SmStore;
use crate::types::*;
use crate::world;
use crate::world::w;
use crate::world::Armed;
use crate::world::ArmedKind;
use crate::world::Status;
use crate::world::Violation;

#[derive(Clone, Debug)]
struct Call {
    n: Nid,
    inc: u64,
    what: String,
    at: u64,
}

#[derive(Default)]
struct D {
    calls: BTreeMap<u64, Call>,
    next_call: u64,
    next_op: u64,
    done: bool,
    raft_cfg: Option<Arc<Config>>,
    transfers: u64,
    switches: u64,
    used: BTreeSet<&'static str>,
    calls_done: BTreeMap<String, u64>,
}

thread_local! {
    static DS: RefCell<D> = RefCell::new(D::default());
}
fn d<R>(f: impl FnOnce(&mut D) -> R) -> R {
    DS.with(|x| f(&mut x.borrow_mut()))
}

fn call_start(n: Nid, what: &str) -> u64 {
    let inc = w(|w| w.node(n).inc);
    let at = rt::now();
    d(|d| {
        d.next_call += 1;
        let id = d.next_call;
        d.calls.insert(id, Call { n, inc, what: what.to_string(), at });
        id
    })
}
/// The caller gave up: the call is over, and nothing is known of what it did.
fn call_dropped(id: u64) {
    w(|w| w.fault("call cancelled"));
    d(|d| d.calls.remove(&id));
}
fn call_end(id: u64) {
    d(|d| {
        if let Some(c) = d.calls.remove(&id) {
            let what = c.what.split(' ').next().unwrap_or("").to_string();
            *d.calls_done.entry(what).or_default() += 1;
        }
    })
}
fn pending_calls(n: Nid, inc: u64) -> Vec<(String, u64)> {
    d(|d| d.calls.values().filter(|c| c.n == n && c.inc == inc).map(|c| (c.what.clone(), c.at)).collect())
}

/// Calls pending that were made at or before `t`.
fn pending_since(n: Nid, inc: u64, t: u64) -> Vec<(String, u64)> {
    pending_calls(n, inc).into_iter().filter(|c| c.1 <= t).collect()
}

fn bits(m: u64) -> BTreeSet<u64> {
    (0..64).filter(|i| m >> i & 1 == 1).collect()
}
fn node_of(id: u64) -> BasicNode {
    BasicNode::new(format!("n{}", id))
}
/// Nodes with another address than before.
fn new_nodes(m: u64) -> BTreeMap<u64, BasicNode> {
    let v = rt::now() / MS;
    bits(m).into_iter().map(|i| (i, BasicNode::new(format!("n{}@{}", i, v)))).collect()
}
fn node_map(m: u64) -> BTreeMap<u64, BasicNode> {
    bits(m).into_iter().map(|i| (i, node_of(i))).collect()
}

// -------------------------------------------------------------------------------- lifecycle

pub fn boot(n: Nid) {
    let now = rt::now();
    let (cfg, boots) = w(|w| {
        let nd = w.node(n);
        nd.boots += 1;
        let b = nd.boots;
        (w.cfg.clone(), b)
    });
    let ppm = cfg.clock_ppm.get(n as usize).copied().unwrap_or(0);
    let g = rt::new_group(n, ppm, mix(mix(cfg.seed, 77 + n), boots));
    let (inc, saved_vote, saved_committed, real) = w(|w| {
        let nd = w.node(n);
        nd.group = g;
        nd.inc += 1;
        nd.status = Status::Booting;
        nd.poisoned = None;
        nd.shutdown = None;
        nd.asked_to_elect = false;
        nd.asked_to_heartbeat = 0;
        nd.sw = [(true, now); 3];
        nd.disturbed = nd.disturbed.max(now);
        nd.want_restart = false;
        nd.metrics = None;
        nd.disk.crash_down = 0;
        let r = (nd.inc, nd.disk.vol.vote, nd.disk.vol.committed, nd.disk.real.clone());
        w.log(|| format!("n{} boots (incarnation {})", n, r.0));
        r
    });
    let raft_cfg = d(|d| d.raft_cfg.clone().unwrap());
    let ls = LogStore { n, g, real };
    let sm = SmStore { n, g };
    let cid = call_start(n, "boot");
    let h = spawn_in(g, "boot", async move { Raft::new(n, raft_cfg, Factory { n, g }, ls, sm).await });
    spawn_in(HARNESS, "boot-wait", async move {
        let r = h.await;
        if w(|w| w.node(n).inc != inc || w.node(n).status != Status::Booting) {
            return;
        }
        call_end(cid);
        match r {
            Ok(Ok(raft)) => {
                w(|w| {
                    w.log(|| format!("n{} is up", n));
                    let nd = w.node(n);
                    nd.raft = Some(raft.clone());
                    nd.status = Status::Up;
                    let ap = nd.disk.sm.applied;
                    if ap < saved_committed {
                        w.violate(
                            &["C13"],
                            "a restarted node has not applied what it recorded as committed",
                            format!("n{} applied {} committed {}", n, fmt_lid(&ap), fmt_lid(&saved_committed)),
                        );
                    }
                });
                watch(n, inc, raft.clone());
                let r2 = raft.clone();
                let g = w(|w| w.node(n).group);
                let h = spawn_in(g, "boot-check", async move {
                    r2.with_raft_state(|st| (*st.vote_ref(), st.committed)).await
                });
                if let Ok(Ok((v, c))) = h.await {
                    #[allow(clippy::neg_cmp_op_on_partial_ord)]
                    if saved_vote.map(|s| !(v >= s)).unwrap_or(false) {
                        w(|w| w.violate(&["C13", "C02"], "a restarted node lost its vote", format!("n{} {} stored {:?}", n, v, saved_vote)));
                    }
                    if c < saved_committed {
                        w(|w| {
                            w.violate(
                                &["C13"],
                                "a restarted node knows less committed than it recorded",
                                format!("n{} {} stored {}", n, fmt_lid(&c), fmt_lid(&saved_committed)),
                            )
                        });
                    }
                }
            }
            other => {
                let e = match other {
                    Ok(Err(e)) => format!("{}", e),
                    Err(e) => format!("{:?}", e),
                    _ => String::new(),
                };
                let pois = w(|w| w.node(n).poisoned.is_some());
                w(|w| {
                    w.log(|| format!("n{} fails to start: {}", n, e));
                    w.node(n).status = Status::Stopped;
                });
                if !pois {
                    w(|w| w.violate(&["C13", "C27"], "a node does not start", format!("n{}: {}", n, e)));
                } else {
                    w(|w| w.probe("start fails after storage error"));
                }
                rt::after(200 * MS, move || restart(n, inc));
            }
        }
    });
}

/// Replace a stopped process by a new one.
fn restart(n: Nid, inc: u64) {
    if w(|w| w.ended || w.node(n).inc != inc || !matches!(w.node(n).status, Status::Stopped)) {
        return;
    }
    take_down(n);
    boot(n);
}

fn take_down(n: Nid) {
    let (g, raft) = w(|w| {
        let nd = w.node(n);
        nd.status = Status::Down;
        nd.metrics = None;
        (nd.group, nd.raft.take())
    });
    rt::kill_group(g);
    rt::in_group(g, || drop(raft));
    w(|w| w.crash_disk(n));
    let inc = w(|w| w.node(n).inc);
    d(|d| d.calls.retain(|_, c| !(c.n == n && c.inc == inc)));
}

/// The process of node `n` dies now.
pub fn crash_now(n: Nid) {
    let (st, down) = w(|w| (w.node(n).status, w.node(n).disk.crash_down));
    if st == Status::Down {
        return;
    }
    w(|w| {
        w.log(|| format!("n{} CRASH", n));
        w.fault("crash");
    });
    take_down(n);
    let inc = w(|w| w.node(n).inc);
    if down == u64::MAX && !w(|w| w.healed) {
        w(|w| w.node(n).want_restart = true);
    } else {
        let dl = if down == u64::MAX { 0 } else { down * US };
        rt::after(dl + 1, move || {
            if w(|w| !w.ended && w.node(n).inc == inc && w.node(n).status == Status::Down) {
                boot(n);
            }
        });
    }
}

/// Follow the metrics of one incarnation.
fn watch(n: Nid, inc: u64, raft: Raft) {
    use openraft::async_runtime::watch::WatchReceiver;
    let mut rx = raft.metrics();
    let data = raft.data_metrics();
    let server = raft.server_metrics();
    drop(raft);
    spawn_in(HARNESS, "metrics", async move {
        let mut first = true;
        loop {
            let m: Metrics = rx.borrow_watched().clone();
            let last = data.borrow_watched().last_log;
            // "if a change of the metrics is perceived, the other two have been updated"
            let agree = {
                let (d, s) = (data.borrow_watched(), server.borrow_watched());
                m.running_state.is_err()
                    || first
                    || (d.last_log.map(|l| l.index) == m.last_log_index
                        && d.last_applied == m.last_applied
                        && d.snapshot == m.snapshot
                        && d.purged == m.purged
                        && d.last_quorum_acked == m.last_quorum_acked
                        && d.replication == m.replication
                        && d.heartbeat == m.heartbeat
                        && s.id == m.id
                        && s.vote == m.vote
                        && s.state == m.state
                        && s.current_leader == m.current_leader
                        && s.membership_config == m.membership_config
                        && m.current_term >= m.vote.leader_id().get_term())
            };
            if w(|w| w.node(n).inc != inc || w.ended) {
                return;
            }
            first = false;
            let stopped = w(|w| {
                w.node(n).metrics = Some(m.clone());
                if w.node(n).status == Status::Up {
                    w.log(|| format!("n{} metrics {}", n, m));
                    if !agree {
                        let t = format!("n{}: {} | data {} | server {}", n, m, *data.borrow_watched(), *server.borrow_watched());
                        w.violate(&["C25"], "the metrics, data metrics and server metrics do not agree", t);
                    }
                    w.on_metrics(n, &m, last);
                }
                m.running_state.is_err() && w.node(n).status == Status::Up
            });
            if stopped {
                on_stopped(n, inc, format!("{:?}", m.running_state));
            }
            if rx.changed().await.is_err() {
                if w(|w| w.node(n).inc == inc && w.node(n).status == Status::Up && !w.ended) {
                    on_stopped(n, inc, "metrics channel closed".into());
                }
                return;
            }
        }
    });
}

/// The core of a node has stopped by itself.
fn on_stopped(n: Nid, inc: u64, why: String) {
    let now = rt::now();
    let (pois, shut) = w(|w| {
        w.log(|| format!("n{} stopped: {}", n, why));
        let nd = w.node(n);
        nd.last_fatal_seen = Some(now);
        (nd.poisoned.is_some(), nd.shutdown.is_some())
    });
    if shut {
        // handled by whoever called shutdown
        return;
    }
    w(|w| w.node(n).status = Status::Stopped);
    if !pois {
        w(|w| w.violate(&["C27", "C18"], "a node stops without cause", format!("n{}: {}", n, why)));
    } else {
        w(|w| w.probe("node stopped after storage error"));
    }
    after_stop(n, inc, 1500 * MS, 0);
}

/// After a stop, every pending and later call must return an error.
fn after_stop(n: Nid, inc: u64, grace: u64, extra_down: u64) {
    spawn_in(HARNESS, "after-stop", async move {
        // a later call
        let raft = w(|w| w.node(n).raft.clone());
        let g = w(|w| w.node(n).group);
        if let Some(raft) = raft {
            for k in 0..4 {
                let raft = raft.clone();
                let what = ["late-write", "late-read", "late-trigger", "late-init"][k as usize];
                let cid = call_start(n, what);
                let what = what.to_string();
                spawn_in(g, "late", async move {
                    let ok = match k {
                        0 => raft.client_write(Req { id: u64::MAX, key: 0, pad: vec![] }).await.is_ok(),
                        1 => raft.ensure_linearizable().await.is_ok(),
                        2 => raft.trigger().elect().await.is_ok(),
                        _ => raft.is_initialized().await.is_ok(),
                    };
                    if ok {
                        w(|w| w.violate(&["C24", "C23"], "a stopped node accepts calls", format!("n{} {}", n, what)));
                    }
                    call_end(cid);
                });
            }
        }
        let mut left = grace;
        let mut mid = None;
        loop {
            rt::sleep_ns(50 * MS).await;
            if w(|w| w.node(n).inc != inc || w.ended) {
                return;
            }
            // a stalled process gets no credit for the time it slept
            if rt::group_stalled_until(g) > rt::now() {
                continue;
            }
            if left <= 50 * MS {
                break;
            }
            left -= 50 * MS;
            if left <= grace / 2 && mid.is_none() {
                mid = Some(rt::now());
            }
        }
        // calls made in the second half are not judged
        let p = pending_since(n, inc, mid.unwrap_or(0));
        if !p.is_empty() {
            let pois = w(|w| w.node(n).poisoned.is_some());
            w(|w| {
                w.violate(
                    if pois { &["C24", "C23"] } else { &["C24"] },
                    "a stopped node leaves a caller waiting",
                    format!("n{}: {:?}", n, p.iter().map(|x| x.0.clone()).take(6).collect::<Vec<_>>()),
                )
            });
        }
        w(|w| w.node(n).status = Status::Stopped);
        if extra_down == u64::MAX {
            w(|w| w.node(n).want_restart = true);
            while !w(|w| w.healed || w.ended || w.node(n).inc != inc) {
                rt::sleep_ns(50 * MS).await;
            }
        } else {
            rt::sleep_ns(extra_down.min(1_000_000_000) * US).await;
        }
        restart(n, inc);
    });
}

/// A storage error was injected: the node has to stop.
fn watch_poison() {
    spawn_in(HARNESS, "poison-watch", async move {
        let mut seen: BTreeSet<(Nid, u64)> = BTreeSet::new();
        loop {
            rt::sleep_ns(20 * MS).await;
            if w(|w| w.ended) {
                return;
            }
            let list: Vec<(Nid, u64, u64)> = w(|w| {
                w.nodes.iter().filter(|x| x.status == Status::Up).filter_map(|x| x.poisoned.map(|p| (x.id, x.inc, p))).collect()
            });
            for (n, inc, at) in list {
                if !seen.insert((n, inc)) {
                    continue;
                }
                spawn_in(HARNESS, "poison-deadline", async move {
                    let mut left = 3 * SEC;
                    let _ = at;
                    while left > 0 {
                        rt::sleep_ns(50 * MS).await;
                        if w(|w| w.ended || w.node(n).inc != inc || w.node(n).status != Status::Up || w.node(n).shutdown.is_some()) {
                            return;
                        }
                        let g = w(|w| w.node(n).group);
                        let slow = w(|w| w.node(n).slow_until > rt::now() && !w.healed);
                        if rt::group_stalled_until(g) > rt::now() || slow {
                            continue;
                        }
                        left = left.saturating_sub(50 * MS);
                    }
                    w(|w| {
                        let t = format!("n{}: storage failed {}ms ago", n, (rt::now() - at) / MS);
                        w.violate(&["C23"], "a node goes on after a storage error", t)
                    });
                });
            }
        }
    });
}

fn do_shutdown(n: Nid, down: u64) {
    let Some((raft, inc, g)) = w(|w| {
        let nd = w.node(n);
        if nd.status != Status::Up || nd.shutdown.is_some() {
            return None;
        }
        nd.shutdown = Some(rt::now());
        let r = (nd.raft.clone().unwrap(), nd.inc, nd.group);
        w.log(|| format!("n{} shutdown requested", n));
        w.fault("graceful shutdown");
        Some(r)
    }) else {
        return;
    };
    let cid = call_start(n, "shutdown");
    let h = spawn_in(g, "shutdown", async move {
        let _ = raft.shutdown().await;
        use openraft::async_runtime::watch::WatchReceiver;
        if raft.metrics().borrow_watched().running_state.is_ok() {
            w(|w| w.violate(&["C24"], "shutdown returns before the node has stopped", format!("n{}", n)));
        }
    });
    spawn_in(HARNESS, "shutdown-wait", async move {
        let _ = h.await;
        if w(|w| w.node(n).inc != inc || w.ended) {
            return;
        }
        call_end(cid);
        w(|w| w.log(|| format!("n{} shutdown complete", n)));
        after_stop(n, inc, 1500 * MS, down);
    });
    spawn_in(HARNESS, "shutdown-deadline", async move {
        let mut left = 8 * SEC;
        while left > 0 {
            rt::sleep_ns(100 * MS).await;
            if w(|w| w.node(n).inc != inc || w.ended) || !d(|d| d.calls.contains_key(&cid)) {
                return;
            }
            let slow = w(|w| w.node(n).slow_until > rt::now() && !w.healed);
            if rt::group_stalled_until(g) > rt::now() || slow {
                continue;
            }
            left = left.saturating_sub(100 * MS);
        }
        w(|w| w.violate(&["C24"], "shutdown does not complete", format!("n{}", n)));
    });
}

// -------------------------------------------------------------------------------- clients

fn outstanding() -> usize {
    d(|d| d.calls.len())
}

fn new_op(n: Nid, kind: OpKind, key: u8) -> u64 {
    let id = d(|d| {
        d.next_op += 1;
        d.next_op
    });
    let inv = rt::next_seq();
    let at = rt::now();
    w(|w| {
        w.o.ops.push(OpRec { id, kind, key, got: None, inv, ret: 0, outcome: Outcome::Pending, node: n, at });
    });
    id
}
fn end_op(id: u64, oc: Outcome, got: Option<u64>) {
    let ret = rt::next_seq();
    w(|w| {
        let o = &mut w.o.ops[id as usize - 1];
        o.ret = ret;
        o.outcome = oc;
        o.got = got;
    })
}

/// A client request answered with success names its place in the committed log.
fn check_ack(n: Nid, resp: &ClientWriteResponse<TC>, req: Option<u64>, inc: u64) {
    w(|w| {
        let same = w.node(n).inc == inc;
        if !same {
            return;
        }
        let lid = resp.log_id;
        w.committed(n, lid, "client response", None);
        if w.node(n).poisoned.is_some() {
            w.probe("success reported after storage error");
        }
        let Some(r) = w.o.refs.get_mut(lid.index as usize) else { return };
        if r.lid != lid {
            return;
        }
        r.acked = true;
        let rr = r.resp.clone();
        if let Some(id) = req {
            let got = match w.o.entries.get(&lid).map(|e| &e.entry.payload) {
                Some(EntryPayload::Normal(q)) => Some(q.id),
                _ => None,
            };
            if got != Some(id) || resp.data.id != id {
                let t = format!("request {} on n{} was answered with {} {:?}, entry holds {:?}", id, n, fmt_lid(&Some(lid)), resp.data, got);
                w.violate(&["C09", "C06"], "a client gets the answer of another request", t);
            } else if resp.data != rr {
                let t = format!("request {} on n{} at {}: {:?} instead of {:?}", id, n, fmt_lid(&Some(lid)), resp.data, rr);
                w.violate(&["C09", "C08"], "a client gets a wrong answer", t);
            }
        }
    });
}

pub fn start_write(n: Nid) -> Option<u64> {
    let (raft, g, inc, key, pad, ff) = w(|w| {
        let nd = &w.nodes[n as usize];
        if nd.status != Status::Up {
            return None;
        }
        let raft = nd.raft.clone()?;
        let (g, inc) = (nd.group, nd.inc);
        let key = w.cli.below(w.cfg.keys) as u8;
        let pad = if w.cfg.req_pad > 0 { w.cli.below(w.cfg.req_pad) } else { 0 };
        let p = w.cfg.ff_p;
        let ff = w.cli.chance(p);
        Some((raft, g, inc, key, pad, ff))
    })?;
    let id = new_op(n, OpKind::Write, key);
    let cid = call_start(n, &format!("write {}", id));
    let req = Req { id, key, pad: vec![7; pad as usize] };
    w(|w| w.log(|| format!("client: write {} k{} to n{}", id, key, n)));
    spawn_in(g, "client", async move {
        type Answer = Result<ClientWriteResponse<TC>, RaftError<TC, ClientWriteError<TC>>>;
        let fut = async move {
            let r: Answer = if ff {
                match raft.client_write_ff(req).await {
                    Ok(rx) => match rx.await {
                        Ok(Ok(x)) => Ok(x),
                        Ok(Err(e)) => Err(RaftError::APIError(e)),
                        Err(_) => Err(RaftError::Fatal(openraft::error::Fatal::Stopped)),
                    },
                    Err(e) => Err(RaftError::Fatal(e)),
                }
            } else {
                raft.client_write(req).await
            };
            r
        };
        let limit = w(|w| w.give_up(false));
        let Some(r) = rt::cancel_after(limit, fut).await else {
            call_dropped(cid);
            end_op(id, Outcome::Unknown, None);
            return;
        };
        call_end(cid);
        match r {
            Ok(resp) => {
                w(|w| w.log(|| format!("client: write {} on n{} ok at {}", id, n, fmt_lid(&Some(resp.log_id)))));
                check_ack(n, &resp, Some(id), inc);
                end_op(id, Outcome::Ok, None);
            }
            Err(e) => {
                w(|w| w.log(|| format!("client: write {} on n{} err {}", id, n, e)));
                let rej = match &e {
                    RaftError::APIError(ClientWriteError::ForwardToLeader(_)) => {
                        // already in a log: the leader lost leadership meanwhile, the outcome is open
                        if w(|w| w.o.reqs.contains_key(&id)) {
                            w(|w| w.probe("write in the log answered with forward-to-leader"));
                            false
                        } else {
                            true
                        }
                    }
                    RaftError::APIError(ClientWriteError::ChangeMembershipError(_)) => {
                        w(|w| w.violate(&["C09"], "a client gets the answer of another request", format!("write {} on n{}: {}", id, n, e)));
                        true
                    }
                    _ => false,
                };
                if rej {
                    w(|w| {
                        w.o.rejected.insert(id);
                    });
                }
                end_op(id, if rej { Outcome::Rejected } else { Outcome::Unknown }, None);
            }
        }
    });
    Some(id)
}

pub fn start_read(n: Nid) -> Option<u64> {
    let (raft, g, key, other) = w(|w| {
        let nd = &w.nodes[n as usize];
        if nd.status != Status::Up {
            return None;
        }
        let raft = nd.raft.clone()?;
        let g = nd.group;
        let key = w.cli.below(w.cfg.keys) as u8;
        let other = if w.cli.chance(0.3) {
            let m = w.cli.below(w.cfg.n);
            if w.up(m) {
                Some(m)
            } else {
                None
            }
        } else {
            None
        };
        Some((raft, g, key, other))
    })?;
    let id = new_op(n, OpKind::Read, key);
    let cid = call_start(n, &format!("read {}", id));
    let (bar, direct) = w(|w| {
        let now = rt::now();
        w.no(n).last_read_at = now;
        (w.barrier_begin(n), w.cli.chance(0.5))
    });
    w(|w| {
        w.log(|| format!("client: read {} k{} via n{} {:?}", id, key, n, other));
    });
    spawn_in(g, "client", async move {
        let limit = w(|w| w.give_up(false));
        let fut = async {
            match other {
                None => {
                    let rid = raft.ensure_linearizable().await.map_err(|e| e.to_string())?;
                    w(|w| w.barrier_end(&bar));
                    let (v, ap) = if direct {
                        // the state machine as it is right now: nothing that is still queued for it may be needed
                        w(|w| {
                            let sm = &w.node(n).disk.sm;
                            (sm.kv.get(&key).copied(), sm.applied)
                        })
                    } else {
                        raft
                        .with_state_machine(move |sm: &mut SmStore| {
                            let r = (sm.read(key), sm.applied());
                            Box::pin(async move { r })
                        })
                        .await
                        .map_err(|e| e.to_string())?
                        .map_err(|e| e.to_string())?
                    };
                    // by index: the read log id may be of a leader that could not commit it, replaced by another one
                    if ap.map(|l| l.index) < rid.map(|l| l.index) {
                        w(|w| {
                            w.violate(
                                &["C08"],
                                "a barrier returns before the state machine is there",
                                format!("n{} read log id {} applied {}", n, fmt_lid(&rid), fmt_lid(&ap)),
                            )
                        });
                    }
                    Ok(v)
                }
                Some(m) => {
                    let rid = raft.get_read_log_id().await;
                    // what follows is a call to the other node
                    call_end(cid);
                    let (rid, applied) = rid.map_err(|e| e.to_string())?;
                    w(|w| {
                        w.barrier_end(&bar);
                        let ap = w.node(n).disk.sm.applied;
                        if ap.map(|x| x.index) < applied.map(|x| x.index) {
                            w.violate(
                                &["C08", "C25"],
                                "a barrier reports more as applied than the state machine has",
                                format!("n{} reports {} and has {}", n, fmt_lid(&applied), fmt_lid(&ap)),
                            );
                        }
                    });
                    let (r2, g2, inc2) = w(|w| {
                        let nd = &w.nodes[m as usize];
                        (nd.raft.clone(), nd.group, nd.inc)
                    });
                    let Some(r2) = r2 else { return Err("other node is down".into()) };
                    let h = spawn_in(g2, "client", async move {
                        r2.wait(Some(Duration::from_millis(2000)))
                            .applied_index_at_least(rid.map(|x| x.index), "read")
                            .await
                            .map(|_| ())
                            .map_err(|e| e.to_string())
                    });
                    // the other node may die: do not wait forever
                    let t = <rt::SimRuntime as AsyncRuntime>::timeout(Duration::from_millis(4000), h);
                    match t.await {
                        Ok(Ok(Ok(()))) => {}
                        Ok(Ok(Err(e))) => return Err(e),
                        _ => return Err("other node died".into()),
                    }
                    w(|w| {
                        if w.node(m).inc != inc2 || w.node(m).status != Status::Up {
                            return Err("other node died".to_string());
                        }
                        let ap = w.node(m).disk.sm.applied;
                        if ap.map(|x| x.index) < rid.map(|x| x.index) {
                            w.violate(
                                &["C25", "C08"],
                                "a wait succeeds although its condition does not hold",
                                format!("n{} waited for applied {} and has {}", m, fmt_lid(&rid), fmt_lid(&ap)),
                            );
                        }
                        w.probe("read on another node");
                        Ok(w.node(m).disk.sm.kv.get(&key).copied())
                    })
                }
            }
        };
        let r: Result<Option<u64>, String> = match rt::cancel_after(limit, fut).await {
            Some(r) => {
                call_end(cid);
                r
            }
            None => {
                call_dropped(cid);
                Err("given up".into())
            }
        };
        match r {
            Ok(v) => {
                w(|w| w.log(|| format!("client: read {} via n{} -> {:?}", id, n, v)));
                end_op(id, Outcome::Ok, v);
            }
            Err(e) => {
                w(|w| w.log(|| format!("client: read {} via n{} err {}", id, n, e)));
                end_op(id, Outcome::Rejected, None);
            }
        }
    });
    Some(id)
}

fn pick_target() -> Option<Nid> {
    w(|w| {
        let l = w.leader();
        if let (Some(l), true) = (l, w.cli.chance(0.75)) {
            return Some(l);
        }
        let up: Vec<Nid> = w.nodes.iter().filter(|n| n.status == Status::Up).map(|n| n.id).collect();
        if up.is_empty() {
            None
        } else {
            Some(*w.cli.pick(&up))
        }
    })
}

fn spawn_clients() {
    let k = w(|w| w.cfg.clients);
    for _ in 0..k {
        spawn_in(HARNESS, "client-loop", async move {
            loop {
                let gap = w(|w| {
                    let g = w.cfg.gap_us * US;
                    // a run that already has much history goes on slowly: it must stay cheap to check
                    let slow = (1 + w.o.refs.len() as u64 / 1500).pow(2);
                    w.cli.exp(g).max(100 * US) * slow
                });
                rt::sleep_ns(gap).await;
                if w(|w| w.healed || w.ended) {
                    return;
                }
                if w(|w| w.quiet) || outstanding() > 24 {
                    continue;
                }
                let read = w(|w| {
                    let p = w.cfg.read_p;
                    w.cli.chance(p)
                });
                if let Some(t) = pick_target() {
                    if read {
                        start_read(t);
                    } else {
                        start_write(t);
                    }
                }
            }
        });
    }
}

// -------------------------------------------------------------------------------- initialization

fn do_initialize(n: Nid, members: u64, forced: bool) {
    let Some((raft, g, inc)) = w(|w| {
        let nd = &w.nodes[n as usize];
        if nd.status != Status::Up {
            return None;
        }
        Some((nd.raft.clone().unwrap(), nd.group, nd.inc))
    }) else {
        return;
    };
    let before = w(|w| {
        let nd = w.node(n);
        let v = nd.disk.vol.vote;
        (nd.disk.pristine(), v)
    });
    let cid = call_start(n, "initialize");
    w(|w| {
        w.node(n).asked_to_elect |= false;
        w.log(|| format!("initialize n{} with {:#b}", n, members));
    });
    spawn_in(g, "init", async move {
        let r = raft.initialize(node_map(members)).await;
        call_end(cid);
        w(|w| {
            w.log(|| format!("initialize n{} -> {:?}", n, r.as_ref().map_err(|e| e.to_string())));
            if w.node(n).inc != inc {
                return;
            }
            match &r {
                Ok(()) => {
                    w.probe("initialize succeeds");
                    if !before.0 {
                        w.violate(
                            &["C22"],
                            "initialize succeeds on a node that is not pristine",
                            format!("n{} had vote {:?}", n, before.1),
                        );
                    }
                    if members >> n & 1 == 0 {
                        w.violate(&["C22"], "initialize succeeds with a membership that lacks the node", format!("n{}", n));
                    }
                    let d = &w.nodes[n as usize].disk;
                    let has = d.dur.get(0).is_some() || d.dur.purged.is_some();
                    if !has {
                        w.violate(&["C22"], "initialize reports success before the membership is durable", format!("n{}", n));
                    }
                }
                Err(RaftError::APIError(e)) => {
                    w.probe("initialize rejected");
                    let pristine_now = w.node(n).disk.pristine();
                    match e {
                        InitializeError::NotAllowed(_) => {
                            if pristine_now && !forced {
                                w.violate(&["C22"], "initialize is refused on a pristine node", format!("n{}: {}", n, e));
                            }
                        }
                        InitializeError::NotInMembers(_) => {
                            if members >> n & 1 == 1 {
                                w.violate(&["C22"], "initialize is refused on a pristine node", format!("n{}: {}", n, e));
                            }
                        }
                    }
                }
                Err(_) => {}
            }
        });
    });
}

// -------------------------------------------------------------------------------- events

fn resolve(x: Who) -> Option<Nid> {
    w(|w| {
        let n = w.cfg.n;
        match x {
            Who::Id(i) => Some(i % n),
            Who::Leader => w.leader(),
            Who::Follower(k) => {
                let l = w.leader();
                let v: Vec<Nid> =
                    w.nodes.iter().filter(|x| x.status == Status::Up && Some(x.id) != l).map(|x| x.id).collect();
                if v.is_empty() {
                    None
                } else {
                    Some(v[k as usize % v.len()])
                }
            }
        }
    })
}

fn raft_of(n: Nid) -> Option<(Raft, usize, u64)> {
    w(|w| {
        let nd = &w.nodes[n as usize];
        if nd.status != Status::Up {
            return None;
        }
        Some((nd.raft.clone()?, nd.group, nd.inc))
    })
}

fn cut_mask(a: u64, b: u64) {
    w(|w| {
        for i in 0..w.cfg.n {
            if a >> i & 1 == 1 {
                w.cut[i as usize] |= b & !(1 << i);
            }
        }
    })
}

fn event(e: &Ev) {
    if w(|w| w.ended || w.healed) {
        return;
    }
    w(|w| w.log(|| format!("-- event {:?}", e)));
    let all = w(|w| (1u64 << w.cfg.n) - 1);
    match e {
        Ev::Crash(x, down) => {
            if let Some(n) = resolve(*x) {
                w(|w| w.node(n).disk.crash_down = *down);
                crash_now(n);
            }
        }
        Ev::CrashAll(down) => {
            w(|w| w.fault("crash of all nodes"));
            for n in 0..w(|w| w.cfg.n) {
                let j = w(|w| w.disk_rng.below(20_000));
                w(|w| w.node(n).disk.crash_down = down.saturating_add(j));
                crash_now(n);
            }
        }
        Ev::CrashAt(x, op, ph, nth, down) => {
            if let Some(n) = resolve(*x) {
                w(|w| w.node(n).armed.push(Armed { op: *op, left: *nth, kind: ArmedKind::Crash(*ph, *down) }));
            }
        }
        Ev::DiskError(x, op, nth, after) => {
            if let Some(n) = resolve(*x) {
                w(|w| w.node(n).armed.push(Armed { op: *op, left: *nth, kind: ArmedKind::Error(*after) }));
            }
        }
        Ev::DiskFull(x, us) => {
            if let Some(n) = resolve(*x) {
                w(|w| w.node(n).full_until = rt::now() + us * US);
            }
        }
        Ev::DiskSlow(x, us, mult) => {
            if let Some(n) = resolve(*x) {
                w(|w| {
                    w.fault("slow disk");
                    let nd = w.node(n);
                    nd.slow_until = rt::now() + us * US;
                    nd.slow_mult = *mult;
                    nd.disturbed = nd.disturbed.max(nd.slow_until + SEC);
                });
            }
        }
        Ev::Partition(m) => {
            w(|w| w.fault("partition"));
            cut_mask(*m, all & !m);
            cut_mask(all & !m, *m);
        }
        Ev::OneWay(a, b) => {
            w(|w| w.fault("one-way partition"));
            cut_mask(*a, *b);
        }
        Ev::Isolate(x) => {
            if let Some(n) = resolve(*x) {
                w(|w| w.fault("isolation"));
                cut_mask(1 << n, all);
                cut_mask(all, 1 << n);
            }
        }
        Ev::Heal => w(|w| w.cut = [0; 8]),
        Ev::LinkBad(a, b, us) => w(|w| {
            if *us == 0 {
                w.link.remove(&(*a, *b));
            } else {
                w.fault("bad link");
                w.link.insert((*a, *b), *us);
            }
        }),
        Ev::Stall(x, us) => {
            if let Some(n) = resolve(*x) {
                w(|w| {
                    w.fault("stalled process");
                    let nd = w.node(n);
                    nd.disturbed = nd.disturbed.max(rt::now() + us * US);
                });
                let g = w(|w| w.node(n).group);
                rt::stall(g, us * US);
            }
        }
        Ev::ClockJump(x, us) => {
            if let Some(n) = resolve(*x) {
                let g = w(|w| {
                    w.fault("clock jump");
                    let nd = w.node(n);
                    nd.disturbed = nd.disturbed.max(rt::now());
                    nd.group
                });
                if w(|w| w.up(n)) {
                    rt::clock_jump(g, us * US);
                }
            }
        }
        Ev::Elect(x) => {
            if let Some(n) = resolve(*x) {
                do_elect(n);
            }
        }
        Ev::Heartbeat(x) => {
            if let Some((n, (raft, g, _))) = resolve(*x).and_then(|n| raft_of(n).map(|r| (n, r))) {
                w(|w| {
                    let now = rt::now();
                    w.node(n).asked_to_heartbeat = now;
                });
                let cid = call_start(n, "heartbeat");
                spawn_in(g, "trigger", async move {
                    let _ = raft.trigger().heartbeat().await;
                    call_end(cid);
                });
            }
        }
        Ev::Snapshot(x) => {
            if let Some(n) = resolve(*x) {
                do_snapshot(n);
            }
        }
        Ev::PurgeLog(x, delta) => {
            if let Some((n, (raft, g, _))) = resolve(*x).and_then(|n| raft_of(n).map(|r| (n, r))) {
                let ap = w(|w| w.node(n).disk.sm.applied.map(|l| l.index).unwrap_or(0));
                let upto = (ap as i64 - delta).max(0) as u64;
                w(|w| {
                    let no = w.no(n);
                    no.user_purge = no.user_purge.max(Some(upto));
                    w.log(|| format!("n{} asked to purge upto {}", n, upto));
                });
                let cid = call_start(n, "purge");
                // only what is in a snapshot is purged
                let (inc, snap) = w(|w| (w.node(n).inc, w.node(n).metrics.as_ref().and_then(|m| m.snapshot)));
                spawn_in(g, "trigger", async move {
                    let r = raft.trigger().purge_log(upto).await;
                    call_end(cid);
                    if let (Ok(_), Some(s)) = (r, snap) {
                        w(|w| {
                            let due = upto.min(s.index);
                            let no = w.no(n);
                            let old = no.purge_due.filter(|d| d.0 == inc).map(|d| d.1).unwrap_or(0);
                            no.purge_due = Some((inc, old.max(due)));
                        });
                    }
                });
            }
        }
        Ev::Transfer(from, to) => {
            if let (Some(n), Some(t)) = (resolve(*from), resolve(*to)) {
                do_transfer(n, t);
            }
        }
        Ev::AddLearner(id, blocking) => {
            if let Some(n) = pick_target() {
                add_learner(n, *id, *blocking);
            }
        }
        Ev::Member(c) => {
            if let Some(n) = pick_target() {
                change_membership(n, c);
            }
        }
        Ev::Switch(x, a, b, c) => {
            if let Some((n, (raft, _, _))) = resolve(*x).and_then(|n| raft_of(n).map(|r| (n, r))) {
                let now = rt::now();
                d(|d| d.switches += 1);
                w(|w| w.fault("runtime switch"));
                let rc = raft.runtime_config();
                for (i, v) in [(0usize, a), (1, b), (2, c)] {
                    if let Some(v) = v {
                        match i {
                            0 => rc.tick(*v),
                            1 => rc.heartbeat(*v),
                            _ => rc.elect(*v),
                        }
                        w(|w| {
                            if w.node(n).sw[i].0 != *v {
                                w.node(n).sw[i] = (*v, now);
                            }
                        });
                    }
                }
            }
        }
        Ev::Shutdown(x, down) => {
            if let Some(n) = resolve(*x) {
                do_shutdown(n, *down);
            }
        }
        Ev::Initialize(n, m) => {
            // another membership only where it cannot found a second cluster
            let n = *n;
            let ok = w(|w| {
                let same = *m == (1u64 << w.cfg.voters) - 1;
                same && m >> n & 1 == 1 || !w.node(n).disk.pristine() || m >> n & 1 == 0
            });
            if ok {
                w(|w| w.fault("initialize call"));
                do_initialize(n, *m, true);
            }
        }
        Ev::Burst(x, k) => {
            if let Some(n) = resolve(*x) {
                for _ in 0..*k {
                    if outstanding() < 60 {
                        start_write(n);
                    }
                }
            }
        }
        Ev::Reads(x) => {
            let first = resolve(*x);
            for n in first.into_iter().chain(0..w(|w| w.cfg.n)) {
                start_read(n);
            }
        }
        Ev::Probe(x) => {
            if let Some(n) = resolve(*x) {
                do_probe(n);
            }
        }
        Ev::WaitApi(x) => {
            if let Some(n) = resolve(*x) {
                do_wait(n);
            }
        }
        Ev::Quiet(q) => w(|w| w.quiet = *q),
    }
}

fn do_elect(n: Nid) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    let now = rt::now();
    w(|w| {
        w.node(n).asked_to_elect = true;
        w.no(n).elect_calls += 1;
        w.fault("triggered election");
    });
    let cid = call_start(n, "elect");
    // a voter that is not the leader
    let eligible = move || {
        w(|w| {
            let Some(m) = &w.node(n).metrics else { return false };
            m.state != ServerState::Leader && is_voter(m.membership_config.membership(), n)
        })
    };
    let was = eligible();
    spawn_in(g, "trigger", async move {
        let r = raft.trigger().elect().await;
        call_end(cid);
        let calm = || w(|w| w.node(n).inc == inc && w.up(n) && w.node(n).poisoned.is_none() && w.node(n).shutdown.is_none());
        if r.is_ok() && eligible() {
            // a triggered election always campaigns
            for _ in 0..100 {
                rt::sleep_ns(20 * MS).await;
                if !calm() || !eligible() || w(|w| w.no(n).last_own_vote_at >= now) {
                    return;
                }
            }
            let dist = w(|w| w.node(n).disturbed.max(w.node(n).slow_until));
            // only judged when the node ran undisturbed all the time
            if was && eligible() && calm() && dist < now {
                w(|w| w.violate(&["C31"], "a triggered election does nothing", format!("n{}", n)));
            }
        }
    });
}

fn do_snapshot(n: Nid) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    let now = rt::now();
    let (target, builds) = w(|w| {
        let b = w.no(n).builds;
        (w.node(n).disk.sm.applied, b)
    });
    w(|w| w.probe("snapshot triggered"));
    let cid = call_start(n, "snapshot");
    spawn_in(g, "trigger", async move {
        let r = raft.trigger().snapshot().await;
        call_end(cid);
        if r.is_err() || target.is_none() {
            return;
        }
        for _ in 0..300 {
            rt::sleep_ns(20 * MS).await;
            let st = w(|w| {
                let gone = w.node(n).inc != inc || !w.up(n) || w.node(n).poisoned.is_some() || w.node(n).shutdown.is_some();
                let have = w.node(n).disk.snap.as_ref().and_then(|s| s.meta.last_log_id) >= target;
                let built = w.no(n).builds > builds;
                gone || have || built
            });
            if st {
                return;
            }
        }
        let dist = w(|w| w.node(n).disturbed.max(w.node(n).slow_until));
        if dist < now {
            w(|w| w.violate(&["C31", "C17"], "a triggered snapshot is never built", format!("n{} applied {}", n, fmt_lid(&target))));
        }
    });
}

fn do_transfer(n: Nid, t: Nid) {
    let Some((raft, g, _)) = raft_of(n) else { return };
    d(|d| d.transfers += 1);
    w(|w| w.fault("leader transfer"));
    let cid = call_start(n, "transfer");
    spawn_in(g, "trigger", async move {
        let _ = raft.trigger().transfer_leader(t).await;
        call_end(cid);
    });
}

fn asked(n: Nid, cid: u64, g: rt::GroupId, req: ChangeMembers<TC>, retain: bool) {
    w(|w| {
        let sm = &w.node(n).disk.sm;
        let (applied, mem) = (sm.applied, sm.membership.clone());
        w.o.asked.insert(cid, Asked { g, req, retain, start: rt::now(), ended: None, applied, mem })
    });
}
fn asked_end(cid: u64) {
    let now = rt::now();
    w(|w| w.o.asked.get_mut(&cid).unwrap().ended = Some(now));
}

/// No other membership request overlaps this one.
fn calls_alone(cid: u64) -> bool {
    w(|w| {
        let start = w.o.asked[&cid].start;
        w.o.asked.iter().all(|(k, q)| *k == cid || q.ended.map(|e| e < start).unwrap_or(!rt::group_alive(q.g)))
    })
}

/// A blocking `add_learner` has returned success: the learner's log is within the threshold of the leader's.
fn check_caught_up(n: Nid, id: Nid, raft: &Raft, log_id: &LogId) {
    use openraft::async_runtime::watch::WatchReceiver;
    let rx = raft.metrics();
    let m: Metrics = rx.borrow_watched().clone();
    let Some(repl) = &m.replication else { return };
    if m.state != ServerState::Leader || m.current_term != log_id.leader_id.term || m.membership_config.membership().get_node(&id).is_none() {
        return;
    }
    let next = repl.get(&id).and_then(|x| *x).map(|l| l.index + 1).unwrap_or(0);
    w(|w| {
        w.probe("blocking add_learner ends");
        if next + w.cfg.lag < log_id.index + 1 {
            let t = format!("n{} at n{}: log up to {}, added at {}, threshold {}", id, n, next, log_id.index, w.cfg.lag);
            w.violate(&["C25", "C26"], "a blocking add_learner returns before the learner has caught up", t);
        }
    });
}

fn add_learner(n: Nid, id: Nid, blocking: bool) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    w(|w| w.fault("membership request"));
    let cid = call_start(n, &format!("add_learner n{} blocking={}", id, blocking));
    asked(n, cid, g, ChangeMembers::AddNodes(BTreeMap::from([(id, node_of(id))])), true);
    spawn_in(g, "admin", async move {
        let limit = w(|w| w.give_up(false));
        let Some(r) = rt::cancel_after(limit, raft.add_learner(id, node_of(id), blocking)).await else {
            // the request stays open: what it asks for may still happen
            call_dropped(cid);
            return;
        };
        call_end(cid);
        asked_end(cid);
        w(|w| w.log(|| format!("add_learner n{} via n{} -> {:?}", id, n, r.as_ref().map(|x| fmt_lid(&Some(x.log_id))).map_err(|e| e.to_string()))));
        if let Ok(resp) = &r {
            check_ack(n, resp, None, inc);
            match &resp.membership {
                Some(m) if m.nodes().any(|x| *x.0 == id) => {
                    w(|w| w.probe("learner added"));
                    if blocking && calls_alone(cid) {
                        check_caught_up(n, id, &raft, &resp.log_id);
                    }
                }
                m => w(|w| {
                    let t = format!("add_learner n{} via n{}: {:?}", id, n, m);
                    w.violate(&["C10", "C09"], "a successful membership change has another result", t)
                }),
            }
        }
        if let Err(RaftError::APIError(ClientWriteError::ChangeMembershipError(e))) = &r {
            w(|w| w.check_refused(n, cid, e));
        }
    });
}

fn change_membership(n: Nid, c: &Change) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    let c = c.clone();
    let (req, retain): (ChangeMembers<TC>, bool) = match &c {
        Change::Voters(m, r) => (ChangeMembers::ReplaceAllVoters(bits(*m)), *r),
        Change::AddVoterIds(m, r) => (ChangeMembers::AddVoterIds(bits(*m)), *r),
        Change::AddVoters(m, r) => (ChangeMembers::AddVoters(new_nodes(*m)), *r),
        Change::RemoveVoters(m, r) => (ChangeMembers::RemoveVoters(bits(*m)), *r),
        Change::RemoveNodes(m) => (ChangeMembers::RemoveNodes(bits(*m)), false),
        Change::AddNodes(m) => (ChangeMembers::AddNodes(new_nodes(*m)), false),
        Change::SetNodes(m) => (ChangeMembers::SetNodes(new_nodes(*m)), false),
        Change::ReplaceAllNodes(m) => (ChangeMembers::ReplaceAllNodes(new_nodes(*m)), false),
        Change::RemoveLeader(r) => {
            let l = w(|w| w.leader()).unwrap_or(0);
            d(|d| d.used.insert("remove-leader"));
            (ChangeMembers::RemoveVoters(BTreeSet::from([l])), *r)
        }
        Change::Empty => (ChangeMembers::ReplaceAllVoters(BTreeSet::new()), false),
    };
    w(|w| w.fault("membership request"));
    let cid = call_start(n, &format!("change_membership {:?}", c));
    let req2 = req.clone();
    asked(n, cid, g, req.clone(), retain);
    spawn_in(g, "admin", async move {
        let limit = w(|w| w.give_up(false));
        let Some(r) = rt::cancel_after(limit, raft.change_membership(req, retain)).await else {
            // the request stays open: what it asks for may still happen
            call_dropped(cid);
            return;
        };
        call_end(cid);
        asked_end(cid);
        w(|w| {
            w.log(|| {
                format!(
                    "change_membership {:?} via n{} -> {:?}",
                    c,
                    n,
                    r.as_ref().map(|x| fmt_lid(&Some(x.log_id))).map_err(|e| e.to_string())
                )
            })
        });
        match &r {
            Ok(resp) => {
                check_ack(n, resp, None, inc);
                w(|w| w.probe("membership change succeeds"));
                let m = resp.membership.clone().unwrap_or_default();
                let cs = configs(&m);
                let nodes: BTreeSet<u64> = m.nodes().map(|x| *x.0).collect();
                let v = cs.last().cloned().unwrap_or_default();
                // The second step proposes the same change again. With another change in between, it may be a new one.
                let alone = calls_alone(cid);
                // a change of nodes only leaves the voters as they are, be they joint
                let nodes_only = matches!(
                    &req2,
                    ChangeMembers::RemoveNodes(_) | ChangeMembers::AddNodes(_) | ChangeMembers::SetNodes(_) | ChangeMembers::ReplaceAllNodes(_)
                );
                let ok = (cs.len() == 1 || nodes_only || !alone)
                    && match &req2 {
                        ChangeMembers::ReplaceAllVoters(s) => v == *s,
                        ChangeMembers::AddVoterIds(s) => s.is_subset(&v),
                        ChangeMembers::AddVoters(s) => s.keys().all(|k| v.contains(k)),
                        ChangeMembers::RemoveVoters(s) => s.is_disjoint(&v) && (retain || s.is_disjoint(&nodes) || true),
                        ChangeMembers::RemoveNodes(s) => s.is_disjoint(&nodes),
                        ChangeMembers::AddNodes(s) | ChangeMembers::SetNodes(s) => s.keys().all(|k| nodes.contains(k)),
                        ChangeMembers::ReplaceAllNodes(s) => s.keys().copied().collect::<BTreeSet<_>>() == nodes,
                    };
                let stored = w(|w| {
                    w.o.entries.get(&resp.log_id).map(|e| match &e.entry.payload {
                        EntryPayload::Membership(x) => *x == m,
                        _ => false,
                    })
                });
                if !ok || stored == Some(false) {
                    w(|w| {
                        w.violate(
                            &["C10"],
                            "a successful membership change has another result",
                            format!("{:?} via n{}: {:?} nodes {:?} at {}", c, n, cs, nodes, fmt_lid(&Some(resp.log_id))),
                        )
                    });
                }
            }
            Err(RaftError::APIError(ClientWriteError::ChangeMembershipError(e))) => w(|w| {
                w.probe(match e {
                    ChangeMembershipError::InProgress(_) => "membership change in progress",
                    ChangeMembershipError::EmptyMembership(_) => "empty membership refused",
                    ChangeMembershipError::LearnerNotFound(_) => "learner not found",
                });
                w.check_refused(n, cid, e)
            }),
            Err(_) => {}
        }
    });
}

/// The engine keeps its list of log ids private; its `Debug` form ends with the last log id.
fn engine_last(dbg: &str) -> Option<LogId> {
    let nums: Vec<u64> =
        dbg.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
    let index = *nums.last()?;
    let term = if cfg!(feature = "single-term-leader") { nums.iter().rev().nth(1) } else { nums.iter().rev().nth(2) };
    let term = *term?;
    let node = if cfg!(feature = "single-term-leader") { 0 } else { *nums.iter().rev().nth(1)? };
    Some(LogId::new(openraft::CommittedLeaderId::new(term, node), index))
}

fn do_probe(n: Nid) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    let cid = call_start(n, "with_raft_state");
    let h = spawn_in(g, "probe", async move {
        let r = raft
            .with_raft_state(|st| {
                (
                    engine_last(&format!("{:?}", st.log_ids)),
                    st.committed,
                    st.membership_state.effective().as_ref().clone(),
                    st.membership_state.committed().as_ref().clone(),
                )
            })
            .await;
        call_end(cid);
        r
    });
    spawn_in(HARNESS, "probe", async move {
        let Ok(Ok((last, committed, eff, com))) = h.await else { return };
        w(|w| {
            if w.node(n).inc != inc {
                return;
            }
            w.probe("raft state inspected");
            if let Some(c) = committed {
                w.committed(n, c, "committed position of the engine", None);
            }
            if let Some(exp) = w.o.membership_of(&last) {
                if exp.log_id() != eff.log_id() || exp.membership() != eff.membership() {
                    let t = format!("n{} log end {}: {} instead of {}", n, fmt_lid(&last), eff, exp);
                    w.violate(&["C11"], "the effective membership is not the last one in the log", t);
                }
            }
            if let Some(exp) = w.o.membership_of(&committed) {
                if com.log_id() < exp.log_id() {
                    let t = format!("n{} committed {}: {} instead of {}", n, fmt_lid(&committed), com, exp);
                    w.violate(&["C11"], "the committed membership is older than the last one committed", t);
                }
                if let Some(l) = com.log_id() {
                    if *l > exp.log_id().unwrap() && !w.o.is_committed(l) {
                        let t = format!("n{} {}", n, com);
                        w.violate(&["C11"], "the committed membership is not committed", t);
                    }
                }
            }
        });
    });
}

fn do_wait(n: Nid) {
    let Some((raft, g, inc)) = raft_of(n) else { return };
    let (kind, ms, ap) = w(|w| {
        let k = w.cli.below(6);
        let ms = w.cli.range(1, 1500);
        let a = w.node(n).disk.sm.applied.map(|l| l.index).unwrap_or(0) + w.cli.below(6);
        (k, ms, a)
    });
    let cid = call_start(n, &format!("wait {}", kind));
    spawn_in(g, "wait", async move {
        let t0 = rt::local_time(g);
        let wt = raft.wait(Some(Duration::from_millis(ms)));
        let r = match kind {
            0 => wt.applied_index_at_least(Some(ap), "w").await,
            1 => wt.log_index_at_least(Some(ap), "w").await,
            2 => wt.state(ServerState::Leader, "w").await,
            3 => wt.current_leader(n, "w").await,
            4 => wt.applied_index(Some(ap), "w").await,
            _ => wt.metrics(|m| m.snapshot.map(|l| l.index) >= Some(ap), "w").await,
        };
        let t1 = rt::local_time(g);
        call_end(cid);
        w(|w| {
            if w.node(n).inc != inc {
                return;
            }
            match r {
                Ok(m) => {
                    w.probe("wait succeeds");
                    let ok = match kind {
                        0 => m.last_applied.map(|l| l.index) >= Some(ap) && w.node(n).disk.sm.applied.map(|l| l.index) >= Some(ap),
                        1 => m.last_log_index >= Some(ap),
                        2 => m.state == ServerState::Leader,
                        3 => m.current_leader == Some(n),
                        4 => m.last_applied.map(|l| l.index) == Some(ap),
                        _ => m.snapshot.map(|l| l.index) >= Some(ap),
                    };
                    if !ok {
                        w.violate(&["C25"], "a wait succeeds although its condition does not hold", format!("n{} kind {} {}", n, kind, m));
                    }
                }
                Err(openraft::metrics::WaitError::Timeout(_, _)) => {
                    w.probe("wait times out");
                    if t1 - t0 < ms * MS {
                        w.violate(&["C25"], "a wait fails before its timeout", format!("n{} kind {} after {}us of {}ms", n, kind, (t1 - t0) / 1000, ms));
                    }
                }
                Err(openraft::metrics::WaitError::ShuttingDown) => {
                    let nd = w.node(n);
                    if nd.shutdown.is_none() && nd.poisoned.is_none() && nd.status == Status::Up {
                        w.violate(&["C25", "C27"], "a wait reports shutdown on a running node", format!("n{} kind {}", n, kind));
                    }
                }
            }
        });
    });
}

// -------------------------------------------------------------------------------- main

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub harness_err: Option<String>,
    pub trace: u64,
    pub polls: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub committed: u64,
    pub acked: u64,
    pub reads: u64,
    pub leaders: u64,
    pub calls: BTreeMap<String, u64>,
}

fn heal() {
    let n = w(|w| {
        w.log(|| "======== faults stop ========".into());
        w.healed = true;
        w.heal_at = rt::now();
        w.cut = [0; 8];
        w.link.clear();
        w.drop_p = 0.0;
        w.dup_p = 0.0;
        w.slow_p = 0.0;
        w.quiet = true;
        for nd in w.nodes.iter_mut() {
            nd.armed.clear();
            nd.full_until = 0;
            nd.slow_until = 0;
        }
        w.cfg.partial_p = 0.0;
        w.cfg.cancel_p = 0.0;
        w.cfg.net_mean_us = w.cfg.net_mean_us.min(1000);
        w.cfg.n
    });
    rt::unstall_all();
    rt::set_poll_disturbance(0.0);
    for i in 0..n {
        let (st, want) = w(|w| (w.node(i).status, w.node(i).want_restart));
        if st == Status::Down && want {
            boot(i);
        }
        if let Some((raft, _, _)) = raft_of(i) {
            let now = rt::now();
            let rc = raft.runtime_config();
            rc.tick(true);
            rc.heartbeat(true);
            rc.elect(true);
            w(|w| w.node(i).sw = [(true, now); 3]);
        }
    }
}

/// Tags of a liveness failure: the properties that promise recovery from what this run injected.
fn live_tags(extra: &[&'static str]) -> Vec<&'static str> {
    let mut t = vec!["C18"];
    t.extend_from_slice(extra);
    if d(|d| d.transfers > 0) {
        t.push("C21");
    }
    if d(|d| d.switches > 0) {
        t.push("C31");
    }
    if d(|d| d.used.contains("remove-leader")) {
        t.push("C12");
    }
    let f = w(|w| w.faults.clone());
    if f.keys().any(|k| k.contains("error") || k.contains("full")) {
        t.push("C23");
    }
    if f.contains_key("crash") {
        t.push("C13");
    }
    if f.contains_key("initialize call") {
        t.push("C22");
    }
    if f.contains_key("partial success") || f.contains_key("payload too large") || f.contains_key("short read") {
        t.push("C26");
    }
    t
}

async fn sleep_ms(ms: u64) {
    rt::sleep_ns(ms * MS).await
}

async fn main_task() {
    let cfg = w(|w| w.cfg.clone());
    let n = cfg.n;
    let voters = (1u64 << cfg.voters) - 1;
    // bring up the cluster
    sleep_ms(50).await;
    let ini: Vec<Nid> = if cfg.init_all { (0..cfg.voters).collect() } else { vec![0] };
    {
        let ini = ini.clone();
        spawn_in(HARNESS, "init-loop", async move {
            let mut k = 0u64;
            loop {
                let started = w(|w| w.o.refs.len() > 1);
                if started || w(|w| w.ended) {
                    return;
                }
                for i in &ini {
                    let up = w(|w| w.up(*i) && w.node(*i).disk.pristine());
                    if up {
                        do_initialize(*i, voters, false);
                    }
                }
                k += 1;
                sleep_ms(if k < 3 { 100 } else { 300 }).await;
            }
        });
    }
    if cfg.start_learners {
        spawn_in(HARNESS, "learners", async move {
            for _ in 0..50 {
                sleep_ms(60).await;
                if w(|w| w.healed || w.ended) {
                    return;
                }
                let Some(l) = w(|w| w.leader()) else { continue };
                let have = w(|w| w.node(l).metrics.as_ref().map(|m| m.membership_config.membership().nodes().map(|x| *x.0).collect::<BTreeSet<u64>>())).unwrap_or_default();
                let Some(miss) = (0..n).find(|i| !have.contains(i)) else { return };
                add_learner(l, miss, false);
            }
        });
    }
    spawn_clients();
    for (t, e) in cfg.events.clone() {
        rt::after(t * US, move || event(&e));
    }
    let end = cfg.dur_ms * MS;
    if cfg.calm {
        while rt::now() < end && w(|w| w.leader()).is_none() {
            sleep_ms(50).await;
        }
        sleep_ms(2500).await;
        let (v0, l0, t0) = w(|w| (w.o.vote_requests, w.leader(), w.o.max_term));
        while rt::now() < end + 3 * SEC {
            sleep_ms(100).await;
            let (v, l, t) = w(|w| (w.o.vote_requests, w.leader(), w.o.max_term));
            if l0.is_some() && (v != v0 || l != l0 || t != t0) {
                w(|w| {
                    w.violate(
                        &["C19"],
                        "a healthy leader is disturbed",
                        format!("leader {:?} term {} -> leader {:?} term {}, {} vote requests", l0, t0, l, t, v - v0),
                    )
                });
                break;
            }
        }
        w(|w| w.probe("calm period observed"));
    } else {
        while rt::now() < end {
            rt::sleep_ns(end - rt::now()).await;
        }
    }
    heal();
    finish().await;
    d(|d| d.done = true);
}

fn write_result(id: u64) -> Outcome {
    w(|w| w.o.ops[id as usize - 1].outcome)
}

/// Write through whoever leads until one write succeeds. Returns its index.
async fn fresh_write(deadline: u64) -> Option<u64> {
    let mut k = 0u64;
    while rt::now() < deadline {
        let n = w(|w| w.cfg.n);
        let t = w(|w| w.leader()).unwrap_or(k % n);
        k += 1;
        let Some(id) = start_write(t) else {
            sleep_ms(20).await;
            continue;
        };
        for _ in 0..60 {
            sleep_ms(10).await;
            match write_result(id) {
                Outcome::Ok => {
                    return w(|w| w.o.reqs.get(&id).and_then(|v| v.first()).map(|l| l.index));
                }
                Outcome::Pending => {}
                _ => break,
            }
        }
        sleep_ms(20).await;
    }
    None
}

fn members() -> (Option<Nid>, BTreeSet<u64>, BTreeSet<u64>) {
    w(|w| {
        let l = w.leader();
        let m = w.o.committed_membership();
        match m {
            Some(m) => (
                l,
                m.membership().voter_ids().collect(),
                m.membership().nodes().map(|x| *x.0).collect(),
            ),
            None => (l, BTreeSet::new(), BTreeSet::new()),
        }
    })
}

async fn wait_members(idx: u64, deadline: u64) -> Result<(), String> {
    loop {
        let (l, voters, nodes) = members();
        let lag: Vec<String> = w(|w| {
            nodes
                .iter()
                .filter(|i| **i < w.cfg.n)
                .filter(|i| w.nodes[**i as usize].disk.sm.applied.map(|x| x.index) < Some(idx))
                .map(|i| {
                    let nd = &w.nodes[*i as usize];
                    format!("n{} {:?} applied {} log end {}", i, nd.status, fmt_lid(&nd.disk.sm.applied), fmt_lid(&nd.disk.vol.last()))
                })
                .collect()
        });
        if lag.is_empty() && l.is_some() {
            return Ok(());
        }
        if rt::now() > deadline {
            return Err(format!("leader {:?}, voters {:?}, members {:?}, index {}: {:?}", l, voters, nodes, idx, lag));
        }
        sleep_ms(20).await;
    }
}

async fn finish() {
    let cfg = w(|w| w.cfg.clone());
    // liveness
    let deadline = rt::now() + 60 * SEC;
    let idx = fresh_write(deadline).await;
    let Some(idx) = idx else {
        let (l, v, m) = members();
        let states: Vec<String> = w(|w| {
            w.nodes
                .iter()
                .map(|n| {
                    format!(
                        "n{} {:?} {:?} vote {} log end {}",
                        n.id,
                        n.status,
                        n.metrics.as_ref().map(|m| m.state),
                        n.disk.vol.vote.map(|v| v.to_string()).unwrap_or_default(),
                        fmt_lid(&n.disk.vol.last())
                    )
                })
                .collect()
        });
        let t = live_tags(&[]);
        // a voter whose last, uncommitted membership is without it does not campaign, although only it could win
        let own_out = w(|w| {
            let cm = w.o.committed_membership();
            w.nodes.iter().any(|n| {
                let e = n.disk.effective();
                n.status == Status::Up
                    && v.contains(&n.id)
                    && !e.membership().voter_ids().any(|x| x == n.id)
                    && Some(e.log_id()) > cm.as_ref().map(|m| m.log_id())
            })
        });
        let t = if l.is_none() && own_out { vec!["C18"] } else { t };
        w(|w| {
            w.violate(
                &t,
                if l.is_some() {
                    "no write commits after faults stop"
                } else if own_out {
                    "no leader is elected: a voter is not in its own uncommitted membership"
                } else {
                    "no leader is elected after faults stop"
                },
                format!("leader {:?} voters {:?} members {:?}; {:?}", l, v, m, states),
            )
        });
        return end_checks().await;
    };
    if let Err(e) = wait_members(idx, deadline).await {
        let mut x: Vec<&'static str> = vec!["C26"];
        if w(|w| w.probes.contains_key("purge")) {
            x.push("C16");
            x.push("C14");
            if cfg.v1 {
                x.push("C15");
            }
        }
        let t = live_tags(&x);
        w(|w| w.violate(&t, "a member does not catch up after faults stop", e));
        return end_checks().await;
    }
    w(|w| w.probe("recovered"));
    // a leader removed by a committed membership does not stay
    let t0 = rt::now();
    loop {
        let (l, voters, all) = members();
        match l {
            Some(x) if !all.contains(&x) => {
                if rt::now() > t0 + 20 * SEC {
                    w(|w| w.violate(&["C12"], "a removed leader does not step down", format!("n{} leads, voters {:?} members {:?}", x, voters, all)));
                    break;
                }
                sleep_ms(50).await;
            }
            Some(_) => break,
            None => {
                if rt::now() > t0 + 40 * SEC {
                    let t = live_tags(&[]);
                    w(|w| w.violate(&t, "no leader is elected after faults stop", format!("after recovery; voters {:?}", voters)));
                    break;
                }
                sleep_ms(50).await;
            }
        }
    }
    let Some(_) = fresh_write(rt::now() + 30 * SEC).await else {
        let t = live_tags(&[]);
        w(|w| w.violate(&t, "no write commits after faults stop", "after recovery".into()));
        return end_checks().await;
    };
    // every call returns
    let t0 = rt::now();
    loop {
        // nobody tells a node that is not a member what became of what it proposed
        let nodes = members().2;
        let p: Vec<Call> = d(|d| d.calls.values().filter(|c| nodes.contains(&c.n)).cloned().collect());
        if p.is_empty() {
            break;
        }
        if rt::now() > t0 + 20 * SEC {
            w(|w| {
                w.violate(
                    &["C24"],
                    "a call never returns",
                    format!("{:?}", p.iter().take(5).map(|c| format!("n{} {} since {}ms", c.n, c.what, c.at / MS)).collect::<Vec<_>>()),
                )
            });
            break;
        }
        sleep_ms(50).await;
        // a read waits for an index that the log of the present leader may not have reached
        if rt::now() > t0 + 3 * SEC {
            fresh_write(rt::now() + 5 * SEC).await;
        }
    }
    // a purge asked for is done, once no replication reads what it removes
    let t0 = rt::now();
    loop {
        let nodes = members().2;
        let late: Vec<String> = w(|w| {
            let mut v = vec![];
            for n in nodes {
                if n >= w.cfg.n || !w.up(n) || w.node(n).poisoned.is_some() {
                    continue;
                }
                let (inc, purged) = (w.node(n).inc, w.node(n).disk.vol.purged.map(|l| l.index));
                if let Some((i, due)) = w.no(n).purge_due {
                    if i == inc {
                        w.probe("triggered purge is due");
                        if purged < Some(due) {
                            v.push(format!("n{} asked to purge up to {}, purged {:?}", n, due, purged));
                        }
                    }
                }
            }
            v
        });
        if late.is_empty() {
            break;
        }
        if rt::now() > t0 + 10 * SEC {
            w(|w| w.violate(&["C31", "C17"], "a triggered purge is not done", late.join("; ")));
            break;
        }
        sleep_ms(50).await;
        if rt::now() > t0 + 3 * SEC {
            fresh_write(rt::now() + 5 * SEC).await;
        }
    }
    // compaction keeps up
    if let Some(k) = cfg.snap_every {
        if k <= 20 && (cfg.property == "C17" || cfg.seed % 4 == 0) {
            compaction_phase(&cfg, k).await;
        }
    }
    if cfg.property == "C21" || cfg.seed % 8 == 1 {
        transfer_phase(&cfg).await;
    }
    if cfg.property == "C31" || cfg.seed % 8 == 2 {
        switch_phase(&cfg).await;
    }
    // replication to nodes that are not members has ended
    sleep_ms(1200).await;
    let (l, _, nodes) = members();
    if let Some(l) = l {
        let now = rt::now();
        let bad: Vec<(u64, Nid, Nid)> = w(|w| {
            w.o.appends_sent.iter().filter(|x| x.0 + 700 * MS > now && x.1 == l && !nodes.contains(&x.2)).cloned().collect()
        });
        if let Some(b) = bad.first() {
            w(|w| w.violate(&["C12"], "replication to a removed node goes on", format!("n{} -> n{}, members {:?}", b.1, b.2, nodes)));
        }
    }
    end_checks().await;
}

async fn compaction_phase(cfg: &Cfg, k: u64) {
    // enough writes that every policy must have fired, then some more to let the last one act
    let total = 3 * k + cfg.keep + cfg.purge_batch + 10;
    for _ in 0..total {
        if fresh_write(rt::now() + 20 * SEC).await.is_none() {
            return;
        }
    }
    sleep_ms(2000).await;
    for _ in 0..(k + cfg.purge_batch + 2) {
        if fresh_write(rt::now() + 20 * SEC).await.is_none() {
            return;
        }
    }
    // the policy is looked at when an entry commits: give it entries with nothing else going on
    for _ in 0..3 {
        let Some(idx) = fresh_write(rt::now() + 20 * SEC).await else { return };
        if wait_members(idx, rt::now() + 20 * SEC).await.is_err() {
            return;
        }
        sleep_ms(1000).await;
    }
    sleep_ms(1000).await;
    let (_, _, nodes) = members();
    w(|w| w.probe("compaction observed"));
    for i in nodes {
        if i >= cfg.n {
            continue;
        }
        let (up, ap, snap, purged) = w(|w| {
            let nd = &w.nodes[i as usize];
            (
                nd.status == Status::Up,
                nd.disk.sm.applied.map(|l| l.index).unwrap_or(0),
                nd.disk.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|l| l.index).unwrap_or(0),
                nd.disk.vol.purged.map(|l| l.index).unwrap_or(0),
            )
        });
        if !up {
            continue;
        }
        // while one snapshot is built, the next threshold may pass: two periods, plus slack
        let s1 = 2 * k + 6;
        if ap - snap > s1 {
            w(|w| {
                w.violate(
                    &["C17"],
                    "no snapshot is built although the policy asks for it",
                    format!("n{} applied {} snapshot {} policy {}", i, ap, snap, k),
                )
            });
        }
        let s2 = cfg.keep + cfg.purge_batch + s1 + k;
        if ap - purged > s2 {
            w(|w| {
                w.violate(
                    &["C17"],
                    "the log is not purged",
                    format!("n{} applied {} snapshot {} purged {} policy {} keep {} batch {}", i, ap, snap, purged, k, cfg.keep, cfg.purge_batch),
                )
            });
        }
    }
}

async fn transfer_phase(cfg: &Cfg) {
    let mut tried = vec![];
    let mut slow = vec![];
    // the requests of the target race with the notices to the others, so one try may fail
    for attempt in 0..8 {
        let (l, voters, _) = members();
        let (Some(l), true) = (l, voters.len() > 1) else { return };
        let cand: Vec<u64> = voters.iter().copied().filter(|x| *x != l && *x < cfg.n).collect();
        if cand.is_empty() {
            return;
        }
        let t = cand[(cfg.seed as usize + attempt) % cand.len()];
        if !w(|w| w.up(t)) {
            return;
        }
        do_transfer(l, t);
        w(|w| w.probe("transfer on a healthy cluster"));
        let t0 = rt::now();
        while rt::now() < t0 + 4 * SEC {
            sleep_ms(10).await;
            if w(|w| w.leader()) == Some(t) {
                w(|w| w.probe("transfer hands over"));
                break;
            }
        }
        if w(|w| w.leader()) == Some(t) {
            if rt::now() < t0 + cfg.el_min * MS {
                slow.clear();
                tried.clear();
                break;
            }
            slow.push((l, t, (rt::now() - t0) / MS, voters.len()));
            w(|w| w.probe("transfer takes an election timeout"));
            continue;
        }
        tried.push((l, t, w(|w| w.leader())));
        if fresh_write(rt::now() + 30 * SEC).await.is_none() {
            w(|w| w.violate(&["C21", "C18"], "no leader after a transfer", format!("n{} to n{}", l, t)));
            return;
        }
    }
    if slow.len() + tried.len() == 8 && slow.len() >= tried.len() {
        w(|w| w.violate(&["C21"], "a transfer takes as long as an election timeout", format!("election timeout {}ms, (leader, target, ms, voters): {:?}", cfg.el_min, slow)));
    }
    if slow.len() + tried.len() == 8 && slow.len() < tried.len() {
        w(|w| w.violate(&["C21"], "a transfer to a ready target does not happen", format!("(leader, target, leader after): {:?}", tried)));
    }
    if fresh_write(rt::now() + 30 * SEC).await.is_none() {
        w(|w| w.violate(&["C21", "C18"], "no leader after a transfer", "after success".into()));
    }
}

/// With the switches of a healthy cluster: heartbeats off keeps quiet, a triggered heartbeat is sent,
/// a triggered election happens although elections are off, and everything works again afterwards.
async fn switch_phase(cfg: &Cfg) {
    let (l, voters, nodes) = members();
    let Some(l) = l else { return };
    let Some((raft, g, inc)) = raft_of(l) else { return };
    if nodes.len() < 2 {
        return;
    }
    // a node that is still booting would not hear of the switches
    let incs = || w(|w| w.nodes.iter().map(|x| (x.inc, x.status == Status::Up)).collect::<Vec<_>>());
    let at_start = incs();
    if at_start.iter().any(|x| x.0 > 0 && !x.1) {
        return;
    }
    // elections off everywhere, heartbeats off on the leader
    let set = |hb: bool, el: bool| {
        for i in 0..cfg.n {
            if let Some((r, _, _)) = raft_of(i) {
                r.runtime_config().elect(el);
                if i == l {
                    r.runtime_config().heartbeat(hb);
                }
            }
        }
    };
    set(false, false);
    // an old transfer request may still arrive, and is no timeout
    let transfers = w(|w| w.o.transfer_arrivals);
    sleep_ms(2 * cfg.el_max + 4 * cfg.hb_ms).await;
    let t0 = rt::now();
    let v0 = w(|w| w.o.vote_requests);
    let stable = |t0: u64| {
        w(|w| w.node(l).inc == inc && w.up(l) && w.node(l).metrics.as_ref().map(|m| m.state == ServerState::Leader).unwrap_or(false) && rt::now() >= t0)
    };
    sleep_ms(6 * cfg.el_max).await;
    let now = rt::now();
    let v1 = w(|w| w.o.vote_requests);
    if v1 != v0 && incs() == at_start && transfers == w(|w| w.o.transfer_arrivals) {
        w(|w| w.violate(&["C31"], "a node campaigns by timeout although switched off", format!("{} vote requests with elections off everywhere", v1 - v0)));
    }
    if stable(t0) {
        let sent = w(|w| w.o.appends_sent.iter().filter(|x| x.0 >= t0 && x.0 <= now && x.1 == l).count());
        if sent > 0 {
            w(|w| w.violate(&["C31"], "a leader sends timed heartbeats although switched off", format!("n{} sent {} messages while idle", l, sent)));
        }
        // triggered heartbeat
        let cid = call_start(l, "heartbeat");
        let h = spawn_in(g, "trigger", async move { raft.trigger().heartbeat().await });
        let _ = h.await;
        call_end(cid);
        sleep_ms(300).await;
        if stable(t0) {
            let targets: BTreeSet<Nid> = w(|w| w.o.appends_sent.iter().filter(|x| x.0 >= now && x.1 == l).map(|x| x.2).collect());
            let missing: Vec<u64> = nodes.iter().copied().filter(|x| *x != l && !targets.contains(x)).collect();
            if !missing.is_empty() {
                w(|w| w.violate(&["C31"], "a triggered heartbeat is not sent", format!("n{} did not send to {:?}", l, missing)));
            }
        }
        w(|w| w.probe("switches observed"));
    }
    // a triggered election works with elections off (leases have expired by now)
    let cand: Vec<u64> = voters.iter().copied().filter(|x| *x != l && *x < cfg.n).collect();
    if let Some(c) = cand.first() {
        sleep_ms(2 * cfg.el_max).await;
        do_elect(*c);
        sleep_ms(500).await;
        let won = w(|w| w.leader()) == Some(*c);
        if won {
            w(|w| w.probe("triggered election wins"));
        }
    }
    set(true, true);
    for i in 0..cfg.n {
        if let Some((r, _, _)) = raft_of(i) {
            r.runtime_config().elect(true);
            r.runtime_config().heartbeat(true);
            r.runtime_config().tick(true);
        }
    }
    if fresh_write(rt::now() + 30 * SEC).await.is_none() {
        w(|w| w.violate(&["C31", "C18"], "switching back on does not restore operation", String::new()));
    }
}

async fn end_checks() {
    // shutdown with calls in flight
    let n = w(|w| w.cfg.n);
    let seed = w(|w| w.cfg.seed);
    if seed % 2 == 0 || w(|w| w.cfg.property == "C24") {
        for i in 0..n {
            for _ in 0..2 {
                start_write(i);
            }
            start_read(i);
            do_wait(i);
        }
        let gap = w(|w| w.cli.below(3000));
        rt::sleep_ns(gap * US).await;
        let incs: Vec<(Nid, u64)> = w(|w| w.nodes.iter().filter(|x| x.status == Status::Up).map(|x| (x.id, x.inc)).collect());
        let t_down = rt::now();
        for (i, _) in &incs {
            do_shutdown(*i, u64::MAX - 1);
        }
        sleep_ms(4500).await;
        w(|w| w.probe("final shutdown"));
        for (i, inc) in incs {
            let p = pending_since(i, inc, t_down + SEC);
            if !p.is_empty() {
                w(|w| {
                    w.violate(
                        &["C24"],
                        if p.iter().any(|x| x.0 == "shutdown") { "shutdown does not complete" } else { "a stopped node leaves a caller waiting" },
                        format!("n{}: {:?}", i, p.iter().map(|x| x.0.clone()).take(6).collect::<Vec<_>>()),
                    )
                });
            }
        }
    }
    // equal positions, equal state machines
    w(|w| {
        let mut seen: BTreeMap<Option<LogId>, (u64, Nid)> = BTreeMap::new();
        let mut bad = None;
        for nd in &w.nodes {
            let fp = nd.disk.sm.fp();
            match seen.get(&nd.disk.sm.applied) {
                Some((f, o)) if *f != fp => bad = Some(format!("n{} and n{} at {}", o, nd.id, fmt_lid(&nd.disk.sm.applied))),
                _ => {
                    seen.insert(nd.disk.sm.applied, (fp, nd.id));
                }
            }
        }
        if let Some(t) = bad {
            w.violate(&["C07", "C06"], "state machines at one position differ", t);
        }
    });
}

/// A run sees nothing of what its process did before: it has a thread of its own (hence fresh thread-local
/// generators), and the entropy of the process starts anew.
pub fn run(cfg: &Cfg, verbose: bool) -> Report {
    crate::det::reset();
    let (tx, rx) = std::sync::mpsc::channel();
    let cfg = cfg.clone();
    let go = move || {
        let _ = tx.send(run_here(&cfg, verbose));
        // what is left of the cluster is not torn down: the process ends
        loop {
            std::thread::park();
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(go).unwrap();
    // a panic of the harness
    rx.recv().unwrap_or_else(|_| std::process::abort())
}

fn run_here(cfg: &Cfg, verbose: bool) -> Report {
    rt::init(&rt::RtConfig {
        seed: cfg.seed,
        policy: cfg.policy,
        wake_delay_p: cfg.wake_delay_p,
        wake_delay_mean: cfg.wake_delay_us * US,
        poll_cost: cfg.poll_cost_ns,
    });
    world::init(cfg, verbose);
    let snapshot_policy = match cfg.snap_every {
        Some(k) => SnapshotPolicy::LogsSinceLast(k),
        None => SnapshotPolicy::Never,
    };
    let rc = Config {
        cluster_name: "sim".into(),
        heartbeat_interval: cfg.hb_ms,
        election_timeout_min: cfg.el_min,
        election_timeout_max: cfg.el_max,
        install_snapshot_timeout: cfg.install_timeout_ms,
        max_payload_entries: cfg.max_payload,
        replication_lag_threshold: cfg.lag,
        snapshot_policy,
        snapshot_max_chunk_size: cfg.chunk,
        max_in_snapshot_log_to_keep: cfg.keep,
        purge_batch_size: cfg.purge_batch,
        ..Default::default()
    };
    let rc = match rc.validate() {
        Ok(c) => c,
        Err(e) => {
            world::harness_error(format!("bad config: {}", e));
            return report();
        }
    };
    d(|x| {
        *x = D::default();
        x.raft_cfg = Some(Arc::new(rc));
    });
    for n in 0..cfg.n {
        let j = w(|w| w.disk_rng.below(20_000));
        rt::after(j * US + 1, move || boot(n));
    }
    watch_poison();
    spawn_in(HARNESS, "main", main_task());
    let limit = 400 * SEC;
    loop {
        if d(|d| d.done) || w(|w| w.harness_err.is_some()) {
            break;
        }
        if rt::step(limit) == rt::Step::Idle {
            w(|w| w.harness_err = Some("simulation ran out of time or events".into()));
            break;
        }
        if rt::polls_at_now() > 300_000 {
            let names: Vec<String> = (1..8).filter_map(|_| None).collect();
            w(|w| {
                w.violate(&["C27", "C18"], "tasks spin without time passing", format!("{:?}", names));
            });
            break;
        }
        if rt::polls() > 12_000_000 {
            w(|w| w.probe("run cut off by its poll budget"));
            break;
        }
    }
    report()
}

fn report() -> Report {
    let ls = w(lin::check);
    w(|w| w.ended = true);
    let trace = rt::trace_hash();
    let (polls, sim) = (rt::polls(), rt::now());
    let calls = d(|d| d.calls_done.clone());
    w(|w| Report {
        violations: w.violations.clone(),
        harness_err: w.harness_err.clone(),
        trace,
        polls,
        sim_ns: sim,
        faults: w.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        probes: w.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        states: w.state_sig.iter().copied().collect(),
        committed: w.o.refs.len() as u64,
        acked: ls.writes,
        reads: ls.reads,
        leaders: w.o.acting.len() as u64,
        calls,
    })
}
