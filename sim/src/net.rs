//! Simulated network behind openraft's network traits.

use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Context;
use std::task::Poll;
use std::time::Duration;

use openraft::error::NetworkError;
use openraft::error::PayloadTooLarge;
use openraft::error::RPCError;
use openraft::error::RaftError;
use openraft::error::RemoteError;
use openraft::error::ReplicationClosed;
use openraft::error::StreamingError;
use openraft::error::Unreachable;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::Backoff;
use openraft::network::RPCOption;
use openraft::network::RaftNetwork;
use openraft::network::RaftNetworkFactory;
use openraft::raft::AppendEntriesRequest;
use openraft::raft::AppendEntriesResponse;
use openraft::raft::InstallSnapshotRequest;
use openraft::raft::InstallSnapshotResponse;
use openraft::raft::SnapshotResponse;
use openraft::raft::TransferLeaderRequest;
use openraft::raft::VoteRequest;
use openraft::raft::VoteResponse;
use openraft::storage::Snapshot;
use openraft::OptionalSend;

use crate::rt;
use crate::rt::GroupId;
use crate::types::*;
use crate::world::w;
use crate::world::Status;
use crate::world::World;

#[derive(Clone, Debug)]
pub enum NetErr {
    Unreachable(&'static str),
    Network(&'static str),
}

#[derive(Debug)]
struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}

fn unreachable_err(s: &str) -> Unreachable {
    Unreachable::new(&E(s.to_string()))
}
fn network_err(s: &str) -> NetworkError {
    NetworkError::new(&E(s.to_string()))
}

/// The whole simulation is one thread.
pub struct Sendable<F>(pub F);
unsafe impl<F> Send for Sendable<F> {}
impl<F: Future> Future for Sendable<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

impl World {
    /// Latency of one message, or None when it is lost.
    fn fate(&mut self, from: Nid, to: Nid) -> Option<u64> {
        if self.is_cut(from, to) {
            self.fault("message cut by partition");
            return None;
        }
        let mut d = self.cfg.net_min_us * rt::US + self.net.exp(self.cfg.net_mean_us * rt::US);
        if let Some(&x) = self.link.get(&(from, to)) {
            if x == u64::MAX {
                self.fault("message lost on bad link");
                return None;
            }
            self.fault("message on slow link");
            d += self.net.exp(x * rt::US);
        }
        if self.net.chance(self.drop_p) {
            self.fault("message dropped");
            return None;
        }
        if self.net.chance(self.slow_p) {
            self.fault("message delayed");
            d += self.net.exp(self.cfg.slow_ms * rt::MS);
        }
        Some(d)
    }
}

type HFut<T> = Pin<Box<dyn Future<Output = Result<T, NetErr>>>>;

/// Send a request and hand its reply back. Lost messages leave the call pending, or fail it.
fn call<T: 'static>(
    from: Nid,
    to: Nid,
    size: u64,
    handler: Rc<dyn Fn(Raft) -> HFut<T>>,
) -> tokio::sync::oneshot::Receiver<Result<T, NetErr>> {
    let (tx, rx) = tokio::sync::oneshot::channel();
    let tx = Rc::new(std::cell::RefCell::new(Some(tx)));
    let answer = {
        let tx = tx.clone();
        Rc::new(move |r: Result<T, NetErr>| {
            if let Some(tx) = tx.borrow_mut().take() {
                let _ = tx.send(r);
            }
        })
    };
    // Keep the sender half alive for as long as the receiver waits: a lost message is silence.
    enum Fate {
        Lost(Option<(u64, NetErr)>),
        Go(u64, Option<u64>),
    }
    let fate = w(|w| {
        let down = w.nodes[to as usize].status != Status::Up;
        let fast = w.cfg.fast_unreachable;
        if down && fast {
            w.fault("peer unreachable");
            let d = 100 * rt::US + w.net.exp(w.cfg.net_mean_us * rt::US);
            return Fate::Lost(Some((d, NetErr::Unreachable("peer is down"))));
        }
        let kb = w.cfg.snap_kbps.max(1);
        let xfer = size * 1_000_000 / kb; // bytes / (kB/s) in ns * 1000
        match w.fate(from, to) {
            None => {
                if fast && w.net.chance(0.4) {
                    let d = 100 * rt::US + w.net.exp(2 * w.cfg.net_mean_us * rt::US);
                    let e = if w.net.chance(0.5) {
                        NetErr::Network("connection reset")
                    } else {
                        NetErr::Unreachable("no route")
                    };
                    Fate::Lost(Some((d, e)))
                } else {
                    Fate::Lost(None)
                }
            }
            Some(d) => {
                let dup = if w.net.chance(w.dup_p) {
                    w.fault("message duplicated");
                    let extra = if w.net.chance(0.4) { w.cfg.slow_ms * rt::MS } else { 3 * w.cfg.net_mean_us * rt::US };
                    Some(d + w.net.exp(extra))
                } else {
                    None
                };
                Fate::Go(d + xfer, dup)
            }
        }
    });
    match fate {
        Fate::Lost(None) => {
            // silence; the receiver is kept pending by the leaked sender
            std::mem::forget(tx);
        }
        Fate::Lost(Some((d, e))) => rt::after(d, move || answer(Err(e))),
        Fate::Go(d, dup) => {
            for d in [Some(d), dup].into_iter().flatten() {
                let handler = handler.clone();
                let answer = answer.clone();
                rt::after(d, move || deliver(from, to, handler, answer));
            }
        }
    }
    rx
}

impl World {
    /// After how long the caller drops what it waits for.
    pub fn give_up(&mut self, rpc: bool) -> Option<u64> {
        let p = self.cfg.cancel_p;
        if p == 0.0 {
            return None;
        }
        let r = if rpc { &mut self.net } else { &mut self.cli };
        if !r.chance(p) {
            return None;
        }
        let mean = *r.pick(&[0, 50, 500, 5000, 50000]);
        Some(if mean == 0 { 0 } else { r.exp(mean * rt::US) })
    }
}

fn deliver<T: 'static>(
    from: Nid,
    to: Nid,
    handler: Rc<dyn Fn(Raft) -> HFut<T>>,
    answer: Rc<dyn Fn(Result<T, NetErr>)>,
) {
    let target = w(|w| {
        let nd = &w.nodes[to as usize];
        if nd.status != Status::Up {
            return None;
        }
        Some((nd.raft.clone().unwrap(), nd.group))
    });
    let Some((raft, group)) = target else {
        if w(|w| w.cfg.fast_unreachable) {
            let d = w(|w| 50 * rt::US + w.net.exp(w.cfg.net_mean_us * rt::US));
            rt::after(d, move || answer(Err(NetErr::Unreachable("connection refused"))));
        } else {
            std::mem::forget(answer);
        }
        return;
    };
    let fut = rt::in_group(group, || handler(raft));
    rt::spawn_in(group, "rpc", async move {
        let limit = w(|w| w.give_up(true));
        let Some(r) = rt::cancel_after(limit, fut).await else {
            let d = w(|w| {
                w.fault("rpc handler cancelled");
                if w.net.chance(0.5) {
                    w.fate(to, from)
                } else {
                    None
                }
            });
            match d {
                Some(d) => rt::after(d, move || answer(Err(NetErr::Network("connection reset")))),
                None => std::mem::forget(answer),
            }
            return;
        };
        let fate = w(|w| w.fate(to, from));
        match fate {
            Some(d) => rt::after(d, move || answer(r)),
            None => std::mem::forget(answer),
        }
    });
}

async fn recv<T>(rx: tokio::sync::oneshot::Receiver<Result<T, NetErr>>) -> Result<T, NetErr> {
    match rx.await {
        Ok(r) => r,
        Err(_) => {
            // the peer died while handling it
            std::future::pending::<()>().await;
            unreachable!()
        }
    }
}

fn fatal<T>(e: impl std::fmt::Display) -> Result<T, NetErr> {
    let _ = e;
    Err(NetErr::Unreachable("remote stopped"))
}

#[derive(Clone)]
pub struct Factory {
    pub n: Nid,
    pub g: GroupId,
}

impl RaftNetworkFactory<TC> for Factory {
    type Network = SimNet;
    async fn new_client(&mut self, target: Nid, node: &openraft::BasicNode) -> SimNet {
        w(|w| w.check_address(self.n, self.g, target, node));
        SimNet { n: self.n, g: self.g, to: target, last_append_ok: true }
    }
}

pub struct SimNet {
    pub n: Nid,
    pub g: GroupId,
    pub to: Nid,
    #[allow(dead_code)]
    pub last_append_ok: bool,
}

fn valid(to: Nid) -> bool {
    w(|w| to < w.cfg.n)
}

async fn dead(n: Nid, g: GroupId) {
    if !rt::group_alive(g) || w(|w| w.node(n).group != g) {
        std::future::pending::<()>().await;
    }
}

fn backoff() -> Backoff {
    let ms = w(|w| w.cfg.backoff_ms);
    Backoff::new(std::iter::repeat(Duration::from_millis(ms)))
}

impl SimNet {
    async fn append(&mut self, mut rpc: AppendEntriesRequest<TC>) -> Result<AppendEntriesResponse<TC>, RPCError<TC>> {
        dead(self.n, self.g).await;
        let (n, to, g) = (self.n, self.to, self.g);
        w(|w| w.on_send_append(n, to, &rpc));
        if !valid(to) {
            return Err(RPCError::Unreachable(unreachable_err("no such node")));
        }
        // the transport may refuse or send less
        let (too_large, cut) = w(|w| {
            let len = rpc.entries.len() as u64;
            if let Some(m) = w.cfg.too_large {
                if len > m {
                    w.fault("payload too large");
                    return (Some(m), None);
                }
            }
            if len >= 2 && w.net.chance(w.cfg.partial_p) {
                let k = 1 + w.net.below(len - 1);
                w.fault("partial success");
                return (None, Some(k as usize));
            }
            (None, None)
        });
        if let Some(m) = too_large {
            return Err(RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(m)));
        }
        if let Some(k) = cut {
            rpc.entries.truncate(k);
        }
        let last = rpc.entries.last().map(|e| e.log_id).or(rpc.prev_log_id);
        let sent = rt::local_time(g);
        let seq = rt::next_seq();
        let v = vkey(&rpc.vote);
        let req = Rc::new(rpc);
        let r2 = req.clone();
        let rx = call::<Rc<AppendEntriesResponse<TC>>>(
            n,
            to,
            0,
            Rc::new(move |raft| {
                let req = r2.clone();
                let a = w(|w| w.on_arrive(to, n, vkey(&req.vote)));
                Box::pin(async move {
                    match raft.append_entries(clone_append(&req)).await {
                        Ok(resp) => {
                            w(|w| w.on_append_reply(to, n, &req, &resp, a));
                            Ok(Rc::new(resp))
                        }
                        Err(e) => fatal(e),
                    }
                })
            }),
        );
        let res = recv(rx).await;
        let _ = seq;
        match res {
            Ok(resp) => {
                let resp = clone_resp(&resp);
                let acc = !matches!(resp, AppendEntriesResponse::HigherVote(_));
                w(|w| w.on_ack(n, g, to, v, sent, acc));
                if cut.is_some() && matches!(resp, AppendEntriesResponse::Success) {
                    return Ok(AppendEntriesResponse::PartialSuccess(last));
                }
                Ok(resp)
            }
            Err(NetErr::Unreachable(s)) => Err(RPCError::Unreachable(unreachable_err(s))),
            Err(NetErr::Network(s)) => Err(RPCError::Network(network_err(s))),
        }
    }

    async fn send_vote(&mut self, rpc: VoteRequest<TC>) -> Result<VoteResponse<TC>, RPCError<TC>> {
        dead(self.n, self.g).await;
        let (n, to) = (self.n, self.to);
        w(|w| w.on_send_vote(n, to, &rpc));
        if !valid(to) {
            return Err(RPCError::Unreachable(unreachable_err("no such node")));
        }
        let rx = call::<VoteResponse<TC>>(
            n,
            to,
            0,
            Rc::new(move |raft| {
                let rpc = rpc.clone();
                let a = w(|w| w.on_arrive(to, n, vkey(&rpc.vote)));
                Box::pin(async move {
                    match raft.vote(rpc.clone()).await {
                        Ok(resp) => {
                            w(|w| w.on_vote_reply(to, n, &rpc, &resp, a));
                            Ok(resp)
                        }
                        Err(e) => fatal(e),
                    }
                })
            }),
        );
        match recv(rx).await {
            Ok(r) => Ok(r),
            Err(NetErr::Unreachable(s)) => Err(RPCError::Unreachable(unreachable_err(s))),
            Err(NetErr::Network(s)) => Err(RPCError::Network(network_err(s))),
        }
    }
}

fn clone_append(r: &AppendEntriesRequest<TC>) -> AppendEntriesRequest<TC> {
    AppendEntriesRequest {
        vote: r.vote,
        prev_log_id: r.prev_log_id,
        entries: r.entries.clone(),
        leader_commit: r.leader_commit,
    }
}
fn clone_resp(r: &AppendEntriesResponse<TC>) -> AppendEntriesResponse<TC> {
    match r {
        AppendEntriesResponse::Success => AppendEntriesResponse::Success,
        AppendEntriesResponse::PartialSuccess(x) => AppendEntriesResponse::PartialSuccess(*x),
        AppendEntriesResponse::Conflict => AppendEntriesResponse::Conflict,
        AppendEntriesResponse::HigherVote(v) => AppendEntriesResponse::HigherVote(*v),
    }
}

impl RaftNetworkV2<TC> for SimNet {
    async fn append_entries(
        &mut self,
        rpc: AppendEntriesRequest<TC>,
        _option: RPCOption,
    ) -> Result<AppendEntriesResponse<TC>, RPCError<TC>> {
        Sendable(self.append(rpc)).await
    }

    async fn vote(&mut self, rpc: VoteRequest<TC>, _option: RPCOption) -> Result<VoteResponse<TC>, RPCError<TC>> {
        Sendable(self.send_vote(rpc)).await
    }

    async fn full_snapshot(
        &mut self,
        vote: Vote,
        snapshot: Snapshot<TC>,
        cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        option: RPCOption,
    ) -> Result<SnapshotResponse<TC>, StreamingError<TC>> {
        Sendable(async move {
            dead(self.n, self.g).await;
            let (n, to, g) = (self.n, self.to, self.g);
            w(|w| w.on_send_snapshot(n, to, &vote, &snapshot.meta));
            if !valid(to) {
                return Err(StreamingError::Unreachable(unreachable_err("no such node")));
            }
            if w(|w| w.cfg.v1) {
                let mut v1 = V1Net { n, g, to };
                return RaftNetworkV2::<TC>::full_snapshot(&mut v1, vote, snapshot, cancel, option).await;
            }
            let meta = snapshot.meta.clone();
            let data = Rc::new(snapshot.snapshot.into_inner());
            let sent = rt::local_time(g);
            let v = vkey(&vote);
            let size = data.len() as u64;
            let rx = call::<SnapshotResponse<TC>>(
                n,
                to,
                size,
                Rc::new(move |raft| {
                    let (meta, data) = (meta.clone(), data.clone());
                    let a = w(|w| w.on_arrive(to, n, vkey(&vote)));
                    Box::pin(async move {
                        let s = Snapshot {
                            meta: meta.clone(),
                            snapshot: Box::new(SnapFile::new(data.as_ref().clone(), w(|w| w.cfg.snap_io))),
                        };
                        match raft.install_full_snapshot(vote, s).await {
                            Ok(r) => {
                                w(|w| w.on_snapshot_reply(to, n, &vote, &meta, &r.vote, a));
                                Ok(r)
                            }
                            Err(e) => fatal(e),
                        }
                    })
                }),
            );
            let mut cancel = std::pin::pin!(cancel);
            let mut rx = std::pin::pin!(recv(rx));
            let mut timeout = std::pin::pin!(<rt::SimRuntime as openraft::AsyncRuntime>::sleep(option.hard_ttl()));
            let res = std::future::poll_fn(|cx| {
                if let Poll::Ready(r) = rx.as_mut().poll(cx) {
                    return Poll::Ready(match r {
                        Ok(r) => Ok(r),
                        Err(NetErr::Unreachable(s)) => Err(StreamingError::Unreachable(unreachable_err(s))),
                        Err(NetErr::Network(s)) => Err(StreamingError::Network(network_err(s))),
                    });
                }
                if let Poll::Ready(c) = cancel.as_mut().poll(cx) {
                    return Poll::Ready(Err(StreamingError::Closed(c)));
                }
                if timeout.as_mut().poll(cx).is_ready() {
                    return Poll::Ready(Err(StreamingError::Network(network_err("snapshot timeout"))));
                }
                Poll::Pending
            })
            .await;
            if let Ok(r) = &res {
                let acc = vkey(&r.vote) <= v;
                w(|w| w.on_ack(n, g, to, v, sent, acc));
            }
            res
        })
        .await
    }

    async fn transfer_leader(&mut self, req: TransferLeaderRequest<TC>, _option: RPCOption) -> Result<(), RPCError<TC>> {
        Sendable(async move {
            dead(self.n, self.g).await;
            let (n, to) = (self.n, self.to);
            w(|w| w.on_send_transfer(n, to, &req));
            if !valid(to) {
                return Err(RPCError::Unreachable(unreachable_err("no such node")));
            }
            let rx = call::<()>(
                n,
                to,
                0,
                Rc::new(move |raft| {
                    let req = req.clone();
                    w(|w| w.on_arrive_transfer(to, &req));
                    Box::pin(async move {
                        match raft.handle_transfer_leader(req).await {
                            Ok(()) => Ok(()),
                            Err(e) => fatal(e),
                        }
                    })
                }),
            );
            match recv(rx).await {
                Ok(()) => Ok(()),
                Err(NetErr::Unreachable(s)) => Err(RPCError::Unreachable(unreachable_err(s))),
                Err(NetErr::Network(s)) => Err(RPCError::Network(network_err(s))),
            }
        })
        .await
    }

    fn backoff(&self) -> Backoff {
        backoff()
    }
}

/// The version 1 network: snapshots are sent in chunks by openraft's own transport.
pub struct V1Net {
    n: Nid,
    g: GroupId,
    to: Nid,
}

#[derive(Clone)]
enum ChunkReply {
    Ok(Vote),
    Mismatch(openraft::error::SnapshotMismatch),
}

impl RaftNetwork<TC> for V1Net {
    async fn append_entries(
        &mut self,
        _rpc: AppendEntriesRequest<TC>,
        _option: RPCOption,
    ) -> Result<AppendEntriesResponse<TC>, RPCError<TC, RaftError<TC>>> {
        unreachable!("only snapshots use this client")
    }
    async fn vote(
        &mut self,
        _rpc: VoteRequest<TC>,
        _option: RPCOption,
    ) -> Result<VoteResponse<TC>, RPCError<TC, RaftError<TC>>> {
        unreachable!("only snapshots use this client")
    }
    async fn install_snapshot(
        &mut self,
        rpc: InstallSnapshotRequest<TC>,
        _option: RPCOption,
    ) -> Result<
        InstallSnapshotResponse<TC>,
        RPCError<TC, RaftError<TC, openraft::error::InstallSnapshotError>>,
    > {
        Sendable(async move {
            dead(self.n, self.g).await;
            let (n, to, g) = (self.n, self.to, self.g);
            let vote = rpc.vote;
            let v = vkey(&vote);
            let sent = rt::local_time(g);
            w(|w| {
                w.on_send_snapshot(n, to, &vote, &rpc.meta);
                w.probe("snapshot chunk sent");
            });
            let size = rpc.data.len() as u64;
            let rx = call::<ChunkReply>(
                n,
                to,
                size,
                Rc::new(move |raft| {
                    let rpc = rpc.clone();
                    let a = w(|w| w.on_arrive(to, n, vkey(&vote)));
                    Box::pin(async move {
                        let (meta, done) = (rpc.meta.clone(), rpc.done);
                        match raft.install_snapshot(rpc).await {
                            Ok(r) => {
                                if done {
                                    w(|w| w.on_snapshot_reply(to, n, &vote, &meta, &r.vote, a));
                                }
                                Ok(ChunkReply::Ok(r.vote))
                            }
                            Err(RaftError::APIError(openraft::error::InstallSnapshotError::SnapshotMismatch(m))) => {
                                w(|w| w.probe("snapshot chunk mismatch"));
                                Ok(ChunkReply::Mismatch(m))
                            }
                            Err(e) => fatal(e),
                        }
                    })
                }),
            );
            match recv(rx).await {
                Ok(ChunkReply::Ok(vt)) => {
                    let acc = vkey(&vt) <= v;
                    w(|w| w.on_ack(n, g, to, v, sent, acc));
                    Ok(InstallSnapshotResponse { vote: vt })
                }
                Ok(ChunkReply::Mismatch(m)) => Err(RPCError::RemoteError(RemoteError::new(
                    to,
                    RaftError::APIError(openraft::error::InstallSnapshotError::SnapshotMismatch(m)),
                ))),
                Err(NetErr::Unreachable(s)) => Err(RPCError::Unreachable(unreachable_err(s))),
                Err(NetErr::Network(s)) => Err(RPCError::Network(network_err(s))),
            }
        })
        .await
    }
}
