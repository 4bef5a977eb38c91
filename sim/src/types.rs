//! Openraft type configuration and small helpers shared by the simulator.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::io::Cursor;
use std::pin::Pin;
use std::task::Context;
use std::task::Poll;

use openraft::EntryPayload;
use serde::Deserialize;
use serde::Serialize;
use tokio::io::AsyncRead;
use tokio::io::AsyncSeek;
use tokio::io::AsyncWrite;
use tokio::io::ReadBuf;

use crate::rng::mix;
use crate::rt::SimRuntime;

/// Client request: set `key` to the (globally unique) value `id`; the response carries the old value.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct Req {
    pub id: u64,
    pub key: u8,
    pub pad: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Eq)]
pub struct Resp {
    pub id: u64,
    pub index: u64,
    pub prev: Option<u64>,
}

openraft::declare_raft_types!(
    pub TC:
        D = Req,
        R = Resp,
        NodeId = u64,
        Node = openraft::BasicNode,
        Entry = openraft::Entry<TC>,
        SnapshotData = SnapFile,
        AsyncRuntime = SimRuntime,
);

/// Snapshot data: a file in memory that reads and writes only part of what was asked for, and makes its caller wait.
#[derive(Debug)]
pub struct SnapFile {
    c: Cursor<Vec<u8>>,
    /// 0: all at once; 1: short reads and writes; 2: and every third operation waits once
    mode: u8,
    k: u64,
    waited: bool,
}

impl SnapFile {
    pub fn new(v: Vec<u8>, mode: u8) -> Self {
        SnapFile { k: mix(v.len() as u64, mode as u64), c: Cursor::new(v), mode, waited: false }
    }
    pub fn into_inner(self) -> Vec<u8> {
        self.c.into_inner()
    }
    /// How much of `n` bytes this operation moves; None: the caller waits first.
    fn turn(&mut self, cx: &mut Context<'_>, n: usize) -> Option<usize> {
        if self.mode == 0 || n == 0 {
            return Some(n);
        }
        if self.waited {
            self.waited = false;
        } else {
            self.k = mix(self.k, n as u64);
            if self.mode == 2 && self.k % 3 == 0 {
                self.waited = true;
                cx.waker().wake_by_ref();
                return None;
            }
        }
        Some(match self.k >> 8 & 3 {
            0 => n,
            1 => 1,
            2 => n.div_ceil(2),
            _ => n - n / 4,
        })
    }
}

impl AsyncRead for SnapFile {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let Some(n) = self.turn(cx, buf.remaining()) else { return Poll::Pending };
        let at = (self.c.position() as usize).min(self.c.get_ref().len());
        let n = n.min(self.c.get_ref().len() - at);
        buf.put_slice(&self.c.get_ref()[at..at + n]);
        self.c.set_position((at + n) as u64);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for SnapFile {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let Some(n) = self.turn(cx, buf.len()) else { return Poll::Pending };
        Poll::Ready(std::io::Write::write(&mut self.c, &buf[..n]))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for SnapFile {
    fn start_seek(mut self: Pin<&mut Self>, pos: std::io::SeekFrom) -> std::io::Result<()> {
        std::io::Seek::seek(&mut self.c, pos).map(|_| ())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        if self.mode == 2 && self.turn(cx, 1).is_none() {
            return Poll::Pending;
        }
        Poll::Ready(Ok(self.c.position()))
    }
}

pub type Nid = u64;
pub type LogId = openraft::LogId<u64>;
pub type Vote = openraft::Vote<u64>;
pub type Entry = openraft::Entry<TC>;
pub type Membership = openraft::Membership<TC>;
pub type StoredMembership = openraft::StoredMembership<TC>;
pub type SnapshotMeta = openraft::SnapshotMeta<TC>;
pub type StorageError = openraft::StorageError<TC>;
pub type Metrics = openraft::RaftMetrics<TC>;
pub type Raft = openraft::Raft<TC>;
/// (term, node): identity of a leader or candidate
pub type LKey = (u64, u64);

pub fn vkey(v: &Vote) -> LKey {
    let l = v.leader_id();
    (l.get_term(), l.voted_for().unwrap_or(u64::MAX))
}

/// What a log id says about the leader that proposed it.
pub fn lid_leader(l: &LogId) -> LKey {
    #[cfg(not(feature = "single-term-leader"))]
    {
        (l.leader_id.term, l.leader_id.node_id)
    }
    #[cfg(feature = "single-term-leader")]
    {
        (l.leader_id.term, u64::MAX)
    }
}

/// Does the log id carry the leader id of this vote?
pub fn lid_of_vote(l: &LogId, v: LKey) -> bool {
    let k = lid_leader(l);
    k.0 == v.0 && (k.1 == v.1 || k.1 == u64::MAX)
}

/// leader of `l` strictly older than vote `v`
pub fn lid_older_than(l: &LogId, v: LKey) -> bool {
    let k = lid_leader(l);
    k.0 < v.0 || (k.0 == v.0 && k.1 != u64::MAX && k.1 < v.1)
}

pub fn h_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

pub fn membership_fp(m: &Membership) -> u64 {
    let mut h = 3;
    for c in m.get_joint_config() {
        h = mix(h, 77);
        for n in c {
            h = mix(h, *n + 1);
        }
    }
    h = mix(h, 99);
    for (id, n) in m.nodes() {
        h = mix(h, *id + 1);
        h = h_bytes(h, n.addr.as_bytes());
    }
    h
}

pub fn payload_fp(e: &Entry) -> u64 {
    match &e.payload {
        EntryPayload::Blank => 1,
        EntryPayload::Normal(r) => h_bytes(mix(mix(2, r.id), r.key as u64), &r.pad),
        EntryPayload::Membership(m) => membership_fp(m),
    }
}

pub fn lid_fp(l: &Option<LogId>) -> u64 {
    match l {
        None => 0x1234,
        Some(l) => {
            let k = lid_leader(l);
            mix(mix(mix(5, k.0), k.1), l.index)
        }
    }
}

pub fn vote_fp(v: &Vote) -> u64 {
    let k = vkey(v);
    mix(mix(k.0, k.1), v.committed as u64)
}

pub fn configs(m: &Membership) -> Vec<BTreeSet<u64>> {
    m.get_joint_config().clone()
}

pub fn is_quorum(cfg: &[BTreeSet<u64>], mask: u64) -> bool {
    // A membership without any voter config has no quorum.
    !cfg.is_empty()
        && cfg.iter().all(|c| {
            let n = c.iter().filter(|x| mask >> **x & 1 == 1).count();
            n > c.len() / 2
        })
}

pub fn is_voter(m: &Membership, n: u64) -> bool {
    m.get_joint_config().iter().any(|c| c.contains(&n))
}

/// State machine contents. The same type is used by the reference model.
#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq)]
pub struct Sm {
    pub applied: Option<LogId>,
    pub membership: StoredMembership,
    pub kv: BTreeMap<u8, u64>,
    /// rolling hash of every applied entry
    pub hash: u64,
}

impl Sm {
    pub fn apply(&mut self, e: &Entry) -> Resp {
        let mut r = Resp { id: 0, index: e.log_id.index, prev: None };
        self.hash = mix(mix(self.hash, lid_fp(&Some(e.log_id))), payload_fp(e));
        self.applied = Some(e.log_id);
        match &e.payload {
            EntryPayload::Blank => {}
            EntryPayload::Normal(q) => {
                r.id = q.id;
                r.prev = self.kv.insert(q.key, q.id);
            }
            EntryPayload::Membership(m) => {
                self.membership = StoredMembership::new(Some(e.log_id), m.clone());
            }
        }
        r
    }
    pub fn fp(&self) -> u64 {
        let mut h = mix(self.hash, lid_fp(&self.applied));
        h = mix(h, lid_fp(self.membership.log_id()));
        h = mix(h, membership_fp(self.membership.membership()));
        for (k, v) in &self.kv {
            h = mix(mix(h, *k as u64), *v);
        }
        h
    }
    pub fn encode(&self, pad: usize) -> Vec<u8> {
        let body = serde_json::to_vec(self).unwrap();
        let mut v = Vec::with_capacity(body.len() + pad + 16);
        v.extend_from_slice(&(body.len() as u64).to_le_bytes());
        v.extend_from_slice(&h_bytes(9, &body).to_le_bytes());
        v.extend_from_slice(&body);
        for i in 0..pad {
            v.push((mix(self.hash, i as u64) & 0xff) as u8);
        }
        v
    }
    pub fn decode(b: &[u8]) -> Result<Sm, String> {
        if b.len() < 16 {
            return Err("truncated header".into());
        }
        let n = u64::from_le_bytes(b[0..8].try_into().unwrap()) as usize;
        let h = u64::from_le_bytes(b[8..16].try_into().unwrap());
        if n > b.len() || b.len() < 16 + n {
            return Err("truncated body".into());
        }
        let body = &b[16..16 + n];
        if h_bytes(9, body) != h {
            return Err("checksum mismatch".into());
        }
        let sm: Sm = serde_json::from_slice(body).map_err(|e| e.to_string())?;
        for (i, x) in b[16 + n..].iter().enumerate() {
            if *x != (mix(sm.hash, i as u64) & 0xff) as u8 {
                return Err(format!("padding byte {} is wrong", i));
            }
        }
        Ok(sm)
    }
}

pub fn fmt_lid(l: &Option<LogId>) -> String {
    match l {
        None => "-".into(),
        Some(l) => {
            let k = lid_leader(l);
            if k.1 == u64::MAX {
                format!("T{}.{}", k.0, l.index)
            } else {
                format!("T{}N{}.{}", k.0, k.1, l.index)
            }
        }
    }
}
