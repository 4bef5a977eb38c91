//! The stores shipped with the project, behind one interface.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::io::Cursor;
use std::path::Path;
use std::sync::Arc;

use openraft::storage::RaftLogStorage;
use openraft::storage::RaftStateMachine;
use openraft::EntryPayload;
use openraft::Membership;
use openraft::RaftTypeConfig;
use openraft::StoredMembership;

pub type LogId = openraft::LogId<u64>;

/// A state machine: position, membership (its log id and its configs), data.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SmState {
    pub applied: Option<LogId>,
    pub mem: (Option<LogId>, Vec<BTreeSet<u64>>),
    pub data: BTreeMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pl {
    Blank,
    Set(String, String),
    Mem(Vec<BTreeSet<u64>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub lid: LogId,
    pub pl: Pl,
}

pub trait Kind: 'static {
    type C: RaftTypeConfig<NodeId = u64, Entry = openraft::Entry<Self::C>, SnapshotData = Cursor<Vec<u8>>>;
    type L: RaftLogStorage<Self::C> + Clone;
    type S: RaftStateMachine<Self::C>;
    /// keeps its state in files
    const PERSIST: bool;
    /// saves the committed log id
    const COMMITTED: bool;
    /// a response is the previous value (else the new one)
    const PREVIOUS: bool;
    /// opening runs a recovery of the database engine's own, whose interruption is not this repository's matter
    const OWN_RECOVERY: bool;
    fn open(dir: &Path) -> impl std::future::Future<Output = (Self::L, Self::S)>;
    fn req(k: &str, v: &str) -> <Self::C as RaftTypeConfig>::D;
    fn unreq(d: &<Self::C as RaftTypeConfig>::D) -> (String, String);
    fn resp(r: &<Self::C as RaftTypeConfig>::R) -> Option<String>;
    fn members(c: &[BTreeSet<u64>]) -> Membership<Self::C>;
    fn encode(s: &SmState) -> Vec<u8>;
    fn decode(b: &[u8]) -> Option<SmState>;

    fn entry(e: &Ent) -> openraft::Entry<Self::C> {
        let payload = match &e.pl {
            Pl::Blank => EntryPayload::Blank,
            Pl::Set(k, v) => EntryPayload::Normal(Self::req(k, v)),
            Pl::Mem(c) => EntryPayload::Membership(Self::members(c)),
        };
        openraft::Entry { log_id: e.lid, payload }
    }
    fn unentry(e: &openraft::Entry<Self::C>) -> Ent {
        let pl = match &e.payload {
            EntryPayload::Blank => Pl::Blank,
            EntryPayload::Normal(d) => {
                let (k, v) = Self::unreq(d);
                Pl::Set(k, v)
            }
            EntryPayload::Membership(m) => Pl::Mem(m.get_joint_config().clone()),
        };
        Ent { lid: e.log_id, pl }
    }
    fn unstored(m: &StoredMembership<Self::C>) -> (Option<LogId>, Vec<BTreeSet<u64>>) {
        (*m.log_id(), m.membership().get_joint_config().clone())
    }
    fn stored(m: &(Option<LogId>, Vec<BTreeSet<u64>>)) -> StoredMembership<Self::C> {
        if m.0.is_none() {
            return StoredMembership::default();
        }
        StoredMembership::new(m.0, Self::members(&m.1))
    }
}

macro_rules! mem_kind {
    ($n:ident, $l:ty, $mk:expr) => {
        pub struct $n;
        impl Kind for $n {
            type C = openraft_memstore::TypeConfig;
            type L = $l;
            type S = Arc<openraft_memstore::MemStateMachine>;
            const PERSIST: bool = false;
            const COMMITTED: bool = true;
            const PREVIOUS: bool = true;
            const OWN_RECOVERY: bool = false;
            async fn open(_: &Path) -> (Self::L, Self::S) {
                let (l, s) = openraft_memstore::new_mem_store();
                let f: fn(Arc<openraft_memstore::MemLogStore>) -> $l = $mk;
                (f(l), s)
            }
            fn req(k: &str, v: &str) -> openraft_memstore::ClientRequest {
                openraft_memstore::ClientRequest { client: k.into(), serial: 0, status: v.into() }
            }
            fn unreq(d: &openraft_memstore::ClientRequest) -> (String, String) {
                (d.client.clone(), d.status.clone())
            }
            fn resp(r: &openraft_memstore::ClientResponse) -> Option<String> {
                r.0.clone()
            }
            fn members(c: &[BTreeSet<u64>]) -> Membership<Self::C> {
                Membership::new(c.to_vec(), BTreeMap::<u64, ()>::new())
            }
            fn encode(s: &SmState) -> Vec<u8> {
                serde_json::to_vec(&openraft_memstore::MemStoreStateMachine {
                    last_applied_log: s.applied,
                    last_membership: Self::stored(&s.mem),
                    client_status: s.data.clone().into_iter().collect(),
                })
                .unwrap()
            }
            fn decode(b: &[u8]) -> Option<SmState> {
                let s: openraft_memstore::MemStoreStateMachine = serde_json::from_slice(b).ok()?;
                Some(SmState {
                    applied: s.last_applied_log,
                    mem: Self::unstored(&s.last_membership),
                    data: s.client_status.into_iter().collect(),
                })
            }
        }
    };
}

mem_kind!(Mem, Arc<openraft_memstore::MemLogStore>, |l| l);
mem_kind!(MemEx, memstore::LogStore<openraft_memstore::TypeConfig>, |_| Default::default());

pub struct Rocks;
impl Kind for Rocks {
    type C = openraft_rocksstore::TypeConfig;
    type L = openraft_rocksstore::RocksLogStore;
    type S = openraft_rocksstore::RocksStateMachine;
    const PERSIST: bool = true;
    const COMMITTED: bool = false;
    const PREVIOUS: bool = false;
    const OWN_RECOVERY: bool = false;
    async fn open(dir: &Path) -> (Self::L, Self::S) {
        openraft_rocksstore::new(dir).await
    }
    fn req(k: &str, v: &str) -> openraft_rocksstore::RocksRequest {
        openraft_rocksstore::RocksRequest::Set { key: k.into(), value: v.into() }
    }
    fn unreq(d: &openraft_rocksstore::RocksRequest) -> (String, String) {
        let openraft_rocksstore::RocksRequest::Set { key, value } = d;
        (key.clone(), value.clone())
    }
    fn resp(r: &openraft_rocksstore::RocksResponse) -> Option<String> {
        r.value.clone()
    }
    fn members(c: &[BTreeSet<u64>]) -> Membership<Self::C> {
        Membership::new(c.to_vec(), BTreeMap::<u64, openraft::BasicNode>::new())
    }
    fn encode(s: &SmState) -> Vec<u8> {
        serde_json::to_vec(&openraft_rocksstore::StateMachine {
            last_applied_log: s.applied,
            last_membership: Self::stored(&s.mem),
            data: s.data.clone(),
        })
        .unwrap()
    }
    fn decode(b: &[u8]) -> Option<SmState> {
        let s: openraft_rocksstore::StateMachine = serde_json::from_slice(b).ok()?;
        Some(SmState { applied: s.last_applied_log, mem: Self::unstored(&s.last_membership), data: s.data })
    }
}

pub struct Sled;
impl Kind for Sled {
    type C = openraft_sledstore::TypeConfig;
    type L = Arc<openraft_sledstore::SledStore>;
    type S = Arc<openraft_sledstore::SledStore>;
    const PERSIST: bool = true;
    const COMMITTED: bool = false;
    const PREVIOUS: bool = false;
    const OWN_RECOVERY: bool = true;
    async fn open(dir: &Path) -> (Self::L, Self::S) {
        // no flusher thread: only the store's own flushes make anything durable
        let db = sled::Config::new().path(dir).flush_every_ms(None).cache_capacity(1 << 22).open().expect("sled does not open");
        openraft_sledstore::SledStore::new(Arc::new(db)).await
    }
    fn req(k: &str, v: &str) -> openraft_sledstore::ExampleRequest {
        openraft_sledstore::ExampleRequest::Set { key: k.into(), value: v.into() }
    }
    fn unreq(d: &openraft_sledstore::ExampleRequest) -> (String, String) {
        let openraft_sledstore::ExampleRequest::Set { key, value } = d;
        (key.clone(), value.clone())
    }
    fn resp(r: &openraft_sledstore::ExampleResponse) -> Option<String> {
        r.value.clone()
    }
    fn members(c: &[BTreeSet<u64>]) -> Membership<Self::C> {
        Membership::new(c.to_vec(), BTreeMap::<u64, openraft::BasicNode>::new())
    }
    fn encode(s: &SmState) -> Vec<u8> {
        serde_json::to_vec(&openraft_sledstore::SerializableExampleStateMachine {
            last_applied_log: s.applied,
            last_membership: Self::stored(&s.mem),
            data: s.data.clone(),
        })
        .unwrap()
    }
    fn decode(b: &[u8]) -> Option<SmState> {
        let s: openraft_sledstore::SerializableExampleStateMachine = serde_json::from_slice(b).ok()?;
        Some(SmState { applied: s.last_applied_log, mem: Self::unstored(&s.last_membership), data: s.data })
    }
}
