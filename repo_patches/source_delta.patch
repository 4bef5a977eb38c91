From 17a3709ac6fddd76401716dbd476198b57ebcd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 01/28] fix: do not elect when the node is already a leader

Trigger::elect() on a Leader replaced its committed vote with a
non-committed one, while engine.leader stays and keeps proposing,
replicating and confirming reads.
---
 openraft/src/core/raft_core.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..fe7e435 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1262,8 +1262,11 @@ where
 
                 match cmd {
                     ExternalCommand::Elect => {
-                        if self.engine.state.membership_state.effective().is_voter(&self.id) {
-                            // TODO: reject if it is already a leader?
+                        if self.engine.state.server_state == ServerState::Leader {
+                            // Electing would replace the Leader's committed vote with a non-committed one,
+                            // while it keeps proposing and replicating logs as the previous Leader.
+                            tracing::info!("ExternalCommand: already a leader, do not elect again");
+                        } else if self.engine.state.membership_state.effective().is_voter(&self.id) {
                             self.engine.elect();
                             tracing::debug!("ExternalCommand: triggered election");
                         } else {
-- 
2.43.0


From 303142c3e6c563a8c6397134d277e19602a28422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 02/28] fix: keep VecProgress sorted when a value above granted
 increases

---
 openraft/src/progress/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..80c4936 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,15 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // Elements greater than the `granted` have to be kept sorted,
+            // also when this element was already greater than the `granted`.
             let new_index = self.move_up(index);
 
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From 2b56de39e205bd5697efee36aeec6337d12eef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 03/28] fix: do not finish a chunked snapshot with a gap in it

---
 openraft/src/network/snapshot_transport.rs | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f2b4c3e..f3e9655 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -201,6 +201,23 @@ mod tokio_rt {
 
             {
                 let s = streaming.as_mut().unwrap();
+
+                // Chunks may be lost, delayed or duplicated:
+                // do not finish a snapshot with a segment that is not yet received.
+                if done && req.offset > s.received {
+                    let mismatch = InstallSnapshotError::SnapshotMismatch(crate::error::SnapshotMismatch {
+                        expect: crate::SnapshotSegmentId {
+                            id: snapshot_id.clone(),
+                            offset: s.received,
+                        },
+                        got: crate::SnapshotSegmentId {
+                            id: snapshot_id.clone(),
+                            offset: req.offset,
+                        },
+                    });
+                    return Err(RaftError::APIError(mismatch));
+                }
+
                 s.receive(req).await?;
             }
 
@@ -254,6 +271,9 @@ mod tokio_rt {
                 ));
             }
             self.offset += req.data.len() as u64;
+            if req.offset <= self.received {
+                self.received = std::cmp::max(self.received, self.offset);
+            }
             Ok(req.done)
         }
     }
@@ -348,6 +368,10 @@ where C: RaftTypeConfig
     // This field will only be read when feature tokio-rt is on
     offset: u64,
 
+    /// The number of bytes received without a gap, since the start of the snapshot.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    received: u64,
+
     /// The ID of the snapshot being written.
     snapshot_id: SnapshotId,
 
@@ -361,6 +385,7 @@ where C: RaftTypeConfig
     pub fn new(snapshot_id: SnapshotId, snapshot_data: Box<C::SnapshotData>) -> Self {
         Self {
             offset: 0,
+            received: 0,
             snapshot_id,
             snapshot_data,
         }
-- 
2.43.0


From 5b9ce9ed77d1f52b593e1be583c517ab10549f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 04/28] fix: a restarted leader must not serve reads below the
 last log it restored

---
 openraft/src/engine/handler/leader_handler/mod.rs |  4 +++-
 openraft/src/proposer/leader.rs                   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/openraft/src/engine/handler/leader_handler/mod.rs b/openraft/src/engine/handler/leader_handler/mod.rs
index 368f09e..9fa92af 100644
--- a/openraft/src/engine/handler/leader_handler/mod.rs
+++ b/openraft/src/engine/handler/leader_handler/mod.rs
@@ -112,7 +112,9 @@ where C: RaftTypeConfig
     pub(crate) fn get_read_log_id(&self) -> Option<LogIdOf<C>> {
         let committed = self.state.committed().copied();
         // noop log id is the first log this leader proposed.
-        std::cmp::max(self.leader.noop_log_id, committed)
+        let read_log_id = std::cmp::max(self.leader.noop_log_id, committed);
+        // A restarted leader may have committed all of the logs it has.
+        std::cmp::max(read_log_id, self.leader.restored_last_log_id)
     }
 
     /// Disable proposing new logs for this Leader, and transfer Leader to another node
diff --git a/openraft/src/proposer/leader.rs b/openraft/src/proposer/leader.rs
index 4a81d05..49dbedd 100644
--- a/openraft/src/proposer/leader.rs
+++ b/openraft/src/proposer/leader.rs
@@ -59,6 +59,12 @@ where C: RaftTypeConfig
     /// It is set when leader established.
     pub(crate) noop_log_id: Option<LogIdOf<C>>,
 
+    /// The last log id at the time this leader is restored upon restart, without losing leadership.
+    ///
+    /// Any log up to this one may already be committed before the restart,
+    /// even when this node does not know about it.
+    pub(crate) restored_last_log_id: Option<LogIdOf<C>>,
+
     /// Tracks the replication progress and committed index
     pub(crate) progress: VecProgress<C::NodeId, ProgressEntry<C>, Option<LogIdOf<C>>, QS>,
 
@@ -102,7 +108,11 @@ where
         let vote_leader_id = vote.committed_leader_id();
         let first = last_leader_log_id.first();
 
-        let noop_log_id = if first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id) {
+        let last_log_id = last_leader_log_id.last().copied();
+
+        let restored = first.map(|x| *x.committed_leader_id()) == Some(vote_leader_id);
+
+        let noop_log_id = if restored {
             // There is already log id proposed by the this leader.
             // E.g. the Leader is restarted without losing leadership.
             //
@@ -116,14 +126,13 @@ where
             ))
         };
 
-        let last_log_id = last_leader_log_id.last().copied();
-
         let leader = Self {
             transfer_to: None,
             committed_vote: vote,
             next_heartbeat: C::now(),
             last_log_id,
             noop_log_id,
+            restored_last_log_id: if restored { last_log_id } else { None },
             progress: VecProgress::new(quorum_set.clone(), learner_ids.iter().copied(), || {
                 ProgressEntry::empty(last_log_id.next_index())
             }),
-- 
2.43.0


From 4ad75e7713af4eea7f457651001c5c75b4598db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 05/28] fix: a heartbeat rejected by a higher vote is not an
 acknowledgement

---
 openraft/src/core/heartbeat/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..c922596 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -93,6 +94,10 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                // The target has seen a higher vote and does not acknowledge this leader.
+                Ok(Ok(AppendEntriesResponse::HigherVote(_))) => {
+                    tracing::warn!("{} heartbeat is rejected: {:?}", self, res);
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 2edb673b5348fdfcfd11a11c7f0b37388c9aad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 06/28] fix: close replication streams when a leader steps down

---
 openraft/src/core/raft_core.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index fe7e435..584a0e8 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -874,6 +874,12 @@ where
             tracing::debug!("queued commands: end...");
         }
 
+        // No longer a leader: the replication streams have to be closed before executing the following commands,
+        // otherwise they will read and send logs written by another leader.
+        if self.engine.leader.is_none() && !self.replications.is_empty() {
+            self.remove_all_replication().await;
+        }
+
         while let Some(cmd) = self.engine.output.pop_command() {
             let res = self.run_command(cmd).await?;
 
@@ -1765,8 +1771,12 @@ where
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
-                let node = self.replications.get(&target).expect("replication to target node exists");
-                let _ = node.tx_repl.send(req);
+                if let Some(node) = self.replications.get(&target) {
+                    let _ = node.tx_repl.send(req);
+                } else {
+                    // The replication streams are closed since this node is no longer a leader.
+                    debug_assert!(self.engine.leader.is_none(), "replication to target node exists");
+                }
             }
             Command::BroadcastTransferLeader { req } => self.broadcast_transfer_leader(req).await,
 
-- 
2.43.0


From c8195549380150c62ca7afaa0089f90072a397cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 07/28] fix: apply a log that is already purged from the
 in-memory state by a pending snapshot

---
 openraft/src/core/raft_core.rs  | 12 +++++++-----
 openraft/src/core/sm/command.rs |  4 ++--
 openraft/src/core/sm/worker.rs  |  3 +--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 584a0e8..3de1255 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -743,15 +743,15 @@ where
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) async fn apply_to_state_machine(
         &mut self,
-        first: LogId<C::NodeId>,
+        first: u64,
         last: LogId<C::NodeId>,
     ) -> Result<(), StorageError<C>> {
         tracing::debug!("{}: {}..={}", func_name!(), first, last);
 
         debug_assert!(
-            first.index <= last.index,
-            "first.index {} should <= last.index {}",
-            first.index,
+            first <= last.index,
+            "first {} should <= last.index {}",
+            first,
             last.index
         );
 
@@ -1767,7 +1767,9 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
+                // When this command is executed, the log to apply may already be purged from the engine state,
+                // if a snapshot covering it is about to be installed.
+                let first = already_committed.next_index();
                 self.apply_to_state_machine(first, upto).await?;
             }
             Command::Replicate { req, target } => {
diff --git a/openraft/src/core/sm/command.rs b/openraft/src/core/sm/command.rs
index 51e170e..ba67ed6 100644
--- a/openraft/src/core/sm/command.rs
+++ b/openraft/src/core/sm/command.rs
@@ -37,7 +37,7 @@ where C: RaftTypeConfig
     /// Apply the log entries to the state machine.
     Apply {
         /// The first log id to apply, inclusive.
-        first: LogIdOf<C>,
+        first: u64,
 
         /// The last log id to apply, inclusive.
         last: LogIdOf<C>,
@@ -75,7 +75,7 @@ where C: RaftTypeConfig
     }
 
     /// Applies log ids within the inclusive range `[first, last]`.
-    pub(crate) fn apply(first: LogIdOf<C>, last: LogIdOf<C>) -> Self {
+    pub(crate) fn apply(first: u64, last: LogIdOf<C>) -> Self {
         Command::Apply { first, last }
     }
 
diff --git a/openraft/src/core/sm/worker.rs b/openraft/src/core/sm/worker.rs
index 72e4928..50a3d08 100644
--- a/openraft/src/core/sm/worker.rs
+++ b/openraft/src/core/sm/worker.rs
@@ -161,12 +161,11 @@ where
         }
     }
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn apply(&mut self, first: LogIdOf<C>, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
+    async fn apply(&mut self, since: u64, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
         // TODO: prepare response before apply,
         //       so that an Entry does not need to be Clone,
         //       and no references will be used by apply
 
-        let since = first.index;
         let end = last.index + 1;
 
         let entries = self.log_reader.try_get_log_entries(since..end).await?;
-- 
2.43.0


From 1fdecf21c1b682b982c1673e18892eb554ab8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 08/28] fix: do not report an older snapshot when a newer one
 is installed during building

---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 3de1255..b75ba66 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1476,8 +1476,11 @@ where
                         let last_log_id = meta.last_log_id;
                         self.engine.finish_building_snapshot(meta);
 
+                        // A greater snapshot may be installed while this one is being built.
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From 1276e4e8cbcb712e9bcdb8be22b306701c24ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 09/28] fix: do not transfer leadership to the leader itself or
 to a non-voter

---
 openraft/src/engine/engine_impl.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..34c8c03 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -618,6 +618,17 @@ where C: RaftTypeConfig
             return;
         };
 
+        // Once marked as transferring, this Leader stops proposing and sending heartbeat until another node
+        // becomes Leader. That may never happen if the target is this node itself or can not vote.
+        if to == lh.config.id || !lh.state.membership_state.effective().is_voter(&to) {
+            tracing::info!(
+                to = display(to),
+                "{}: target is not another voter, ignore transfer Leader",
+                func_name!()
+            );
+            return;
+        }
+
         lh.transfer_leader(to);
     }
 }
-- 
2.43.0


From 04cf2167e0a277d4f9ef895ef5a806774353bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 10/28] fix: answer pending writes whose logs are replaced by a
 snapshot

---
 openraft/src/core/raft_core.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index b75ba66..4af1ad5 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -779,6 +779,20 @@ where
         }
     }
 
+    /// Inform clients waiting for logs that are replaced by a snapshot.
+    ///
+    /// These logs were proposed when this node was a leader. They won't be applied on this node, so there won't be a
+    /// result of applying them.
+    fn reject_writes_covered_by_snapshot(&mut self, snapshot_last_log_id: Option<LogId<C::NodeId>>) {
+        let pending = self.client_resp_channels.split_off(&snapshot_last_log_id.next_index());
+        let covered = std::mem::replace(&mut self.client_resp_channels, pending);
+
+        for (log_index, tx) in covered {
+            tx.send(Err(ClientWriteError::ForwardToLeader(self.engine.state.forward_to_leader())));
+            tracing::debug!("sent ForwardToLeader for log_index: {}, covered by snapshot", log_index);
+        }
+    }
+
     /// Send result of applying a log entry to its client.
     #[tracing::instrument(level = "debug", skip_all)]
     pub(super) fn send_response(entry: ApplyingEntry<C>, resp: C::R, tx: Option<ResponderOf<C>>) {
@@ -1496,6 +1510,8 @@ where
                             let st = self.engine.state.io_state_mut();
                             st.update_applied(meta.last_log_id);
                             st.update_snapshot(meta.last_log_id);
+
+                            self.reject_writes_covered_by_snapshot(meta.last_log_id);
                         }
                     }
                     sm::Response::Apply(res) => {
-- 
2.43.0


From 7e0fa81bb7cbcdd9d0ed7fb63c58b809d7cbeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 11/28] fix: answer uncommitted pending writes when a removed
 leader steps down

---
 openraft/src/core/raft_core.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 4af1ad5..3845b0d 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -786,10 +786,21 @@ where
     fn reject_writes_covered_by_snapshot(&mut self, snapshot_last_log_id: Option<LogId<C::NodeId>>) {
         let pending = self.client_resp_channels.split_off(&snapshot_last_log_id.next_index());
         let covered = std::mem::replace(&mut self.client_resp_channels, pending);
+        self.send_forward_to_leader(covered);
+    }
+
+    /// Inform clients waiting for logs that are not yet committed.
+    ///
+    /// When a leader removed from the cluster steps down, no other node will tell it about these logs any more.
+    fn reject_uncommitted_writes(&mut self) {
+        let uncommitted = self.client_resp_channels.split_off(&self.engine.state.committed().next_index());
+        self.send_forward_to_leader(uncommitted);
+    }
 
-        for (log_index, tx) in covered {
+    fn send_forward_to_leader(&mut self, channels: BTreeMap<u64, ResponderOf<C>>) {
+        for (log_index, tx) in channels {
             tx.send(Err(ClientWriteError::ForwardToLeader(self.engine.state.forward_to_leader())));
-            tracing::debug!("sent ForwardToLeader for log_index: {}, covered by snapshot", log_index);
+            tracing::debug!("sent ForwardToLeader for log_index: {}", log_index);
         }
     }
 
@@ -1411,7 +1422,12 @@ where
                 //       ---
                 //       A better way is to make leader step down a command that waits for the log to be applied.
                 if self.engine.state.io_applied() >= self.engine.state.membership_state.effective().log_id().as_ref() {
+                    let was_leader = self.engine.leader.is_some();
                     self.engine.leader_step_down();
+
+                    if was_leader && self.engine.leader.is_none() {
+                        self.reject_uncommitted_writes();
+                    }
                 }
             }
 
-- 
2.43.0


From cd1880d55c8a040e7ea12569a44a7bf4a6151dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 12/28] fix: replace a non-committed membership covered by an
 installed snapshot

---
 openraft/src/engine/handler/following_handler/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..594fefb 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -312,6 +312,13 @@ where C: RaftTypeConfig
             }
         }
 
+        // A non-committed membership covered by the snapshot is replaced too:
+        // it is the one in the snapshot, or it conflicts with the leader.
+        if self.state.membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
+            let since = self.state.committed().next_index();
+            self.state.membership_state.truncate(since);
+        }
+
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
         self.state.accept_io(io_id);
         self.state.committed = Some(snap_last_log_id);
-- 
2.43.0


From 54b607a8b68d2ff04391b91d12b3f5986d5d1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 13/28] fix: do not move IO progress backwards when installing
 a snapshot behind the last log

---
 openraft/src/core/raft_core.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 3845b0d..334d2d7 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1520,7 +1520,11 @@ where
                             func_name!()
                         );
 
-                        self.engine.state.io_state_mut().io_progress.flush(io_id);
+                        // The snapshot may end before the last log that is already flushed.
+                        let io_progress = &mut self.engine.state.io_state_mut().io_progress;
+                        if io_progress.flushed() < Some(&io_id) {
+                            io_progress.flush(io_id);
+                        }
 
                         if let Some(meta) = meta {
                             let st = self.engine.state.io_state_mut();
@@ -1837,8 +1841,12 @@ where
             Command::StateMachine { command } => {
                 let io_id = command.get_submit_io();
 
+                // A snapshot to install may end before the last log that is already submitted.
                 if let Some(io_id) = io_id {
-                    self.engine.state.io_state.io_progress.submit(io_id);
+                    let io_progress = &mut self.engine.state.io_state.io_progress;
+                    if io_progress.submitted() < Some(&io_id) {
+                        io_progress.submit(io_id);
+                    }
                 }
 
                 // Just forward a state machine command to the worker.
-- 
2.43.0


From 525756a42218b2d103480b83b95db53c4917f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 14/28] fix: a closed heartbeat worker does not send another
 heartbeat

---
 openraft/src/core/heartbeat/worker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index c922596..dba74df 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -65,7 +65,9 @@ where
         loop {
             tracing::debug!("{} is waiting for a new heartbeat event.", self);
 
-            futures::select! {
+            // Shutdown goes first: an event broadcast after the shutdown is not for this target,
+            // which may have been removed from the membership the event is about.
+            futures::select_biased! {
                 _ = (&mut rx_shutdown).fuse() => {
                     tracing::info!("{} is shutdown.", self);
                     return;
-- 
2.43.0


From 049914d5a9d76ff00dd288f77b3a1fabd045e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 15/28] fix: a transfer target that is not a voter in its own
 membership does not elect

---
 openraft/src/core/raft_core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 334d2d7..be15584 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1283,7 +1283,8 @@ where
                     tracing::info!("Transfer Leader from: {}, to {}", current_leader_vote, to);
 
                     self.engine.state.vote.disable_lease();
-                    if self.id == to {
+                    // The log of this node may lag behind, so that it is not yet a voter in its own view.
+                    if self.id == to && self.engine.state.membership_state.effective().is_voter(&self.id) {
                         self.engine.elect();
                     }
                 }
-- 
2.43.0


From 16e9314915f35df024a8080ed1c80bf88bf6f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 16/28] hook: a log flush callback that can be observed, under
 --cfg openraft_sim

---
 openraft/src/storage/callback.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/openraft/src/storage/callback.rs b/openraft/src/storage/callback.rs
index 5b5cbc1..635db94 100644
--- a/openraft/src/storage/callback.rs
+++ b/openraft/src/storage/callback.rs
@@ -44,6 +44,29 @@ where C: RaftTypeConfig
         self.io_completed(result)
     }
 
+    /// For simulation only: a callback with a function that reports every completion once, as
+    /// `Some(true)` for success and `Some(false)` for an error.
+    #[cfg(openraft_sim)]
+    #[allow(clippy::type_complexity)]
+    pub fn observed(last_log_id: LogId<C::NodeId>) -> (Self, Box<dyn FnMut() -> Option<bool> + Send>)
+    where C: crate::type_config::TypeConfigExt {
+        use crate::async_runtime::MpscUnboundedReceiver;
+
+        let (tx, mut rx) = C::mpsc_unbounded();
+        let io_id = crate::raft_state::io_state::io_id::IOId::<C>::new_log_io(
+            crate::Vote::<C::NodeId>::default().into_committed(),
+            Some(last_log_id),
+        );
+        let callback = Self::new(Notification::LocalIO { io_id }, tx.downgrade());
+
+        let poll = move || {
+            let _keep_open = &tx;
+            let got = rx.try_recv().ok()?;
+            Some(!matches!(got, Notification::StorageError { .. }))
+        };
+        (callback, Box::new(poll))
+    }
+
     /// Report log io completion event.
     ///
     /// It will be called when the log is successfully appended to the storage or an error occurs.
-- 
2.43.0


From 8cb1707b08c99c6c7b9ad127154431d56b878876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 17/28] fix: memstore: a finished snapshot build does not
 replace a newer installed snapshot

---
 stores/memstore/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stores/memstore/src/lib.rs b/stores/memstore/src/lib.rs
index 9de0315..ca3df75 100644
--- a/stores/memstore/src/lib.rs
+++ b/stores/memstore/src/lib.rs
@@ -303,7 +303,11 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<MemStateMachine> {
 
         {
             let mut current_snapshot = self.current_snapshot.write().await;
-            *current_snapshot = Some(snapshot);
+            // A newer snapshot may have been installed while this one was built.
+            let current = current_snapshot.as_ref().and_then(|s| s.meta.last_log_id);
+            if current <= meta.last_log_id {
+                *current_snapshot = Some(snapshot);
+            }
         }
 
         tracing::info!(snapshot_size, "log compaction complete");
-- 
2.43.0


From 6bb4edd462c0b9d8ad068d5d2cae0bc7744b1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 18/28] fix: rocksstore: a finished snapshot build does not
 replace a newer installed snapshot

---
 stores/rocksstore/src/lib.rs | 56 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index 4da9392..58e4758 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -15,6 +15,7 @@ use std::io::Cursor;
 use std::ops::RangeBounds;
 use std::path::Path;
 use std::sync::Arc;
+use std::sync::Mutex;
 
 use byteorder::BigEndian;
 use byteorder::ReadBytesExt;
@@ -107,6 +108,9 @@ pub struct StateMachine {
 pub struct RocksStateMachine {
     db: Arc<DB>,
     sm: StateMachine,
+
+    /// Held while the saved snapshot is replaced: a builder and an installation may run concurrently.
+    snapshot_lock: Arc<Mutex<()>>,
 }
 
 impl RocksStateMachine {
@@ -114,6 +118,7 @@ impl RocksStateMachine {
         let mut state_machine = Self {
             db,
             sm: Default::default(),
+            snapshot_lock: Default::default(),
         };
         let snapshot = state_machine.get_current_snapshot().await.unwrap();
 
@@ -125,6 +130,23 @@ impl RocksStateMachine {
 
         state_machine
     }
+
+    fn read_snapshot(&self) -> StorageResult<Option<RocksSnapshot>> {
+        let x = self
+            .db
+            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
+            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        let bytes = match x {
+            Some(x) => x,
+            None => return Ok(None),
+        };
+
+        let snapshot: RocksSnapshot =
+            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        Ok(Some(snapshot))
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -299,9 +321,17 @@ impl RaftSnapshotBuilder<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+
+            // A newer snapshot may have been installed while this one was built.
+            let current = self.read_snapshot()?.and_then(|s| s.meta.last_log_id);
+            if current <= meta.last_log_id {
+                self.db
+                    .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                    .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -471,28 +501,24 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&new_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+
+            self.db
+                .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        }
 
         self.db.flush_wal(true).map_err(|e| StorageError::write_snapshot(Some(meta.signature()), &e))?;
         Ok(())
     }
 
     async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TypeConfig>>, StorageError<TypeConfig>> {
-        let x = self
-            .db
-            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
-            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let bytes = match x {
+        let snapshot = match self.read_snapshot()? {
             Some(x) => x,
             None => return Ok(None),
         };
 
-        let snapshot: RocksSnapshot =
-            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
         let data = snapshot.data.clone();
 
         Ok(Some(Snapshot {
-- 
2.43.0


From fe29f1bdd3e13e197a9e071663431489314607e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 19/28] fix: sledstore: a finished snapshot build does not
 replace a newer installed snapshot

---
 stores/sledstore/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57eded1..0b1446d 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -455,7 +455,16 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<SledStore> {
             data: data.clone(),
         };
 
-        self.set_current_snapshot_(snapshot).await?;
+        {
+            // Installing a snapshot takes the write lock.
+            let _sm = self.state_machine.read().await;
+
+            // A newer snapshot may have been installed while this one was built.
+            let current = self.get_current_snapshot_()?.and_then(|s| s.meta.last_log_id);
+            if current <= meta.last_log_id {
+                self.set_current_snapshot_(snapshot).await?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -646,9 +655,9 @@ impl RaftStateMachine<TypeConfig> for Arc<SledStore> {
                 .map_err(|e| StorageError::read_snapshot(Some(new_snapshot.meta.signature()), &e))?;
             let mut state_machine = self.state_machine.write().await;
             *state_machine = ExampleStateMachine::from_serializable(updated_state_machine, self.db.clone()).await?;
+            self.set_current_snapshot_(new_snapshot).await?;
         }
 
-        self.set_current_snapshot_(new_snapshot).await?;
         Ok(())
     }
 
-- 
2.43.0


From 199d11fca15a52c41eab1acb3dbebe5b0954b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 20/28] fix: sledstore: installing a snapshot is atomic

---
 stores/sledstore/src/lib.rs | 66 +++++++++++++++----------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 0b1446d..2049aaa 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -121,9 +121,6 @@ impl From<&ExampleStateMachine> for SerializableExampleStateMachine {
 fn read_sm_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
     StorageError::read_state_machine(&e)
 }
-fn write_sm_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
-    StorageError::write_state_machine(&e)
-}
 fn read_snap_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
     StorageError::read(&e)
 }
@@ -145,9 +142,6 @@ fn write_logs_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
 fn read_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
     StorageError::read(&e)
 }
-fn write_err<E: Error + 'static>(e: E) -> StorageError<TypeConfig> {
-    StorageError::write(&e)
-}
 
 fn conflictable_txn_err<E: Error + 'static>(e: E) -> sled::transaction::ConflictableTransactionError<AnyError> {
     sled::transaction::ConflictableTransactionError::Abort(AnyError::new(&e))
@@ -166,14 +160,6 @@ impl ExampleStateMachine {
 
         Ok(m)
     }
-    async fn set_last_membership(&self, membership: StoredMembership<TypeConfig>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&membership).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_membership", value).map_err(write_err)?;
-
-        state_machine.flush_async().await.map_err(write_err)?;
-        Ok(())
-    }
     fn set_last_membership_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -193,14 +179,6 @@ impl ExampleStateMachine {
         };
         Ok(last_applied)
     }
-    async fn set_last_applied_log(&self, log_id: LogId<ExampleNodeId>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&log_id).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_applied_log", value).map_err(read_logs_err)?;
-
-        state_machine.flush_async().await.map_err(read_logs_err)?;
-        Ok(())
-    }
     fn set_last_applied_log_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -210,22 +188,33 @@ impl ExampleStateMachine {
         tx_state_machine.insert(b"last_applied_log", value).map_err(conflictable_txn_err)?;
         Ok(())
     }
-    async fn from_serializable(sm: SerializableExampleStateMachine, db: Arc<sled::Db>) -> StorageResult<Self> {
-        let data_tree = data(&db);
-        let mut batch = sled::Batch::default();
-        for (key, value) in sm.data {
-            batch.insert(key.as_bytes(), value.as_bytes())
-        }
-        data_tree.apply_batch(batch).map_err(write_sm_err)?;
-        data_tree.flush_async().await.map_err(write_snap_err)?;
+    /// Replace the state machine with that of a snapshot, and save the snapshot, all of it or nothing:
+    /// after a crash, the data, the last applied log id, the membership and the snapshot belong together.
+    async fn install(&self, sm: SerializableExampleStateMachine, snapshot: &ExampleSnapshot) -> StorageResult<()> {
+        let snapshot_value = serde_json::to_vec(snapshot).unwrap();
 
-        let r = Self { db };
-        if let Some(log_id) = sm.last_applied_log {
-            r.set_last_applied_log(log_id).await?;
-        }
-        r.set_last_membership(sm.last_membership).await?;
+        let state_machine = state_machine(&self.db);
+        let data_tree = data(&self.db);
+        let store_tree = store(&self.db);
+        (&state_machine, &data_tree, &store_tree)
+            .transaction(|(tx_state_machine, tx_data_tree, tx_store_tree)| {
+                for (key, value) in &sm.data {
+                    self.insert_tx(tx_data_tree, key.clone(), value.clone())?;
+                }
+                if let Some(log_id) = sm.last_applied_log {
+                    self.set_last_applied_log_tx(tx_state_machine, log_id)?;
+                }
+                self.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())?;
+                tx_store_tree.insert(b"snapshot", snapshot_value.as_slice()).map_err(conflictable_txn_err)?;
+                Ok(())
+            })
+            .map_err(|e| StorageError::write_snapshot(Some(snapshot.meta.signature()), &e))?;
 
-        Ok(r)
+        self.db
+            .flush_async()
+            .await
+            .map_err(|e| StorageError::write_snapshot(Some(snapshot.meta.signature()), &e))?;
+        Ok(())
     }
 
     fn new(db: Arc<sled::Db>) -> ExampleStateMachine {
@@ -653,9 +642,8 @@ impl RaftStateMachine<TypeConfig> for Arc<SledStore> {
         {
             let updated_state_machine: SerializableExampleStateMachine = serde_json::from_slice(&new_snapshot.data)
                 .map_err(|e| StorageError::read_snapshot(Some(new_snapshot.meta.signature()), &e))?;
-            let mut state_machine = self.state_machine.write().await;
-            *state_machine = ExampleStateMachine::from_serializable(updated_state_machine, self.db.clone()).await?;
-            self.set_current_snapshot_(new_snapshot).await?;
+            let state_machine = self.state_machine.write().await;
+            state_machine.install(updated_state_machine, &new_snapshot).await?;
         }
 
         Ok(())
-- 
2.43.0


From 7f1feda166526c24196eeed158779a02e25eaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 21/28] fix: at startup, drop logs that conflict with an
 installed snapshot

A node may crash after a snapshot is installed but before the conflicting
local logs are truncated and purged. When the last of these logs is at an
index beyond the snapshot, only the logs up to the snapshot were purged: the
conflicting tail stayed in the store, and a membership in it in effect.
---
 openraft/src/storage/helper.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index d188654..aa4a883 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -99,22 +99,39 @@ where
             last_applied = committed;
         }
 
-        let mem_state = self.get_membership().await?;
-
         // Clean up dirty state: snapshot is installed but logs are not cleaned.
         if last_log_id < last_applied {
+            let applied = last_applied.unwrap();
+
+            // Logs at or after `last_applied` with smaller log ids conflict with it and are not yet truncated.
+            let end = last_log_id.next_index();
+            if applied.index < end {
+                let entries = log_reader.try_get_log_entries(applied.index..end).await?;
+
+                if let Some(conflict) = entries.first().map(|ent| *ent.get_log_id()) {
+                    tracing::info!(
+                        "Truncate logs since {}, conflicting with last_applied({})",
+                        conflict,
+                        applied
+                    );
+                    self.log_store.truncate(conflict).await?;
+                }
+            }
+
             tracing::info!(
                 "Clean the hole between last_log_id({}) and last_applied({}) by purging logs to {}",
                 last_log_id.display(),
-                last_applied.display(),
-                last_applied.display(),
+                applied,
+                applied,
             );
 
-            self.log_store.purge(last_applied.unwrap()).await?;
+            self.log_store.purge(applied).await?;
             last_log_id = last_applied;
             last_purged_log_id = last_applied;
         }
 
+        let mem_state = self.get_membership().await?;
+
         tracing::info!(
             "load key log ids from ({},{}]",
             last_purged_log_id.display(),
-- 
2.43.0


From 511546c536f12a063083f4f4189b58d79b25575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 22/28] fix: do not send the heartbeat of an earlier leader
 from a new heartbeat worker

---
 openraft/src/core/heartbeat/handle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openraft/src/core/heartbeat/handle.rs b/openraft/src/core/heartbeat/handle.rs
index 42065ba..bf38e50 100644
--- a/openraft/src/core/heartbeat/handle.rs
+++ b/openraft/src/core/heartbeat/handle.rs
@@ -92,6 +92,11 @@ where C: RaftTypeConfig
 
     pub(crate) fn shutdown(&mut self) {
         self.workers.clear();
+
+        // A worker spawned later sends the event it finds first:
+        // do not let it find the one of a previous leader or replication session.
+        let _ = self.tx.send(None);
+
         tracing::info!("id={} HeartbeatWorker are shutdown", self.id);
     }
 }
-- 
2.43.0


From 983f51f8519c753781e04024a6016442fc8ad61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 23/28] fix: a snapshot ack may be newer than the snapshot
 scheduled

---
 openraft/src/progress/inflight/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/inflight/mod.rs b/openraft/src/progress/inflight/mod.rs
index 42b7afe..d518547 100644
--- a/openraft/src/progress/inflight/mod.rs
+++ b/openraft/src/progress/inflight/mod.rs
@@ -116,7 +116,9 @@ where C: RaftTypeConfig
                 }
             }
             Inflight::Snapshot { last_log_id } => {
-                debug_assert_eq!(&upto, last_log_id);
+                // The snapshot that is sent is the last one the state machine has when the transmission starts,
+                // which may be newer than the one known when it was scheduled.
+                debug_assert!(&upto >= last_log_id);
                 *self = Inflight::None;
             }
         }
-- 
2.43.0


From 52fefd9166935edb3a05066ab883ceef0f4e78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 24/28] fix: policy based purge does not replace a further
 purge the application asked for

---
 openraft/src/engine/handler/log_handler/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..a1f7451 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,11 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // A purge the application asked for may be further and still be waiting for a replication to end:
+            // do not replace it by an earlier one.
+            if self.state.purge_upto() < Some(&purge_upto) {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From a3dca8156ea4f65ed8cac200b5357e8e0a923268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 25/28] fix: a removed leader that has not yet stepped down
 accepts a membership change without a failed assertion

---
 openraft/src/engine/handler/replication_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index bb438a7..165303d 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -60,8 +60,10 @@ where C: RaftTypeConfig
             self.state.server_state == ServerState::Leader,
             "Only leader is allowed to call update_effective_membership()"
         );
+        // A leader that is removed by the last committed membership is still leader until it steps down.
         debug_assert!(
-            self.state.is_leader(&self.config.id),
+            self.state.vote_ref().is_committed()
+                && self.state.vote_ref().leader_id().voted_for().as_ref() == Some(&self.config.id),
             "Only leader is allowed to call update_effective_membership()"
         );
 
-- 
2.43.0


From ef63d65e1f2a74bd79818cba204fcd009d0d2c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 26/28] fix: installing a snapshot keeps a committed membership
 beyond the known committed log

---
 openraft/src/engine/handler/following_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 594fefb..536645e 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -315,7 +315,9 @@ where C: RaftTypeConfig
         // A non-committed membership covered by the snapshot is replaced too:
         // it is the one in the snapshot, or it conflicts with the leader.
         if self.state.membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
-            let since = self.state.committed().next_index();
+            // The committed membership may be ahead of the known committed log, e.g., after a restart.
+            let committed_membership = self.state.membership_state.committed().log_id().next_index();
+            let since = std::cmp::max(self.state.committed().next_index(), committed_membership);
             self.state.membership_state.truncate(since);
         }
 
-- 
2.43.0


From 909be327a3741cf41859120d8a752c0794f96507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 27/28] fix: a snapshot segment that is not completely written
 does not shift the ones after it

When the future returned by `Streaming::receive()` is dropped, or fails, after a part of a segment is written,
the position of the snapshot data is not the recorded offset any more. Always seek before writing a segment.
---
 openraft/src/network/snapshot_transport.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f3e9655..5347eae 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -249,17 +249,16 @@ mod tokio_rt {
         pub async fn receive(&mut self, req: InstallSnapshotRequest<C>) -> Result<bool, StorageError<C>> {
             // TODO: check id?
 
-            // Always seek to the target offset if not an exact match.
-            if req.offset != self.offset {
-                if let Err(err) = self.snapshot_data.as_mut().seek(SeekFrom::Start(req.offset)).await {
-                    return Err(StorageError::from_io_error(
-                        ErrorSubject::Snapshot(Some(req.meta.signature())),
-                        ErrorVerb::Seek,
-                        err,
-                    ));
-                }
-                self.offset = req.offset;
+            // Always seek to the target offset: if a previous call is cancelled or fails half way in writing a segment,
+            // the position of the underlying data is not at `self.offset`.
+            if let Err(err) = self.snapshot_data.as_mut().seek(SeekFrom::Start(req.offset)).await {
+                return Err(StorageError::from_io_error(
+                    ErrorSubject::Snapshot(Some(req.meta.signature())),
+                    ErrorVerb::Seek,
+                    err,
+                ));
             }
+            self.offset = req.offset;
 
             // Write the next segment & update offset.
             let res = self.snapshot_data.as_mut().write_all(&req.data).await;
-- 
2.43.0


From fd7ef5ac9024439d6d113f58b65fbc7d7d6ce960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 28/28] fix: a restarted follower commits logs it accepted from
 the present leader

A heartbeat carries no log id to match. Without new logs to replicate, a follower that restarts never commits
the logs it already has from this leader.
---
 openraft/src/storage/helper.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index aa4a883..e3a8d8e 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -9,6 +9,7 @@ use crate::display_ext::DisplayOptionExt;
 use crate::engine::LogIdList;
 use crate::entry::RaftPayload;
 use crate::log_id::RaftLogId;
+use crate::raft_state::IOId;
 use crate::raft_state::IOState;
 use crate::storage::RaftLogStorage;
 use crate::storage::RaftStateMachine;
@@ -157,7 +158,19 @@ where
         };
         let snapshot_meta = snapshot.map(|x| x.meta).unwrap_or_default();
 
-        let io_state = IOState::new(vote, last_applied, snapshot_meta.last_log_id, last_purged_log_id);
+        let mut io_state = IOState::new(vote, last_applied, snapshot_meta.last_log_id, last_purged_log_id);
+
+        // If the last log is proposed by the Leader this node follows, all logs up to it are accepted from that Leader.
+        // Otherwise this node can not commit them when there is only heartbeat, which has no log id to match.
+        if let Some(last) = last_log_id {
+            if vote.is_committed() && vote.leader_id().is_same_as_committed(last.committed_leader_id()) {
+                let io_id = IOId::new_log_io(vote.into_committed(), Some(last));
+
+                io_state.io_progress.accept(io_id);
+                io_state.io_progress.submit(io_id);
+                io_state.io_progress.flush(io_id);
+            }
+        }
 
         let now = C::now();
 
-- 
2.43.0

