#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

O = "openraft/src/"
SCH = ["schedules", "crash_points", "fault_sequences", "configurations"]
TESTS = "The existing tests drive a handful of fixed schedules on an in-memory router without loss, duplication, reordering or crashes; "

p("C01", "Election safety: no two leaders for one vote, only quorum-granted leaders lead",
  "A node acts as leader (sends replication, commits, or answers as leader) under a vote only if, in every voter config its membership requires, a majority of nodes durably granted exactly that vote. No two nodes ever act as leader under the same vote, and under one vote only one sequence of log entries is ever produced.",
  SCH, "Every message schedule, every crash/restart point, every set of delays, clock rates and partitions, every membership.",
  TESTS + "elections there happen one at a time on demand; whether two candidates can be elected, or a stale grant counted, depends on interleavings and crash points they never produce.",
  [O+"engine/engine_impl.rs", O+"engine/handler/vote_handler/mod.rs", O+"proposer/candidate.rs", O+"quorum", O+"core/raft_core.rs", O+"vote/vote.rs"],
  [("vote granting with a partial order on votes", O+"engine/handler/vote_handler/mod.rs"), ("joint quorum tally of grants", O+"proposer/candidate.rs"), ("handle_vote_resp drops answers for another vote", O+"engine/engine_impl.rs")],
  [("vote", "persisted vote of a node", O+"raft_state/mod.rs")],
  ["outgoing AppendEntries/Vote/InstallSnapshot RPC at the network seam", "save_vote at the storage seam"])

p("C02", "A node's vote is durable before it is used and never goes backwards",
  "Every vote a node grants or requests is on its durable storage before any other node can see the grant or request, and the durable vote of a node never becomes smaller, also across any number of crashes and restarts. A node answers a vote or replication request consistently with the largest vote it has ever made visible: it never accepts one from a smaller vote.",
  SCH + ["histories"], "Every crash instant relative to vote writes and replies, every interleaving of vote requests, replication and elections.",
  TESTS + "no test crashes a node between saving a vote and answering.",
  [O+"engine/handler/vote_handler/mod.rs", O+"engine/engine_impl.rs", O+"core/raft_core.rs", O+"engine/command.rs", O+"raft_state/io_state.rs", O+"raft_state/io_state/io_progress.rs"],
  [("replies wait for the IO that saves the vote", O+"engine/command.rs"), ("SaveVote command executed before SendVote", O+"core/raft_core.rs")],
  [("io_state.io_progress", "accepted/submitted/flushed vote and log IO", O+"raft_state/io_state.rs")],
  ["durable vote in simulated storage at the instant a reply or RPC leaves the node"])

p("C03", "Leader completeness: every leader holds all entries committed before it",
  "A node that acts as leader holds, in its log or covered by its snapshot, every log entry that was committed under any smaller vote. Nothing a leader does ever removes or replaces such an entry.",
  SCH + ["histories"], "All histories of elections, commits, crashes, log divergence and membership changes.",
  TESTS + "they check last-log comparison on constructed states, not histories in which logs of different leaders diverge and nodes crash between steps.",
  [O+"engine/engine_impl.rs", O+"engine/handler/vote_handler/mod.rs", O+"raft_state/mod.rs"],
  [("vote request refused when the candidate's last log id is smaller", O+"engine/engine_impl.rs"), ("leader commits only its own entries by counting", O+"engine/handler/replication_handler/mod.rs")],
  [("last_log_id", "greatest log id of a node", O+"raft_state/log_state_reader.rs")],
  ["log content when a node first sends as leader for a vote"])

p("C04", "Log matching: same log id means same entry and same prefix",
  "If two nodes, at any two times, store an entry with the same log id, then payload is identical and every stored entry before it is identical too. A follower never keeps a conflicting suffix behind an entry it accepted from a leader.",
  SCH + ["histories"], "All interleavings, duplications and reorderings of replication messages, conflicting logs and truncations, crash points inside append and truncate.",
  TESTS + "replication messages are never duplicated, delayed past a leader change or reordered, and only a few constructed conflicts are tried.",
  [O+"engine/handler/following_handler/mod.rs", O+"engine/log_id_list.rs", O+"replication/mod.rs", O+"core/raft_core.rs"],
  [("prev_log_id consistency check and truncation of conflicts", O+"engine/handler/following_handler/mod.rs")],
  [("log_ids", "compact index to log id map", O+"engine/log_id_list.rs")],
  ["every append, truncate and read at the log storage seam"])

p("C05", "Commit only after a quorum of every required config has flushed",
  "A log entry is treated as committed (applied, reported committed to a client or follower, or used to answer) only once it is flushed to stable storage on a majority of each voter config of the membership in force. Nodes whose write is only submitted, learners, and entries of an older leader counted on their own never make up that majority.",
  SCH, "All schedules of flush completions, acknowledgements, crashes and membership changes, including joint memberships.",
  TESTS + "storage in the tests flushes instantly, so an acknowledgement that runs ahead of the flush is indistinguishable from a right one.",
  [O+"progress/mod.rs", O+"engine/handler/replication_handler/mod.rs", O+"core/raft_core.rs", O+"engine/engine_impl.rs", O+"raft_state/io_state.rs", O+"quorum"],
  [("quorum progress vector", O+"progress/mod.rs"), ("AppendEntries reply waits for IOFlushed", O+"engine/command.rs"), ("leader counts itself after LocalIO notification", O+"core/raft_core.rs")],
  [("committed", "last committed log id", O+"raft_state/mod.rs")],
  ["durable logs of all nodes when any node first saves, applies or announces a commit"])

p("C06", "An acknowledged write is never lost",
  "Once a client write or membership change has been acknowledged, its entry stays in the committed history at the log id that was reported, and its effect is in the state machine of every node that has caught up, after any sequence of crashes, restarts, leader changes, snapshots and membership changes in which durable storage survives.",
  SCH + ["histories"], "Every crash point, including simultaneous crash of all nodes, right after an acknowledgement.",
  TESTS + "restarts there happen at quiescent points with all data kept.",
  [O+"core/raft_core.rs", O+"core/sm/worker.rs", O+"engine/engine_impl.rs", O+"storage/helper.rs", O+"raft/mod.rs"],
  [("reply to client after apply of a committed entry", O+"core/raft_core.rs"), ("startup state reload", O+"storage/helper.rs")],
  (), ["client replies against the final committed history of all nodes"])

p("C07", "State machines apply the same committed log, in order, without gaps or repeats",
  "Each state machine applies exactly the committed entries, in index order with no gap, each entry at most once per lifetime of its state, so that any two state machines that have applied up to the same log id are identical. Uncommitted entries are never applied.",
  SCH + ["histories"], "All schedules, crash points between apply steps, restarts with volatile or durable state machines, snapshot installs racing with apply.",
  TESTS + "one applied sequence per test is compared at the end, without crash or install races.",
  [O+"core/sm/worker.rs", O+"core/raft_core.rs", O+"engine/handler/log_handler/mod.rs", O+"engine/handler/following_handler/mod.rs", O+"storage/helper.rs", O+"raft_state/io_state.rs"],
  [("apply commands from the engine carry a log id range", O+"engine/command.rs"), ("re-apply after restart from last applied", O+"storage/helper.rs")],
  [("io_applied", "last applied log id", O+"raft_state/io_state.rs")],
  ["RaftStateMachine::apply / install_snapshot calls"])

p("C08", "Reads and writes through the public API are linearizable",
  "Every history of client writes and reads, where a read is a local state-machine read after a successful linearizability barrier on a leader (or at the read log id it returns), is linearizable with respect to a single copy of the state machine. This holds under any network, crash and clock behaviour when reads use the quorum barrier.",
  SCH + ["histories"], "All histories of concurrent clients across leader changes, partitions, isolated stale leaders, slow followers and concurrent elections triggered by the application.",
  TESTS + "read tests check one read on a stable leader and one on an isolated one.",
  [O+"core/raft_core.rs", O+"raft/mod.rs", O+"core/raft_msg", O+"engine/handler/leader_handler/mod.rs"],
  [("leadership confirmation broadcast", O+"core/raft_core.rs"), ("read log id is at least the leader's first own log", O+"core/raft_core.rs")],
  (), ["client invoke/return history ordered by global event number"])

p("C09", "Each client write has one truthful outcome and takes effect at most once",
  "A client write that reports success returns the log id and the result of its own request, a write takes effect at most once per submission, and a write rejected before entering the log never takes effect. The response of one client is never delivered to another.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "All interleavings of batches of writes, leader change, log truncation and re-proposal at the same index.",
  TESTS + "few tests issue concurrent writes and none truncates entries whose clients still wait while others take their indexes.",
  [O+"core/raft_core.rs", O+"raft/mod.rs", O+"raft/responder", O+"core/raft_msg", O+"core/sm/worker.rs", O+"engine/engine_impl.rs"],
  [("responders keyed by log index", O+"core/raft_core.rs"), ("ForwardToLeader when entries are truncated", O+"core/raft_core.rs")],
  (), ["client replies against committed log payloads"])

p("C10", "Membership changes go one coherent step at a time",
  "Any two consecutive memberships in the log share a voter config, so that their quorums intersect; a new membership is only proposed when the previous one is committed by the leader proposing it. A voter change request that succeeds (and is not overlapped by another one) leaves exactly the requested uniform voter set committed, and one that fails before proposing changes nothing. A request is refused only for the documented reasons: the previous membership is not committed, a voter has no node, a config would be empty.",
  SCH + ["histories"], "All interleavings of concurrent change requests, leader changes and crashes in the middle of a joint change.",
  TESTS + "changes there run one at a time to completion with a stable leader.",
  [O+"change_members.rs", O+"membership/membership.rs", O+"membership/effective_membership.rs", O+"raft_state/membership_state", O+"raft/mod.rs", O+"core/raft_core.rs", O+"raft/impl_raft_blocking_write.rs"],
  [("change handler refuses while effective != committed", O+"raft_state/membership_state"), ("next_coherent joint computation", O+"membership/membership.rs")],
  [("membership_state", "committed and effective membership", O+"raft_state/membership_state/mod.rs")],
  ["membership entries appended at the storage seam and client results"])

p("C11", "The effective membership is always the last one in the log",
  "At every moment a node's effective membership is the last membership in its log or snapshot, and its committed membership the last committed one it knows: after appending, truncating a conflicting suffix, installing a snapshot, purging and restarting. The quorum used for elections and commits follows it.",
  SCH + ["histories"], "All interleavings of truncation, snapshot install, purge, crash and restart around uncommitted membership entries.",
  TESTS + "only unit tests with constructed states cover rollback of a membership; none combines it with crash and snapshot.",
  [O+"raft_state/membership_state/mod.rs", O+"engine/handler/following_handler/mod.rs", O+"storage/helper.rs", O+"engine/handler/leader_handler/mod.rs"],
  [("membership rollback on truncate", O+"raft_state/membership_state/mod.rs"), ("last membership search on startup", O+"storage/helper.rs")],
  (), ["membership in metrics and internal state against the simulated log and snapshot"])

p("C12", "Learners and removed nodes never count, never campaign, and are let go",
  "A node that is not a voter of its own effective membership never starts an election by timeout and never becomes leader through one, and its acknowledgement or vote never contributes to a quorum. A leader that is no member at all of a committed membership steps down after the change commits and the remaining members elect another; replication to removed nodes ends.",
  SCH, "All schedules of membership changes, timeouts, elections and crash points.",
  TESTS + "the step-down and removal tests use one stable schedule each.",
  [O+"engine/engine_impl.rs", O+"engine/handler/leader_handler/mod.rs", O+"engine/handler/replication_handler/mod.rs", O+"core/raft_core.rs", O+"core/tick.rs"],
  [("election only when voter and no lease", O+"core/raft_core.rs"), ("leader step down", O+"engine/engine_impl.rs")],
  (), ["vote requests at the network seam; server state in metrics; bounded time after the change commits"])

p("C13", "A node restarts from any state a crash can leave",
  "From every durable state that a crash at any instant can leave (any prefix of the storage operations performed, volatile or durable state machine, saved commit position present, stale or absent), the node starts without error or panic, with its vote and log as stored, with committed at least what it had durably recorded, and resumes correctly. A crash during restart is no different.",
  SCH, "All crash points including inside startup, between purge and snapshot, between log append, vote and commit record; all storage durability variants the storage contract allows.",
  TESTS + "storage in the tests survives completely; partial durability is never produced.",
  [O+"storage/helper.rs", O+"engine/engine_impl.rs", O+"raft/mod.rs", O+"core/raft_core.rs"],
  [("get_initial_state", O+"storage/helper.rs"), ("Engine::startup", O+"engine/engine_impl.rs")],
  (), ["outcome of starting a node on the surviving durable state; state after start"])

p("C14", "Snapshots are faithful and never move a node backwards",
  "A snapshot contains exactly the effect of all committed entries up to its recorded last log id and the last membership at or before it. Installing a snapshot, in whatever order old, new and duplicate snapshots and replication arrive, leaves a node's applied state, log and reported snapshot at or beyond where they were and equal to the committed history.",
  SCH + ["histories"], "All interleavings of building, sending, resuming, installing and applying; leader changes during transfer; conflicting local logs; crash during install.",
  TESTS + "each test sends one snapshot on a quiet cluster.",
  [O+"core/sm/worker.rs", O+"engine/handler/snapshot_handler/mod.rs", O+"engine/handler/following_handler/mod.rs", O+"core/raft_core.rs", O+"raft/mod.rs", O+"replication/mod.rs"],
  [("install ignores a snapshot not newer than committed", O+"engine/handler/following_handler/mod.rs"), ("building is serialised with apply", O+"core/sm/worker.rs")],
  [("io_snapshot", "last snapshot id", O+"raft_state/io_state.rs")],
  ["snapshot build/install calls against a reference state machine; snapshot position in metrics"])

p("C15", "Chunked snapshot transfer never yields a corrupted or mixed snapshot",
  "Whatever chunks are lost, duplicated, reordered, delayed, retried or interleaved from different snapshots or leaders, the receiver either installs byte-for-byte the snapshot the sender had, or installs nothing. Once messages flow again, the transfer completes.",
  ["schedules", "fault_sequences", "configurations"], "All chunk-level fault sequences, chunk sizes and concurrent senders, receiver restarts in between.",
  TESTS + "chunks there always arrive once and in order, except two scripted cases.",
  [O+"network/snapshot_transport.rs", O+"network/v2/adapt_v1.rs", O+"raft/mod.rs", O+"network/snapshot_transport.rs", O+"network/v1"],
  [("segment id and offset check", O+"network/snapshot_transport.rs")],
  [("streaming state", "id, offset and data received so far", O+"network/snapshot_transport.rs")],
  ["snapshot bytes passed to install_snapshot against the bytes built"])

p("C16", "Log purge never removes what is still needed",
  "A node deletes log entries only up to the last log id of a snapshot it holds durably, deletes only a prefix, keeps at least the configured number of entries covered by the snapshot, and its log never has a hole: after any crash the remaining log continues from the snapshot or the purge point. A follower that needs purged entries receives a snapshot instead.",
  SCH, "All interleavings of snapshot, purge, replication in progress and crash.",
  TESTS + "purge is tested at fixed positions without crash or concurrent slow replication.",
  [O+"engine/handler/log_handler/mod.rs", O+"engine/engine_impl.rs", O+"engine/handler/replication_handler/mod.rs", O+"replication/mod.rs", O+"storage/helper.rs", O+"core/raft_core.rs"],
  [("calc_purge_upto", O+"engine/handler/log_handler/mod.rs"), ("purge delayed while a replication stream uses the log", O+"engine/handler/replication_handler/mod.rs")],
  [("purge_upto", "log id the node wants to purge to", O+"raft_state/mod.rs")],
  ["purge calls at the storage seam against the durable snapshot; read requests below the purge point"])

p("C17", "Snapshots and log compaction keep happening",
  "With a snapshot policy and writes flowing, every running node keeps building snapshots and purging, so that its log stays bounded by the policy, the retention setting and the batch size once faults stop. A failed, slow, overtaken or interrupted snapshot never stops later ones. A node builds one snapshot at a time.",
  ["schedules", "fault_sequences", "configurations"], "All schedules of writes, snapshot builds, installs and leader changes, all policies.",
  TESTS + "one policy at one position.",
  [O+"engine/handler/snapshot_handler/mod.rs", O+"engine/handler/log_handler/mod.rs", O+"core/raft_core.rs", O+"core/sm/worker.rs", O+"config/config.rs"],
  [("building_snapshot flag", O+"engine/handler/snapshot_handler/mod.rs"), ("LogsSinceLast policy", O+"config/config.rs")],
  (), ["log length and snapshot position of each node after faults stop and writes continue"])

p("C18", "The cluster makes progress once faults stop",
  "When, from some time on, messages are delivered, all nodes run and clocks agree, then within a bounded time one leader is elected, it writes an entry of its own term, client writes commit, and every member (voter or learner, fresh, lagging, diverged or restarted) reaches the leader's committed log and applies it. No earlier fault leaves replication, election or a state machine wedged.",
  SCH + ["histories"], "Every reachable state after any fault sequence, followed by a fault-free period.",
  TESTS + "recovery is tried from very few states.",
  [O+"core/raft_core.rs", O+"replication/mod.rs", O+"core/heartbeat", O+"core/tick.rs", O+"engine/engine_impl.rs", O+"progress/entry/mod.rs", O+"progress/inflight/mod.rs", O+"network/backoff.rs"],
  [("tick driven election and heartbeat", O+"core/tick.rs"), ("replication probing and backoff", O+"replication/mod.rs")],
  [("inflight", "outstanding replication of a follower", O+"progress/inflight/mod.rs")],
  ["leader, committed and applied positions of all nodes in bounded simulated time after the last fault"])

p("C19", "A healthy leader is not disturbed, and a live leader lease is honoured",
  "Without faults, and with message delays well below the election timeout, the elected leader stays leader and terms do not grow, even when idle. A node that has heard from a live leader within its leader lease refuses to grant a vote to another candidate, except when the leader itself asked for a transfer.",
  ["schedules", "configurations", "fault_sequences"], "All schedules and configurations within the healthy envelope; all vote request arrival times.",
  TESTS + "they look at a few seconds of one cluster.",
  [O+"engine/engine_impl.rs", O+"core/raft_core.rs", O+"core/heartbeat", O+"utime.rs", O+"core/tick.rs", O+"engine/handler/vote_handler/mod.rs"],
  [("leader lease on vote handling", O+"engine/engine_impl.rs"), ("heartbeat worker per follower", O+"core/heartbeat")],
  [("vote last_update/lease", "leased vote", O+"utime.rs")],
  ["terms and leader over a fault-free run; vote replies against time of last leader message"])

p("C20", "The leader's reported quorum-acknowledgement time is never overstated",
  "The time a leader reports as the last moment a quorum acknowledged its leadership is never later than a moment at or after which a quorum of every config (the leader included) accepted a message that the leader sent at or after that moment, still as its follower. A leader that can no longer reach a quorum sees this time stop.",
  ["schedules", "fault_sequences", "configurations"], "All schedules of heartbeats, replication, rejections by nodes that follow a newer leader, slow nodes, partitions.",
  TESTS + "only the increase on a healthy cluster is tested.",
  [O+"core/heartbeat/worker.rs", O+"core/raft_core.rs", O+"proposer/leader.rs", O+"replication/mod.rs", O+"metrics/raft_metrics.rs"],
  [("clock progress quorum", O+"proposer/leader.rs"), ("heartbeat progress notification", O+"core/heartbeat/worker.rs")],
  [("clock_progress", "send time of last acknowledged message per node", O+"proposer/leader.rs")],
  ["last_quorum_acked in metrics against the recorded message history"])

p("C21", "Leader transfer is safe and hands over when the target is ready",
  "A leader transfer moves leadership only to a node that wins an ordinary election; it never causes two leaders for a vote or loses committed data whatever happens to the messages, and the node that gave up leadership accepts no more writes under its old vote until it is leader again. On a healthy cluster with an up-to-date target, the target becomes leader in bounded time; if the target cannot take over, the cluster recovers a leader.",
  ["schedules", "fault_sequences", "crash_points"], "All interleavings of transfer with writes, elections, lagging or dead targets, lost transfer messages.",
  TESTS + "two scripted transfers.",
  [O+"engine/engine_impl.rs", O+"core/raft_core.rs", O+"raft/mod.rs", O+"raft/message/transfer_leader.rs", O+"raft/trigger.rs"],
  [("transfer request disables lease and broadcasts", O+"engine/engine_impl.rs"), ("target waits until its log has reached the leader's", O+"raft/mod.rs")],
  (), ["leadership after transfer requests and all global invariants"])

p("C22", "Initialization happens once and only on a pristine node",
  "Initialize succeeds only on a node with no log and no vote, with the given membership containing that node; any other call is rejected and changes neither durable state nor leadership. Nodes initialized concurrently with the same membership form one cluster with one history.",
  ["schedules", "crash_points", "histories", "configurations"], "All interleavings of initialize calls on several nodes with replication, votes, crashes and restarts.",
  TESTS + "concurrent and interrupted initialization is not tried.",
  [O+"engine/engine_impl.rs", O+"raft/mod.rs", O+"core/raft_core.rs", O+"engine/handler/log_handler/mod.rs"],
  [("check_initialize", O+"engine/engine_impl.rs")],
  (), ["results of initialize calls, durable state before and after"])

p("C23", "After a storage error the node stops and claims nothing more",
  "When a storage call fails, the node stops acting: from then on it acknowledges nothing that depends on the failed operation, it reports a fatal error to callers, and the data that failed to be written is never counted as flushed, applied or committed by that node. After a restart on the surviving storage the cluster is still correct.",
  ["fault_sequences", "schedules", "crash_points"], "An error at any single storage call (vote, append, flush, truncate, purge, read, apply, build, install), at any time, on leader or follower.",
  TESTS + "a few storage errors are injected by hand into unit tests of single functions.",
  [O+"core/raft_core.rs", O+"core/sm/worker.rs", O+"storage/callback.rs", O+"replication/mod.rs", O+"raft/raft_inner.rs", O+"storage_error.rs"],
  [("StorageError ends the core loop with Fatal", O+"core/raft_core.rs")],
  (), ["replies sent and calls answered after an injected error; running state in metrics"])

p("C24", "Every call returns: shutdown, stop and leadership loss leave no caller waiting",
  "Every API call on a node eventually returns once messages flow again or the node stops: on shutdown, fatal error or panic every pending and later call gets an error instead of waiting forever, and a call pending on a leader that lost leadership is answered (within bounded time while the node is a member). Shutdown completes in bounded time in any state, and returns only when the node has stopped.",
  ["schedules", "fault_sequences", "crash_points"], "Shutdown or fatal stop at any instant with any calls in flight.",
  TESTS + "shutdown is tested idle.",
  [O+"raft/mod.rs", O+"raft/raft_inner.rs", O+"core/raft_core.rs", O+"core/sm/handle.rs", O+"raft/responder"],
  [("call_core joins the core task on closed channel", O+"raft/raft_inner.rs"), ("shutdown signal and join", O+"raft/mod.rs")],
  (), ["every client call has a reply within a bounded simulated time after faults stop or after node stop"])

p("C25", "Published metrics are truthful and waits on them are correct",
  "Within one run of a node, the published vote, log, applied, snapshot and purged positions never go backwards except where the log is truncated, the published vote is durable, the applied, snapshot and purged positions never exceed what was actually done, and a leader is only reported when that node really was granted leadership. The three published views (metrics, data metrics, server metrics) agree. When a wait for a condition returns success the condition held on this node; it fails only by its timeout or shutdown. A blocking add_learner that succeeds on a leader returns only when the log of the learner is within the lag threshold.",
  ["schedules", "crash_points", "fault_sequences"], "All schedules; every published metrics value.",
  TESTS + "only final values are waited for.",
  [O+"core/raft_core.rs", O+"metrics/raft_metrics.rs", O+"metrics/wait.rs"],
  [("flush_metrics / report_metrics", O+"core/raft_core.rs"), ("Wait::metrics", O+"metrics/wait.rs")],
  (), ["every value seen on the metrics channel against simulated storage and the reference model"])

p("C26", "Replication progress is exact under partial success, refusals and short reads",
  "Whatever mixture of success, partial success, conflict, refusal, payload-too-large and timeouts the network returns, and however few entries storage returns per read, the leader's recorded matched position of a follower is never beyond what that follower has durably stored, and replication still converges to the leader's log without sending a wrong or out-of-order entry. Retried or duplicated answers do not corrupt progress.",
  ["schedules", "fault_sequences", "configurations"], "All sequences of network-level outcomes and read sizes.",
  TESTS + "one test per outcome kind.",
  [O+"replication/mod.rs", O+"replication/hint.rs", O+"progress/entry/mod.rs", O+"progress/inflight/mod.rs", O+"engine/handler/replication_handler/mod.rs", O+"core/raft_core.rs"],
  [("matching/conflict update on inflight", O+"progress/inflight/mod.rs"), ("payload hint", O+"replication/hint.rs")],
  [("matching, searching_end", "follower progress", O+"progress/entry/mod.rs")],
  ["replication metrics against followers' durable logs; AppendEntries content against the leader's log"])

p("C27", "A node never stops or panics unless storage failed or it was told to",
  "No sequence of messages that correct peers and applications can send, and no timing, makes a node panic, exit its core task or refuse all service: a node stops only after one of its own storage calls failed, or after shutdown. No caller input to the public API panics the node. This includes the engine's own debug assertions.",
  SCH + ["inputs"], "All message sequences of correct peers, all API call sequences, all timings.",
  TESTS + "panics in rare states (unwraps and assertions along all paths) cannot be sampled by fixed scenarios.",
  [O+"core/raft_core.rs", O+"engine", O+"replication/mod.rs", O+"core/sm/worker.rs", O+"raft/mod.rs", O+"log_id/raft_log_id.rs"],
  [("assertions and unwraps throughout the engine", O+"engine/engine_impl.rs")],
  (), ["any task panic or core task exit in the simulation without a cause"])

p("C28", "With single-term leaders enabled, a term has at most one leader",
  "When built with the single-leader-per-term option, at most one node is leader in a term and a log id is determined by term and index alone; all other safety guarantees are unchanged.",
  SCH, "As for election safety, in the other compile-time configuration.",
  "The tests mostly run in the default build, and with fixed schedules.",
  [O+"vote/leader_id/leader_id_std.rs", O+"vote/leader_id/leader_id_adv.rs", O+"vote/vote.rs", O+"engine/engine_impl.rs"],
  [("partial order of leader ids of the same term", O+"vote/leader_id/leader_id_std.rs")],
  (), ["leaders per term in a simulation built with that option"])

p("C29", "The bundled in-memory log stores keep their contract under concurrent use",
  "The in-memory log stores shipped with the project, used by the real engine (or by concurrent tasks as the engine would) under any interleaving, always return exactly the entries appended and not truncated or purged, the last saved vote and commit position, and the last purged log id; its flush callback fires exactly once per append and in order. A cluster built on it satisfies all safety properties as long as the processes live.",
  ["schedules", "histories", "fault_sequences"], "All operation sequences the engine issues under faults other than loss of a process's memory.",
  TESTS + "the storage test suite calls it sequentially with fixed inputs.",
  ["examples/memstore/src/log_store.rs", "stores/memstore/src/lib.rs", O+"testing/log/suite.rs"],
  [("BTreeMap log under one async mutex", "examples/memstore/src/log_store.rs")],
  (), ["each storage call's result against a reference log"])

p("C30", "The engine respects the storage contract",
  "The engine only ever appends log entries contiguous with the stored log, truncates only uncommitted entries and only from a point that exists, never overwrites an entry without truncating it, writes votes in increasing order, saves commit positions that never decrease and never exceed the log, and asks only for entries that are stored.",
  SCH + ["histories"], "All schedules, faults, restarts.",
  TESTS + "the in-memory store silently tolerates violations of the contract.",
  [O+"core/raft_core.rs", O+"engine/handler/following_handler/mod.rs", O+"engine/handler/log_handler/mod.rs", O+"core/sm/worker.rs", O+"storage/v2/raft_log_storage.rs"],
  [("commands with ordering conditions", O+"engine/command.rs")],
  (), ["every storage call at the storage seam"])

p("C31", "Runtime switches do what they say and nothing more",
  "With elections switched off a node never campaigns by timeout, with heartbeats switched off a leader sends no timed heartbeat, with the tick off neither happens; explicitly triggered elections, heartbeats, snapshots and purges still work; switching back on restores normal operation. No setting of the switches endangers safety.",
  ["schedules", "configurations", "histories"], "All settings and all moments of switching.",
  TESTS + "each switch is flipped once in a quiet cluster.",
  [O+"core/raft_core.rs", O+"raft/runtime_config_handle.rs", O+"raft/trigger.rs", O+"core/tick.rs", O+"config/config.rs"],
  [("runtime config atomics", O+"config/config.rs")],
  (), ["vote requests and heartbeats sent by a node while switches are off; progress after on"])

p("C32", "Quorum, membership and log-range calculations are correct for every input",
  "Majority and joint-quorum decisions, next membership computation, config validation and the order of votes and log ids are correct for every input value. They are pure functions.",
  ["inputs"], "All input values.",
  "Unit tests try a few values.",
  [O+"quorum/joint.rs", O+"membership/membership.rs", O+"config/config.rs", O+"log_id/mod.rs", O+"progress/bench", O+"engine/log_id_list.rs"],
  [("Joint / as_joint", O+"quorum/joint.rs")],
  (), ["function results"])

p("C33", "Disk-backed bundled stores keep what they acknowledged across crashes",
  "Whenever the process dies - at any system call, also in the middle of a write, also while it starts again - the RocksDB based and the sled based store open again, and an engine can start from them, with: the last vote whose saving returned or a later one; exactly the log as of the last append or truncation that was reported flushed, or a later state of it, never a mixture, never with a hole; a last purged id that fits; a state machine that is exactly the state after its last applied log id, not older than an installed snapshot or than what is purged; and a snapshot that holds exactly the state at its log id and reaches the purged entries. The same after a power loss that takes unflushed bytes of RocksDB's log. An I/O error reaches the caller.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "All operation sequences within the storage contract, all interleavings with readers and snapshot building, every crash point, torn writes, I/O errors, disk full, repeated crashes.",
  TESTS + "the storage test suite runs each operation once, never crashes, and has no faults.",
  ["stores/rocksstore/src/lib.rs", "stores/sledstore/src/lib.rs", O+"storage/helper.rs"],
  [("RocksLogStore: flush_wal before the callback", "stores/rocksstore/src/lib.rs"), ("RocksStateMachine: restore from the snapshot", "stores/rocksstore/src/lib.rs"), ("SledStore: transactions over trees, flush_async", "stores/sledstore/src/lib.rs")],
  (), ["vote, log state, entries, applied state, snapshot and engine start after each restart"])

p("C34", "Bundled stores and state machines are consistent under concurrent use",
  "However log writer, log readers, state machine worker and snapshot builder interleave on a bundled store (in-memory, RocksDB, sled): a read returns exactly the entries stored at one moment between its call and its return; votes and log state read back as saved; apply answers each request with its result, in order; a snapshot, when built, holds exactly the state, membership and log id of one moment between the start and the end of building it; the current snapshot always is a complete one and never goes back to an older log id, whatever is installed while another is built; a flush is reported exactly once and not before the entries can be read; and no operation waits for ever.",
  ["schedules", "histories"], "All operation sequences within the storage contract; all interleavings at await points and lock acquisitions.",
  TESTS + "the storage test suite is sequential.",
  ["stores/memstore/src/lib.rs", "examples/memstore/src/log_store.rs", "stores/rocksstore/src/lib.rs", "stores/sledstore/src/lib.rs"],
  [("MemStateMachine::build_snapshot / install_snapshot", "stores/memstore/src/lib.rs"), ("RocksStateMachine::build_snapshot", "stores/rocksstore/src/lib.rs"), ("SledStore::build_snapshot / install_snapshot", "stores/sledstore/src/lib.rs")],
  (), ["results of log reads, apply, build_snapshot, get_current_snapshot, applied_state, get_log_state, flush callbacks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
