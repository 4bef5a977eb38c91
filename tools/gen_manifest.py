#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + "/properties.jsonl")]
NA = {
 "C32": "Pure functions of their input: no schedule, clock, fault or interleaving takes part, so simulating the system decides nothing about them that ordinary input generation would not. (Their use inside the engine is exercised and checked by C01, C05, C10 and C20.)",
}
NOTE = {
 "C04": "Known finding K1 (a restarted leader that lost unflushed entries) is excluded from the search by keeping entries that a node has already sent, and shown by a stored run.",
 "C18": "Known finding K2 (voters with the longest logs are not voters of their own uncommitted membership) is recognised by its exact shape and shown by a stored run.",
 "C28": "Runs the build of openraft with the feature single-term-leader.",
 "C29": "The real bundled log store runs under the real engine, every read it answers compared with a model and the callbacks counted; then both in-memory log stores run by themselves under concurrent simulated tasks.",
 "C33": "Real code: the stores, RocksDB, sled (with its thread pool replaced by one that works at once), the engine's start from storage. Simulated: the tasks and their schedule, the system calls write, pwrite, fsync, fdatasync. A power loss is simulated for RocksDB's log only; sled's own recovery, which the store does not control, is not interrupted.",
 "C34": "Real code: the stores, RocksDB, sled (with its thread pool replaced by one that works at once). Simulated: the tasks, their schedule (also where tokio's locks are taken).",
}
import subprocess
HOOKS = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences of " + ("one bundled store under concurrent simulated tasks and a faulty system call layer" if i in ("C33", "C34") else "whole clusters running the real engine") + ", oracles during and after each run, minimised replay files",
        "level": "exploration",
        "level_note": "Sampled, not exhaustive: every explored history satisfied the property. " + NOTE[i] if i in ("C33", "C34") else "Sampled, not exhaustive: every explored history satisfied the property. Real code: the whole engine, replication, state machine worker, snapshot transport and public API. Simulated: runtime and scheduler, clocks, network, storage, clients. Trusts the simulator's storage contract (a crash keeps what was reported durable and a prefix of what was not). " + NOTE.get(i, ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "--cfg openraft_sim",
        "enable": "RUSTFLAGS=\"--cfg openraft_sim\" when check.sh builds the stores simulator (C29, C33, C34); the cluster simulator needs no hook",
        "source_commits": HOOKS,
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "One hook: a log flush callback that the stores simulator can observe. The cluster simulator needs none: openraft's AsyncRuntime, RaftNetworkFactory, RaftLogStorage and RaftStateMachine traits are the seams, and the entropy of rand is interposed in the simulator. Fixes of genuine defects are the commits starting with 'fix:' (known_findings.json lists them). Replay a violation with ./check.sh replay FILE.",
}, open(D + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
