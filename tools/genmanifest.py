#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a check."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {
 "C01": "appends and reads of a simulated server under every sampled schedule, roll-over, eviction and sweep; a log model decides each answer",
 "C02": "process crashes at random statements and inside file operations, restart on the surviving files; a log model decides what must be and may be there",
 "C03": "wall-clock steps in both directions while appends run; IDs are compared with the real-time order of the requests",
 "C04": "page walks in both directions with any page size, start and condition beside appends; compared with the log model",
 "C05": "merged reads over several logs beside appends, read failures and cancellations; compared with the merged log models",
 "C06": "counts compared with the log model and with paging, with concurrent appends and failing reads",
 "C07": "failing, short and torn file, mapping and remote-store operations at any call; then the faults stop and everything must be readable and writable",
 "C08": "sweeper and replicator beside appends and reads with failing transfers and crashes; every acknowledged record must be held completely by the local file or the remote object at every moment",
 "C09": "histories of appends, faults and restarts followed by a quiet period; remote copies must be current and the scanner alive, and it must stop on shutdown",
 "C10": "lookups and changes of logs and chunk lists at the real cache over a real buntdb or a failing stub, at every interleaving and with crashes; the whole history must have a linearization against a map model",
 "C11": "creations, deletions by condition, page walks, appends, reads and counts at every interleaving and with crashes; linearization against a map model, walks must be complete, merged requests must cover all logs",
 "C13": "clients of the cache with slow, failing and cancelled creations, nested use and Close at any moment; every object's life is followed by a reference state",
 "C14": "loads, removals, clears and clock steps interleaved at every point; values are judged by the order of loads and removals, single-client runs by an exact LRU model",
 "C15": "operations, waits and expirations of several clients at every interleaving; the whole history must have a linearization against a map model (Wing-Gong search), waits must end in time",
 "C16": "lock users on several simulated nodes against one store with delays, failed calls, stalls, crashes and shutdowns; exclusion, takeover, cancellation and release are monitored",
 "C17": "delayed calls with any delay, duration, nesting and cancellation in simulated time; each must run once, not early, and late only while ten others run",
 "C18": "trees of contexts of every kind, cancellations, sleeps, signals and selects at every interleaving; which error is first, promptness and left-over tasks are monitored",
 "C20": "clients with connection pools of their own against one Redis server over a failing network; the whole history must have a linearization against a map model, waits must end in time, the clients must recover",
 "C21": "the workloads of all other scenarios with every memory access of first-party code reported to a vector-clock happens-before detector that lives in the simulator; faults, crashes and shutdown included",
 "C23": "the workloads of the log and metadata properties with most requests sent through the real REST routes and handlers, mixed with direct requests; the log and metadata models judge every answer, malformed requests are mixed in",
 "C22": "puts from slow and failing sources, gets, lists and deletes of several clients; the whole history must have a linearization against a map model",
 "C24": "the real PostgreSQL storage, database/sql and sqlx over a simulated database server with failing, slow and cut sessions; the whole history of requests must have a linearization against a map model",
 "C25": "users of one map, of mixers and of ring buffers at every interleaving; every step of every iterator is compared with a list model",
 "C26": "writers, readers and closings of done channels at every interleaving; every value must be received exactly once from the channel that was reported, and no call may wait while one of its channels is ready",
 "C19": "allocations and frees by several tasks, growth, reopening, process crashes at any statement and failing file calls; the whole history must have a linearization against a set model, contents are compared",
 "C12": "cancellations at any statement, shutdown at any point, and small limits; no panic, no request without an answer, shutdown in bounded time",
}
TODO = {k: "the simulated scenario for this property is being built" for k in []}
NA = {
 "N01": "Evaluation, SQL translation and interval reduction of a condition are pure functions of their input: no schedule, clock, I/O or fault takes part, so a simulator has nothing to decide (their use inside requests is exercised by C04, C06 and C11).",
 "N02": "Encoding and configuration merging are pure functions of their input without schedule, time, I/O faults or interleaving.",
}
LEVEL = "Seeded exploration: many short simulated runs of the real code with every scheduling decision, clock and fault under control, and exact replay; a clean batch is evidence, not proof. Assumes the simulated file system, mapping, clock and transport models described in DESIGN.md."
checks = []
for p, t in sorted(CLAIMED.items()):
    checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                   "technique": "deterministic simulation with fault injection (seeded schedule and fault search): " + t,
                   "level": "exploration", "level_note": LEVEL})
na = [{"property": k, "reason": v} for k, v in list(TODO.items()) + list(NA.items()) if k not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: build.sh rewrites a scratch copy of the current tree so that every source of nondeterminism goes through the simulator", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds the simulated copy of /repo's working tree in a scratch directory, runs the seeded search, minimises and re-executes what it finds. 'bash check.sh replay FILE' replays a reported file."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
