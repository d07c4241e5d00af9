#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))

NOTE = "Decided on the executions this run observed; assurance grows with the seeds and time spent, it is not a proof. "

prop("P01", "Lock manager: only compatible locks coexist, released locks reach waiters",
     "Two transactions never hold table or row locks that the multi-granularity matrix calls incompatible; a request is refused only for a conflict, an impossible upgrade, the isolation level's phase rules or a missing table lock; and a lock once granted stays until its holder releases it or ends. "
     "When a lock is released, every queued request that has become compatible is granted in arrival order, upgrades keep what was held until they succeed, and nothing of a finished transaction stays behind.",
     ["histories", "schedules"], "all lock/unlock/end histories of concurrent transactions at every 2PL isolation level, tables and rows",
     "Unit tests issue a handful of fixed calls on one or two transactions; none releases a lock while another request waits.",
     ["src/concurrency/lock_manager.rs"],
     [("lock queue and grant", "src/concurrency/lock_manager.rs LockRequestQueue"), ("lock state", "src/concurrency/lock_manager.rs LockStateManager"), ("phase rules", "src/concurrency/lock_manager.rs LockValidator")],
     "online monitor: every answer and the reported lock table compared with a reference lock table; reader/writer shadow counters under threads",
     NOTE + "Waiters poll and wait for one lock at a time, as the non-blocking API requires.")
prop("P02", "Deadlock detection finds exactly the cycles and breaks them",
     "Detection reports a deadlock exactly when the waits-for relation has a cycle, and the transaction it picks is the youngest (highest id) of a cycle. "
     "Transactions that really wait in a ring get exactly one victim and the rest then proceed; transactions waiting without a cycle are never aborted.",
     ["schedules", "histories"], "all waits-for graphs and all orders in which transactions come to wait for each other",
     "Tests add two fixed cycles; they never reach a cycle through real waiting transactions, shared prefixes, or edge removal.",
     ["src/concurrency/lock_manager.rs"],
     [("cycle search", "src/concurrency/lock_manager.rs DeadlockDetector::has_cycle"), ("victim hand-over", "src/concurrency/lock_manager.rs LockManager::check_deadlock")],
     "online monitor: detector answers compared with an independent cycle search; rings and chains driven through the real lock manager",
     NOTE + "Liveness is checked with a 20 s bound (the detector runs every 50 ms).")
prop("P05", "Buffer replacement evicts exactly the LRU-K victim",
     "Eviction picks, among evictable frames, first those with fewer than K recorded accesses (fewest accesses, then earliest access) and otherwise the one whose K-th most recent access is oldest; frames that are pinned are never evicted and an evictable frame is always found when there is one. "
     "The numbers of tracked and evictable frames are exact after every operation.",
     ["histories", "schedules"], "all sequences of accesses, pin changes, removals and evictions, for every K and frame count, also from several threads",
     "Tests replay a few short fixed sequences.",
     ["src/buffer/lru_k_replacer.rs"],
     [("victim selection", "src/buffer/lru_k_replacer.rs LRUKReplacer::evict"), ("access history", "src/buffer/lru_k_replacer.rs LRUKReplacer::record_access")],
     "online monitor: each step compared with a reference LRU-K",
     NOTE + "Accesses are kept at least 2 microseconds apart, the resolution of the replacer's clock.")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["technique"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check built yet"} for p in P if not p["technique"]]}
if os.path.exists(os.path.join(ROOT, "tools", "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(ROOT, "tools", "hooks.json")))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
ids = {p["id"] for p in P if p["technique"]}
print(len(P), "properties,", len(ids), "claimed")
