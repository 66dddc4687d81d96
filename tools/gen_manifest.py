#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
FAULTS = {
 "C03": "two nodes over a simulated duplex transport; short, would-block, interrupted, failing and cut I/O; liveness after the heal",
 "C14": "byte-queue model; short, would-block, interrupted, failing and ending I/O",
 "C15": "byte-queue model and waker register; pending, short, failing and ending polls",
 "C16": "seeded executor with tasks sharing two connections; pending, spurious and migrated wake-ups; bounded liveness",
 "C17": "short, interrupted, failing and ending blocking reader and writer, with retries",
 "C18": "corrupted and hostile streams, refused allocations, worker processes that may die or hang",
 "C25": "reference evaluation of the composition predicting every call of every function and the way of every error; refusals, ends of stream, premature and busy requests at arbitrary points",
 "C26": "hand-written codecs as alternatives to the library's own at every level of random compositions, judged by the reference model; limited grants inside compositions, unknown and misplaced tags, truncation",
 "C22": "serde_json and bincode called directly as oracle; failing serializers; damaged streams",
}
NA = {"C24": "pure functions of two values: there is no schedule, clock, I/O, fault or history for a simulator to decide, so sampling their inputs would be plain input generation (their visible consequences are observed by C06, C13 and C18)"}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    how = FAULTS.get(i, "independent reference model of the wire format; random compositions, cuts, end-of-stream announcements and injected faults")
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + how,
        "level": "exploration",
        "level_note": "Seeded search over compositions, schedules and fault sequences against the real crate (millions of runs, each a pure function of its seed; violations are minimised and replay exactly). It samples the space and does not enumerate it; it trusts the reference model in sim/src, std, serde_json, bincode and tokio's traits.",
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every seam (Read, Write, AsyncRead, AsyncWrite, Waker, Eos, the slices, the global allocator) is already there."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
