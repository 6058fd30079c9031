#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks, and a reason for every property not claimed."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIMED = open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()
PURE = ("A function of its arguments alone: no I/O, time, scheduling, randomness or other party enters, so there is nothing for a "
        "simulator to schedule or to fail; generating inputs for it would be property-based testing, not deterministic simulation.")
NOT_BUILT = "Not built yet."
assert set(CLAIMED) <= {p["id"] for p in props}
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[dict(
        property=i,
        quick_cmd="./check.sh " + i,
        thorough_cmd="./check.sh " + i,
        technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences",
        level="exploration",
        level_note="Holds on every simulated run explored (counts, fault kinds and state coverage in the evidence file); "
                   "seeded sampling, not exhaustive. Trusts the simulated libc surface (files, clock, entropy, threads, sockets, child processes) "
                   "to behave like Linux, and the independent zip/XML/package oracles in /verif/sim.",
    ) for i in CLAIMED],
    not_applicable=[dict(property=p["id"], reason=PURE if p["id"].startswith("N") else NOT_BUILT) for p in props if p["id"] not in CLAIMED],
    notes="No hooks in /repo: every source of nondeterminism is reached through libc symbols interposed in the harness binary. "
          "VERIF_TIER=thorough makes check.sh search for 9 minutes instead of 45 to 70 seconds. ./replay.sh FILE re-executes a replay file.",
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
