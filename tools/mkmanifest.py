#!/usr/bin/env python3
"""Write MANIFEST.json: one check per simulated property of properties.jsonl."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C19": "pure functions of their arguments: no schedule, clock, fault or interleaving for a simulator to decide",
    "C20": "a real-time side channel; the simulator replaces time and cannot observe it",
}
NOTES = {
    "C01": "honest histories of several members with reordering, loss, duplication, competing commits; every delivery and probe compared with the reference model",
    "C02": "clients joining at all positions of evolving trees, with and without path, then following all later commits",
    "C03": "invitations and messages opened and strictly checked by the reference model; discarded and beaten commits",
    "C04": "failing operations of every kind (bad input, failing random source) within histories that go on",
    "C05": "bits, bytes, fields and whole parts of genuine messages, Welcomes and key packages altered in transit",
    "C06": "genuine messages of other epochs, groups, forks and former members delivered",
    "C07": "insiders, former members and outsiders forging content under other positions",
    "C08": "dishonest members with one protocol rule broken per commit, everything outside of it right",
    "C09": "dishonest inviters with one rule of the Welcome, group information or tree broken",
    "C10": "dishonest clients' key packages given to inviters and put into commits",
    "C11": "proposals by reference, delivered early, late, twice, never",
    "C12": "keys of all private messages of real members recovered by the reference model and compared",
    "C13": "permuted, skipped, lost and repeated private messages",
    "C14": "skewed and jumping clocks around lifetimes of key packages",
    "C15": "crashes at any point, rebuilt from stored bytes",
    "C16": "all adversaries and garbage; any panic or process end",
    "C17": "claimed lengths, counts, generations and indices; allocation and CPU time of each operation limited",
    "C18": "two groups sharing objects, all buffers overwritten after use",
}
checks = []
na = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection, judged by a reference model",
        "level": "exploration",
        "level_note": "Seeded random exploration of simulated histories, not exhaustive: " + NOTES[p] + ".",
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: clocks and randomness are replaced through testing/synctest and testing/cryptotest. Replay a violation with ./replay.sh FILE; prove repeatability with ./selftest.sh.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
