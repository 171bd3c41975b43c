#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    "C20": "The codecs are pure functions of one argument: no thread, clock, I/O, message or fault can influence them, so there is nothing for a "
           "simulator to decide; they are exercised only as a part of the runs of the other properties (addresses, hashes, credentials).",
}
T = "deterministic simulation with fault injection: seeded search over schedules, timings and fault sequences of the whole program, checked against a reference model"
NOTE = ("Exploration: no violation in any of the seeded runs made (thousands per check; counts in the evidence file), each one exactly repeatable execution of the "
        "real, unmodified main() under a simulated kernel, disk, node and clients. Trusts the simulated kernel/disk/bitcoind model and the reference UTXO model; "
        "assumes sequentially consistent memory. ")
FAM = json.load(open(V + "/tools/families.json")) if os.path.exists(V + "/tools/families.json") else {}
checks = [{
    "property": p["id"],
    "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
    "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": T, "level": "exploration", "level_note": NOTE + FAM.get(p["id"], ""),
} for p in props if p["id"] not in NA]
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "hooks": {"guard": "cfg(vsim)", "enable": "RUSTFLAGS=--cfg vsim (set by tools/build.sh, together with SanitizerCoverage flags; builds into /verif/build)",
              "source_commits": ["8ddaf6b"]},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if any(p["id"] == k for p in props)],
    "notes": "Replay a reported violation: python3 tools/check.py replay <file>. Seeds derive from VERIF_SEED. See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
