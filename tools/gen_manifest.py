#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
NOTE = {
 "S": "Real encoder, packetiser and receiver code against a small reference model of what each unit carries; the link, the join/restart points and the damage are simulated. Seeded search, so absence of violations is evidence and not proof. Assumes the documented domain of the generator (DESIGN.md).",
 "F": "Real savers and loaders on an in-process disk whose short transfers, errors, crash points and lost tails are drawn from the seed; fault-free executions are the oracle. Seeded search; the domain of generated experiences is in DESIGN.md.",
 "E": "Real encoders, decoders, loaders and savers under a simulated heap, clock, locale, disk and thread scheduler, compared with an undisturbed execution of the same operation. Seeded search; threads switch at basic-block granularity, one at a time, so hardware-level races on weakly ordered memory are outside.",
 "T": "The tool's real main() runs in process on the simulated disk; its exit status is compared with the bytes a fault-free run stores. Seeded search.",
}
CLAIMED = os.environ.get("CLAIMED", "S01 S02 S03 S04 S05 S06 S07 S08 F01 F02 F03 F04 F05 F06 F07 F08 F09 F10 E01 E02 E03 E04 T01 T02 T03").split()
NA = {
 "N01": "A pure function of one block: no schedule, clock, I/O, randomness or second party for a fault to act on; deciding it needs numerical error bounds over inputs, which is not simulation. (The coder runs inside S01/F04 streams as real code, compared exactly through its own decoder.)",
 "N02": "Pure numeric evaluation of a curve; nothing to schedule, delay, lose or fail.",
 "N03": "A pure transformation of one in-memory object without time, I/O or concurrency.",
 "N04": "A pure translation of one document into another; its I/O failures are decided by F02 and F06, the translation itself has no nondeterminism to simulate.",
 "N05": "Pure signal processing, and Filterbank.cpp needs a third-party header that is not installed here, so it cannot even be built.",
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH, level="exploration", level_note=NOTE[i[0]]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The check for this property is not finished yet.")))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam (heap, disk, clock, randomness, threads) is an interposed libc, libstdc++ or compiler entry point of the simulator binary, so the shipped sources are built unmodified. /repo carries only fix: commits.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
