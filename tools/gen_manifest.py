#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
NOTE = "Runtime observation only: held on the executions of the run (seeded workloads; counts, distinct situations and worst measured error in the evidence file). Trusts the harness's f64 reference models."
T = {}
for p in ["P01","P02","P06","P07","P08","P09","P10","P11","P12","P13","P14","P15","P16","P17","P18","P19","P20","P21"]:
    T[p] = "runtime monitoring: randomized and hostile workloads, online f64 reference-model oracle, panic/hang monitors"
T["P03"] = "runtime monitoring: random call histories on reused objects checked against fresh objects"
T["P04"] = "runtime monitoring: guard-zone buffers and read-only snapshots around every call, value oracle"
T["P05"] = "runtime monitoring: hostile-argument workloads, error-contract oracle with before/after data snapshots, panic/hang/allocation monitors"
T["P22"] = "runtime monitoring: operation histories with injected faults checked against an executable model"
T["P23"] = "runtime monitoring: concurrent stress with tuning, pools and environments; serial/reference oracle, deadlock watchdog"
T["P24"] = "sanitizers: AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over the safe-API workloads"
T["P25"] = "runtime monitoring: the same oracle-checked workloads executed in every build configuration"
T["P26"] = "runtime monitoring: allocation-counting global allocator around every call, heap-form and reference oracles"
T["P27"] = "runtime monitoring: table request histories checked against exactly reduced f64 roots of unity"
T["P28"] = "runtime monitoring: exact arithmetic oracle and bitwise container round trips"
T["P29"] = "runtime monitoring: generated WAV/FLAC files through the real reader and binary, sample and pixel oracles"
T["P30"] = "runtime monitoring: exhaustive small grid plus random configurations through the real helper, rule oracle"
T["P31"] = "runtime monitoring: streaming histories through the exported functions, recording browser stand-ins and HTTP clients against f64 and byte oracles"
EXTRA = {
 "P24": "AddressSanitizer, MemorySanitizer, ThreadSanitizer (std rebuilt) and Miri watch the safe-API workloads; reports nothing about code the workloads do not reach.",
 "P26": NOTE,
}
claimed = [l for l in open(os.path.join(HERE, "tools", "claimed.txt")).read().split()]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i not in claimed:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
        continue
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py --property %s --tier quick" % i, thorough_cmd="python3 check.py --property %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=T[i], level="exploration", level_note=EXTRA.get(i, NOTE)))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
