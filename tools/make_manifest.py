#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when the list of claimed checks changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else set(props)
def tech(i):
    n = int(i[1:])
    if 13 <= n <= 21:
        return "property-based testing: differential against independent holiday-rule models (exhaustive year sweep plus generated query histories)"
    if n == 37:
        return "property-based testing of schedules: generated operations on several threads against the same operations alone, with tape shrinking"
    if n in (28,):
        return "property-based testing: model-based generated histories, differential against fresh instances"
    return "property-based testing: generated inputs and histories against a reference model, with metamorphic relations and tape shrinking"
def note(i):
    n = int(i[1:])
    if n == 8:
        return "Every year 1901-2199 on every calendar is compared with the computus, so the table is exhausted; assumes the trait's default methods are the only Easter source."
    if n == 37:
        return "Interleavings are those the scheduler produces on 8 cores with about 30 threads, not enumerated; the oracle is the same operation run alone."
    if 13 <= n <= 21:
        return "Every date 1901-01-01..2199-12-31 of every market variant is compared with an independently written rule model; ad hoc holiday lists are trusted data transcribed from the code and reviewed against published calendars, so an error common to both would go unseen."
    return "Bounded by the number of generated cases (see evidence); the oracle is an independent reference computation, trusted to be right, and tolerances are stated in DESIGN.md."
checks = [dict(property=i, quick_cmd=f"./run.sh check {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {i}",
               technique=tech(i), level="exploration", level_note=note(i)) for i in props if i in claimed]
na = [dict(property=i, reason="check under construction") for i in props if i not in claimed]
m = dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Replay a reported failure with ./run.sh replay <file>. VERIF_SCALE multiplies case counts.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
