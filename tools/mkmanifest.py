#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = sys.argv[1:] or [p["id"] for p in props]
TECH = "explicit stateless model checking: exhaustive bounded enumeration of operation/input sequences on the real code, compared step by step with a reference model"
NOTE = ("Every choice sequence within the stated bounds (see families in the evidence) is executed on the code of /repo rebuilt for the run and compared with the reference model. "
        "Trusts the reference model and SQL reader in /verif/harness (model, sqlx) and the Go toolchain; says nothing about values and depths outside the alphabets and bounds.")
T06 = "stateless model checking of thread interleavings: instrumented race-detecting build of the real code under a controlled scheduler, all schedules up to a preemption bound"
N06 = ("Every schedule of the given goroutine bodies within the preemption bound is executed on an instrumented copy of /repo's code made for the run (preemption at synchronising operations, in further families between any two statements), under happens-before race detection, "
       "and compared with what each goroutine gets alone. Trusts the instrumenter, scheduler and stand-ins for package sync in /verif/harness and Go's race detector; says nothing about more goroutines or other bodies.")
T27 = "explicit stateless model checking: exhaustive bounded enumeration of histories of constructions on an instrumented build of the real code that is put back to its initial state before each, every result compared with the one obtained first of all"
N27 = ("Every sequence of constructions within the stated bounds is executed on an instrumented copy of /repo's code made for the run, whose package variables are put back to their initial values before every execution. "
       "Trusts the instrumenter and the stand-ins for package sync in /verif/harness; says nothing about constructions outside the alphabet or interactions of more than the stated number of them, apart from the long histories given.")
checks = []
for p in props:
    if p["id"] not in claimed: continue
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} -tier quick", thorough_cmd=f"./check.sh {i} -tier thorough",
                       technique=dict(C06=T06, C27=T27).get(i, TECH), level="model_checking", level_note=dict(C06=N06, C27=N27).get(i, NOTE)))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in claimed],
         notes="Replay a counterexample: ./check.sh -replay replays/FILE.json. No hooks in /repo; repairs of genuine defects are listed in known_findings.txt.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
