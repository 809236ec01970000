#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "prosimos/"
ENG, CFM, BAT = PY + "simulation_engine.py", PY + "control_flow_manager.py", PY + "batch_processing.py"
SET, QUE, STA = PY + "simulation_setup.py", PY + "simulation_queues_ds.py", PY + "simulation_stats_calculator.py"
PAR = PY + "simulation_properties_parser.py"

props = []
checks = []
na = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, observe=("event log CSV",), state=(),
         reason=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append(p)
    if reason:
        na.append({"property": id, "reason": reason})
    else:
        checks.append({
            "property": id,
            "quick_cmd": "./check.py %s quick" % id,
            "thorough_cmd": "./check.py %s thorough" % id,
            "technique": "deterministic simulation with fault injection (seeded schedule search, history checked "
                         "against a reference model)",
            "level": "exploration",
            "level_note": note,
            "evidence_file": "evidence/%s.json" % id})


exec(open(os.path.join(ROOT, "tools", "props_table.py"), encoding="utf-8").read())

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "none", "enable": "No hook in /repo is needed: the simulator patches the seams of the "
                 "interpreter (random, numpy.random, secrets/uuid, clock, open) at run time.", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "See DESIGN.md. ./check.py replay FILE replays a reported violation. VERIF_SEED selects the seeds; "
                "VERIF_SCALE multiplies the number of runs."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties,", len(checks), "claimed")
