#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist (run it after adding one)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MON = "runtime monitoring: the real code runs under generated hostile workloads; "
T = {
 "C01": "offline trace-specification checker (process-tree replay) over the event log of simulated runs",
 "C02": "offline timed trace checker (timed process-tree replay) over the event log",
 "C03": "offline mutual-exclusion and assignment checker over the event log",
 "C04": "offline checker of start instants and working time against an independent calendar",
 "C05": "offline checker replaying resource availability in dispatch order",
 "C06": "offline checker reconstructing the queue of waiting items at every dispatch",
 "C07": "offline checker of arrival numbering, calendar and spacing",
 "C08": "offline checker of branch decisions against conditions, defaults and probabilities (with exact binomial tails)",
 "C09": "offline checker replaying attribute values row by row",
 "C10": "offline exactly-once and batch-size checker over the event log",
 "C11": "offline checker of batch release instants against the firing rules",
 "C12": "offline checker of batch resources, order and durations",
 "C13": "offline recomputation of every reported KPI from the event log",
 "C14": "offline recomputation of the resource accounts from the event log",
 "C15": "offline completeness and well-formedness checker, plus differential runs over output configurations",
 "C16": "offline loop-bound checker over event log and warnings",
 "C17": "offline checker of event-gateway winners",
 "C18": "online reference-model monitor over random operation sequences on the real queues",
 "C19": "monitors on the scenario loader: parsed values against the scenario, metamorphic reorderings, injected invalid scenarios",
 "C20": "online reference-evaluator monitor over generated expressions and decision tables",
 "C21": "offline granule checker over runs and calendar queries with fuzzy calendars, differential against crisp calendars",
 "C22": "differential repeat-run monitor over process histories with injected failing runs",
 "C23": "offline recomputation of branch frequencies from generated logs against replay and discovery",
 "C24": "offline checker of discovered scenarios against their log, re-simulated",
 "C25": "offline recomputation of reported statistics and warnings from the event log",
 "C27": "offline recomputation of everything the log analyses read back from simulated logs",
 "C26": "offline capacity checker over the event log of multitasking runs",
}
checks = []
for pid in sorted(T):
    if os.path.exists(os.path.join(V, "rv", "props", pid.lower() + ".py")):
        c = "%s check.py %s --tier " % (PY, pid)
        checks.append(dict(property=pid, quick_cmd=c + "quick", thorough_cmd=c + "thorough", technique=MON + T[pid],
                           level="exploration", evidence_file="evidence/%s.json" % pid,
                           level_note="sampled executions; an independent oracle judges every recorded run (see DESIGN.md)"))
man = dict(version=1, setup_cmd="%s -c \"import numpy, scipy, pandas; print('ok')\"" % PY,
           hooks=dict(guard="PROSIMOS_RV", enable="no hooks: the monitors observe public outputs and public calls only; nothing in /repo is guarded",
                      source_commits=[]), checks=checks, not_applicable=[],
           notes="Known findings and repairs: known_findings.txt. Design: DESIGN.md. Properties not yet listed under checks are being built."
                 if len(checks) < len(T) else "Known findings and repairs: known_findings.txt. Design: DESIGN.md.")
have = {c["property"] for c in checks}
if len(have) < len(T):
    man["not_applicable"] = [dict(property=p, reason="check under construction") for p in sorted(T) if p not in have]
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
