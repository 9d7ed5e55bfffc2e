#!/usr/bin/env python3
"""Rewrites MANIFEST.json: every property with a module under sim/props is claimed."""

import json
import os


ROOT = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C20": "Fault-free accuracy is a pure function of the problem; input generation only.",
    "C21": "Input coercion is a pure function of the input, before any step.",
    "C22": "Pure numerical functions.",
}
NOTE = (
    "Seeded search over {what}; a run is replayable from its plan. Finds violations, "
    "does not prove their absence."
)
WHAT = {
    "C01": "evaluator answers and scripted solver outcomes",
    "C02": "failure kinds and moments, entry points and throw flags",
    "C03": "step budgets and evaluator faults",
    "C04": "accept/reject histories under evaluator faults",
    "C05": "placement, kind and length of fault bursts",
    "C06": "crash points, repeated, and evaluator faults",
    "C07": "batch compositions and per-lane faults",
    "C08": "interleavings of requests of several threads, and deaths",
    "C09": "loss sequences, faults and budgets",
    "C10": "adversarial answers",
    "C11": "accept/reject histories, memory lengths and faults",
    "C12": "outcome sequences driven into the searches, and fault plans",
    "C13": "component failures at planned steps",
    "C14": "adjoints and evaluator faults",
    "C15": "adversarial answers and starting points",
    "C16": "accept/reject/fault histories",
    "C17": "fault plans, limits, tolerances and norms",
    "C18": "accept/reject/fault histories",
    "C19": "fault histories, step budgets and end points of differentiated solves",
    "C23": "fault histories, step budgets and checkpoint counts of backpropagated solves",
    "C24": "accept/reject histories, formulas and faults",
}


def main():
    checks = []
    for k in range(1, 25):
        pid = f"C{k:02d}"
        if not os.path.exists(os.path.join(ROOT, "sim", "props", pid.lower() + ".py")):
            continue
        cmd = f"/opt/venv/bin/python check.py {pid}"
        checks.append(
            dict(
                property=pid,
                quick_cmd=cmd,
                thorough_cmd=cmd,
                evidence_file=f"evidence/{pid}.json",
                technique="deterministic simulation with fault injection",
                level="exploration",
                level_note=NOTE.format(what=WHAT[pid]),
            )
        )
    doc = dict(
        version=1,
        setup_cmd="true",
        checks=checks,
        not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
