"""Writes /verif/MANIFEST.json from the checks. Run with: /opt/venv/bin/python -m tools.manifest (in /verif)."""
import importlib
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "default": "explicit-state exploration of the real code: every bounded input and choice, against an independent reference model",
    "C16": "exhaustive enumeration of configurations and fault points of the real pipeline, against a model of its protocol",
    "C24": "exhaustive enumeration of destinations and fault points on the real storers, against a model of their protocol",
    "C17": "enumeration of every solution of the linear model (no-good cuts), compared with the enumeration of every drivable plan",
    "C18": "exhaustive enumeration of noise patterns over recorded solver answers, replayed into the real decoder",
    "C06": "stateless exploration of real runs from every start, and of every script of outcomes against a model of the search loop",
    "C12": "stateless exploration of every draw of the real insertion, each step checked against the reference's ranked candidates",
    "C19": "exhaustive enumeration of configurations, seeds, preceding histories and processes, comparing executions of the real code",
    "C21": "stateless exploration of every sequence of draws of the real helpers, against their combinatorial definition",
    "C23": "explicit-state exploration of every history of edits and questions on the real route, against a freshly built one",
    "C22": "explicit-state exploration of every history of requests on real surfaces, against the metric",
    "C09": "explicit-state exploration of every sequence of edits on copy or original, against a reference model",
    "C25": "explicit-state exploration of every sequence of edits on copies or originals, against a reference model",
    "C27": "stateless exploration of every bounded instance, configuration and choice of the real solver, replaying each execution on equivalent problems",
    "C28": "explicit-state exploration of every bounded object, pair and plan on the real models, against their definition",
    "C29": "stateless exploration of every extreme bounded job, fleet and configuration of the real solver",
    "C30": "explicit-state exploration of the real code on other surfaces, over the spaces and references of the other properties",
    "C31": "explicit-state exploration of the real code with other objectives and criteria, over the spaces and references of the other properties",
    "C32": "exhaustive enumeration of the moments at which one real run interrupts another (one preemption), comparing with each run alone",
    "C33": "explicit-state exploration of the real code without assertions, over the spaces and references of the other properties, and against its answers with them",
    "C34": "explicit-state exploration of every way of gathering visits in stops, and of every history of edits on the real routes, against a reference model",
    "C26": "exhaustive enumeration of operation sequences over a family of long routes, against an iterative reference model",
    "C01": "stateless exploration of every bounded instance, configuration and random choice of the real solver, against a reference simulator",
    "C03": "stateless exploration of every bounded instance, configuration and random choice of the real solver, against structural invariants",
}
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    prop = json.loads(line)["id"]
    check = importlib.import_module(f"mc.checks.{prop.lower()}")
    note = f"Exhaustive within its bounds, on the code itself. Quick: {check.BOUNDS['quick']}. Thorough: {check.BOUNDS['thorough']}."
    if getattr(check, "ASSUMPTIONS", None):
        note += " Assumes: " + "; ".join(check.ASSUMPTIONS) + "."
    checks.append(
        {
            "property": prop,
            "quick_cmd": f"./check.sh {prop} quick",
            "thorough_cmd": f"./check.sh {prop} thorough",
            "technique": TECHNIQUE.get(prop, TECHNIQUE["default"]),
            "level": getattr(check, "LEVEL", "model_checking"),
            "level_note": note,
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh --selftest",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: every source of nondeterminism is owned by the harness (mc/env.py). See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as file:
    json.dump(manifest, file, indent=1)
    file.write("\n")
