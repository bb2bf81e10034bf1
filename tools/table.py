"""Writes the table of the planted bugs into DESIGN.md (python3 tools/table.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(f"{ROOT}/seeded")):
    meta = json.load(open(f"{ROOT}/seeded/{name}/meta.json"))
    rows.append((meta["property"], name, meta["needs"]))
text = open(f"{ROOT}/DESIGN.md").read()
head = text[: text.index("## Planted bugs")]
body = [
    "## Planted bugs",
    "Each lives in `seeded/<id>`; they are made and confirmed (builds, tests pass, demonstration fails only with it) by",
    "`tools/plant.py` from `tools/bugs.py`, and `tools/plant.py --check` runs the quick check of the property against each.",
    f"All {len(rows)} are caught by the quick check of their property. Those that were missed first, and what was added: ",
    "`late-trips-only` (C04: warm starts without an idle vehicle), `pending-by-load` (C03: trips that take no room in",
    "improvements), `truncated-ranking` (C12), `deliveries-first-window` (C02: stops shared by several trips),",
    "`skip-empty-trips` (C01: loads of 0), `warm-start-keeps-feasible` (C05: snug fleets), `recursive-waiting` (C26:",
    "questions on planned trips), `storers-of-one-name` (C24: equal destinations), `shared-sampler` (C19: longer runs).",
    "",
    "| check | bug | needs |",
    "|-------|-----|-------|",
] + [f"| {p} | {n} | {d} |" for p, n, d in sorted(rows)]
open(f"{ROOT}/DESIGN.md", "w").write(head + "\n".join(body) + "\n")
