"""C33: assertions decide nothing: with them turned off (python -O) every answer is the same."""
import json
import os
import subprocess
import sys

from .. import families as fam
from .. import twin
from . import c01, c02, c04, c05, c06, c07, c08, c09, c10, c12, c14, c15, c16, c17, c20, c23, c24, c25, c28, c29
from .c01 import SHAPES

OPTIMIZED = True  # the whole check runs without assertions
REQUIRED = ("twin", "c01", "c02", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c12", "c14", "c15", "c16", "c17", "c20", "c23", "c24", "c25", "c28", "c29",
            "from nothing", "from a plan")
BOUNDS = {
    "quick": "without assertions: a fraction (1 in 3 to 1 in 23) of the quick cases of 20 other checks; and 17 configurations from nothing and 8 from every feasible start of 2 trips, compared with their answers with assertions",
    "thorough": "1 in 1 to 1 in 5 of those cases; 2 trips out of 15 shapes on 6 fleets with assertions and without",
}
CHUNK = 2
# (check, 1 in how many of its cases)
PARTS = [(c01, 23), (c02, 7), (c04, 23), (c05, 23), (c06, 11), (c07, 17), (c08, 17), (c09, 19), (c10, 7), (c12, 17), (c14, 1), (c15, 11), (c16, 3), (c17, 7),
         (c20, 11), (c23, 11), (c24, 1), (c25, 19), (c28, 3), (c29, 11)]
MODULES = {m.__name__.split(".")[-1]: m for m, _ in PARTS}


def cases(tier):
    fleets = ("two", "later", "mixed", "away", "hours", "ends")
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for m, fleet in enumerate(fleets):
            if tier == "quick" and (n + m) % 6 or tier == "quick" and n % 2:
                continue
            yield dict(check="twin", case=dict(trips=pair, fleet=fleet, metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 4 > 1),
                                               objective=("dar", "taxi", "hashcode")[(n + m) % 3], step=2 if tier == "quick" else 1))
    for module, step in PARTS:
        step = step if tier == "quick" else max(1, step // 5)
        for m, case in enumerate(module.cases("quick")):
            if m % step == 0:
                yield dict(check=module.__name__.split(".")[-1], case=case)


def run(case, ctx):
    ctx.outcomes[case["check"]] += 1
    if case["check"] != "twin":
        MODULES[case["check"]].run(case["case"], ctx)
        return
    if __debug__:
        raise RuntimeError("the check has to run without assertions")
    ours = json.loads(json.dumps(twin.answers(case["case"])))
    env = dict(os.environ)
    env.pop("PYTHONOPTIMIZE", None)
    other = subprocess.run([sys.executable, "-m", "mc.twin"], input=json.dumps([case["case"]]), capture_output=True, text=True, env=env,
                           cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    if other.returncode:
        raise RuntimeError(other.stderr[-800:])
    theirs = json.loads(other.stdout)[0]
    ctx.expect(len(ours) == len(theirs), "the starts differ without assertions")
    for (name, start, a), (_, _, b) in zip(ours, theirs):
        ctx.trace("from nothing" if start is None else "from a plan")
        ctx.step()
        ctx.expect(a == b, "assertions change an answer", cfg=name, start=start, without=a[:400], with_them=b[:400])
        ctx.state(name, start, a)
    ctx.sample(dict(case=case["case"], answers=len(ours)))
