"""C30: plans follow the distances and times of the surface they are made on, whatever surface the user brings."""
from .. import roads
from . import c01, c02, c04, c08, c10, c11, c12, c13, c15, c17, c20, c23

REQUIRED = ("oneway", "slow", "rush", "fast", "gates", "c01", "c02", "c04", "c08", "c10", "c11", "c12", "c13", "c15", "c17", "c20", "c23", "feasible", "infeasible",
            "waiting")
BOUNDS = {
    "quick": "a fraction (1 in 3 to 1 in 11) of the quick cases of C01 C02 C04 C08 C10-C13 C15 C17 C20 C23, on 5 surfaces: with detours, slower than far, faster, with gates (the shortest way is not the fastest), and time dependent",
    "thorough": "those cases (or 1 in 2), on the 5 surfaces",
}
ASSUMPTIONS = ["without a departure time a surface tells the shortest time it may ever take"]
CHUNK = 2
# (check, 1 in how many of its cases, on which surfaces)
PARTS = [
    (c02, 3, roads.OWN), (c10, 3, roads.OWN), (c01, 11, roads.OWN), (c08, 5, roads.OWN), (c11, 3, roads.OWN), (c15, 3, roads.OWN), (c23, 5, roads.OWN),
    (c20, 11, roads.STATIC), (c13, 3, roads.STATIC), (c12, 5, roads.STATIC), (c04, 11, roads.STATIC), (c17, 3, roads.STATIC), (c17, 2, ("gates",)),
]
MODULES = {m.__name__.split(".")[-1]: m for m, _, _ in PARTS}


def cases(tier):
    for module, step, metrics in PARTS:
        step = step if tier == "quick" else max(1, step // 5)
        n = 0
        for m, case in enumerate(module.cases("quick")):
            if "metric" not in case or m % step:
                continue
            for metric in metrics if tier != "quick" else (metrics[n % len(metrics)],):
                yield dict(check=module.__name__.split(".")[-1], case=dict(case, metric=metric))
            n += 1


def run(case, ctx):
    ctx.trace(case["case"]["metric"])
    ctx.outcomes[case["check"]] += 1
    MODULES[case["check"]].run(case["case"], ctx)
