"""C31: the objectives and the criteria of the user are followed, in their direction."""
from .. import goals
from . import c05, c06, c07, c10, c11, c12, c15, c20, c29

REQUIRED = ("soon", "calm", "prompt", "own criteria", "c05", "c06", "c07", "c10", "c11", "c12", "c15", "c20", "c29", "script", "search script",
            "better", "same", "moved", "stuck", "best", "step", "end", "text", "kept")
BOUNDS = {
    "quick": "a fraction (1 in 2 to 1 in 11) of the quick cases of C05 C06 C07 C10 C15 C20 C29 for 3 objectives (2 minimized, 2 of two dimensions, "
             "1 with arguments), and of C11 C12 for 2 criteria (one of each direction)",
    "thorough": "those cases (or 1 in 2), for the 3 objectives and the 2 criteria",
}
ASSUMPTIONS = ["the value of a plan is the sum of those of its routes"]
CHUNK = 2
# (check, 1 in how many of its cases)
PARTS = [(c10, 5), (c06, 2), (c20, 2), (c15, 5), (c07, 5), (c05, 11), (c29, 7), (c11, 2), (c12, 5)]
MODULES = {m.__name__.split(".")[-1]: m for m, _ in PARTS}


def cases(tier):
    for module, step in PARTS:
        step = step if tier == "quick" else max(1, step // 5)
        name = module.__name__.split(".")[-1]
        n = 0
        for m, case in enumerate(module.cases("quick")):
            if m % step:
                continue
            if module in (c11, c12):
                yield dict(check=name, case=dict(case, own=True))
                continue
            for objective in goals.OWN if tier != "quick" else (tuple(goals.OWN)[n % 3],):
                yield dict(check=name, case=dict(case, objective=objective))
            n += 1


def run(case, ctx):
    ctx.trace(case["case"]["objective"] if "objective" in case["case"] and "own" not in case["case"] else "own criteria")
    ctx.outcomes[case["check"]] += 1
    MODULES[case["check"]].run(case["case"], ctx)
