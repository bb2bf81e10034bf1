"""C18: the noise of the solver never changes the plan that is read from its answer."""
import pulp as lp

from .. import families as fam
from .. import ref
from ..env import jit
from ..inst import Built
from ..observe import brief, plan_of, planning_structure
from .c01 import SHAPES
from .c17 import FLEETS, SMALL, Limited, TooHard, instance_of

REQUIRED = ("uniform", "one variable", "pair", "script", "trips:1", "trips:2", "trips:3", "later than needed")
BOUNDS = {
    "quick": "1-2 trips out of 15 shapes, 3 out of 3: all up, all down, both alternations, each variable up and down, 1e-9 to 1e-4; every pair of the arcs of 1 trip",
    "thorough": "2 trips on every fleet, 3 out of 5; every pair of variables of 1 trip",
}
ASSUMPTIONS = ["the noise is below the tolerance for integers of the solver (1e-4) and below that of the verdicts (0.001)"]
CHUNK = 1
SIZES = (1e-9, 1e-7, 1e-6, 1e-4)


def cases(tier):
    n = 0
    names = tuple(FLEETS)
    for one in SHAPES:
        n += 1
        for fleet in (names[n % len(names)],) if tier == "quick" else names:
            yield dict(trips=[one], fleet=fleet, metric=("euclidean", "manhattan")[n % 2], pairs=True, arcs=tier == "quick")
    for pair in fam.pick(2, SHAPES):
        n += 1
        for fleet in (names[n % len(names)],) if tier == "quick" else names:
            yield dict(trips=pair, fleet=fleet, metric=("euclidean", "manhattan")[n % 2], cap=1, reverse=bool(n // 2 % 2))
    for triple in fam.pick(3, [SHAPES[i] for i in ((0, 1, 7) if tier == "quick" else (0, 1, 4, 7, 11))]):
        n += 1
        yield dict(trips=triple, fleet=SMALL[n % 3], metric="euclidean", cap=1)


class Recording(Limited):
    """Keeps the answer of the solver."""

    def __init__(self):
        super().__init__()
        self.values = None

    def actualSolve(self, problem, **kwargs):
        status = super().actualSolve(problem, **kwargs)
        self.values = {v.name: (v.varValue, v.cat) for v in problem.variables()}
        return status


class Noisy(lp.LpSolver):
    """Answers what was recorded, but for some noise."""

    def __init__(self, values, noise):
        super().__init__(msg=False)
        self.values, self.noise = values, noise

    def available(self):
        return True

    def actualSolve(self, problem, **kwargs):
        for v in problem.variables():
            v.varValue = self.values[v.name][0] + self.noise.get(v.name, 0.0)
        problem.assignStatus(lp.LpStatusOptimal)
        return problem.status


def patterns(values, case):
    names = sorted(values)
    for eps in SIZES:
        for sign in (1, -1):
            yield "uniform", {n: sign * eps for n in names}
            yield "uniform", {n: sign * eps * (-1) ** i for i, n in enumerate(names)}
            # every value towards the other side of its bound, and towards the middle
            yield "uniform", {n: sign * eps * (1 if values[n][0] < 0.5 else -1) for n in names}
    for eps in (1e-9, 1e-4):
        for sign in (1, -1):
            for n in names:
                yield "one variable", {n: sign * eps}
    if case.get("pairs"):
        some = [n for n in names if values[n][1] == lp.LpInteger] if case.get("arcs") else names
        for i, a in enumerate(some):
            for b in some[:i]:
                for x in (1e-6, -1e-6):
                    for y in (1e-6, -1e-6):
                        yield "pair", {a: x, b: y}


def run(case, ctx):
    inst = instance_of(case)
    built = Built(inst)
    recording = Recording()
    try:
        first = jit.MilpAlgorithm(fleet=built.fleet, job=built.job, solver=recording).optimize()
    except TooHard:
        ctx.capped += 1
        return
    except jit.JineteException:
        ctx.outcomes["impossible"] += 1
        return
    want = plan_of(built, first.planning)
    ctx.outcomes[f"trips:{len(inst['trips'])}"] += 1
    if any(row[1] > soon[1] + 1e-3 for k, v, rows in want if v is not None for row, soon in zip(rows, ref.schedule(inst, k, v))):
        ctx.outcomes["later than needed"] += 1
    for label, noise in patterns(recording.values, case):
        built = Built(inst)
        size = max(map(abs, noise.values()))
        info = dict(kind=label, size=size, noise=dict(list(noise.items())[:2]), want=brief(want))
        try:
            result = jit.MilpAlgorithm(fleet=built.fleet, job=built.job, solver=Noisy(recording.values, noise)).optimize()
        except Exception as exc:
            ctx.violate("the noise of the solver breaks the reading of its answer", error=repr(exc), **info)
            continue
        got = plan_of(built, result.planning)
        info["got"] = brief(got)
        ctx.state(str(case["trips"]), case["fleet"], tuple(sorted(noise.items())))
        ctx.step()
        ctx.trace(label)
        ctx.expect([(k, v) for k, v, _ in got] == [(k, v) for k, v, _ in want], "the noise of the solver changes the plan", **info)
        ctx.expect(not planning_structure(built, result.planning), "the noise of the solver breaks the plan", **info)
        tol = 12 * size + 1e-7
        ctx.expect(
            all(len(a[2]) == len(b[2]) and all(abs(x - y) <= tol for r, s in zip(a[2], b[2]) for x, y in zip(r, s)) for a, b in zip(got, want)),
            "the noise of the solver changes the times of the plan", **info,
        )
        if size <= 1e-4:
            ctx.expect(result.feasible, "the noise of the solver makes the plan infeasible", **info)
    ctx.outcomes["script"] += 1
    ctx.sample(dict(variables=len(recording.values), plan=brief(want)))
