"""C17: the linear model admits exactly the plans that can be driven, and answers one of the shortest of them."""
import time

import pulp as lp

from .. import families as fam
from .. import ref, solve
from ..env import jit
from ..inst import Built, plans
from ..observe import brief, plan_of, planning_structure, served
from .c01 import SHAPES

REQUIRED = ("optimal", "impossible", "every solution", "no answer", "trips:0", "trips:1", "trips:2", "trips:3", "vehicles:1", "vehicles:2")
BOUNDS = {
    "quick": "0-2 trips out of 15 shapes x 9 homogeneous fleets, 3 out of 4: optimum against every plan; every solution of the model of 1-2 trips; every failing status",
    "thorough": "2 trips out of 15 shapes x every fleet, 3 trips out of 7; every solution of the model of 2 trips on every fleet and of some of 3",
}
ASSUMPTIONS = [
    "vehicles are interchangeable, and both ends of the shift are those of the vehicle",
    "the installed CBC finds the optimum of the models it is given",
]
CHUNK = 1
LIMIT = 60
FLEETS = {
    **{name: fam.FLEETS[name] for name in ("one", "single", "two", "pair", "shift", "hours", "away")},
    "late": [fam.vehicle(cap=2, e=1.0, l=9.0)],
    "wide": [fam.vehicle(o=(1, 0), cap=3, l=12.0)],
}
NAMES = tuple(FLEETS)
SMALL = ("one", "single", "wide", "pair", "late")
TOUGH = SHAPES + [("same", "strict", "none"), ("diag", "never", "none"), ("depot", "free", "none")]
STATUSES = ("LpStatusNotSolved", "LpStatusInfeasible", "LpStatusUnbounded", "LpStatusUndefined")


def cases(tier):
    n = 0
    for name in NAMES:
        yield dict(mode="optimal", trips=[], fleet=name, metric="euclidean")
    for one in TOUGH:
        for name in NAMES:
            n += 1
            yield dict(mode="every", trips=[one], fleet=name, metric=("euclidean", "manhattan")[n % 2], cap=1 + n % 2)
    for pair in fam.pick(2, TOUGH):
        n += 1
        if tier == "quick":
            yield dict(mode="every" if n % 2 == 0 else "optimal", trips=pair, fleet=NAMES[n % len(NAMES)],
                       metric=("euclidean", "manhattan")[n // 2 % 2], cap=1 + n // 4 % 2, reverse=bool(n % 2))
            continue
        for m, name in enumerate(NAMES):
            yield dict(mode="every" if (n + m) % 3 == 0 else "optimal", trips=pair, fleet=name,
                       metric=("euclidean", "manhattan")[(n + m) % 2], cap=1 + (n // 2 + m) % 2, reverse=bool(n % 2))
    for triple in fam.pick(3, [SHAPES[i] for i in ((0, 1, 7, 11) if tier == "quick" else (0, 1, 3, 4, 7, 8, 11))]):
        n += 1
        yield dict(mode="optimal", trips=triple, fleet=SMALL[n % len(SMALL)], metric="euclidean", cap=1, reverse=bool(n % 2))
    if tier != "quick":
        for triple in fam.pick(3, [SHAPES[i] for i in (0, 4, 7)]):
            yield dict(mode="every", trips=triple, fleet="one", metric="manhattan", cap=1)
    for status in STATUSES:
        for filled in (True, False):
            yield dict(mode="status", trips=[SHAPES[0]], fleet="one", metric="euclidean", status=status, filled=filled)


class TooHard(Exception):
    """The solver did not end in its time: the case says nothing (and it is reported as capped)."""


class Limited(lp.LpSolver):
    """The usual solver, with a limit of time."""

    def __init__(self):
        super().__init__(msg=False)

    def available(self):
        return True

    def actualSolve(self, problem, **kwargs):
        started = time.time()
        status = lp.PULP_CBC_CMD(msg=False, timeLimit=LIMIT).actualSolve(problem)
        if time.time() - started > LIMIT - 1:
            raise TooHard()
        return status


class Failing(lp.LpSolver):
    """Answers a status that is not a solution (with or without values in the variables)."""

    def __init__(self, status, filled):
        super().__init__(msg=False)
        self.status, self.filled = status, filled

    def available(self):
        return True

    def actualSolve(self, problem, **kwargs):
        if self.filled:
            lp.PULP_CBC_CMD(msg=False).actualSolve(problem)
        problem.assignStatus(getattr(lp, self.status))
        return problem.status


class Next(Limited):
    """Answers a solution that is none of those it answered before."""

    def __init__(self, seen):
        super().__init__()
        self.seen = seen

    def actualSolve(self, problem, **kwargs):
        binaries = [v for v in problem.variables() if v.cat == lp.LpInteger]
        for n, ones in enumerate(self.seen):
            problem += lp.lpSum((1 - v) if v.name in ones else v for v in binaries) >= 1, f"cut_{n}"
        status = super().actualSolve(problem)
        if problem.status == lp.LpStatusOptimal:
            self.seen.append({v.name for v in binaries if round(v.varValue) == 1})
        return status


def everything(inst):
    """Every plan that serves all the trips with some choice of times, and how far it drives."""
    vehicles = len(inst["vehicles"])
    fine, out = {}, {}

    def good(k, visits):
        if (k, visits) not in fine:
            fine[(k, visits)] = ref.schedulable(inst, k, visits)
        return fine[(k, visits)]

    for plan in plans(len(inst["trips"]), vehicles, all_served=True):
        if all(good(k, visits) for k, visits in enumerate(plan)):
            out[plan] = sum(ref.distance(inst, k, visits) for k, visits in enumerate(plan))
    return out


def instance_of(case):
    trips = [fam.shape(g, t, load, case["metric"], cap=case.get("cap", 1)) for g, t, load in case["trips"]]
    return fam.build(trips, FLEETS[case["fleet"]], case["metric"], "dar", case.get("reverse", False))


def solve_it(inst, **kwargs):
    built = Built(inst)
    try:
        result = jit.MilpAlgorithm(fleet=built.fleet, job=built.job, **kwargs).optimize()
    except jit.JineteException:
        return built, None
    return built, result


def judge(ctx, inst, built, result, fine, info):
    """The plan of the result, once it is known to be a good one."""
    plan = plan_of(built, result.planning)
    info["plan"] = brief(plan)
    wrong = planning_structure(built, result.planning)
    if not ctx.expect(not wrong, "the plan of the model is broken", wrong=wrong, **info):
        return None
    for k, visits, rows in plan:
        ctx.expect(ref.excess(inst, k, visits, rows) <= 2e-3, "the plan of the model cannot be driven",
                   vehicle=k, problems=ref.problems(inst, k, visits, rows), **info)
    ctx.expect(result.feasible, "the plan of the model is said to be infeasible", **info)
    ctx.expect(served(built, result.planning) == sorted(map(str, range(len(inst["trips"])))), "a request is not served", **info)
    key = tuple(visits for _, visits, _ in plan)
    ctx.expect(key in fine, "the plan of the model is not one that can be driven", **info)
    return key


def run(case, ctx):
    try:
        explore(case, ctx)
    except TooHard:
        ctx.capped += 1


def explore(case, ctx):
    inst = instance_of(case)
    info = {}
    if case["mode"] == "status":
        built, result = solve_it(inst, solver=Failing(case["status"], case["filled"]))
        ctx.expect(result is None, "the solver failed, and there is a plan", status=case["status"])
        ctx.state(case["status"], case["filled"])
        ctx.step()
        ctx.trace("no answer")
        return
    fine = everything(inst)
    ctx.outcomes[f"trips:{len(inst['trips'])}"] += 1
    ctx.outcomes[f"vehicles:{len(inst['vehicles'])}"] += 1
    for plan in fine:
        ctx.state(str(case["trips"]), case["fleet"], case["metric"], case.get("cap"), plan)
    # the small ones, with whatever solver there is by default
    built, result = solve_it(inst) if len(inst["trips"]) < 2 else solve_it(inst, solver=Limited())
    ctx.step()
    if not fine:
        ctx.expect(result is None, "there is no plan, and the model has one", plan=result and brief(plan_of(built, result.planning)))
        ctx.trace("impossible")
    elif ctx.expect(result is not None, "there is a plan, and the model has none", plans=[str(p) for p in list(fine)[:3]]):
        key = judge(ctx, inst, built, result, fine, info)
        best = min(fine.values())
        value = result.optimization_value
        if key is not None:
            ctx.expect(abs(fine.get(key, best) - best) <= 1e-4, "the plan of the model is not the shortest", best=best,
                       got=fine.get(key), shortest=[str(p) for p, d in fine.items() if d <= best + 1e-6][:2], **info)
            ctx.expect(abs(value[0] - len(inst["trips"])) < 1e-9 and abs(value[1] + best) <= 1e-4,
                       "the value of the plan of the model is wrong", best=best, value=list(value), **info)
        ctx.trace("optimal")
        ctx.sample(dict(best=best, plan=info.get("plan"), plans=len(fine)))
    if case["mode"] != "every":
        return
    seen, found = [], set()
    while len(seen) <= 2 * len(fine) + 4:
        built, result = solve_it(inst, solver=Next(seen))
        ctx.step()
        if result is None:
            break
        found.add(judge(ctx, inst, built, result, fine, dict(solution=len(seen))))
        ctx.trace("every solution")
    else:
        ctx.capped += 1
    missing = [str(p) for p in fine if p not in found]
    ctx.expect(not missing, "a plan that can be driven is not a solution of the model", missing=missing[:3], plans=len(fine))
