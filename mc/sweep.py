"""Executions of the solving configurations over instances: what several checks judge, each in its own way."""
from . import families as fam
from . import ref, solve
from .explore import explore
from .inst import Built, plans, result_from


def instance_of(case):
    trips = [
        fam.shape(g, t, l, case["metric"], cap=c, bonus=2.0 if case.get("objective") == "hashcode" else 0.0)
        for (g, t, l), c in zip(case["trips"], case.get("caps") or [1] * len(case["trips"]))
    ]
    return fam.build(trips, case["fleet"], case["metric"], case.get("objective", "dar"), case.get("reverse", False))


def starts(inst, k, all_served=False):
    """Every plan that is feasible (by the reference) when it is driven as soon as possible."""
    fine = {}

    def good(v, visits):
        if (v, visits) not in fine:
            fine[(v, visits)] = ref.excess(inst, v, visits, ref.schedule(inst, v, visits)) <= 0
        return fine[(v, visits)]

    for plan in plans(len(inst["trips"]), k, all_served):
        if all(good(v, visits) for v, visits in enumerate(plan)):
            yield plan


class Execution:
    """One run of the real code."""

    def __init__(self, inst, built, cfg, start, result, initial=None):
        self.inst = inst
        self.built = built
        self.cfg = cfg
        self.start = start
        self.result = result
        self.planning = result.planning
        self.initial = initial


def constructions(inst, cfg, ctx, bound=2, cap=200):
    """Every execution of a configuration from nothing (every decision of its generators, up to ``bound`` deviations)."""

    def once(_):
        built = Built(inst)
        return built, solve.algorithm(built, cfg).optimize()

    for _, (built, result) in explore(once, ctx, bound=bound, cap=cap):
        yield Execution(inst, built, cfg, None, result)


def improvements(inst, cfg, plan, ctx, before=None, bound=1, cap=50, given=False):
    """The executions of a configuration from a given plan. ``given`` leaves the vehicles without visits out of it."""

    def once(_):
        built = Built(inst)
        visits = [None if given and not v else v for v in plan]
        initial = result_from(built, visits)
        seen = before(built, initial) if before is not None else None
        return built, initial, seen, solve.algorithm(built, cfg, initial).optimize()

    for _, (built, initial, seen, result) in explore(once, ctx, bound=bound, cap=cap):
        execution = Execution(inst, built, cfg, plan, result, initial)
        execution.before = seen
        yield execution


def snug(inst, plan):
    """The same instance, whose vehicles are out exactly as long, exactly until and with exactly the room the plan needs."""
    vehicles = []
    for k, v in enumerate(inst["vehicles"]):
        v = dict(v)
        if k < len(plan) and plan[k]:
            rows = ref.schedule(inst, k, plan[k])
            v["timeout"] = rows[-1][2] - rows[0][2]
            v["l" if v["d"] is None else "dl"] = rows[-1][2]
            load = top = 0
            for kind, i in plan[k]:
                load += inst["trips"][i]["cap"] * (1 if kind == "P" else -1)
                top = max(top, load)
            v["cap"] = top
        vehicles.append(v)
    return dict(inst, vehicles=vehicles)
