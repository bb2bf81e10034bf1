"""C20: what a local search answers has no better neighbour of its kind."""
import itertools

from .. import families as fam
from .. import goals, long, ref, sweep
from ..env import jit
from ..observe import brief, plan_of
from .c01 import MORE, SHAPES
from .c05 import FRAGILE, fragile

REQUIRED = ("reallocation", "one_shift", "two_opt", "moved", "stuck", "dar", "taxi", "hashcode", "fragile", "long route")
BOUNDS = {
    "quick": "every feasible start of 2 trips out of 21 shapes and of 3 out of 5 x 3 searches x 3 objectives: every neighbour of the answer; routes of 16 stops with one better neighbour of each kind: every place",
    "thorough": "starts of 2 trips out of 30 shapes, 3 out of 8, 4 out of 2 on one vehicle",
}
ASSUMPTIONS = ["routes of up to 16 stops, whose neighbours the reallocation visits completely"]
CHUNK = 2
COUNTED = ("dar", "prompt")  # their first dimension is a number of requests
SEARCHES = ("reallocation", "one_shift", "two_opt")


def cases(tier):
    n = 0
    for first in range(long.LENGTH):
        yield dict(mode="long", first=first, nested=bool(first % 2))
        if tier != "quick":
            yield dict(mode="long", first=first, nested=not first % 2)
    objectives = ("dar", "taxi", "hashcode")
    for m, triple in enumerate(FRAGILE):
        yield dict(trips=triple, fleet="ends", metric="euclidean", reverse=bool(m % 2), objective="dar", all=True, fragile=True)
    for pair in fam.pick(2, SHAPES + MORE[18:24] if tier == "quick" else MORE):
        n += 1
        for m in range(1 if tier == "quick" else 3):
            yield dict(trips=pair, fleet=("two", "mixed", "later", "away", "hours")[(n + m) % 5], all=False,
                       metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 2), objective=objectives[(n + m) % 3])
    for triple in fam.pick(3, [SHAPES[i] for i in ((0, 1, 4, 7, 11) if tier == "quick" else (0, 1, 3, 4, 6, 7, 10, 11))]):
        n += 1
        for m in range(1 if tier == "quick" else 3):
            yield dict(trips=triple, fleet=("two", "one", "single")[(n + m) % 3], all=True, metric=("euclidean", "manhattan")[n % 2],
                       reverse=bool(n % 2), objective=objectives[(n // 3 + m) % 3])
    if tier != "quick":
        for group in fam.pick(4, [SHAPES[i] for i in (0, 7)]):
            for objective in objectives:
                n += 1
                yield dict(trips=group, fleet="one", all=True, metric="euclidean", reverse=False, objective=objective)


def ordered(visits):
    return all(visits.index(("P", i)) < n for n, (kind, i) in enumerate(visits) if kind == "D")


def swaps(visits):
    for n in range(len(visits) - 1):
        yield visits[:n] + (visits[n + 1], visits[n]) + visits[n + 2:]


def reversals(visits):
    for i, k in itertools.combinations(range(len(visits) + 1), 2):
        if k - i > 1:
            yield visits[:i] + tuple(reversed(visits[i:k])) + visits[k:]


def better(inst, k, visits, neighbours):
    """The neighbours that can be driven as soon as possible and are better."""
    value = ref.worth(inst, ref.route_objective(inst, k, visits, ref.schedule(inst, k, visits)))
    for other in neighbours:
        if not ordered(other):
            continue
        rows = ref.schedule(inst, k, other)
        if ref.excess(inst, k, other, rows) > 0:
            continue
        new = ref.worth(inst, ref.route_objective(inst, k, other, rows))
        if greater(inst["objective"], new, value):
            yield other, new, value


def greater(name, a, b, tol=1e-6):
    """Whether the value ``a`` of the objective is certainly more than ``b``: dimensions that are equal only up to rounding decide nothing."""
    for x, y in zip(a, b):
        if x > y + tol:
            return True
        if x < y - tol or name not in COUNTED:
            return False
    return False


def reallocations(built, planning, objective, name):
    """The moves of a trip to another route, in the way the library inserts it there, that are better."""
    strategy = jit.InsertionStrategy()
    for origin, destination in itertools.permutations(sorted(planning.routes, key=lambda r: built.vehicle_index(r.vehicle)), 2):
        before = [objective.optimization_function(origin), objective.optimization_function(destination)]
        for trip in list(origin.trips):
            left = origin.clone()
            left.remove_trip(trip)
            left.flush()
            if not left.feasible:
                continue
            for i, j in itertools.combinations(range(len(destination.stops)), 2):
                for there in strategy.compute(destination, trip, i, j):
                    after = [objective.optimization_function(left), objective.optimization_function(there)]
                    gain = goals.signed(name, [sum(x) - sum(y) for x, y in zip(zip(*after), zip(*before))])
                    if greater(name, gain, (0.0,) * len(gain)):
                        yield f"{built.trip_index(trip)} from {built.vehicle_index(origin.vehicle)} at ({i}, {j})", gain


def run_long(case, ctx):
    for i, j in long.places():
        if i != case["first"]:
            continue
        line = long.visits(case["nested"])
        inst = long.movable((i, j), case["nested"])
        searched(ctx, inst, (line, (("P", long.TRIPS), ("D", long.TRIPS))), ("reallocation",), best=long.LENGTH + j - i - 0.5)
        line = long.visits(True)
        if j < long.LENGTH and (j <= long.TRIPS) == (i + 1 <= long.TRIPS) and j > i + 1:  # a piece of pickups, or of deliveries
            searched(ctx, long.open_line(), (line[:i] + line[i:j][::-1] + line[j:],), ("two_opt", "one_shift") if j == i + 2 else ("two_opt",),
                     best=long.LENGTH if j > i + 2 else None)
        ctx.outcomes["long route"] += 1


def run(case, ctx):
    if case.get("mode") == "long":
        run_long(case, ctx)
        return
    inst = sweep.instance_of(case)
    for plan in sweep.starts(inst, min(2, len(inst["vehicles"])), all_served=case["all"]):
        if not any(plan) or (case.get("fragile") and not fragile(inst, plan)):
            continue
        ctx.outcomes["fragile"] += case.get("fragile", False)
        searched(ctx, inst, tuple(plan) + ((),) * (len(inst["vehicles"]) - len(plan)), SEARCHES)


def searched(ctx, inst, plan, searches, best=None):
    """No search of the kinds may answer a plan with a better neighbour. ``best``: how far the vehicles have to go, once improved."""
    for search in searches:
        cfg = dict(algorithm="search", search=search)
        for x in sweep.improvements(inst, cfg, plan, ctx):
            final = plan_of(x.built, x.planning)
            ctx.trace(search, inst["objective"])
            ctx.state(plan, search, tuple((k, v) for k, v, _ in final))
            if any(v is None or isinstance(k, str) for k, v, _ in final):
                continue
            moved = tuple(v for _, v, _ in final) != plan
            ctx.outcomes["moved" if moved else "stuck"] += 1
            info = dict(search=search, start=plan, plan=brief(final))
            if best is not None:
                far = sum(ref.distance(inst, k, visits) for k, visits, _ in final)
                ctx.expect(abs(far - best) <= 1e-6, "the better neighbour of a long route is not found", distance=far, **info)
            if search == "reallocation":
                found = next(reallocations(x.built, x.planning, x.built.job.objective, inst["objective"]), None)
                ctx.step()
                ctx.expect(found is None, "moving a request to another route would still be better", move=found, **info)
                continue
            around = swaps if search == "one_shift" else reversals
            for k, visits, _ in final:
                ctx.step(len(visits) ** 2)
                found = next(better(inst, k, visits, around(visits)), None)
                ctx.expect(found is None, "a neighbour of a route is still better", vehicle=k, neighbour=found, **info)
            ctx.sample(info)
