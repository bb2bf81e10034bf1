"""C10: the objective values are what the objectives mean, at every level."""
import itertools

from .. import families as fam
from .. import goals, ref, sweep
from ..env import jit
from ..inst import Built, plans, result_from, route_from, sequences
from ..observe import rows_of, visits_of

REQUIRED = ("dar", "taxi", "hashcode", "bonus", "no bonus", "empty trip", "best", "routes:2", "naive", "infeasible plan")
BOUNDS = {
    "quick": "every plan of 2 trips out of 14 shapes and of 3 out of 3 on 2 vehicles x 3 objectives, every level; every pick among 3",
    "thorough": "2 trips out of 30 shapes, 3 out of 6; 5 fleets",
}
CHUNK = 4
SHAPES = [
    ("out", "free", "none", 1, 2.0), ("out", "late", "none", 1, 2.0), ("back", "late", "both", 2, 1.5), ("back", "free", "none", 0, 3.0),
    ("same", "late", "none", 1, 4.0), ("diag", "slot", "none", 1, 0.5), ("depot", "free", "none", 1, 2.5), ("depot", "late", "drop", 0, 2.0),
    ("home", "appoint", "none", 1, 1.0), ("same", "free", "none", 1, 0.0), ("out", "tight", "pick", 2, 2.0), ("home", "free", "drop", 1, 1.0),
    ("depot", "appoint", "none", 1, 3.0), ("out", "due", "none", 1, 1.0),
]


def cases(tier):
    for objective in ("dar", "taxi", "hashcode"):
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            for metric in ("euclidean", "manhattan"):
                for fleet in (("two", "mixed", "away", "later")[n % 4],) if tier == "quick" else ("two", "mixed", "away", "later", "one"):
                    yield dict(trips=pair, fleet=fleet, metric=metric, objective=objective)
        for n, triple in enumerate(fam.pick(3, SHAPES[:3] if tier == "quick" else SHAPES[:6])):
            yield dict(trips=triple, fleet=("two", "away")[n % 2], metric=("manhattan", "euclidean")[n % 2], objective=objective)
        yield dict(trips=[], fleet="two", metric="euclidean", objective=objective)


def instance_of(case):
    trips = [fam.shape(g, t, l, case["metric"], cap=c, bonus=b) for g, t, l, c, b in case["trips"]]
    return fam.build(trips, case["fleet"], case["metric"], case["objective"])


def run(case, ctx):
    inst = instance_of(case)
    name = inst["objective"]
    size = min(2, len(inst["vehicles"]))
    objective = goals.CLASSES[name](**goals.ARGUMENTS.get(name, {}))
    less = name in goals.MINIMIZED
    ctx.expect(objective.direction is (jit.OptimizationDirection.MINIMIZATION if less else jit.OptimizationDirection.MAXIMIZATION), "the objective goes elsewhere")
    pool = []
    for plan in plans(len(inst["trips"]), size):
        built = Built(inst)
        result = result_from(built, plan)
        ctx.step()
        total = None
        info = dict(objective=name, plan=[" ".join(f"{a}{b}" for a, b in v) for v in plan], trips=inst["trips"])
        for route in result.routes:
            k = built.vehicle_index(route.vehicle)
            visits, rows = visits_of(built, route), rows_of(route)
            want = ref.route_objective(inst, k, visits, rows)
            got = objective.optimization_function(route)
            ctx.expect(ref.close_all(got, want), "wrong value of a route", got=got, want=want, **info)
            total = want if total is None else tuple(a + b for a, b in zip(total, want))
            for n, stop in enumerate(route.stops if name != "soon" else ()):
                zero = (0,) * len(want)
                here = zero
                if 0 < n <= len(visits) and visits[n - 1][0] == "P":
                    here = ref.trip_objective(inst, k, visits, rows, visits[n - 1][1])
                got = objective.optimization_function(stop)
                ctx.expect(ref.close_all(got, here), "wrong value of a stop", stop=n, got=got, want=here, **info)
            for pt in route.planned_trips if name != "soon" else ():
                i = built.trip_index(pt.trip)
                want = ref.trip_objective(inst, k, visits, rows, i)
                got = objective.optimization_function(pt)
                ctx.expect(ref.close_all(got, want), "wrong value of a planned trip", trip=i, got=got, want=want, **info)
                if name == "hashcode":
                    ctx.outcomes["bonus" if want[0] > ref.dist(inst, inst["trips"][i]["o"], inst["trips"][i]["d"]) else "no bonus"] += 1
                if inst["trips"][i]["cap"] == 0:
                    ctx.outcomes["empty trip"] += 1
        for what, value in (
            ("planning", objective.optimization_function(result.planning)),
            ("result", objective.optimization_function(result)),
            ("result value", result.optimization_value),
            ("tuple", objective.optimization_function(total)),
        ):
            ctx.expect(ref.close_all(value, total), f"wrong value of a {what}", got=value, want=total, **info)
        loaded = {i for v in plan for _, i in v if inst["trips"][i]["cap"]}
        ctx.expect({built.trip_index(t) for t in result.completed_trips} == loaded, "wrong set of completed trips", **info)
        rate = len(loaded) / len(inst["trips"]) if inst["trips"] else 1.0
        ctx.expect(ref.close(result.coverage_rate, rate), "wrong coverage rate", got=result.coverage_rate, want=rate, **info)
        if not result.feasible:
            ctx.outcomes["infeasible plan"] += 1
        ctx.state(name, plan, tuple(round(x, 6) for x in total))
        ctx.trace(name, f"routes:{len(result.routes)}")
        pool.append((total, result))
        ctx.sample(dict(info, value=total))
    built = Built(inst)
    naive = jit.NaiveAlgorithm(fleet=built.fleet, job=built.job).optimize()
    zero = (0,) * goals.SIZES[name]
    ctx.expect(ref.close_all(naive.optimization_value, zero) and naive.feasible, "wrong value of a planning without routes", got=naive.optimization_value)
    ctx.trace("naive")
    # the best of every choice of up to three, at the places where it matters: with ties and with nothing
    few = spread(pool, 6)
    for size in (0, 1, 2, 3):
        for chosen in itertools.product([None] + few, repeat=size):
            values = [c[0] for c in chosen if c is not None]
            for level in ("result", "planning", "tuple"):
                args = [None if c is None else c[1] if level == "result" else c[1].planning if level == "planning" else c[0] for c in chosen]
                best = objective.best(*args)
                ctx.step()
                if not values:
                    ctx.expect(best is None, "the best of nothing is something", got=str(best))
                    continue
                if not ctx.expect(any(best is a for a in args if a is not None), "the best is not one of the options", level=level):
                    continue
                value = best if level == "tuple" else objective.optimization_function(best)
                ctx.expect(all(not worse(goals.signed(name, value), goals.signed(name, v)) for v in values), "the best is not the best", level=level, got=value, options=values)
    ctx.trace("best")


def worse(a, b, tol=1e-6):
    for x, y in zip(a, b):
        if x < y - tol:
            return True
        if x > y + tol:
            return False
    return False


def spread(pool, count):
    if len(pool) <= count:
        return pool
    ordered = sorted(pool, key=lambda p: p[0])
    return [ordered[i * (len(ordered) - 1) // (count - 1)] for i in range(count)]
