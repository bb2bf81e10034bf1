"""C08: the insertion strategies propose exactly the feasible ways of adding a trip, and touch nothing else."""
from .. import families as fam
from .. import ref, sweep
from ..env import BOUND, INF, TOL, jit
from ..inst import Built, num, route_from, sequences
from ..observe import plan_of, route_view, rows_of, structure, visits_of
from .c01 import MORE, SHAPES

REQUIRED = ("all", "feasible only", "excluded", "included", "base:0", "base:2", "held", "several trips", "long")
BOUNDS = {
    "quick": "1 trip out of 15 shapes into every route of 0-2 trips out of 9, 4 vehicles, plain and held starts; all positions",
    "thorough": "1 trip out of 30 shapes into every route of 0-2 out of 15 and 3 out of 4, all vehicles, both metrics",
}
CHUNK = 4
VEHICLES = ("two", "shift", "hours", "later", "away", "single")
BASE = [SHAPES[i] for i in (0, 1, 3, 4, 6, 7, 8, 11, 12)]


def cases(tier):
    new_shapes = SHAPES if tier == "quick" else MORE
    bases = BASE if tier == "quick" else SHAPES
    n = 0
    for new in new_shapes:
        for size in (0, 1, 2):
            for base in fam.pick(size, bases):
                n += 1
                fleets = VEHICLES if size == 0 else [VEHICLES[n % 6]] if tier == "quick" else VEHICLES[n % 2 :: 2]
                for fleet in fleets:
                    yield dict(trips=list(base) + [new], fleet=fleet, metric=("euclidean", "manhattan")[n % 2])
    for count in ((7, 8) if tier == "quick" else (7, 8, 9, 10)):
        for strategy in ("sampling", "intensive", "tail"):
            yield dict(long=count, strategy=strategy)
    if tier != "quick":
        for base in fam.pick(3, BASE[:4]):
            for new in SHAPES:
                yield dict(trips=list(base) + [new], fleet="two", metric="euclidean")


def sequences_with(visits, i, positions):
    for p, q in positions:
        # p: index of the stop before the pickup, q: index of the stop (of the base) after the delivery
        yield visits[:p] + (("P", i),) + visits[p : q - 1] + (("D", i),) + visits[q - 1 :]


def positions_of(strategy, size):
    if strategy == "tail":
        return [(size - 2, size - 1)]
    return [(p, q) for p in range(size) for q in range(p + 1, size)]


STRATEGIES = {
    "intensive": jit.IntensiveInsertionStrategy,
    "sampling": jit.SamplingInsertionStrategy,
    "tail": jit.TailInsertionStrategy,
}


def certainly(inst, k, visits, held):
    """True/False when the reference can tell whether driving ``visits`` is feasible, None when it cannot.

    The departure from the depot can be put back by the waiting time at the first stop; rides that are too long may be
    repaired by starting them later, which is up to the strategy.
    """
    verdicts = []
    times = ref.schedule(inst, k, visits, held)
    ways = [times]
    wait = times[1][1] - times[1][0]
    if wait > 0:
        later = list(held)
        later[0] = times[0][1] + wait
        ways.append(ref.schedule(inst, k, visits, later))
    # starting later repairs long rides and long shifts at most
    if any(x > 4 * BOUND for name, x in ref.problems(inst, k, visits, times) if not name.startswith(("ride", "duration"))):
        return False
    for rows in ways:
        found = ref.problems(inst, k, visits, rows)
        worst = max((x for _, x in found), default=0.0)
        if BOUND / 2 < worst < 4 * BOUND:
            return None
        verdicts.append(worst <= BOUND)
    if all(verdicts):
        return True
    if any(verdicts):
        return None
    if any(num(inst["trips"][i]["timeout"]) < INF for _, i in visits):
        return None
    return False


def run(case, ctx):
    if "long" in case:
        return run_long(case, ctx)
    inst = sweep.instance_of(case)
    n = len(inst["trips"]) - 1
    several(ctx, inst, n)
    for m, visits in enumerate(sequences(range(n))):
        rows = ref.schedule(inst, 0, visits)
        holds = [None]
        if n:
            start = [None] * len(rows)
            start[0] = rows[0][1] + 0.5
            holds.append(list(start))
            start[1] = rows[1][1] + 0.75
            holds.append(list(start))
        for held in holds:
            for strategy in ("intensive", "tail") if m % 3 else STRATEGIES:
                one(ctx, inst, visits, held, strategy, n)


def one(ctx, inst, visits, held, strategy, new):
    built = Built(inst)
    route = route_from(built, 0, visits, held)
    route.feasible  # algorithms only extend routes they already judged
    before = route_view(built, route)
    verdict = route.feasible
    info = dict(strategy=strategy, base=" ".join(f"{a}{b}" for a, b in visits), held=held, trips=inst["trips"], vehicle=inst["vehicles"][0])
    trip = built.trips[new]
    everything = STRATEGIES[strategy](only_feasible=False).compute(route, trip)
    feasible = STRATEGIES[strategy]().compute(route, trip)
    ctx.step(len(everything))
    expected = sorted(sequences_with(visits, new, positions_of(strategy, len(visits) + 2)))
    proposed = [visits_of(built, r) for r in everything]
    if None in proposed or sorted(proposed) != expected:
        ctx.violate("the proposed routes are not the base with the trip at every position", expected=len(expected), got=proposed, **info)
        return
    ctx.trace("all", f"base:{new}", "held" if held else "plain")
    for r in everything + feasible:
        wrong = structure(built, r)
        ctx.expect(not wrong and r.vehicle is route.vehicle, "a proposed route is not well formed", wrong=wrong, **info)
    seen = {}
    for r in everything:
        seen.setdefault(visits_of(built, r), r)
    chosen = [visits_of(built, r) for r in feasible]
    ctx.expect(len(chosen) == len(set(chosen)) or len(set(expected)) < len(expected), "a way of inserting is proposed twice", **info)
    for r in feasible:
        v = visits_of(built, r)
        ctx.expect(v in seen, "a feasible route that is not one of the possible ones", visits=v, **info)
        wrong = [p for p in ref.problems(inst, 0, v, rows_of(r)) if p[1] > TOL]
        ctx.expect(bool(r.feasible) and not wrong, "an infeasible route is proposed as feasible", visits=v, wrong=wrong, rows=rows_of(r), **info)
        ctx.trace("feasible only")
    base_starts = [None] * (len(visits) + 2) if held is None else held
    for v in set(expected):
        starts = shifted(visits, base_starts, v, new)
        can = certainly(inst, 0, v, starts)
        ctx.state(v, strategy, can)
        if can is None:
            ctx.outcomes["undecided: ride limit"] += 1
            continue
        if can:
            ctx.outcomes["included"] += 1
            ctx.expect(v in chosen, "a feasible way of inserting is not proposed", visits=v, **info)
        else:
            ctx.outcomes["excluded"] += 1
            ctx.expect(v not in chosen, "an infeasible way of inserting is proposed", visits=v, **info)
    ctx.expect(route_view(built, route) == before and route.feasible == verdict and not structure(built, route),
               "proposing changed the base route", **info)
    ctx.sample(dict(info, expected=len(expected), feasible=len(chosen)))


def several(ctx, inst, new):
    """All the trips of the instance at once, given as an iterator that can only be read once."""
    for strategy in STRATEGIES:
        for start in range(2 if new else 1):
            built = Built(inst)
            visits = (("P", 0), ("D", 0)) if start else ()
            route = route_from(built, 0, visits)
            left = list(range(start, new + 1))
            many = STRATEGIES[strategy](only_feasible=False).compute(route, iter([built.trips[i] for i in left]))
            got = sorted(map(str, (visits_of(built, r) for r in many)))
            want = sorted(str(s) for i in left for s in sequences_with(visits, i, positions_of(strategy, len(visits) + 2)))
            ctx.expect(got == want, "not every trip of several is proposed", strategy=strategy, got=got, trips=inst["trips"])
            ctx.trace("several trips")


def shifted(visits, held, v, new):
    """The starts the stops of the base were held to, at their places in the longer route."""
    out = [held[0]]
    place = {x: held[n + 1] for n, x in enumerate(visits)}
    for x in v:
        out.append(place.get(x))
    out.append(held[-1])
    return out


def run_long(case, ctx):
    """Routes long enough for the sampling to choose, and several trips at once."""
    from ..inst import instance, trip, vehicle

    count = case["long"]
    trips = [trip((i, 0), (i + 0.5, 0)) for i in range(1, count + 3)]
    inst = instance(trips, [vehicle(cap=count + 3)])
    visits = tuple(x for i in range(count) for x in (("P", i), ("D", i)))
    size = len(visits) + 2
    for seed in range(6):
        built = Built(inst)
        route = route_from(built, 0, visits)
        before = route_view(built, route)
        new = [count, count + 1]
        kwargs = dict(seed=seed) if case["strategy"] == "sampling" else {}
        got = STRATEGIES[case["strategy"]](**kwargs).compute(route, [built.trips[i] for i in new])
        seen = [visits_of(built, r) for r in got]
        positions = positions_of(case["strategy"], size)
        allowed = {i: set(sequences_with(visits, i, positions)) for i in new}
        ctx.step(len(got))
        ctx.trace("several trips", "long")
        ctx.state(case["strategy"], count, tuple(seen))
        info = dict(strategy=case["strategy"], trips=count, seed=seed, proposed=len(got))
        ctx.expect(len(set(seen)) == len(seen), "a way of inserting is proposed twice", **info)
        for i in new:
            mine = [s for s in seen if s in allowed[i]]
            want = min(len(positions), 128) if case["strategy"] == "sampling" else len(positions)
            ctx.expect(len(mine) == want, "wrong number of ways of inserting a trip", trip=i, got=len(mine), want=want, **info)
        ctx.expect(all(any(s in allowed[i] for i in new) for s in seen), "a route that is not the base with a trip", **info)
        ctx.expect(route_view(built, route) == before, "proposing changed the base route", **info)
        ctx.sample(info)
