"""C22: distances and times between places are those of the metric, whatever was asked before."""
import itertools
import math

from ..env import jit
from ..inst import Built
from .. import families as fam

REQUIRED = ("history", "axioms", "places", "euclidean", "manhattan", "separate", "trip", "copied")
BOUNDS = {
    "quick": "every history of 5 operations (create, distance, time, on either of 2 surfaces) over 3 places of 1-3 coordinates; every triple of 15 places",
    "thorough": "every history of 6 operations over 4 places; every triple of 27 places",
}
CHUNK = 2
PLACES = {
    1: [(0,), (2.5,), (-3,), (1e6,)],
    2: [(0, 0), (3, 4), (-1.5, 2), (3, 4.0)],
    3: [(0, 0, 0), (1, 2, 2), (-1, 0.5, 4), (1e3, 1e3, 1e3)],
}
NAMES = ("euclidean", "manhattan")


def cases(tier):
    depth, size = (5, 3) if tier == "quick" else (6, 4)
    for dimensions in (1, 2, 3):
        for first in ((a, b) for a in NAMES for b in NAMES):
            for start in range(2 * (size + 2 * size * size)):
                yield dict(mode="history", dimensions=dimensions, metrics=first, start=start, depth=3, size=size)
    for start in range(2 * (2 + 2 * 4)):
        for metrics in (NAMES, NAMES[::-1], ("euclidean",) * 2, ("manhattan",) * 2):
            yield dict(mode="history", dimensions=2, metrics=metrics, start=start, depth=depth - 1 if tier == "quick" else depth - 1, size=2)
    for dimensions in (1, 2, 3):
        for metric in NAMES:
            yield dict(mode="axioms", dimensions=dimensions, metric=metric, wide=tier != "quick")
    yield dict(mode="places")


def real(metric, a, b):
    if metric == "manhattan":
        return sum(abs(x - y) for x, y in zip(a, b))
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def surface(metric):
    return jit.GeometricSurface(getattr(jit.DistanceMetric, metric.upper()))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def operations(size):
    """(surface, kind, places)"""
    out = []
    for s in (0, 1):
        out += [(s, "create", (a,)) for a in range(size)]
        out += [(s, kind, pair) for kind in ("distance", "time") for pair in itertools.product(range(size), repeat=2)]
    return out


def run(case, ctx):
    {"history": run_history, "axioms": run_axioms, "places": run_places}[case["mode"]](case, ctx)


def run_history(case, ctx):
    places = PLACES[case["dimensions"]][:case["size"]]
    every = operations(case["size"])
    for rest in itertools.product(every, repeat=case["depth"] - 1):
        history = (every[case["start"]],) + rest
        surfaces = [surface(m) for m in case["metrics"]]
        known = [set(), set()]
        for n, (s, kind, pair) in enumerate(history):
            here = surfaces[s]
            positions = [here.get_or_create_position(list(places[p])) for p in pair]
            known[s] |= {tuple(map(float, places[p])) for p in pair}
            info = dict(history=history[: n + 1], metrics=case["metrics"], places=places)
            if kind == "create":
                ctx.expect(tuple(positions[0].coordinates) == tuple(places[pair[0]]), "a place is not where it was asked", **info)
                ctx.expect(positions[0].surface is here, "a place of another surface", **info)
            else:
                a, b = positions
                got = (a.distance_to(b), here.distance(a, b)) if kind == "distance" else (a.time_to(b), a.time_to(b, now=3.5), here.time(a, b))
                want = real(case["metrics"][s], places[pair[0]], places[pair[1]])
                ctx.expect(all(near(x, want) for x in got), f"a {kind} is not that of the metric", got=got, want=want, **info)
            ctx.step()
        for s in (0, 1):
            got = {tuple(map(float, p.coordinates)) for p in surfaces[s].positions}
            ctx.expect(got == known[s] and len(surfaces[s].positions) == len(known[s]), "the places of a surface are not those created in it",
                       got=sorted(got), want=sorted(known[s]), history=history)
        ctx.state(case["dimensions"], case["metrics"], history)
        ctx.trace("history", *case["metrics"])
        if len(set(h[0] for h in history)) > 1:
            ctx.outcomes["separate"] += 1
    ctx.sample(dict(history=history, metrics=case["metrics"]))


def run_axioms(case, ctx):
    values = (-2.5, 0, 1, 3) if case["dimensions"] < 3 else (-2.5, 0, 3)
    if not case["wide"] and case["dimensions"] == 3:
        values = (-2.5, 0)
    places = list(itertools.product(values, repeat=case["dimensions"]))
    here = surface(case["metric"])
    positions = [here.get_or_create_position(p) for p in places]
    table = {}
    for (n, a), (m, b) in itertools.product(enumerate(positions), repeat=2):
        table[n, m] = a.distance_to(b)
        ctx.step()
        ctx.expect(near(table[n, m], real(case["metric"], places[n], places[m])), "a distance is not that of the metric", a=places[n], b=places[m], got=table[n, m])
        ctx.expect((table[n, m] == 0) == (n == m), "two places at no distance", a=places[n], b=places[m])
        ctx.state(case["metric"], places[n], places[m])
    for (n, m) in table:
        ctx.expect(near(table[n, m], table[m, n]), "a distance is not the same backwards", a=places[n], b=places[m])
    for n, m, k in itertools.product(range(len(places)), repeat=3):
        ctx.expect(table[n, k] <= table[n, m] + table[m, k] + 1e-9, "going through another place is shorter", a=places[n], b=places[m], c=places[k])
        ctx.transitions += 1
    ctx.trace("axioms")


def run_places(case, ctx):
    import copy

    for metric in NAMES:
        here = surface(metric)
        for a, b in itertools.product(itertools.product((0, 1, 1.0, -1), repeat=2), repeat=2):
            given = list(a)
            p, q = here.get_or_create_position(given), here.get_or_create_position(list(b))
            given[0] = 99
            same = tuple(a) == tuple(b)
            ctx.expect(tuple(p.coordinates) == tuple(a), "a place moves with the list it was made of", a=a, got=p.coordinates)
            ctx.expect((p == q) == same and (p != q) == (not same), "places are not compared by their coordinates", a=a, b=b)
            ctx.expect(not same or hash(p) == hash(q), "equal places hash differently", a=a, b=b)
            ctx.expect((p in {q}) == same, "places cannot be told apart in a set", a=a, b=b)
            twin = copy.deepcopy(p)
            ctx.expect(twin == p and near(twin.distance_to(q), p.distance_to(q)), "the copy of a place is elsewhere", a=a, b=b)
            ctx.expect([p[0], p[1]] == list(a), "the coordinates of a place cannot be read", a=a)
            ctx.state(metric, a, b)
            ctx.step()
            ctx.trace("places", "copied")
        # what the rest of the library takes from them
        for geo in fam.GEO:
            built = Built(fam.build([fam.shape(geo)], "one", metric))
            want = real(metric, *fam.GEO[geo])
            ctx.expect(near(built.trips[0].distance, want), "the distance of a trip is not that of the metric", geo=geo, got=built.trips[0].distance, want=want)
            ctx.trace("trip")
