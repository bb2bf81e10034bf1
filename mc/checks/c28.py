"""C28: the objects of the model compare by what they are, and describe themselves as they are, without changing."""
import itertools
from collections import Counter

from .. import families as fam
from ..env import INF, jit
from ..inst import Built, merges, plans, result_from, route_of_stops
from ..observe import answers, differences
from .c10 import SHAPES, instance_of

REQUIRED = ("equal", "different", "same hash, different", "other kind", "route", "stop", "planned trip", "planning", "result", "shared stop",
            "no routes", "repeated", "trip", "vehicle")
BOUNDS = {
    "quick": "every pair of 4x4x3x3 services and of 49 places, against values of other kinds; every plan of 2 trips out of 14 shapes, with shared stops",
    "thorough": "5x6x4x4 services; every plan of 3 trips out of 7 as well",
}
CHUNK = 4
PLACES = ((0, 0), (-1, 0), (-2, 0), (-1.0, 0.0), (0, -1))
EARLIEST = (0.0, -1.0, -2.0, 2.0, 314159.0, 0)
LATEST = (INF, 314159.0, -1.0, -2.0)
DURATION = (0.0, 1.0, -1.0, -2.0)


def cases(tier):
    wide = tier != "quick"
    for n in range(5 if wide else 4):
        yield dict(mode="services", place=n, sizes=(5, 6, 4, 4) if wide else (4, 4, 3, 3))
    yield dict(mode="places")
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for fleet in ("two", "mixed", "away", "later") if wide else (("two", "mixed", "away", "later")[n % 4],):
            yield dict(mode="plans", trips=pair, fleet=fleet, metric=("euclidean", "manhattan")[n % 2], objective=("dar", "taxi", "hashcode")[n % 3])
    for n, triple in enumerate(fam.pick(3, SHAPES[:7] if wide else SHAPES[:3])):
        yield dict(mode="plans", trips=triple, fleet=("two", "away")[n % 2], metric="euclidean", objective=("taxi", "dar")[n % 2])


def run(case, ctx):
    {"services": run_services, "places": run_places, "plans": run_plans}[case["mode"]](case, ctx)


def compare(ctx, a, b, same, **info):
    got = (a == b, b == a, not a != b, not b != a)
    ctx.expect(all(bool(x) == same for x in got), "objects are not equal exactly when what they hold is", same=same, got=got, **info)
    found = (a in [b], a in {b}, {a: 1}.get(b) == 1, len({a, b}) == 1)
    ctx.expect(all(x == same for x in found), "a collection mistakes objects for one another", same=same, got=found, **info)
    if same:
        ctx.expect(hash(a) == hash(b), "equal objects with different hashes", **info)
    elif hash(a) == hash(b):
        ctx.outcomes["same hash, different"] += 1
    ctx.trace("equal" if same else "different")
    ctx.step()


def strangers(ctx, a, **info):
    for other in (None, 0, "x", (), object(), ("position",)):
        for x, y in ((a, other), (other, a)):
            try:
                got = (x == y, not x != y)
            except Exception as exc:
                ctx.violate("an object cannot be compared with one of another kind", other=repr(other)[:30], raised=repr(exc)[:200], **info)
                return
            ctx.expect(got == (False, False), "an object is equal to one of another kind", other=repr(other)[:30], **info)
    ctx.outcomes["other kind"] += 1


def run_services(case, ctx):
    surface = jit.GeometricSurface(jit.DistanceMetric.EUCLIDEAN)
    a, b, c, d = case["sizes"]
    everything = list(itertools.product(PLACES[:a], EARLIEST[:b], LATEST[:c], DURATION[:d]))

    def make(x):
        return jit.Service(surface.get_or_create_position(list(x[0])), x[1], x[2], x[3])

    theirs = [(x, make(x)) for x in everything]
    for x in everything:
        if x[0] != PLACES[case["place"]]:
            continue
        mine = make(x)
        strangers(ctx, mine, service=x)
        ctx.expect(dict(mine) == {"position": mine.position, "earliest": x[1], "latest": x[2], "duration": x[3]}, "a service is described as another one",
                   service=x, got=repr(mine))
        ctx.state("service", x)
        for y, other in theirs:
            compare(ctx, mine, other, x == y, first=x, second=y)


def run_places(case, ctx):
    surface, elsewhere = (jit.GeometricSurface(jit.DistanceMetric.EUCLIDEAN) for _ in range(2))
    values = (-2, -1, -1.0, 0, 0.0, 1, 314159)
    for x in itertools.product(values, repeat=2):
        p = surface.get_or_create_position(list(x))
        strangers(ctx, p, place=x)
        ctx.expect(dict(p) == {"coordinates": x} and "".join(repr(p).split()) == f"GeometricPosition(coordinates={x})".replace(" ", ""),
                   "a place is described as another one", place=x, got=repr(p))
        for y in itertools.product(values, repeat=2):
            compare(ctx, p, surface.get_or_create_position(list(y)), x == y, first=x, second=y)
        ctx.state("place", x)


def service(x):
    return (("position", x.position), ("earliest", x.earliest), ("latest", x.latest), ("duration", x.duration))


def names(stop):
    return Counter([f"P{x.trip.identifier}" for x in stop.pickup_planned_trips] + [f"D{x.trip.identifier}" for x in stop.delivery_planned_trips])


def described(text, stop):
    """Whether that is how a stop is identified (the order within a stop is that of a set)."""
    return text[0] == "[" and text[-1] == "]" and Counter(filter(None, text[1:-1].split("|"))) == names(stop)


def told(obj):
    """The description of an object, asked for in each way there is."""
    ways = [dict(obj), {k: v for k, v in obj}, dict(tuple(obj))]
    texts = {repr(obj), str(obj), f"{obj}"} if not isinstance(obj, jit.GeometricPosition) else {repr(obj)}
    return ways[0], all(w == ways[0] for w in ways) and len(texts) == 1, texts.pop()


def check(ctx, obj, kind, want, **info):
    got, alike, text = told(obj)
    ctx.expect(alike, f"a {kind} is described in two ways", got=str(got)[:300], **info)
    start = f"{type(obj).__name__}("
    ctx.expect(text.startswith(start) and text.endswith(")"), f"a {kind} is printed as something else", got=text[:200], **info)
    wrong = []
    for key, value in want.items():
        if key not in got or (not value(got[key]) if callable(value) else got[key] != value):
            wrong.append(key)
        elif not callable(value) and f"{key}={value}" not in text:
            wrong.append(f"{key} in print")
    ctx.expect(not wrong and set(got) == set(want), f"a {kind} is described as another one", wrong=wrong, got=str(got)[:300], **info)
    ctx.trace(kind)


def describe(ctx, built, result, **info):
    for t in built.trips:
        check(ctx, t, "trip", dict(identifier=t.identifier, origin=service(t.origin), destination=service(t.destination),
                                   on_time_bonus=t.on_time_bonus, capacity=t.capacity, timeout=t.timeout), **info)
    for v in built.vehicles:
        check(ctx, v, "vehicle", dict(identifier=v.identifier, origin=service(v.origin), destination=service(v.destination),
                                      capacity=v.capacity, timeout=v.timeout), **info)
    for route in result.routes:
        stops = route.stops
        for stop in stops:
            check(ctx, stop, "stop", dict(position=lambda x: x is stop.position, identifier=lambda x: described(x, stop)), **info)
            for pt in stop.planned_trips:
                check(ctx, pt, "planned trip", dict(trip_identifier=pt.trip.identifier, pickup=lambda x: x is pt.pickup, delivery=lambda x: x is pt.delivery,
                                                    feasible=pt.feasible), **info)

        def listed(x):
            return len(x) == len(stops) and all(map(described, x, stops))

        check(ctx, route, "route", dict(vehicle_identifier=route.vehicle.identifier, stops_identifiers=listed), **info)
    vehicles = Counter(v.identifier for v in built.vehicles)
    trips = Counter(t.identifier for t in built.trips)
    planning = result.planning
    ids = Counter(r.identifier for r in result.routes)
    check(ctx, built.fleet, "fleet", dict(vehicle_identifiers=lambda x: Counter(x) == vehicles), **info)
    check(ctx, built.job, "job", dict(trip_identifiers=lambda x: Counter(x) == trips, objective=lambda x: x is built.job.objective), **info)
    check(ctx, planning, "planning", dict(uuid=planning.uuid, route_identifiers=lambda x: Counter(x) == ids), **info)
    check(ctx, result, "result", dict(fleet_uuid=lambda x: Counter(dict(x)["vehicle_identifiers"]) == vehicles,
                                      job=lambda x: Counter(dict(x)["trip_identifiers"]) == trips,
                                      algorithm_name=type(result.algorithm).__name__, planning_uuid=planning.uuid), **info)
    places = {tuple(p.coordinates) for p in built.surface.positions}
    check(ctx, built.surface, "surface", dict(position_coordinates=lambda x: len(x) == len(places) and set(x) == places), **info)


def run_plans(case, ctx):
    inst = instance_of(case)
    size = min(2, len(inst["vehicles"]))
    for n, plan in enumerate(plans(len(inst["trips"]), size)):
        for shared in (False, True):
            ways = [list(merges(inst, visits)) for visits in plan] if shared else None
            if shared and all(len(w) == 1 for w in ways):
                continue
            asked, silent = [], []
            for seen, ask in ((asked, True), (silent, False)):
                built = Built(inst)
                if shared:
                    routes = {route_of_stops(built, k, w[-1]) for k, w in enumerate(ways)}
                    result = result_from(built, [None] * size)
                    result.planning.routes = routes
                else:
                    result = result_from(built, [None if (n % 2 or not any(plan)) and not v else v for v in plan])
                if ask:
                    # before anything else is asked, and again afterwards
                    describe(ctx, built, result, plan=str(plan), shared=shared)
                for route in sorted(result.routes, key=lambda r: built.vehicle_index(r.vehicle)):
                    seen.append(answers(built, route))
                if ask:
                    describe(ctx, built, result, plan=str(plan), shared=shared)
                    ctx.outcomes["repeated"] += 1
            for a, b in zip(asked, silent):
                ctx.expect(not differences(a, b), "describing an object changes it", plan=str(plan), what=differences(a, b)[:4])
            if shared:
                ctx.outcomes["shared stop"] += 1
            if not result.routes:
                ctx.outcomes["no routes"] += 1
            ctx.state("plan", plan, shared, str(case["trips"]))
    ctx.sample(dict(plan=str(plan), text=[repr(r) for r in result.routes]))
