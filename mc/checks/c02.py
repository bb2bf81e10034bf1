"""C02: the times and the verdict of a route are exact."""
import itertools

from .. import families as fam
from .. import ref
from ..env import BOUND, INF, jit
from ..inst import Built, instance, merges, route_from, route_of_stops, sequences, trip, vehicle
from ..observe import brief, plan_of, rows_of

REQUIRED = (
    "feasible", "infeasible", "by:window", "by:capacity", "by:ride", "by:shift-end", "by:duration",
    "probe:-0.01", "probe:0", "probe:0.01", "stop infeasible", "trip infeasible", "shared: picks up and delivers",
    "shared: picks up two", "shared: delivers two", "shared: refused",
    "first elsewhere", "last elsewhere",
)
BOUNDS = {
    "quick": "every order of 2 trips out of 12 shapes x 6 vehicles; every limit probed at -0.01/0/+0.01; requested starts; every way of sharing stops among 2-3 trips of 11 groups",
    "thorough": "also every order of 3 trips, pairs of probes, both metrics and 30 shapes",
}
ASSUMPTIONS = ["verdicts within (0.0005, 0.004) of a limit are not judged: jinete documents a tolerance of 0.001"]
CHUNK = 8

# geometry, load, capacity, earliest times (pickup, delivery)
SHAPES = [
    ("out", "none", 1, (0.0, 0.0)), ("out", "both", 2, (3.0, 0.0)), ("back", "pick", 1, (0.0, 9.0)),
    ("back", "drop", 1, (1.0, 0.0)), ("diag", "both", 1, (0.0, 0.0)), ("same", "both", 2, (2.5, 4.0)),
    ("home", "none", 1, (0.0, 6.0)), ("depot", "pick", 0, (0.0, 0.0)), ("diag", "none", 1, (4.0, 8.0)),
    ("same", "none", 1, (0.0, 0.0)), ("home", "drop", 2, (2.0, 0.0)), ("depot", "both", 1, (1.5, 1.5)),
]
VEHICLES = {
    "plain": vehicle(cap=4),
    "late": vehicle(cap=4, e=2.0),
    "away": vehicle(o=(1, 1), d=(3, 2), cap=4, e=0.5),
    "small": vehicle(cap=2),
    "far": vehicle(o=(-2, 0.5), cap=3.5, e=0.25),
    "alone": vehicle(cap=1),
}


def make(shape, metric, limits=None):
    geo, load, cap, (oe, de) = shape
    o, d = fam.GEO[geo]
    od, dd = {"none": (0.0, 0.0), "both": (0.5, 0.25), "pick": (1.0, 0.0), "drop": (0.0, 1.0)}[load]
    return trip(o, d, oe=oe, de=de, od=od, dd=dd, cap=cap, **(limits or {}))


# trips between a few places, so that stops can be shared
A, B, C = (1, 0), (3, 0), (1, 2)
GROUPS = [
    [(A, B), (B, A)], [(A, B), (A, B)], [(A, B), (A, C)], [(A, B), (C, B)], [(A, A), (A, B)], [(A, B), (B, C)],
    [(A, B), (B, C), (C, A)], [(A, B), (A, B), (B, A)], [(A, B), (A, C), (C, B)], [(A, A), (A, A), (A, B)], [(A, B), (B, A), (A, C)],
]


def cases(tier):
    for n, group in enumerate(GROUPS):
        for m in range(6 if tier == "quick" else 12):
            if tier == "quick" and len(group) > 2 and m % 3 != n % 3:
                continue
            yield dict(group=group, vehicle=list(VEHICLES)[(n + m) % 6], metric=("euclidean", "manhattan")[m % 2], loads=m,
                       pairs=len(group) == 2)
    metrics = ("euclidean",) if tier == "quick" else ("euclidean", "manhattan")
    for metric in metrics:
        for n, shapes in enumerate(fam.pick(2, SHAPES)):
            for m, name in enumerate(VEHICLES):
                if tier == "quick" and (n + m) % 2:
                    continue
                yield dict(shapes=shapes, vehicle=name, metric=metric, pairs=tier != "quick")
        for shape in SHAPES:
            for name in VEHICLES:
                yield dict(shapes=[shape], vehicle=name, metric=metric, pairs=True)
    triples = list(fam.pick(3, SHAPES[:6] if tier == "quick" else SHAPES))
    for n, shapes in enumerate(triples):
        yield dict(shapes=shapes, vehicle=list(VEHICLES)[n % 6], metric="euclidean", pairs=False, few=tier == "quick")


def probes(inst, visits, rows, n):
    """Every limit of the route with the value that makes it exactly tight."""
    v = inst["vehicles"][0]
    out = []
    for i in range(n):
        p = visits.index(("P", i)) + 1
        d = visits.index(("D", i)) + 1
        out.append((("trip", i, "ol"), rows[p][1]))
        out.append((("trip", i, "dl"), rows[d][1]))
        out.append((("trip", i, "timeout"), rows[d][1] - rows[p][2]))
        out.append((("trip", i, "oe"), rows[p][1]))
        out.append((("trip", i, "de"), rows[d][1]))
    out.append((("vehicle", 0, "l" if v["d"] is None else "dl"), rows[-1][2]))
    out.append((("vehicle", 0, "timeout"), rows[-1][2] - rows[0][2]))
    load = top = 0
    for kind, i in visits:
        load += inst["trips"][i]["cap"] * (1 if kind == "P" else -1)
        top = max(top, load)
    out.append((("vehicle", 0, "cap"), top))
    return out


def altered(inst, changes):
    new = dict(inst, trips=[dict(t) for t in inst["trips"]], vehicles=[dict(v) for v in inst["vehicles"]])
    for (what, i, key), value in changes:
        target = new["trips"][i] if what == "trip" else new["vehicles"][i]
        target[key] = value
    return new


def judge(ctx, inst, visits, starts=None, label=None, order=0):
    built = Built(inst)
    rows = ref.schedule(inst, 0, visits, starts)
    route = route_from(built, 0, visits, starts)
    if order == 1:
        route.feasible
    got = rows_of(route)
    why = dict(probe=label, visits=" ".join(f"{a}{b}" for a, b in visits), trips=inst["trips"], vehicle=inst["vehicles"][0])
    ctx.state(tuple(visits), label, tuple(tuple(round(x, 6) for x in row) for row in rows))
    if not all(ref.close_all(a, b) for a, b in zip(rows, got)) or len(rows) != len(got):
        ctx.violate("the times of a route are not those of driving it as soon as possible",
                    expected=rows, got=got, **why)
        return
    load = 0
    for n, stop in enumerate(route.stops):
        if 0 < n <= len(visits):
            kind, i = visits[n - 1]
            load += inst["trips"][i]["cap"] * (1 if kind == "P" else -1)
        ctx.expect(ref.close(stop.capacity, load), "wrong load after a stop", stop=n, expected=load, got=stop.capacity, **why)
        if n:
            ctx.expect(ref.close(stop.waiting_time, rows[n][1] - rows[n][0]), "wrong waiting time", stop=n, **why)
    ctx.expect(ref.close(route.duration, rows[-1][2] - rows[0][2]), "wrong duration of a route", got=route.duration, **why)
    ctx.expect(ref.close(route.distance, ref.distance(inst, 0, visits)), "wrong distance of a route", got=route.distance, **why)
    ctx.expect(ref.close(route.last_departure_time, rows[-1][2]), "wrong end of a route", got=route.last_departure_time, **why)
    for pt in route.planned_trips:
        i = built.trip_index(pt.trip)
        p = visits.index(("P", i)) + 1
        d = visits.index(("D", i)) + 1
        ctx.expect(
            ref.close(pt.pickup_time, rows[p][2]) and ref.close(pt.delivery_time, rows[d][1])
            and ref.close(pt.duration, rows[d][1] - rows[p][2]),
            "wrong times of a planned trip", trip=i, **why,
        )

    found = [p for p in ref.problems(inst, 0, visits, rows)]
    worst = max((x for _, x in found), default=0.0)
    if not BOUND / 2 < worst < BOUND * 4:
        expected = worst <= BOUND
        verdict = bool(route.feasible)
        ctx.expect(verdict == expected, "wrong verdict about a route", expected=expected, problems=found, rows=rows, **why)
        ctx.trace("feasible" if expected else "infeasible", *{f"by:{n.split('@')[0]}" for n, x in found if x > BOUND})
        bad_stops = {int(n.split("@")[1]) for n, x in found if "@" in n and n.split("@")[0] in ("window", "capacity") and x > BOUND}
        if all(not BOUND / 2 < x < BOUND * 4 for _, x in found):
            for n, stop in enumerate(route.stops):
                # a stop is judged by windows tightened by the other end of the trip: it may be refused for that
                if n in bad_stops:
                    ctx.outcomes["stop infeasible"] += 1
                    ctx.expect(not stop.feasible, "a stop out of its window or over capacity is reported as feasible", stop=n, **why)
                elif expected:
                    ctx.expect(bool(stop.feasible), "a stop of a feasible route is reported as infeasible", stop=n, **why)
            rides = {int(n.split("@")[1]) for n, x in found if n.startswith("ride") and x > BOUND}
            for pt in route.planned_trips:
                i = built.trip_index(pt.trip)
                d = visits.index(("D", i)) + 1
                if d in rides:
                    ctx.outcomes["trip infeasible"] += 1
                    ctx.expect(not pt.feasible, "a ride that is too long is reported as feasible", trip=i, **why)
                elif expected:
                    ctx.expect(bool(pt.feasible), "a trip of a feasible route is reported as infeasible", trip=i, **why)
    else:
        ctx.outcomes["too close to judge"] += 1
    ctx.sample(dict(why, rows=rows, problems=found))


def judge_ends(ctx, inst, visits):
    """Routes that do not start or end where their vehicle does."""
    v = inst["vehicles"][0]
    first, last = ref.ends(v)
    rows = ref.schedule(inst, 0, visits)
    fine = max((x for _, x in ref.problems(inst, 0, visits, rows)), default=0.0)
    places = [first, last, (7, 7)] + [t["o"] for t in inst["trips"]] + [t["d"] for t in inst["trips"]]
    for n, place in enumerate(dict.fromkeys(tuple(p) for p in places)):
        for end, want in (("first", tuple(first)), ("last", tuple(last))):
            for listed in (True, False):
                built = Built(inst)
                route = route_from(built, 0, visits)
                where = built.surface.get_or_create_position(place)
                if end == "first":
                    stop = jit.Stop(route.vehicle, where, None)
                    if listed:
                        route.stops[1].previous = stop
                        route = jit.Route(route.vehicle, [stop] + route.stops[1:])
                        route.flush()
                    else:
                        route.insert_stop(stop)
                        route.flush()
                else:
                    if not listed:
                        continue
                    route = jit.Route(route.vehicle, route.stops[:-1] + [jit.Stop(route.vehicle, where, route.stops[-2])])
                why = dict(end=end, place=place, listed=listed, visits=str(visits), trips=inst["trips"], vehicle=v)
                ctx.step()
                ctx.state("ends", tuple(visits), end, place)
                if place != want:
                    ctx.outcomes[f"{end} elsewhere"] += 1
                    ctx.expect(not route.feasible, "a route that starts or ends elsewhere is reported as feasible", **why)
                    continue
                ctx.expect(all(ref.close_all(a, b) for a, b in zip(rows, rows_of(route))), "the times of a route depend on how it was put together", **why)
                if not BOUND / 2 < fine < BOUND * 4:
                    ctx.expect(bool(route.feasible) == (fine <= BOUND), "wrong verdict about a route put together from its stops", excess=fine, **why)


LOADS = [(0.0, 0.0), (0.5, 0.25), (0.0, 1.0), (1.0, 0.0)]


def judge_shared(ctx, inst, stops, starts=None, label=None):
    built = Built(inst)
    rows = ref.stop_schedule(inst, 0, stops, starts or [None] * (len(stops) + 2))
    route = route_of_stops(built, 0, stops, starts)
    got = rows_of(route)
    why = dict(probe=label, stops=[" ".join(f"{a}{b}" for a, b in s) for s in stops], trips=inst["trips"], vehicle=inst["vehicles"][0])
    ctx.state(str(stops), str(starts), label, tuple(tuple(round(x, 6) for x in row) for row in rows))
    if len(rows) != len(got) or not all(ref.close_all(a, b) for a, b in zip(rows, got)):
        ctx.violate("the times of a route with shared stops are not those of driving it as soon as possible", expected=rows, got=got, **why)
        return
    load = 0
    for n, stop in enumerate(route.stops):
        for kind, i in stops[n - 1] if 0 < n <= len(stops) else ():
            load += inst["trips"][i]["cap"] * (1 if kind == "P" else -1)
        ctx.expect(ref.close(stop.capacity, load), "wrong load after a shared stop", stop=n, expected=load, got=stop.capacity, **why)
        if n:
            ctx.expect(ref.close(stop.waiting_time, rows[n][1] - rows[n][0]), "wrong waiting time", stop=n, **why)
    for pt in route.planned_trips:
        i = built.trip_index(pt.trip)
        p, d = (next(n for n, s in enumerate(stops, 1) if (x, i) in s) for x in "PD")
        ctx.expect(ref.close(pt.duration, rows[d][1] - rows[p][2]), "wrong duration of a ride between shared stops", trip=i, **why)
    worst = ref.stop_problems(inst, 0, stops, rows)
    if BOUND / 2 < worst < BOUND * 4 or (worst <= BOUND and ref.stop_derived(inst, stops, rows) > BOUND / 2):
        ctx.outcomes["too close to judge"] += 1
        return
    ctx.expect(bool(route.feasible) == (worst <= BOUND), "wrong verdict about a route with shared stops", excess=worst, rows=rows, **why)
    ctx.trace("feasible" if worst <= BOUND else "infeasible")
    for s in stops:
        if len(s) > 1:
            kinds = {kind for kind, _ in s}
            ctx.outcomes["shared: picks up and delivers" if len(kinds) > 1 else "shared: picks up two" if "P" in kinds else "shared: delivers two"] += 1
            ctx.outcomes["shared: refused"] += worst > BOUND


def run_shared(case, ctx):
    m = case["loads"]
    trips = []
    for i, (o, d) in enumerate(case["group"]):
        od, dd = LOADS[(m + i) % 4]
        trips.append(trip(o, d, oe=(0.0, 2.0, 0.5)[(m + i) % 3], de=(0.0, 0.0, 6.0, 3.0)[(m + 2 * i) % 4], od=od, dd=dd, cap=(1, 2, 0)[(m + i) % 3]))
    base = instance(trips, [VEHICLES[case["vehicle"]]], case["metric"])
    for visits in sequences(range(len(trips))):
        for stops in merges(base, visits):
            if all(len(s) == 1 for s in stops):
                continue
            ctx.step()
            judge_shared(ctx, base, stops)
            empty = [None] * (len(stops) + 2)
            rows = ref.stop_schedule(base, 0, stops, empty)
            for held in range(len(rows)):
                starts = list(empty)
                starts[held] = rows[held][1] + 0.75
                judge_shared(ctx, base, stops, starts, label=f"held:{held}")
            at = {visit: n for n, s in enumerate(stops, 1) for visit in s}
            points = []
            for i in range(len(trips)):
                p, d = at["P", i], at["D", i]
                points += [(("trip", i, "ol"), rows[p][1]), (("trip", i, "dl"), rows[d][1]), (("trip", i, "timeout"), rows[d][1] - rows[p][2]),
                           (("trip", i, "oe"), rows[p][1]), (("trip", i, "de"), rows[d][1])]
            v = base["vehicles"][0]
            points += [(("vehicle", 0, "l" if v["d"] is None else "dl"), rows[-1][2]), (("vehicle", 0, "timeout"), rows[-1][2] - rows[0][2])]
            load = top = 0
            for s in stops:
                load += sum(trips[i]["cap"] * (1 if kind == "P" else -1) for kind, i in s)
                top = max(top, load)
            points.append((("vehicle", 0, "cap"), top))
            for where, value in points:
                for margin in (-0.01, 0.0, 0.01):
                    margin = margin * 100 if where[2] == "cap" else margin
                    if value + margin >= 0:
                        judge_shared(ctx, altered(base, [(where, value + margin)]), stops, label=f"{where}{margin:+}")
            if case["pairs"]:
                for (a, va), (b, vb) in itertools.combinations(points, 2):
                    for ma, mb in itertools.product((-0.01, 0.01), repeat=2):
                        if va + ma >= 0 and vb + mb >= 0:
                            judge_shared(ctx, altered(base, [(a, va + ma), (b, vb + mb)]), stops, label=f"{a}{ma:+}{b}{mb:+}")


def run(case, ctx):
    if "group" in case:
        return run_shared(case, ctx)
    n = len(case["shapes"])
    base = instance([make(s, case["metric"]) for s in case["shapes"]], [VEHICLES[case["vehicle"]]], case["metric"])
    for visits in sequences(range(n)):
        visits = list(visits)
        ctx.step()
        judge(ctx, base, visits)
        judge_ends(ctx, base, visits)
        rows = ref.schedule(base, 0, visits)
        points = probes(base, visits, rows, n)
        margins = (-0.01, 0.0, 0.01)
        if not case.get("few"):
            # requested starts: each stop held back, one at a time and the depot with each of them
            for held in range(len(rows)):
                starts = [None] * len(rows)
                starts[held] = rows[held][1] + 0.75
                judge(ctx, base, visits, starts, label=f"held:{held}")
                starts[0] = rows[0][1] + 0.5
                judge(ctx, base, visits, starts, label=f"held:0,{held}", order=1)
        for where, value in points:
            for margin in margins:
                if where[2] == "cap" and margin:
                    margin = margin * 100
                if value + margin < 0:
                    continue
                ctx.step()
                ctx.outcomes[f"probe:{margin if abs(margin) < 1 else margin / 100:g}"] += 1
                judge(ctx, altered(base, [(where, value + margin)]), visits, label=f"{where}{margin:+}", order=1)
        if case["pairs"]:
            for (a, va), (b, vb) in itertools.combinations(points, 2):
                for ma, mb in itertools.product((-0.01, 0.01), repeat=2):
                    if va + ma < 0 or vb + mb < 0:
                        continue
                    ctx.step()
                    judge(ctx, altered(base, [(a, va + ma), (b, vb + mb)]), visits, label=f"{a}{ma:+}{b}{mb:+}")
