"""C34: stops that perform several visits, the first and the last one of the route included, are stops like any other."""
import copy
import itertools

from .. import families as fam
from .. import ref, roads, solve
from ..env import jit
from ..inst import Built, GivenAlgorithm, append, instance, merges, num, plans, trip
from ..observe import answers, differences, rows_of, structure

REQUIRED = ("first stop", "last stop", "both ends", "shared stop", "feasible", "infeasible", "held", "together", "one by one", "clone", "deepcopy", "partial clone", "removed",
            "all removed", "inserted", "improved", "kept", "moved", "asked", "silent", "written")
BOUNDS = {
    "quick": "every plan of half of the pairs out of 11 trips on 2 vehicles x 5 fleets x every way in which the ends perform visits and stops several of them x put together or one by one x held or not: every copy, removal, insertion; 1 in 4 of them improved in 8 ways",
    "thorough": "2 trips out of 11 and 3 out of 5, all of them improved, 3 objectives",
}
ASSUMPTIONS = ["the first stop only picks up and the last one only delivers; no stop performs both visits of a request"]
CHUNK = 2
TOL = 0.002
HOME = (0, 0)


def requests(metric, fleet, bonus):
    """Requests that start where the vehicle does, that end where it ends, both, or none."""
    end = (2, 2) if fleet in ("away", "ends") else HOME
    far = roads.time(metric, HOME, (2, 0))
    back = roads.time(metric, (1, 1), end)
    return [
        trip(HOME, (2, 0), bonus=bonus),
        trip(HOME, (2, 0), oe=1.5, timeout=far, bonus=bonus),
        trip(HOME, (1, 1), od=0.75, ol=2.0, cap=2, bonus=bonus),
        trip(HOME, (1, 1), ol=0.5, dl=3.0, dd=0.5, bonus=bonus),
        trip((1, 1), end, bonus=bonus),
        trip((1, 1), end, de=6.0, dd=1.0, timeout=back + 2.0, bonus=bonus),
        trip((2, 0), end, dl=7.0, cap=2, bonus=bonus),
        trip((2, 0), end, oe=2.5, dd=0.5, bonus=bonus),
        trip(HOME, end, dl=9.0, timeout=8.0, bonus=bonus),
        trip(HOME, end, oe=1.0, od=0.5, dd=0.25, bonus=bonus),
        trip((1, 1), (2, 0), oe=2.0, bonus=bonus),
    ]


IMPROVE = [
    dict(algorithm="search", search="reallocation"),
    dict(algorithm="search", search="one_shift"),
    dict(algorithm="search", search="two_opt"),
    solve.ins(),
    solve.ins(iterator="best", strategy="sampling", criterion="shortest"),
    solve.ins(strategy="tail"),
    solve.ins(iterator="stateless"),
    dict(algorithm="sequential", search="two_opt"),
]


def cases(tier):
    n = 0
    for fleet in ("two", "away", "later", "hours", "ends"):
        for pair in fam.pick(2, range(11)):
            n += 1
            if tier == "quick" and (n + len(fleet)) % 2:
                continue
            objectives = ("dar", "taxi", "hashcode")
            for objective in objectives[n % 3:n % 3 + 1] if tier == "quick" else objectives:
                yield dict(trips=list(pair) + [(10, 0, 4)[n % 3]], fleet=fleet, metric=("euclidean", "manhattan")[n % 2], objective=objective,
                           improve=4 if tier == "quick" else 1)
    if tier != "quick":
        for fleet in ("two", "ends"):
            for triple in fam.pick(3, (1, 2, 5, 8, 10)):
                n += 1
                yield dict(trips=list(triple) + [10], fleet=fleet, metric=("euclidean", "manhattan")[n % 2], objective=("dar", "taxi", "hashcode")[n % 3], improve=5)


def instance_of(case):
    pool = requests(case["metric"], case["fleet"], 2.0 if case["objective"] == "hashcode" else 0.0)
    return instance([pool[i] for i in case["trips"]], fam.FLEETS[case["fleet"]], case["metric"], case["objective"])


def forms(inst, k, visits):
    """Every way in which the ends of the route perform visits, or stops more than one: the visits of each stop, the ends included."""
    first, last = (tuple(x) for x in ref.ends(inst["vehicles"][k]))
    heads = 0
    while heads < len(visits) and visits[heads][0] == "P" and tuple(inst["trips"][visits[heads][1]]["o"]) == first:
        heads += 1
    tails = 0
    while tails < len(visits) and visits[-1 - tails][0] == "D" and tuple(inst["trips"][visits[-1 - tails][1]]["d"]) == last:
        tails += 1
    for a in range(heads + 1):
        for b in range(tails + 1):
            for inner in merges(inst, visits[a:len(visits) - b]):
                if a or b or any(len(s) > 1 for s in inner):
                    yield [list(visits[:a])] + inner + [list(visits[len(visits) - b:])]


def schedule(inst, k, stops, starts):
    """(arrival, start, departure) of every stop, the ends included among ``stops``."""
    v = inst["vehicles"][k]
    first, last = ref.ends(v)
    rows = []
    now, here = ref.shift(v)[0], first
    for n, visits in enumerate(stops):
        place = first if n == 0 else last if n == len(stops) - 1 else ref.spot(inst, k, visits[0])
        arrival = now + ref.time(inst, here, place, now)
        start, load = arrival, 0.0
        for kind, i in visits:
            t, w = inst["trips"][i], ref.windows(inst, i)
            start = max(start, w[0][0] if kind == "P" else w[1][0])
            load = max(load, t["od"] if kind == "P" else t["dd"])
        if starts and starts[n] is not None:
            start = max(start, starts[n])
        now, here = start + load, place
        rows.append((arrival, start, now))
    return rows


def excess(inst, k, stops, rows):
    v = inst["vehicles"][k]
    earliest, latest = ref.shift(v)
    worst = max(earliest - rows[0][0], rows[-1][2] - latest, rows[-1][2] - rows[0][2] - num(v["timeout"]))
    load, at = 0, {}
    for n, visits in enumerate(stops):
        for kind, i in visits:
            t = inst["trips"][i]
            load += t["cap"] * (1 if kind == "P" else -1)
            if kind == "P":
                at[i] = n
                worst = max(worst, t["oe"] - rows[n][1], rows[n][1] - num(t["ol"]))
            else:
                worst = max(worst, t["de"] - rows[n][1], rows[n][1] - num(t["dl"]), rows[n][1] - rows[at[i]][2] - num(t["timeout"]))
        worst = max(worst, load - num(v["cap"]))
    return worst


def value(inst, k, stops, rows):
    served = {i: n for n, s in enumerate(stops) for kind, i in s if kind == "P"}
    drop = {i: n for n, s in enumerate(stops) for kind, i in s if kind == "D"}
    if inst["objective"] == "dar":
        return len(served), -ref.distance(inst, k, [x for s in stops for x in s])
    total = 0.0
    for i, n in served.items():
        t = inst["trips"][i]
        if inst["objective"] == "taxi":
            total += rows[drop[i]][1] - rows[n][2]
        else:
            total += ref.dist(inst, t["o"], t["d"])
            if abs(ref.windows(inst, i)[0][0] - rows[n][2]) <= 1e-9:
                total += t["bonus"]
    return (total,)


def put_together(built, k, stops, starts=None):
    """The route at once, as the clones of the library are made."""
    vehicle = built.vehicles[k]
    nodes, planned = [], {}
    for n, visits in enumerate(stops):
        place = vehicle.origin_position if n == 0 else vehicle.destination_position if n == len(stops) - 1 else None
        if place is None:
            kind, i = visits[0]
            place = built.trips[i].origin_position if kind == "P" else built.trips[i].destination_position
        nodes.append(jit.Stop(vehicle, place, nodes[-1] if nodes else None, starting_time=starts[n] if starts else None))
        perform(built, vehicle, nodes[-1], visits, planned)
    return jit.Route(vehicle, nodes)


def one_by_one(built, k, stops, starts=None):
    """The route, stop by stop, on an empty one."""
    vehicle = built.vehicles[k]
    route, planned = jit.Route(vehicle), {}
    perform(built, vehicle, route.stops[0], stops[0], planned)
    for visits in stops[1:-1]:
        kind, i = visits[0]
        stop = jit.Stop(vehicle, built.trips[i].origin_position if kind == "P" else built.trips[i].destination_position, route.stops[-2])
        perform(built, vehicle, stop, visits, planned)
        route.insert_stop(stop)
    perform(built, vehicle, route.stops[-1], stops[-1], planned)
    for stop, start in zip(route.stops, starts or ()):
        if start is not None:
            stop.starting_time = start
    route.flush()
    return route


def perform(built, vehicle, stop, visits, planned):
    for kind, i in visits:
        if kind == "P":
            planned[i] = jit.PlannedTrip(vehicle, built.trips[i], pickup=stop)
        else:
            planned[i].delivery = stop
            stop.append_delivery(planned[i])


def stops_of(built, route):
    return [[("P", built.trip_index(pt.trip)) for pt in s.pickup_planned_trips] + [("D", built.trip_index(pt.trip)) for pt in s.delivery_planned_trips]
            for s in route.stops]


def broken(built, route):
    return [x for x in structure(built, route) if "an end of the route serves" not in x]


def wrong(inst, built, k, route, stops, starts=None):
    """What is not as the reference says."""
    out = broken(built, route)
    got = [sorted(s) for s in stops_of(built, route)]
    if got != [sorted(s) for s in stops]:
        return out + [f"stops {got} instead of {stops}"]
    rows = schedule(inst, k, stops, starts)
    if not all(ref.close_all(a, b) for a, b in zip(rows, rows_of(route))):
        out.append(f"times {rows_of(route)} instead of {rows}")
    over = excess(inst, k, stops, rows)
    derived = max((rows[n][1] - ref.windows(inst, i)[kind == "D"][1] for n, s in enumerate(stops) for kind, i in s), default=0.0)
    settled = not 0.0005 < over < 0.004 and (over > 0.0005 or derived <= 0.0005)
    if settled and bool(route.feasible) != (over <= 0.0005):
        out.append(f"feasible: {route.feasible}, exceeded by {over}")
    if not ref.close_all(value(inst, k, stops, rows), built.job.objective.optimization_function(route)):
        out.append(f"value {built.job.objective.optimization_function(route)} instead of {value(inst, k, stops, rows)}")
    where = {x: n for n, s in enumerate(stops) for x in s}
    for pt in route.planned_trips:
        i = built.trip_index(pt.trip)
        p, d = where["P", i], where["D", i]
        if not ref.close(pt.duration, rows[d][1] - rows[p][2]):
            out.append(f"ride of {pt.duration} for trip {i}")
        if not ref.close(pt.waiting_time, sum(rows[n][1] - rows[n][0] for n in range(p + 1, d + 1))):
            out.append(f"waiting of {pt.waiting_time} for trip {i}")
    if not ref.close(route.duration, rows[-1][2] - rows[0][2]):
        out.append(f"duration {route.duration}")
    if not ref.close(route.waiting_time, sum(r[1] - r[0] for r in rows)):
        out.append(f"waiting {route.waiting_time}")
    return out


def without(stops, starts, gone):
    """The stops and starting times that remain when the trips are removed: the ends always do."""
    left, times = [], []
    for n, visits in enumerate(stops):
        rest = [x for x in visits if x[1] not in gone]
        if rest or n in (0, len(stops) - 1):
            left.append(rest)
            times.append(starts[n] if starts else None)
    return left, times


def run(case, ctx):
    inst = instance_of(case)
    size = len(inst["trips"]) - 1
    n = 0
    for plan in plans(size, 2):
        if not plan[0]:
            continue
        for stops in forms(inst, 0, tuple(plan[0])):
            n += 1
            ctx.outcomes["shared stop"] += any(len(s) > 1 for s in stops[1:-1])
            ctx.outcomes["between" if not stops[0] and not stops[-1] else "both ends" if stops[0] and stops[-1] else "first stop" if stops[0] else "last stop"] += 1
            rows = schedule(inst, 0, stops, None)
            held = [rows[0][1] + 0.25] + [None] * (len(stops) - 3) + [rows[-2][1] + 0.75, None] if len(stops) > 2 else [rows[0][1] + 0.25, None]
            for starts, make in itertools.product((None, held), (put_together, one_by_one)):
                edited(ctx, inst, stops, starts, make, n)
            if n % case["improve"] == 0:
                for starts in (None, held):
                    improved(ctx, inst, stops, starts, tuple(plan[1]), put_together if n % 2 else one_by_one)
    ctx.sample(dict(trips=case["trips"], routes=n))


def edited(ctx, inst, stops, starts, make, n):
    new = len(inst["trips"]) - 1
    asked = bool(n % 2)
    info = dict(stops=str(stops), starts=starts, make=make.__name__, asked=asked, trips=inst["trips"])

    def fresh():
        built = Built(inst)
        route = make(built, 0, stops, starts)
        if asked:
            answers(built, route)
        return built, route

    def judge(what, built, route, stops=stops, starts=starts, **more):
        found = wrong(inst, built, 0, route, stops, starts)
        ctx.step()
        ctx.expect(not found, what, wrong=found[:4], **more, **info)

    built, route = fresh()
    judge("a route whose ends perform visits is not what it is", built, route)
    ctx.trace("together" if make is put_together else "one by one", "held" if starts else "asked" if asked else "silent")
    ctx.outcomes["feasible" if route.feasible else "infeasible"] += 1
    ctx.state(inst["objective"], str(stops), str(starts), make.__name__)
    said = answers(built, route)
    # copies
    for idx in range(len(stops)):
        other = route.clone(idx)
        judge("a clone is another route", built, other, idx=idx)
        ctx.outcomes["partial clone" if idx else "clone"] += 1
        ctx.expect(not differences(said, answers(built, other)), "a clone answers in another way", idx=idx, wrong=differences(said, answers(built, other))[:4], **info)
    other = copy.deepcopy(route)
    ctx.outcomes["deepcopy"] += 1
    judge("a deep copy is another route", built, other)
    ctx.expect(not differences(said, answers(built, other)), "a deep copy answers in another way", **info)
    judge("copying changes the route", built, route)
    # removals, of one of the sides
    served = sorted({i for s in stops for _, i in s})
    for size in range(1, len(served) + 1):
        for gone in itertools.permutations(served, size):
            for side in ("itself", "clone", "deepcopy"):
                built, route = fresh()
                target = route if side == "itself" else route.clone() if side == "clone" else copy.deepcopy(route)
                left, times = list(map(list, stops)), list(starts) if starts else [None] * len(stops)
                for i in gone:
                    target.remove_trip(built.trips[i])
                    left, times = without(left, times, {i})
                    judge("a route is not what is left of it", built, target, left, times, gone=gone, side=side)
                ctx.outcomes["all removed" if size == len(served) else "removed"] += 1
                if target is not route:
                    judge("removing from a copy changes the route", built, route, gone=gone, side=side)
    # one more trip, everywhere
    for p, q in itertools.combinations(range(len(stops)), 2):
        built, route = fresh()
        target = route.clone() if (p + q) % 2 else route
        append(target, built.trips[new], p, q)
        more, times = list(stops), list(starts) if starts else [None] * len(stops)
        more[p + 1:p + 1], times[p + 1:p + 1] = [[("P", new)]], [None]
        more[q + 1:q + 1], times[q + 1:q + 1] = [[("D", new)]], [None]
        judge("a route with one more trip is not what it is", built, target, more, times, at=(p, q))
        ctx.outcomes["inserted"] += 1


def improved(ctx, inst, stops, starts, others, make):
    """What the improvements of the library make of it."""
    rows = schedule(inst, 0, stops, starts)
    if excess(inst, 0, stops, rows) > 0:
        return
    probe = Built(inst)
    if not make(probe, 0, stops, starts).feasible:
        return  # a time that is only derived is exceeded
    second = [[]] + [[x] for x in others] + [[]]
    if excess(inst, 1, second, schedule(inst, 1, second, None)) > 0:
        return
    for cfg in IMPROVE:
        built = Built(inst)
        routes = {make(built, 0, stops, starts), put_together(built, 1, second)}
        initial = jit.Result(GivenAlgorithm(jit.Planning(routes), fleet=built.fleet, job=built.job), jit.Planning(routes), 0.0)
        given = sorted((built.vehicle_index(r.vehicle), str(stops_of(built, r)), rows_of(r)) for r in routes)
        served = {i for r in routes for s in stops_of(built, r) for _, i in s}
        before = initial.optimization_value
        result = solve.algorithm(built, cfg, initial).optimize()
        info = dict(stops=str(stops), starts=starts, second=str(second), cfg=solve.label(cfg), trips=inst["trips"])
        ctx.step()
        ctx.expect(bool(result.feasible), "a route that can be driven is turned into one that cannot", **info)
        seen = []
        for route in result.routes:
            k = built.vehicle_index(route.vehicle)
            found = broken(built, route)
            after = stops_of(built, route)
            if not found:
                found = wrong(inst, built, k, route, after, [s.starting_time for s in route.stops])
            ctx.expect(not found, "what is answered is not a route", wrong=found[:4], **info)
            seen += [i for s in after for kind, i in s if kind == "P"]
        ctx.expect(len(set(seen)) == len(seen) and served <= set(seen), "a request is lost or served twice", served=sorted(served), seen=sorted(seen), **info)
        moves = cfg["algorithm"] == "search" or inst["objective"] == "dar"  # serving more may be worth less for the others
        ctx.expect(not moves or tuple(result.optimization_value) >= tuple(x - 1e-6 for x in before), "a worse plan is answered", before=before,
                   after=result.optimization_value, **info)
        ctx.expect(given == sorted((built.vehicle_index(r.vehicle), str(stops_of(built, r)), rows_of(r)) for r in routes), "the plan that is given changes", **info)
        answer = sorted((built.vehicle_index(r.vehicle), str(stops_of(built, r)), rows_of(r)) for r in result.routes)
        ctx.outcomes["moved" if answer != given else "kept"] += 1
        ctx.outcomes["improved"] += 1
        text = jit.HashCodeStorerFormatter(result=result).format()
        listed = sorted(x for line in text.split("\n") for x in line.split()[1:])
        ctx.expect(listed == sorted(map(str, seen)), "the text lists other requests", text=text, **info)
        text = jit.ColumnarStorerFormatter(result=result).format()
        ctx.expect(all(f'"{i}"' in text or f"{i}" in text for i in seen), "the text leaves requests out", **info)
        ctx.outcomes["written"] += 1
