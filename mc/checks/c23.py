"""C23: what a route says depends on its stops only, not on the history of edits and questions that led to them."""
import copy as copying
import itertools

from .. import families as fam
from .. import ref
from ..env import BOUND, jit
from ..inst import Built, append, route_of_stops
from ..observe import answers, differences, rows_of, structure

REQUIRED = ("append", "remove", "hold", "clone", "deepcopy", "share", "drop", "put", "first", "feasible", "infeasible", "asked", "silent")
BOUNDS = {
    "quick": "every history of 3 edits (11 kinds of edit at every place) x asked or not after each, 3 trips, 20 instances",
    "thorough": "every history of 3 edits x asked or not, 50 instances; of 4 edits on 3 of them",
}
CHUNK = 1

INSTANCES = [
    (("out", "free", "none"), ("out", "late", "both"), ("back", "due", "none")),
    (("out", "ride", "none"), ("out", "slot", "pick"), ("same", "free", "none")),
    (("diag", "strict", "none"), ("diag", "free", "drop"), ("home", "late", "none")),
    (("same", "late", "both"), ("same", "strict", "none"), ("depot", "tight", "none")),
    (("back", "appoint", "none"), ("back", "free", "both"), ("out", "tight", "none")),
    (("depot", "free", "pick"), ("depot", "due", "none"), ("home", "slot", "both")),
    (("out", "due", "both"), ("out", "free", "none"), ("diag", "appoint", "none")),
    (("home", "ride", "none"), ("home", "free", "both"), ("back", "tight", "none")),
    (("out", "strict", "pick"), ("back", "strict", "pick"), ("same", "ride", "both")),
    (("diag", "late", "none"), ("depot", "late", "drop"), ("depot", "strict", "none")),
]
FLEETS = ("single", "hours", "later", "away", "two")


class Twin:
    """A route and what it should be: the visits of every stop and the start each stop was held to."""

    def __init__(self, inst, built=None):
        self.inst = inst
        self.built = built or Built(inst)
        self.route = jit.Route(self.built.vehicles[0])
        self.stops = []  # of sets of visits
        self.starts = [None, None]
        self.others = []  # earlier twins this one was copied from

    def where(self, visit):
        return next((n for n, s in enumerate(self.stops) if visit in s), None)

    def served(self):
        return [i for i in range(len(self.inst["trips"])) if self.where(("P", i)) is not None]

    # every enabled edit, as (name, arguments)
    def enabled(self):
        n = len(self.stops)
        served = self.served()
        pending = [i for i in range(len(self.inst["trips"])) if i not in served]
        for i in pending[:2]:
            for p in range(n + 1):
                for q in range(p + 1, n + 2):
                    yield "append", (i, p, q)
            for m, s in enumerate(self.stops):
                if self.position(m) == tuple(self.inst["trips"][i]["o"]) and all(kind == "P" for kind, _ in s):
                    yield "share", (i, m)
        for i in served:
            yield "remove", (i,)
        for m in range(0, n + 1):
            yield "hold", (m,)
        for m in range(n):
            visits = self.stops[m]
            # a stop taken out and put back where it was
            yield "drop", (m,)
        yield "first", ()
        if served:
            yield "clone", ()
            yield "deepcopy", ()

    def position(self, m):
        kind, i = next(iter(self.stops[m]))
        return tuple(self.inst["trips"][i]["o" if kind == "P" else "d"])

    def do(self, name, args):
        route = self.route
        if name == "append":
            i, p, q = args
            append(route, self.built.trips[i], p, q)
            self.stops[p:p] = [{("P", i)}]
            self.starts[p + 1 : p + 1] = [None]
            self.stops[q:q] = [{("D", i)}]
            self.starts[q + 1 : q + 1] = [None]
        elif name == "share":
            i, m = args
            t = self.built.trips[i]
            stop = route.stops[m + 1]
            planned_trip = jit.PlannedTrip(route.vehicle, t, pickup=stop)
            stop.flush()
            delivery = jit.Stop(route.vehicle, t.destination_position, stop)
            planned_trip.delivery = delivery
            delivery.append_delivery(planned_trip)
            route.insert_stop(delivery)
            route.flush()
            self.stops[m].add(("P", i))
            self.stops[m + 1 : m + 1] = [{("D", i)}]
            self.starts[m + 2 : m + 2] = [None]
        elif name == "remove":
            (i,) = args
            route.remove_trip(self.built.trips[i])
            for m in reversed(range(len(self.stops))):
                self.stops[m] -= {("P", i), ("D", i)}
                if not self.stops[m]:
                    del self.stops[m]
                    del self.starts[m + 1]
        elif name == "hold":
            (m,) = args
            start = ref.stop_schedule(self.inst, 0, self.stops, self.starts)[m][1] + 0.75
            route.stops[m].starting_time = start
            route.flush()
            self.starts[m] = start
        elif name == "drop":
            (m,) = args
            stop = route.remove_stop_at(m + 1)
            if len(self.stops) > 1 and m % 2:
                # asked in between
                route.last_departure_time
            stop.previous = route.stops[m]
            if m % 2:
                route.insert_stop(stop)
            else:
                route.insert_stop_at(m + 1, stop)
        elif name == "first":  # another stop at the depot to start from
            vehicle = route.vehicle
            route.insert_stop(jit.Stop(vehicle, vehicle.origin_position, None))
            route.flush()
            self.starts[0] = None
        elif name == "clone":
            self.others.append((route, self.snapshot()))
            self.route = route.clone()
        elif name == "deepcopy":
            self.others.append((route, self.snapshot()))
            self.route = copying.deepcopy(route)

    def snapshot(self):
        return [frozenset(s) for s in self.stops], list(self.starts)

    def ask(self):
        answers(self.built, self.route)

    def wrong(self):
        """What the route says that is not so."""
        out = self.compare(self.route, self.stops, self.starts)
        for route, (stops, starts) in self.others:
            out += [f"the route it was copied from: {x}" for x in self.compare(route, stops, starts)]
        return out

    def compare(self, route, stops, starts):
        inst = self.inst
        out = list(structure(self.built, route))
        got = [
            frozenset([("P", self.built.trip_index(pt.trip)) for pt in s.pickup_planned_trips]
                      + [("D", self.built.trip_index(pt.trip)) for pt in s.delivery_planned_trips])
            for s in route.stops[1:-1]
        ]
        if got != [frozenset(s) for s in stops]:
            return out + [f"stops {got}"]
        rows = ref.stop_schedule(inst, 0, stops, starts)
        if not all(ref.close_all(a, b) for a, b in zip(rows, rows_of(route))):
            out.append(f"times {rows_of(route)} instead of {rows}")
        load = 0
        for n, stop in enumerate(route.stops[1:-1]):
            load += sum(inst["trips"][i]["cap"] * (1 if kind == "P" else -1) for kind, i in stops[n])
            if not ref.close(stop.capacity, load):
                out.append(f"load {stop.capacity} instead of {load} after stop {n + 1}")
        for pt in route.planned_trips:
            i = self.built.trip_index(pt.trip)
            p, d = (next(n for n, s in enumerate(stops, 1) if (x, i) in s) for x in "PD")
            if not ref.close(pt.duration, rows[d][1] - rows[p][2]):
                out.append(f"ride of {pt.duration} for trip {i}")
            wait = sum(rows[n][1] - rows[n][0] for n in range(p + 1, d + 1))
            moving = sum(rows[n][0] - rows[n - 1][2] for n in range(p + 1, d + 1))
            if not ref.close(pt.waiting_time, wait):
                out.append(f"waiting of {pt.waiting_time} for trip {i} instead of {wait}")
            if not ref.close(pt.transit_time, moving):
                out.append(f"transit of {pt.transit_time} for trip {i} instead of {moving}")
        worst = ref.stop_problems(inst, 0, stops, rows)
        close = BOUND / 2 < worst < 4 * BOUND or (worst <= BOUND and ref.stop_derived(inst, stops, rows) > BOUND / 2)
        if not close and bool(route.feasible) != (worst <= BOUND):
            out.append(f"feasible={route.feasible} with an excess of {worst}")
        if sorted(map(str, (self.built.trip_index(t) for t in route.trips))) != sorted(str(i) for s in stops for kind, i in s if kind == "P"):
            out.append("trips")
        if bool(route.loaded) != bool(stops):
            out.append(f"loaded={route.loaded}")
        first, last = ref.ends(inst["vehicles"][0])
        spots = [first] + [ref.spot(inst, 0, next(iter(s))) for s in stops] + [last]
        if not ref.close(route.distance, sum(ref.dist(inst, a, b) for a, b in zip(spots, spots[1:]))):
            out.append(f"distance {route.distance}")
        if not out:
            out = [f"a fresh route: {d}" for d in differences(answers(self.built, route), answers(self.built, self.fresh(stops, starts)))]
        return out

    def fresh(self, stops, starts):
        """A route put together with those stops at once."""
        return route_of_stops(self.built, 0, stops, starts)


def cases(tier):
    for n, trips in enumerate(INSTANCES):
        for m in (0, 1) if tier == "quick" else (0, 1, 2, 3, 4):
            depth = 4 if tier != "quick" and n < 3 and m == 0 else 3
            base = dict(trips=trips, fleet=FLEETS[(n + m) % 5], metric=("euclidean", "manhattan")[(n + m) % 2], caps=[1, 1 + n % 2, 1],
                        depth=depth)
            # the first edits are spread over the cases
            inst = instance_of(base)
            for first in Twin(inst).enabled():
                second = Twin(inst)
                second.do(*first)
                for then in second.enabled():
                    yield dict(base, prefix=[first, then])


def instance_of(case):
    from .. import sweep

    return sweep.instance_of(case)


def run(case, ctx):
    inst = instance_of(case)
    prefix = [(name, tuple(args)) for name, args in case["prefix"]]

    def replay(history, asked):
        twin = Twin(inst)
        for (name, args), ask in zip(history, asked):
            twin.do(name, args)
            if ask:
                twin.ask()
        return twin

    def extend(history):
        check(history)
        if len(history) >= case["depth"]:
            return
        for edit in list(replay(history, (False,) * len(history)).enabled()):
            extend(history + [edit])

    def check(history):
        # the last edit is always asked about: what varies is which of the earlier states were
        for asked in itertools.product((False, True), repeat=len(history) - 1):
            twin = replay(history, asked + (False,))
            ctx.step(1)
            wrong = twin.wrong()
            ctx.state(tuple(map(lambda s: tuple(sorted(s)), twin.stops)), tuple(twin.starts))
            ctx.trace(history[-1][0], "feasible" if twin.route.feasible else "infeasible", "asked" if any(asked) else "silent")
            if history[-1][0] == "drop":
                ctx.outcomes["put"] += 1
            ctx.expect(not wrong, "what a route says depends on its history", history=history, asked=asked, wrong=wrong[:4],
                       trips=inst["trips"], vehicle=inst["vehicles"][0])
        ctx.sample(dict(history=history))

    if len(prefix) > 1:
        check(prefix[:1])
    extend(prefix)


def edits(inst, visits, new, limit):
    """The edits of a route with one visit per stop that only touch the stops from ``limit`` on: (name, function)."""
    out = []
    n = len(visits) + 2
    served = {i for kind, i in visits if kind == "P"}
    if new not in served:
        for p in range(max(limit - 1, 0), n - 1):
            for q in range(p + 1, n):
                out.append((f"append {p},{q}", lambda built, route, p=p, q=q: append(route, built.trips[new], p, q)))
    for i in sorted(served):
        if min(visits.index(("P", i)), visits.index(("D", i))) + 1 >= limit:
            out.append((f"remove {i}", lambda built, route, i=i: route.remove_trip(built.trips[i])))
    for m in range(limit, n - 1):
        def hold(built, route, m=m):
            route.stops[m].starting_time = route.stops[m].starting_time + 0.75
            route.flush()

        out.append((f"hold {m}", hold))
    return out
