"""The planted bugs: see tools/plant.py."""

PRELUDE = '''
import signal
import sys

signal.alarm(120)
import jinete as jit
from jinete import *

surface = jit.GeometricSurface(jit.DistanceMetric.EUCLIDEAN)


def at(x, y=0.0):
    return surface.get_or_create_position([x, y])


def trip(name, o, d, cap=1, timeout=float("inf"), bonus=0.0, oe=0.0, ol=float("inf"), de=0.0, dl=float("inf"), od=0.0, dd=0.0):
    return jit.Trip(name, jit.Service(at(*o), oe, ol, od), jit.Service(at(*d), de, dl, dd), cap, bonus, timeout)


def van(name="v", cap=2, e=0.0, l=float("inf"), timeout=float("inf"), o=(0, 0)):
    return jit.Vehicle(name, jit.Service(at(*o), e, l), capacity=cap, timeout=timeout)


def route(vehicle, *visits):
    r = jit.Route(vehicle)
    planned = {}
    for t in visits:
        if t in planned:
            stop = jit.Stop(vehicle, t.destination_position, r.current_stop)
            planned[t].delivery = stop
            stop.append_delivery(planned[t])
        else:
            stop = jit.Stop(vehicle, t.origin_position, r.current_stop)
            planned[t] = jit.PlannedTrip(vehicle, t, pickup=stop)
        r.insert_stop(stop)
    r.flush()
    return r


def result(vehicles, trips, routes, objective=jit.DialARideObjective):
    planning = jit.Planning(set(routes))

    class Given(jit.Algorithm):
        def _optimize(self):
            return planning

    return Given(fleet=jit.Fleet(set(vehicles)), job=jit.Job(set(trips), objective)).optimize()


def check(condition, message):
    if not condition:
        print(message)
        sys.exit(1)


'''
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    edits = [("jinete/" + f, o, n) for f, o, n in edits]
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=PRELUDE + demo.lstrip("\n")))


INS = "algorithms/heuristics/insertion/"
LS = "algorithms/heuristics/local_search/strategies/"

bug("clone-forgets-departure", "C09",
    [("models/routes.py", "                starting_time=stop._starting_time,",
      "                starting_time=stop._starting_time if len(cloned_stops) else None,")],
    "a route whose departure from the depot was delayed, copied wholly",
    "the copy leaves the depot earlier than its original: other times, duration and verdict",
    '''
v = van()
t = trip("t", (3, 0), (5, 0), oe=10.0)
r = route(v, t, t)
r.stops[0].starting_time = 6.0
r.flush()
c = r.clone()
check([s.departure_time for s in c.stops] == [s.departure_time for s in r.stops], "other times")
check(c.duration == r.duration, "another duration")
''')

bug("intensive-prunes-full", "C08",
    [(INS + "strategies/intensive.py", "        for i, j in it.combinations(range(len(route.stops)), 2):\n",
      "        for i, j in it.combinations(range(len(route.stops)), 2):\n"
      "            if i + 2 < len(route.stops) and route.stops[i + 1].capacity >= route.vehicle.capacity:\n"
      "                continue\n")],
    "a pickup and a delivery that both fit just before the pickup that fills the vehicle",
    "the complete strategy does not propose a feasible way of adding a trip",
    '''
v = van(cap=1)
a, b = trip("a", (3, 0), (5, 0)), trip("b", (1, 0), (2, 0))
r = route(v, a, a)
ways = {tuple(s.identifier for s in n.stops) for n in jit.IntensiveInsertionStrategy().compute(r, b)}
check(("[]", "[Pb]", "[Db]", "[Pa]", "[Da]", "[]") in ways, f"before the other trip is missing: {ways}")
''')

bug("iterative-keeps-last", "C06",
    [("algorithms/metaheuristics/iterative.py", "            best = self._objective.best(best, current)\n",
      "            best = self._objective.best(best, current) if self.restart_mode else current\n")],
    "episodes that start from the best one, one of which is worse than an earlier one",
    "the iterated algorithm answers a plan that is worse than one it had",
    '''
v = van()
a, b = trip("a", (1, 0), (3, 0)), trip("b", (3, 0), (1, 0))
plans = [route(v, a, a, b, b), route(v, b, b, a, a), route(v, b, b, a, a)]
served = [jit.Planning({plans[0]}), jit.Planning({jit.Route(v)}), jit.Planning({plans[2]})]
served = [served[0], served[1], served[1]]
calls = []


class Scripted(jit.Algorithm):
    def _optimize(self):
        calls.append(1)
        return served[len(calls) - 1]


r = jit.IterativeAlgorithm(fleet=jit.Fleet({v}), job=jit.Job({a, b}, jit.DialARideObjective), algorithm_cls=Scripted, episodes=3,
                           restart_mode=False).optimize()
check(len(r.completed_trips) == 2, "the best episode is lost")
''')

bug("truncated-ranking", "C12",
    [(INS + "iterators/ranking.py", "        self._criterion.sorted(raw_sub_ranking, inplace=True)\n\n        return raw_sub_ranking",
      "        self._criterion.sorted(raw_sub_ranking, inplace=True)\n\n        return raw_sub_ranking[: 2 * self.neighborhood_max_size]")],
    "the best candidates of a route all carry the same trip, which is then served by another route",
    "later steps do not see the best candidates left (or end before their time)",
    '''
import itertools
import random

# whatever the instance, every step of the greedy insertion takes a best candidate
rng = random.Random(4)
for _ in range(60):
    vs = [van("0", 3), van("1", 3)]
    ts = [trip(str(i), (rng.randint(0, 5), rng.randint(0, 5)), (rng.randint(0, 5), rng.randint(0, 5))) for i in range(4)]
    job, fleet = jit.Job(set(ts), jit.DialARideObjective), jit.Fleet(set(vs))
    it = jit.RankingInsertionIterator(fleet=fleet, job=job, strategy_cls=jit.IntensiveInsertionStrategy,
                                      criterion_cls=jit.ShortestTimeRouteCriterion)
    for new in it:
        options = []
        for r in it._attractive_routes:
            options += jit.IntensiveInsertionStrategy().compute(r, set(it.pending_trips))
        best = min(o.duration for o in options)
        check(abs(new.duration - best) < 1e-9, f"{new.duration} is not the best candidate {best}")
        it._set_route(new)
    check(not it.pending_trips, "trips are left out")
''')

bug("bonus-of-service", "C10",
    [("models/objectives.py", "        if trip.origin_earliest == planned_trip.pickup_time:", "        if trip.origin.earliest == planned_trip.pickup_time:")],
    "a trip whose pickup can only start later than its window opens, as its delivery opens late and its ride is limited",
    "the bonus for picking up at the earliest moment is lost",
    '''
t = trip("t", (2, 0), (4, 0), oe=1.0, de=20.0, timeout=5.0, bonus=7.0)
r = route(van(), t, t)
check(r.feasible and jit.HashCodeObjective().optimization_function(r) == (9.0,), "no bonus")
''')

bug("duration-from-shift", "C11",
    [("models/criterions.py", "            direction=OptimizationDirection.MINIMIZATION, name=\"Shortest-Time\", *args, **kwargs,\n        )\n\n    def scoring(self, route: Route) -> float:\n        if not route.feasible:\n            return MAX_FLOAT\n\n        return route.duration",
      "            direction=OptimizationDirection.MINIMIZATION, name=\"Shortest-Time\", *args, **kwargs,\n        )\n\n    def scoring(self, route: Route) -> float:\n        if not route.feasible:\n            return MAX_FLOAT\n\n        return route.last_departure_time - route.vehicle.origin_earliest")],
    "a route that leaves the depot later than the shift starts",
    "the shortest-time criterion counts the time before leaving",
    '''
v = van()
late, far = route(v, *[trip("t", (1, 0), (2, 0), oe=30.0)] * 2), route(v, *[trip("u", (5, 0), (6, 0))] * 2)
late.stops[0].starting_time = 29.0
late.flush()
c = jit.ShortestTimeRouteCriterion()
check(c.scoring(late) == late.duration == 4.0, f"scored {c.scoring(late)}")
check(c.best(late, far) is late, "the longest is the best")
''')

bug("skip-empty-trips", "C01",
    [("models/routes.py", "        return reduce(and_, (planned_trip.feasible for planned_trip in self.planned_trips), True)",
      "        return reduce(and_, (planned_trip.feasible for planned_trip in self.loaded_planned_trips), True)")],
    "a trip that occupies no place, with windows or a ride limit",
    "a plan is reported as feasible although it serves that trip out of its windows",
    '''
t = trip("t", (5, 0), (8, 0), cap=0, ol=2.0)
v = van()
r = jit.InsertionAlgorithm(fleet=jit.Fleet({v}), job=jit.Job({t}, jit.DialARideObjective)).optimize()
for planned in r.planning.planned_trips:
    check(planned.pickup.starting_time <= t.origin_latest + 0.001, "picked up too late, in a feasible plan")
''')

bug("deliveries-first-window", "C02",
    [("models/stops.py", "                (pt.trip.origin_latest for pt in self.pickup_planned_trips),\n                (pt.trip.destination_latest for pt in self.delivery_planned_trips),",
      "                (pt.trip.destination_latest for pt in self.delivery_planned_trips),\n                (pt.trip.origin_latest for pt in self.pickup_planned_trips if not self.delivery_planned_trips),")],
    "a stop at which one trip is delivered and another one is picked up",
    "the deadline of the pickup is ignored at such a stop",
    '''
v = van()
a, b = trip("a", (1, 0), (5, 0)), trip("b", (5, 0), (6, 0), ol=2.0)
r = jit.Route(v)
s = jit.Stop(v, a.origin_position, r.stops[0])
pa = jit.PlannedTrip(v, a, pickup=s)
r.insert_stop(s)
shared = jit.Stop(v, a.destination_position, r.stops[1])
pa.delivery = shared
shared.append_delivery(pa)
pb = jit.PlannedTrip(v, b, pickup=shared)
r.insert_stop(shared)
last = jit.Stop(v, b.destination_position, r.stops[2])
pb.delivery = last
last.append_delivery(pb)
r.insert_stop(last)
r.flush()
check(not r.feasible and r.stops[2].latest == 2.0, "feasible though b is picked up at 5 and not by 2")
''')

bug("shared-sampler", "C19",
    [(INS + "strategies/sampling.py", "    def __init__(self, seed: int = 56, *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        self.random = Random(seed)",
      "    def __init__(self, seed: int = 56, random: Random = Random(56), *args, **kwargs):\n        super().__init__(*args, **kwargs)\n        self.random = random if seed == 56 else Random(seed)")],
    "a second run in the same process, on routes long enough to be sampled",
    "the same run gives another plan the second time",
    '''
def run():
    vs = [van("0", 9)]
    ts = [trip(str(i), (i * 7 % 11, i * 5 % 7), (i * 3 % 13, i * 4 % 9)) for i in range(14)]
    base = [route(vs[0], *[t for t in ts for _ in range(2)])]
    s = jit.SamplingInsertionStrategy()
    extra = trip("x", (4, 4), (5, 5))
    return [tuple(p.identifier for p in r.stops) for r in s.compute(base[0], extra, count=6)]


check(run() == run(), "two equal runs differ")
''')

bug("rejection-without-order", "C21",
    [("utils/random.py", "            sampled_i = generator(0, n - 2)\n            sampled_j = generator(sampled_i + 1, n - 1)\n            pair = (sampled_i, sampled_j)",
      "            sampled_i = generator(0, n - 2)\n            sampled_j = generator(sampled_i + 1, max(sampled_i + 1, n - 2))\n            pair = (sampled_i, sampled_j)")],
    "an exact number of draws that reach the last position before it",
    "pairs with the last position are hardly ever sampled",
    '''
import random

seen = set()
for seed in range(400):
    seen |= set(jit.utils.sample_index_pairs(6, 5, random.Random(seed))) if hasattr(jit, "utils") else set()
if not seen:
    from jinete.utils import sample_index_pairs
    for seed in range(400):
        seen |= set(sample_index_pairs(6, 5, random.Random(seed)))
check(len(seen) == 15, f"never sampled: {15 - len(seen)} pairs")
''')

bug("copy-keeps-planning", "C25",
    [("models/plannings.py", "        planning.routes = deepcopy(self.routes, memo)\n", "        planning.routes = set(deepcopy(route, memo) if route.loaded else route for route in self.routes)\n")],
    "a plan with an idle vehicle, whose copy is then extended",
    "the copy and the original share the routes of the idle vehicles",
    '''
from copy import deepcopy

v, w = van("0"), van("1")
t, u = trip("t", (1, 0), (2, 0)), trip("u", (2, 0), (3, 0))
res = result([v, w], [t, u], [route(v, t, t), jit.Route(w)])
other = deepcopy(res)
idle = next(r for r in other.routes if not r.loaded)
stop = jit.Stop(w, u.origin_position, idle.stops[0])
idle.append_planned_trip(jit.PlannedTrip(w, u, stop, jit.Stop(w, u.destination_position, stop)))
check(len(res.completed_trips) == 1, "the original serves the trip added to its copy")
''')

bug("rides-by-identifier", "C15",
    [("storers/formatters/hashcode.py", "        trips_str = \" \".join(trip.identifier for trip in route.loaded_trips)",
      "        trips_str = \" \".join(sorted(trip.identifier for trip in route.loaded_trips))")],
    "a vehicle that serves the requests in another order than that of their identifiers",
    "the rides are written in an order in which they are not driven",
    '''
v = van()
a, b = trip("0", (1, 0), (2, 0)), trip("1", (3, 0), (4, 0))
res = result([v], [a, b], [route(v, b, b, a, a)])
text = jit.HashCodeStorerFormatter(result=res).format()
check(text == "2 1 0", text)
''')

bug("solver-options-once", "C16",
    [("solvers.py", "        class _TunedStorer(base):\n            def __init__(self, *args, **kwargs):\n                super().__init__(\n                    *args, **kwargs, **tuned_kwargs,\n                )",
      "        class _TunedStorer(base):\n            def __init__(self, *args, **kwargs):\n                kwargs.update((key, tuned_kwargs.pop(key)) for key in tuple(tuned_kwargs))\n                super().__init__(*args, **kwargs)")],
    "the same solver is used a second time",
    "the second run does not pass the storer the options it was given",
    '''
from pathlib import Path
import os
import tempfile

with tempfile.TemporaryDirectory() as folder:
    source, out = Path(folder) / "in.txt", Path(folder) / "out.txt"
    source.write_text("3 4 2 1 2 10\\n0 0 1 3 2 9\\n")
    solver = jit.Solver(loader_kwargs=dict(file_path=source, formatter_cls=jit.HashCodeLoaderFormatter),
                        storer=jit.FileStorer, storer_kwargs=dict(file_path=out, formatter_cls=jit.HashCodeStorerFormatter))
    for _ in range(2):
        if out.exists():
            os.remove(out)
        try:
            solver.solve()
        except TypeError as exc:
            check(False, str(exc))
        check(out.exists(), "nothing is written the second time")
''')

bug("milp-pickup-load", "C17",
    [("algorithms/exacts/models/three_index.py", "                cons = self._vehicles[k].capacity + min(0.0, capacity_i)\n",
      "                cons = self._vehicles[k].capacity - max(0.0, capacity_i)\n")],
    "requests of different loads, of which a plan carries several at once",
    "the linear model excludes plans that can be driven (or admits others)",
    '''
import itertools

for caps in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 2)):
    v = van("0", 3, timeout=100.0, l=100.0)
    ts = [trip(str(i), (2 + i, 0), (4 - 3 * i, 1), cap=c, ol=50.0, dl=50.0, timeout=60.0) for i, c in enumerate(caps)]
    job, fleet = jit.Job(set(ts), jit.DialARideObjective), jit.Fleet({v})
    a, b = ts
    best = None
    for order in set(itertools.permutations([a, a, b, b])):
        r = route(v, *order)
        if r.feasible and max(s.capacity for s in r.stops) <= v.capacity:
            best = r.distance if best is None else min(best, r.distance)
    try:
        value = -jit.MilpAlgorithm(fleet=fleet, job=job).optimize().optimization_value[-1]
    except jit.JineteException:
        value = None
    check((value is None) == (best is None) and (value is None or abs(value - best) < 1e-6), f"{caps}: {value} instead of {best}")
''')

bug("milp-exact-ones", "C18",
    [("algorithms/exacts/models/three_index.py", "                    assert min(abs(self._x[k][i][j].varValue), abs(self._x[k][i][j].varValue - 1)) <= 0.05",
      "                    assert min(abs(self._x[k][i][j].varValue), abs(self._x[k][i][j].varValue - 1)) <= 1e-8")],
    "a solver that answers binary variables within its tolerance of 1e-6, not exactly",
    "reading the answer fails",
    '''
import pulp

v = van("0", 3, timeout=100.0, l=100.0)
t = trip("t", (1, 0), (2, 0), ol=50.0, dl=50.0, timeout=60.0)


class Noisy(pulp.LpSolver):
    def actualSolve(self, problem, **kwargs):
        status = pulp.PULP_CBC_CMD(msg=False).solve(problem) if hasattr(pulp.PULP_CBC_CMD, "solve") else problem.solve()
        for variable in problem.variables():
            if variable.name.startswith("x_"):
                variable.varValue += 1e-6 if variable.varValue < 0.5 else -1e-6
        return status


try:
    r = jit.MilpAlgorithm(fleet=jit.Fleet({v}), job=jit.Job({t}, jit.DialARideObjective), solver=Noisy()).optimize()
except AssertionError:
    check(False, "the noise of the solver is not tolerated")
check(len(r.completed_trips) == 1, "not served")
''')

bug("warm-start-keeps-feasible", "C05",
    [(INS + "iterators/abc.py", "            routes = deepcopy(routes)\n", "            routes = set(route for route in deepcopy(routes) if route.duration < route.vehicle.timeout)\n")],
    "a starting route that lasts exactly as long as its vehicle may be out",
    "the requests of that route are put back among the pending ones, and may be lost",
    '''
v = van("0", 1, timeout=10.0)
t, u = trip("t", (1, 0), (5, 0)), trip("u", (0, 1), (0, 1.5))
start = result([v], [t, u], [route(v, t, t)])
check(start.feasible, "the start")
r = jit.InsertionAlgorithm(fleet=start.fleet, job=start.job, initial=start, criterion_cls=jit.ShortestTimeRouteCriterion).optimize()
check(t in r.completed_trips, "the served request is lost")
''')

bug("stale-transit", "C23",
    [("models/stops.py", "    @property\n    def distance(self) -> float:", "    @cached_property\n    def distance(self) -> float:")],
    "the distance of a route is asked, a stop is removed or inserted, and it is asked again",
    "the distance of a route keeps what it was before the edit",
    '''
v = van()
t, u = trip("t", (1, 0), (2, 0)), trip("u", (5, 5), (6, 6))
r = route(v, t, u, t, u)
r.distance
r.remove_trip(u)
check(r.distance == route(v, t, t).distance, r.distance)
''')

bug("pending-by-load", "C03",
    [(INS + "iterators/abc.py", "                pending_trips -= set(route.trips)\n", "                pending_trips -= set(route.loaded_trips)\n")],
    "a starting plan that serves a trip which takes no room",
    "the trip is served again, by the same or by another vehicle",
    '''
v, w = van("0", 1), van("1", 1)
t, u = trip("t", (1, 0), (2, 0), cap=0), trip("u", (1, 0), (2, 0))
start = result([v, w], [t, u], [route(v, t, t)])
r = jit.InsertionAlgorithm(fleet=start.fleet, job=start.job, initial=start).optimize()
served = sorted(x.identifier for x in r.planning.trips)
check(served == ["t", "u"], f"served: {served}")
''')

bug("two-opt-spares-last", "C20",
    [(LS + "routes/two_opt.py", "combinations(range(1, len(route.stops) - 1), 2)", "combinations(range(1, max(len(route.stops) - 2, 3)), 2)")],
    "a route whose last delivery should be made earlier, and nothing else",
    "the search stops although reversing the last stops is better",
    '''
import itertools

for xs in itertools.permutations(((9, 0), (0, 9), (1, 1), (-9, 0))):
    v = van("0", 4)
    a, b = trip("a", xs[0], xs[1]), trip("b", xs[2], xs[3])
    start = result([v], [a, b], [route(v, a, b, a, b)])
    r = jit.LocalSearchAlgorithm(fleet=start.fleet, job=start.job, initial=start, strategy_cls=jit.TwoOPTLocalSearchStrategy).optimize()
    best = max(-route(v, *x).distance for x in ((a, b, a, b), (a, b, b, a)))
    check(r.optimization_value[-1] >= best - 1e-9, f"{xs}: {r.optimization_value[-1]} instead of {best}")
''')

bug("manhattan-of-the-plane", "C22",
    [("models/constants.py", "        return sum(abs(a_i - b_i) for a_i, b_i in zip(a, b))", "        return abs(a[0] - b[0]) + abs(a[-1] - b[-1])")],
    "places with one coordinate or with more than two",
    "distances that are not those of the metric",
    '''
s = jit.GeometricSurface(jit.DistanceMetric.MANHATTAN)
a, b = s.get_or_create_position([1, 2, 3]), s.get_or_create_position([4, 6, 8])
check(a.distance_to(b) == 12, a.distance_to(b))
a, b = s.get_or_create_position([1]), s.get_or_create_position([4])
check(a.distance_to(b) == 3, a.distance_to(b))
''')

bug("no-ride-limit", "C14",
    [("loaders/formatters/cordeau_laporte.py", "        timeout = self.data[0][4]\n", "        timeout = self.data[0][4] or float(\"inf\")\n")],
    "a file whose limit on the rides is zero",
    "the limit of the file is not that of the trips",
    '''
f = jit.CordeauLaporteLoaderFormatter([[1, 2, 480, 3, 0], [0, 0, 0, 0, 0, 0, 1440], [1, 1, 1, 1, 1, 0, 1440], [2, 1, 1, 1, -1, 0, 1440]])
s = f.surface()
check([t.timeout for t in f.job(s).trips] == [0], "the rides are not limited")
''')

bug("recursive-waiting", "C26",
    [("models/planned_trips.py", "        result = 0\n        current = self.delivery\n        while current != self.pickup:\n            result += current.waiting_time\n            current = current.previous\n        return result",
      "        def since(stop):\n            return 0 if stop == self.pickup else stop.waiting_time + since(stop.previous)\n\n        return since(self.delivery)")],
    "a ride that crosses about a thousand stops",
    "asking how long it waits (or storing the solution as columns) fails with a RecursionError",
    '''
v = van(cap=1300)
ts = [trip(str(i), (i % 7, 1), (i % 5, 2)) for i in range(1200)]
r = route(v, *ts, *ts)
check(all(p.waiting_time == 0 for p in r.planned_trips), "it waits")
''')

bug("storers-of-one-name", "C24",
    [("storers/sets.py", "        for storer_cls in self.storer_cls_set:\n", "        for storer_cls in {getattr(c, \"__name__\", None): c for c in self.storer_cls_set}.values():\n")],
    "two destinations of the same name or without a name, as partial applications are",
    "only the last one of them receives the solution",
    '''
from functools import partial
from pathlib import Path
import tempfile

with tempfile.TemporaryDirectory() as folder:
    paths = [Path(folder) / "a.txt", Path(folder) / "b.txt"]
    t, v = trip("t", (1, 0), (2, 0)), van()
    res = result([v], [t], [route(v, t, t)])
    jit.StorerSet([partial(jit.FileStorer, file_path=p) for p in paths], result=res).store()
    check(all(p.exists() and p.read_text() for p in paths), "a file was not written")
''')

bug("idle-vehicles-do-not-move", "C10",
    [("models/objectives.py", "            (self._route_optimization_function(route) for route in planning.routes),", "            (self._route_optimization_function(route) for route in planning.loaded_routes),")],
    "a vehicle that serves nobody and must end somewhere else",
    "the distance of that vehicle is not part of the value of the planning",
    '''
v = jit.Vehicle("0", jit.Service(at(0, 0)), jit.Service(at(3, 4)))
value = jit.DialARideObjective().optimization_function(jit.Planning({jit.Route(v)}))
check(tuple(value) == (0, -5.0), value)
''')

bug("worst-of-two-criteria", "C11",
    [("models/criterions.py", "        scoring = 0.0\n        for trip in route.trips:\n            scoring += trip.distance\n", "        scoring = 0.0\n        for trip in route.loaded_trips:\n            scoring += trip.distance\n")],
    "a route with a trip that takes no room",
    "the useful distance of that trip does not count",
    '''
v = van()
t = trip("t", (1, 0), (3, 0), cap=0)
score = jit.LongestUtilTimeRouteCriterion().scoring(route(v, t, t))
check(score == 2.0, score)
''')

bug("warm-start-empties-job", "C07",
    [(INS + "iterators/abc.py", "        pending_trips = set(job.trips)\n", "        pending_trips = set(job.trips) if routes is None else job.trips\n")],
    "an insertion that starts from a plan, and whose job is used afterwards",
    "the job loses the requests that are served",
    '''
v, w = van("0", 1), van("1", 1)
t, u = trip("t", (1, 0), (2, 0)), trip("u", (1, 0), (2, 0))
start = result([v, w], [t, u], [route(v, t, t)])
job = start.job
jit.InsertionAlgorithm(fleet=start.fleet, job=job, initial=start).optimize()
check(set(job.trips) == {t, u}, "the job changed")
''')

bug("delivery-opens-by-unloading", "C13",
    [("models/trips.py", "            self.origin.earliest + self.origin.duration + self.origin.time_to(self.destination),\n",
      "            self.origin.earliest + self.destination.duration + self.origin.time_to(self.destination),\n")],
    "a trip whose pickup and delivery do not take equally long, and whose delivery window opens early",
    "the earliest delivery is one at which nobody can be there",
    '''
t = trip("t", (1, 0), (3, 0), oe=4.0, dl=20.0, od=2.0)
check(t.destination_earliest == 8.0, t.destination_earliest)
t = trip("t", (1, 0), (3, 0), oe=4.0, dl=20.0, dd=2.0)
check(t.destination_earliest == 6.0, t.destination_earliest)
''')

bug("late-trips-only", "C04",
    [(INS + "iterators/ranking.py", "        pending_trips = it.islice(self.pending_trips, self.neighborhood_max_size)\n",
      "        earliest = route.stops[-2].departure_time\n"
      "        candidates = (trip for trip in self.pending_trips if trip.destination_latest >= earliest)\n"
      "        pending_trips = it.islice(candidates, self.neighborhood_max_size)\n")],
    "a trip that has to be delivered before those which the vehicle already has, and fits before them",
    "the trip is left out, although it fits before the others",
    '''
v = van(cap=1)
a, b = trip("a", (1, 0), (2, 0), dl=30.0), trip("b", (3, 0), (4, 0), oe=40.0)
start = result([v], [a, b], [route(v, b, b)])
r = jit.InsertionAlgorithm(fleet=start.fleet, job=start.job, initial=start, strategy_cls=jit.IntensiveInsertionStrategy).optimize()
check(len(r.completed_trips) == 2, "a trip that fits is left out")
''')

bug("moves-worth-a-half", "C27",
    [(LS + "routes/one_shift.py", "                if not route.feasible or cost == self._objective.best(cost, route):\n",
      "                if not route.feasible or not self._objective.optimization_function(route)[-1] > cost[-1] + 0.5:\n")],
    "a shift that saves less than half a unit, in an instance measured in large units",
    "the same problem in other units gets another plan",
    '''
def served(unit):
    a = trip("a", (1 * unit, 0), (5 * unit, 0))
    b = trip("b", (0.9 * unit, 0), (6 * unit, 0))
    v = van("0")
    start = result([v], [a, b], [route(v, a, b, a, b)])
    found = jit.LocalSearchAlgorithm(start, fleet=start.fleet, job=start.job, strategy_cls=jit.OneShiftLocalSearchStrategy).optimize()
    return sorted(tuple(",".join(sorted(t.identifier for t in s.trips)) for s in r.stops) for r in found.routes)

small, large = served(1.0), served(64.0)
check(small == large, f"{small} {large}")
''')

bug("places-by-hash", "C28",
    [("models/positions.py", "        return self.coordinates == other.coordinates\n", "        return hash(self) == hash(other)\n")],
    "places whose coordinates have the same hash, as -1 and -2",
    "different places are the same one, at no distance from each other",
    '''
a, b = at(-1, 0), at(-2, 0)
check(a != b and len({a, b}) == 2, "different places are equal")
''')

bug("value-of-nothing", "C29",
    [("models/objectives.py", "            (self._route_optimization_function(route) for route in planning.routes),\n            tuple(0 for _ in range(self.dimension_count)),\n",
      "            (self._route_optimization_function(route) for route in planning.routes),\n")],
    "a plan without routes (no vehicles, or none used)",
    "it has no value and no algorithm answers it",
    '''
r = result([], [trip("t", (1, 0), (2, 0))], [])
found = jit.InsertionAlgorithm(fleet=r.fleet, job=r.job).optimize()
check(tuple(found.optimization_value) == (0, 0), found.optimization_value)
''')

bug("rush-forgotten", "C30",
    [("models/stops.py", "self.previous_position.time_to(self.position, self.previous_departure_time)", "self.previous_position.time_to(self.position)")],
    "a surface whose travel times depend on the departure",
    "routes are timed as if they left at the best moment",
    '''
class Rush(jit.GeometricSurface):
    def time(self, a, b, now=None, **kwargs):
        return self.distance(a, b) * (2 if now is not None and now >= 4 else 1)

surface = Rush(jit.DistanceMetric.EUCLIDEAN)
v = van()
t = trip("t", (3, 0), (5, 0), oe=6.0)
r = route(v, t, t)
check(r.stops[2].arrival_time == 10.0, r.stops[2].arrival_time)
''')

bug("long-as-far", "C30",
    [("models/trips.py", "self.origin.earliest + self.origin.duration + self.origin.time_to(self.destination),",
      "self.origin.earliest + self.origin.duration + self.distance,")],
    "a surface on which a unit takes less than a unit",
    "a delivery waits for as long as the way is far, though it is reached sooner",
    '''
class Fast(jit.GeometricSurface):
    def time(self, a, b, **kwargs):
        return self.distance(a, b) / 2

surface = Fast(jit.DistanceMetric.EUCLIDEAN)
v = van()
t = trip("t", (1, 0), (5, 0))
r = route(v, t, t)
check(r.stops[2].arrival_time == r.stops[2].starting_time == 2.5, (r.stops[2].arrival_time, r.stops[2].starting_time))
''')

bug("milp-far-as-long", "C30",
    [("algorithms/exacts/models/three_index.py", "                    cost = origin.distance_to(destination)\n", "                    cost = origin.time_to(destination)\n")],
    "a surface on which the shortest way is not the fastest one, solved exactly",
    "the exact algorithm minimizes times instead of distances",
    '''
class Detours(jit.GeometricSurface):
    """Going from the first place to the second takes very long."""

    def time(self, a, b, **kwargs):
        return self.distance(a, b) + (50 if tuple(a.coordinates) == (0, 0) and tuple(b.coordinates) == (1, 0) else 0)

surface = Detours(jit.DistanceMetric.MANHATTAN)
v = van()
a, b = trip("a", (1, 0), (2, 0)), trip("b", (3, 0), (4, 0))
r = result([v], [a, b], [])
found = jit.MilpAlgorithm(fleet=r.fleet, job=r.job).optimize()
check(abs(found.optimization_value[1] + 8) < 1e-3, found.optimization_value)
''')

bug("repeat-for-the-largest", "C31",
    [("algorithms/metaheuristics/iterative.py", "            best = self._objective.best(best, current)\n",
      "            best = max((r for r in (best, current) if r is not None), key=lambda r: r.optimization_value)\n")],
    "an objective to be minimized, and episodes that end differently",
    "the worst episode is kept",
    '''
class Soon(jit.Objective):
    def __init__(self, weight=1.0):
        super().__init__(name="Soon", dimension_count=1)
        self.direction = jit.OptimizationDirection.MINIMIZATION
        self.weight = weight

    def _route_optimization_function(self, route):
        return (self.weight * route.last_departure_time,)


a, b = trip("a", (1, 0), (3, 0)), trip("b", (4, 0), (5, 0))
v = van()
r = result([v], [a, b], [])
ends = [route(v, b, b, a, a), route(v, a, b, a, b), route(v, a, a, b, b)]

class Given(jit.Algorithm):
    def __init__(self, *args, seed=None, **kwargs):
        super().__init__(*args, **kwargs)

    def _optimize(self):
        given.append(1)
        return jit.Planning({ends[len(given) - 1]})

for order in (0, 1):
    given = []
    found = jit.IterativeAlgorithm(episodes=3, algorithm_cls=Given, fleet=r.fleet, job=jit.Job(r.job.trips, Soon)).optimize()
    best = min(x.last_departure_time for x in ends)
    check(found.optimization_value == (best,), (found.optimization_value, best))
    ends.reverse()
''')

bug("shift-for-the-largest", "C31",
    [(LS + "routes/one_shift.py", "                if not route.feasible or cost == self._objective.best(cost, route):\n",
      "                if not (route.feasible and self._objective.optimization_function(route) > cost):\n")],
    "an objective to be minimized, and a route with a better order of its stops",
    "no shift is ever made, or only to worse orders that are then left out",
    '''
class Soon(jit.Objective):
    def __init__(self, weight=1.0):
        super().__init__(name="Soon", dimension_count=1)
        self.direction = jit.OptimizationDirection.MINIMIZATION
        self.weight = weight

    def _route_optimization_function(self, route):
        return (self.weight * route.last_departure_time,)


a, b = trip("a", (1, 0), (5, 0)), trip("b", (0.5, 0), (6, 0))
v = van()
start = result([v], [a, b], [route(v, a, b, a, b)], Soon)
found = jit.LocalSearchAlgorithm(start, fleet=start.fleet, job=start.job, strategy_cls=jit.OneShiftLocalSearchStrategy).optimize()
check(abs(found.optimization_value[0] - 12) < 1e-6, found.optimization_value)
''')

bug("weights-forgotten", "C31",
    [("models/jobs.py", "            self._objective = self.objective_cls(*self.args, **self.kwargs)\n", "            self._objective = self.objective_cls()\n")],
    "an objective that takes arguments, with other values than those by default",
    "values are those of another objective",
    '''
class Soon(jit.Objective):
    def __init__(self, weight=1.0):
        super().__init__(name="Soon", dimension_count=1)
        self.direction = jit.OptimizationDirection.MINIMIZATION
        self.weight = weight

    def _route_optimization_function(self, route):
        return (self.weight * route.last_departure_time,)


job = jit.Job(set(), Soon, weight=0.25)
check(job.objective.weight == 0.25, job.objective.weight)
check(jit.Job(set(), Soon, 3.0).objective.weight == 3.0, "the arguments are left out")
''')

bug("moves-forget-the-rest", "C05",
    [(LS + "plannings/reallocation.py", "                if not new_origin.feasible:\n", "                if not new_origin.feasible_stops:\n")],
    "a request that holds its vehicle back, without which another one waits on board for longer than it may",
    "a plan that can be driven is turned into one that cannot",
    '''
a, b, c = trip("a", (1, 0), (1, 6), oe=10.0), trip("b", (2, 0), (5, 0), timeout=4.0), trip("c", (3, 0), (5, 0), oe=12.0)
v, w = van("v", cap=3), jit.Vehicle("w", jit.Service(at(1, 0)), jit.Service(at(1, 6)), capacity=3)
start = result([v, w], [a, b, c], [route(v, a, b, c, b, c, a), route(w)])
check(start.feasible, "the start")
found = jit.LocalSearchAlgorithm(start, fleet=start.fleet, job=start.job, strategy_cls=jit.ReallocationLocalSearchStrategy).optimize()
check(found.feasible, found.optimization_value)
check(len(found.completed_trips) == 3, found.completed_trips)
''')

bug("done-by-assertion", "C33",
    [("algorithms/heuristics/insertion/iterators/abc.py", "        self.pending_trips.remove(trip)\n", "        assert self.pending_trips.remove(trip) is None\n")],
    "an interpreter that runs without assertions (python -O)",
    "requests already served are inserted again",
    '''
if __debug__:
    import os

    os.execv(sys.executable, [sys.executable, "-O", __file__])


def result(fleet, trips):
    job = jit.Job(set(trips), jit.DialARideObjective)
    return jit.InsertionAlgorithm(fleet=jit.Fleet(set(fleet)), job=job, strategy_cls=jit.IntensiveInsertionStrategy).optimize()


a, b = trip("a", (1, 0), (2, 0), ol=5.0), trip("b", (3, 0), (4, 0), ol=9.0)
found = result([van("v"), van("w")], [a, b])
served = sorted(planned.trip_identifier for route in found.routes for planned in route.planned_trips)
if served != ["a", "b"]:
    sys.exit(f"served {served}")
''')

bug("one-ranking-for-all", "C32",
    [("algorithms/heuristics/insertion/iterators/ranking.py", "    ranking: Dict[Vehicle, List[Route]]\n", "    ranking: Dict[Vehicle, List[Route]] = dict()\n"),
     ("algorithms/heuristics/insertion/iterators/ranking.py", "        self.ranking = dict()\n", "        self.ranking.clear()\n")],
    "two insertions at the same time, as in two threads",
    "candidates of one run are taken by the other one",
    '''
import threading


class Patient(jit.EarliestLastDepartureTimeRouteCriterion):
    moment, count = None, 0

    def scoring(self, route):
        Patient.count += 1
        if Patient.count == Patient.moment:
            other = threading.Thread(target=lambda: answer(jit.EarliestLastDepartureTimeRouteCriterion))
            other.start()
            other.join()
        return super().scoring(route)


fleet = jit.Fleet({van("v", cap=1), van("w", cap=1)})
trips = {trip("a", (1, 0), (2, 0), ol=3), trip("b", (3, 0), (4, 0)), trip("c", (5, 0), (6, 0)), trip("d", (-1, 0), (-2, 0), ol=3)}
job = jit.Job(trips, jit.DialARideObjective)


def answer(criterion):
    result = jit.InsertionAlgorithm(fleet=fleet, job=job, criterion_cls=criterion).optimize()
    return len(result.completed_trips), bool(result.feasible)


alone = answer(Patient)
for moment in range(1, Patient.count + 1):
    Patient.moment, Patient.count = moment, 0
    together = answer(Patient)
    check(together == alone, f"{together} instead of {alone}, at {moment}")
''')

bug("nothing-at-the-depot", "C34",
    [("models/routes.py", "        return it.chain.from_iterable(stop.pickup_planned_trips for stop in self.stops)\n", "        return it.chain.from_iterable(stop.pickup_planned_trips for stop in self.stops[1:])\n")],
    "a request picked up by the first stop of the route, at the place the vehicle starts from",
    "it is not counted among those of the route",
    '''
v, a = van("v"), trip("a", (0, 0), (2, 0))
start = jit.Stop(v, v.origin_position, None)
planned = jit.PlannedTrip(v, a, pickup=start)
there = jit.Stop(v, a.destination_position, start)
planned.delivery = there
there.append_delivery(planned)
back = jit.Stop(v, v.destination_position, there)
r = jit.Route(v, [start, there, back])
check([t.identifier for t in r.trips] == ["a"], list(r.trips))
''')

bug("flips-look-at-one", "C34",
    [("algorithms/heuristics/local_search/strategies/routes/one_shift.py",
      "                if not set(first.pickup_planned_trips).isdisjoint(second.delivery_planned_trips):\n",
      "                if next(iter(second.delivery_planned_trips), None) in first.pickup_planned_trips:\n")],
    "a stop that delivers several requests, after one that picks up some of them",
    "a request is delivered before it is picked up, or the search fails",
    '''
def shared(order):
    v = van("v", cap=3)
    a, b = trip("a", (1, 0), (5, 0)), trip("b", (3, 0), (5, 0))
    first, last = jit.Stop(v, v.origin_position, None), None
    stops, planned = [first], {}
    for t in (a, b):
        stops.append(jit.Stop(v, t.origin_position, stops[-1]))
        planned[t] = jit.PlannedTrip(v, t, pickup=stops[-1])
    end = jit.Stop(v, a.destination_position, stops[-1])
    for t in order(a, b):
        planned[t].delivery = end
        end.append_delivery(planned[t])
    stops.append(end)
    stops.append(jit.Stop(v, v.destination_position, end))
    return v, a, b, jit.Route(v, stops)


class Given(jit.Algorithm):
    def __init__(self, planning, **kwargs):
        super().__init__(**kwargs)
        self.planning = planning

    def _optimize(self):
        return self.planning


for order in (lambda a, b: (a, b), lambda a, b: (b, a)):
    for _ in range(20):
        v, a, b, r = shared(order)
        fleet, job = jit.Fleet({v}), jit.Job({a, b}, jit.HashCodeObjective)
        given = Given(jit.Planning({r}), fleet=fleet, job=job).optimize()
        found = jit.LocalSearchAlgorithm(given, fleet=fleet, job=job, strategy_cls=jit.OneShiftLocalSearchStrategy).optimize()
        check(found.feasible and len(found.completed_trips) == 2, "a request is lost")
''')
