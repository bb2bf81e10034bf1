"""C26: routes of any length are judged, edited and copied as short ones are."""
import copy
import itertools
import math

from .. import families as fam
from .. import ref
from ..env import BOUND, jit
from ..inst import Built, append, result_from, route_from
from ..observe import rows_of, structure, visits_of
from .. import solve

REQUIRED = ("one by one", "all aboard", "stack", "chain", "pairs", "long", "very long", "feasible", "infeasible", "history", "searched", "inserted", "stored")
BOUNDS = {
    "quick": "5 patterns of 1-250 requests: every pair of 14 operations; of 600 (1200 stops): single ones; every algorithm that fits",
    "thorough": "up to 600 requests (1200 stops): every triple of operations up to 60 requests and every pair over",
}
CHUNK = 2
PATTERNS = ("one by one", "all aboard", "stack", "chain", "pairs")
OPERATIONS = ("ask", "flush", "hold first", "hold middle", "hold last", "append first", "append middle", "append last", "remove first",
              "remove middle", "remove last", "clone", "clone middle", "deepcopy")


def cases(tier):
    sizes = ((1, 2, 13, 60), (130, 250)) if tier == "quick" else ((1, 2, 5, 13, 34, 60, 90), (130, 180, 250, 400, 600))
    for pattern in PATTERNS:
        for n in sizes[0]:
            for first in OPERATIONS:
                yield dict(mode="history", pattern=pattern, n=n, first=first, depth=2 if n > 34 or tier == "quick" else 3)
        for n in sizes[1]:
            for first in OPERATIONS:
                yield dict(mode="history", pattern=pattern, n=n, first=first, depth=2)
        if tier == "quick":
            for first in ("ask", "hold first", "deepcopy"):
                yield dict(mode="history", pattern=pattern, n=600, first=first, depth=1)
        for n in (5, 60, 130, 600) if tier == "quick" else (5, 34, 60, 90, 130, 250, 400, 600):
            for what in ("tail", "one_shift", "objective", "store", "deep", "warm"):
                if what != "one_shift" or n <= (130 if tier == "quick" else 250):
                    yield dict(mode="run", pattern=pattern, n=n, what=what)
        for n in (4, 8) if tier == "quick" else (4, 8, 16, 24):
            for what in ("two_opt", "reallocation", "sampling", "intensive"):
                yield dict(mode="run", pattern=pattern, n=n, what=what)


def visits_for(pattern, n):
    if pattern == "one by one":
        return tuple(x for i in range(n) for x in (("P", i), ("D", i)))
    if pattern == "all aboard":
        return tuple([("P", i) for i in range(n)] + [("D", i) for i in range(n)])
    if pattern == "stack":
        return tuple([("P", i) for i in range(n)] + [("D", i) for i in reversed(range(n))])
    if pattern == "chain":
        out = [("P", 0)]
        for i in range(1, n):
            out += [("P", i), ("D", i - 1)]
        return tuple(out + [("D", n - 1)])
    out = []
    for i in range(0, n - 1, 2):
        out += [("P", i), ("P", i + 1), ("D", i), ("D", i + 1)]
    if n % 2:
        out += [("P", n - 1), ("D", n - 1)]
    return tuple(out)


def instance_of(case):
    n = case["n"]
    trips = []
    for i in range(n + 3):
        kw = {}
        if i % 7 == 3:
            kw = dict(oe=float(i), od=0.25)
        elif i % 5 == 1:
            kw = dict(dd=0.5, timeout=1e5)
        angle = 0.5 * i
        o = (round(3 * math.cos(angle), 3), round(3 * math.sin(angle), 3))
        d = (round(2 * math.cos(angle + 1), 3), round(2 * math.sin(angle + 1), 3))
        trips.append(fam.trip(o, d, cap=1, **kw))
    capacity = n + 3 if case.get("wide", True) else 1
    return fam.build(trips, [fam.vehicle(cap=capacity, l=float(30 * n + 60)), fam.vehicle(cap=2)], "euclidean", "dar")


class Twin:
    def __init__(self, inst, visits, built=None):
        self.inst = inst
        self.built = built or Built(inst)
        self.visits = list(visits)
        self.starts = [None] * (len(visits) + 2)
        self.route = route_from(self.built, 0, visits)

    def do(self, name, new):
        route, n = self.route, len(self.visits)
        if name == "ask":
            route.feasible, route.duration, route.waiting_time, route.distance
        elif name == "flush":
            route.flush()
        elif name.startswith("hold"):
            m = {"first": 0, "middle": (n + 1) // 2, "last": n}[name.split()[1]]
            start = route.stops[m].starting_time + 0.75
            route.stops[m].starting_time = start
            route.flush()
            self.starts[m] = start
        elif name.startswith("append"):
            p = {"first": 0, "middle": n // 2, "last": n}[name.split()[1]]
            q = n + 1 if name == "append first" else p + 1
            append(route, self.built.trips[new], p, q)
            self.visits[p:p] = [("P", new)]
            self.starts[p + 1:p + 1] = [None]
            self.visits[q:q] = [("D", new)]
            self.starts[q + 1:q + 1] = [None]
        elif name.startswith("remove"):
            served = [i for kind, i in self.visits if kind == "P"]
            if not served:
                return
            i = served[{"first": 0, "middle": len(served) // 2, "last": -1}[name.split()[1]]]
            route.remove_trip(self.built.trips[i])
            for visit in (("P", i), ("D", i)):
                m = self.visits.index(visit)
                del self.visits[m]
                del self.starts[m + 1]
        elif name == "clone":
            self.route = route.clone()
        elif name == "clone middle":
            self.route = route.clone(n // 2)
        elif name == "deepcopy":
            self.route = copy.deepcopy(route)

    def wrong(self, ctx):
        out = list(structure(self.built, self.route))
        visits = tuple(self.visits)
        if visits_of(self.built, self.route) != visits:
            return out + ["other visits"]
        rows = ref.schedule(self.inst, 0, visits, self.starts)
        bad = next((n for n, (a, b) in enumerate(zip(rows, rows_of(self.route))) if not ref.close_all(a, b)), None)
        if bad is not None:
            out.append(f"times of stop {bad}: {rows_of(self.route)[bad]} instead of {rows[bad]}")
        worst = ref.excess(self.inst, 0, visits, rows)
        ctx.outcomes["feasible" if worst <= 0 else "infeasible"] += 1
        if not BOUND / 2 < worst < 4 * BOUND and bool(self.route.feasible) != (worst <= BOUND):
            out.append(f"feasible={self.route.feasible} with an excess of {worst}")
        if not ref.close(self.route.distance, ref.distance(self.inst, 0, visits), 1e-5):
            out.append("distance")
        planned = list(self.route.planned_trips)
        for pt in {id(x): x for x in (planned[:1] + planned[len(planned) // 2:][:1] + planned[-1:])}.values():
            i = self.built.trip_index(pt.trip)
            p, d = visits.index(("P", i)) + 1, visits.index(("D", i)) + 1
            wait = sum(rows[n][1] - rows[n][0] for n in range(p + 1, d + 1))
            move = sum(rows[n][0] - rows[n - 1][2] for n in range(p + 1, d + 1))
            if not (ref.close(pt.waiting_time, wait, 1e-5) and ref.close(pt.transit_time, move, 1e-5) and ref.close(pt.duration, rows[d][1] - rows[p][2], 1e-5)):
                out.append(f"the times of trip {i}")
        return out


def attempt(ctx, function, **info):
    """Whatever the length, nothing may fail."""
    try:
        return function()
    except (RecursionError, AssertionError, ArithmeticError, LookupError, TypeError, ValueError, AttributeError) as exc:
        ctx.violate(f"a long route makes the library fail: {type(exc).__name__} {str(exc)[:80]}", **info)
        return None


def run(case, ctx):
    n = case["n"]
    visits = visits_for(case["pattern"], n)
    ctx.outcomes[case["pattern"]] += 1
    if n >= 100:
        ctx.outcomes["long"] += 1
    if n >= 250:
        ctx.outcomes["very long"] += 1
    if case["mode"] == "run":
        return run_algorithm(case, ctx, visits)
    for wide in (True, False) if n <= 60 else (n % 4 != 2,):
        inst = instance_of(dict(case, wide=wide))
        for rest in itertools.product(OPERATIONS, repeat=case["depth"] - 1):
            history = (case["first"],) + rest
            info = dict(pattern=case["pattern"], n=n, wide=wide, history=history)

            def once():
                twin = Twin(inst, visits)
                for m, name in enumerate(history):
                    twin.do(name, n + m)
                return twin

            twin = attempt(ctx, once, **info)
            if twin is None:
                continue
            wrong = attempt(ctx, lambda: twin.wrong(ctx), **info)
            ctx.step(len(history))
            ctx.state(case["pattern"], n, wide, history)
            ctx.trace("history")
            ctx.expect(not wrong, "a long route is not what its edits make it", wrong=(wrong or [])[:3], **info)


def run_algorithm(case, ctx, visits):
    n, what = case["n"], case["what"]
    inst = instance_of(case)
    info = dict(pattern=case["pattern"], n=n, what=what)
    built = Built(inst)
    initial = result_from(built, [visits, ()])
    before = [visits_of(built, r) for r in sorted(initial.routes, key=lambda r: built.vehicle_index(r.vehicle))]
    ctx.step()
    ctx.state(case["pattern"], n, what)

    def done(result):
        if result is None:
            return
        for route in result.routes:
            k = built.vehicle_index(route.vehicle)
            v = visits_of(built, route)
            wrong = structure(built, route)
            ctx.expect(not wrong and v is not None, "a long route is left broken", wrong=wrong[:3], **info)
            if route.feasible:
                worst = ref.excess(inst, k, v, rows_of(route))
                ctx.expect(worst <= 2 * BOUND, "a long route said to be feasible cannot be driven", excess=worst, **info)
        now = [visits_of(built, r) for r in sorted(initial.routes, key=lambda r: built.vehicle_index(r.vehicle))]
        ctx.expect(now == before, "a long route that was given is changed", **info)

    if what in ("tail", "sampling", "intensive", "warm"):
        cfg = solve.ins(iterator="best" if what == "warm" else "ranking", strategy="tail" if what == "warm" else what)
        result = attempt(ctx, lambda: solve.algorithm(built, cfg, initial).optimize(), **info)
        done(result)
        if result is not None:
            rows = ref.schedule(inst, 0, visits)
            served = {built.trip_index(t) for r in result.routes for t in r.trips}
            if ref.excess(inst, 0, visits, rows) <= 0:
                ctx.expect(served >= set(range(n)), "a request of a long route is dropped", **info)
        ctx.trace("inserted")
    elif what in ("one_shift", "two_opt", "reallocation"):
        result = attempt(ctx, lambda: solve.algorithm(built, dict(algorithm="search", search=what), initial).optimize(), **info)
        done(result)
        if result is not None:
            ctx.expect(result.optimization_value[1] >= initial.optimization_value[1] - 1e-6, "improving a long route makes it worse", **info)
        ctx.trace("searched")
    elif what == "objective":
        rows = ref.schedule(inst, 0, visits)
        for name in ("dar", "taxi", "hashcode"):
            other = dict(inst, objective=name)
            again = Built(other, reset=False)
            route = route_from(again, 0, visits)
            got = attempt(ctx, lambda: again.job.objective.optimization_function(route), objective=name, **info)
            want = ref.route_objective(other, 0, visits, rows)
            ctx.expect(got is None or ref.close_all(got, want, 1e-4), "a long route has another value", objective=name, got=got, want=want, **info)
        ctx.trace("valued")
    elif what == "store":
        for cls in (jit.ColumnarStorerFormatter, jit.HashCodeStorerFormatter):
            text = attempt(ctx, lambda: cls(result=initial).format(), **info)
            if text is not None and cls is jit.HashCodeStorerFormatter:
                ids = [str(i) for kind, i in visits if kind == "P"]
                ctx.expect(text.split("\n")[0].split() == [str(n)] + ids, "a long route is not written whole", **info)
            elif text is not None:
                ctx.expect(len(text.splitlines()) > 3 * n, "a long route is not written whole", **info)
        ctx.trace("stored")
    elif what == "deep":
        for ask in (False, True):
            if ask:
                attempt(ctx, lambda: initial.feasible, **info)
            other = attempt(ctx, lambda: copy.deepcopy(initial), **info)
            if other is not None:
                views = [sorted((built.vehicle_index(r.vehicle), visits_of(built, r), tuple(rows_of(r))) for r in x.routes) for x in (initial, other)]
                ctx.expect(views[0] == views[1], "the copy of a long route is another one", **info)
                ctx.expect(not any(structure(built, r) for r in other.routes), "the copy of a long route is broken", **info)
        ctx.trace("copied")
