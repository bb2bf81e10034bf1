"""C04: insertion leaves no request out that still fits."""
from .. import families as fam
from .. import long, ref, solve, sweep
from ..env import INF, jit
from ..inst import num
from ..observe import brief, plan_of
from .c01 import SHAPES

REQUIRED = ("complete", "unserved:1", "unserved:0", "warm start", "alone", "with ride limits", "opened:2", "long route")
BOUNDS = {
    "quick": "3 trips out of 9 shapes, interchangeable fleets, 7 exhaustive configurations, both set orders; warm starts of 2-3 trips, also with one vehicle; routes of 16 stops where one more request fits at one place: every place",
    "thorough": "3 trips out of 15 shapes and 4 out of 5, all interchangeable fleets, randomized choices (2 deviations)",
}
ASSUMPTIONS = [
    "vehicles are interchangeable and the neighbourhood is at least as large as the number of trips",
    "fit is judged with the departures from the depot the plan already committed to",
]
CHUNK = 2
CONFIGS = [
    solve.ins(), solve.ins(strategy="sampling", criterion="shortest"), solve.ins(criterion="longest"),
    solve.ins(iterator="best"), solve.ins(iterator="best", strategy="sampling", criterion="util"),
    solve.ins(iterator="stateless"), solve.ins(iterator="stateless", strategy="sampling"),
]
TAIL = [solve.ins(strategy="tail"), solve.ins(iterator="best", strategy="tail", criterion="average")]
SOME = [SHAPES[i] for i in (0, 1, 2, 3, 4, 7, 8, 11, 13)]
FLEET3 = {"two": "two", "pair": "pair", "shift": "shift", "hours": "hours", "later": "later", "away": "away"}


def cases(tier):
    for first in range(long.LENGTH):
        yield dict(mode="long", first=first, nested=bool(first % 2))
        if tier != "quick":
            yield dict(mode="long", first=first, nested=not first % 2)
    fleets = list(FLEET3)
    if tier == "quick":
        for n, triple in enumerate(fam.pick(3, SOME)):
            for m in (0, 1):
                yield dict(trips=triple, fleet=fleets[(n + 3 * m) % 6], metric="euclidean", reverse=bool((n + m) % 2),
                           caps=[1, 2 if n % 4 == 0 else 1, 1], mode="build")
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            yield dict(trips=pair, fleet=fleets[n % 6], metric="manhattan", reverse=bool(n % 2), mode="warm")
            yield dict(trips=pair, fleet=fleets[(n + 1) % 6], metric="euclidean", reverse=bool(n % 2), mode="randomized")
            # no idle vehicle to take what the used one refuses
            yield dict(trips=pair, fleet=("single", "one")[n % 2], metric="euclidean", reverse=bool(n % 2), mode="warm")
        for n, triple in enumerate(fam.pick(3, SOME)):
            if n % 2 == 0:
                yield dict(trips=triple, fleet=("one", "single", "two")[n % 3], metric="euclidean", reverse=bool(n % 4), mode="warm")
        return
    for triple in fam.pick(3, SHAPES):
        for fleet in fleets:
            yield dict(trips=triple, fleet=fleet, metric="euclidean", reverse=False, mode="build")
            yield dict(trips=triple, fleet=fleet, metric="manhattan", reverse=True, mode="build", caps=[1, 2, 1])
    for triple in fam.pick(3, SOME):
        for fleet in ("one", "single"):
            yield dict(trips=triple, fleet=fleet, metric="manhattan", reverse=True, mode="warm")
        for fleet in ("two", "hours"):
            yield dict(trips=triple, fleet=fleet, metric="euclidean", reverse=False, mode="warm")
            yield dict(trips=triple, fleet=fleet, metric="euclidean", reverse=False, mode="randomized")
    for quad in fam.pick(4, SOME[:5]):
        yield dict(trips=quad, fleet="hours", metric="euclidean", reverse=False, mode="build")


def fits(inst, k, visits, rows, i, tail=False):
    """A position where trip ``i`` certainly fits, without moving the departure the route is committed to."""
    n = len(visits) + 2
    for p in range(n - 1):
        for q in range(p, n - 1):
            if tail and not p == q == n - 2:
                continue
            new = list(visits[:p]) + [("P", i)] + list(visits[p:q]) + [("D", i)] + list(visits[q:])
            held = [rows[0][1]] + [None] * (len(new) + 1)
            times = ref.schedule(inst, k, new, held)
            if ref.excess(inst, k, new, times) <= 0:
                return new
            if p == 0 and times[1][1] > times[1][0]:
                held[0] = times[0][1] + times[1][1] - times[1][0]
                times = ref.schedule(inst, k, new, held)
                if ref.excess(inst, k, new, times) <= 1e-9:
                    return new
    return None


def judge(ctx, x, tail=False):
    inst = x.inst
    plan = plan_of(x.built, x.planning)
    if any(visits is None or isinstance(k, str) for k, visits, _ in plan):
        return  # that is C03's
    done = {i for _, visits, _ in plan for kind, i in visits if kind == "P"}
    left = [i for i in range(len(inst["trips"])) if i not in done]
    used = {k for k, _, _ in plan}
    empty = [k for k, visits, _ in plan if not visits] + [k for k in range(len(inst["vehicles"])) if k not in used]
    ctx.state(tuple((k, v) for k, v, _ in plan), tuple(left))
    ctx.trace("complete", f"unserved:{len(left)}", f"opened:{sum(1 for _, v, _ in plan if v)}")
    ride_limits = any(num(t["timeout"]) < INF for t in inst["trips"])
    if ride_limits:
        ctx.outcomes["with ride limits"] += 1
    for i in left:
        if empty:
            k = empty[0]
            ctx.outcomes["alone"] += 1
            if fits(inst, k, (), ref.schedule(inst, k, ()), i) is not None:
                ctx.violate("a trip that an idle vehicle can serve is left out", cfg=x.cfg, start=x.start, trip=i,
                            vehicle=k, plan=brief(plan))
        if not ride_limits:
            for k, visits, rows in plan:
                where = fits(inst, k, visits, rows, i, tail)
                ctx.expect(where is None, "a trip that still fits is left out", cfg=x.cfg, start=x.start, trip=i,
                           vehicle=k, where=where and " ".join(f"{a}{b}" for a, b in where), plan=brief(plan))
    strategy = jit.TailInsertionStrategy() if tail else jit.IntensiveInsertionStrategy()
    for i in left:
        routes = [r for r in x.planning.routes if any(r.planned_trips)]
        routes += [jit.Route(x.built.vehicles[k]) for k in empty[:1]]
        for route in routes:
            candidates = strategy.compute(route, x.built.trips[i])
            ctx.expect(not candidates, "the insertion ended with a feasible candidate left", cfg=x.cfg, start=x.start,
                       trip=i, vehicle=x.built.vehicle_index(route.vehicle), plan=brief(plan))
    ctx.sample(dict(cfg=x.cfg, plan=brief(plan), left=left))


def run_long(case, ctx):
    for place in long.places():
        if place[0] != case["first"]:
            continue
        inst = long.crowded(place, case["nested"])
        for cfg in (c for c in CONFIGS if c["strategy"] == "intensive"):
            for x in sweep.improvements(inst, cfg, [long.visits(case["nested"])], ctx):
                ctx.outcomes["long route"] += 1
                judge(ctx, x)
                plan = plan_of(x.built, x.planning)
                ctx.expect(("P", long.TRIPS) in (plan[0][1] or ()), "a request that fits a long route is left out", place=place, cfg=cfg, plan=brief(plan))


def run(case, ctx):
    if case["mode"] == "long":
        run_long(case, ctx)
        return
    inst = sweep.instance_of(case)
    mode = case["mode"]
    if mode == "build":
        for cfg in CONFIGS + TAIL:
            for x in sweep.constructions(inst, cfg, ctx):
                judge(ctx, x, cfg["strategy"] == "tail")
    elif mode == "randomized":
        for cfg in solve.RANDOMIZED:
            for x in sweep.constructions(inst, cfg, ctx, bound=2, cap=300):
                judge(ctx, x)
    else:
        for plan in sweep.starts(inst, min(2, len(inst["vehicles"]))):
            for cfg in CONFIGS[0::3]:
                for given in (False, True):
                    for x in sweep.improvements(inst, cfg, plan, ctx, given=given):
                        ctx.outcomes["warm start"] += 1
                        judge(ctx, x)
