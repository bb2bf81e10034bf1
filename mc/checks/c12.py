"""C12: every step of an insertion takes one of the best candidates there are, and only those."""
from .. import families as fam
from .. import goals, long, ref, solve, sweep
from ..env import jit
from ..explore import explore
from ..inst import Built, result_from
from ..observe import rows_of, visits_of
from .c01 import SHAPES

REQUIRED = ("step", "end", "greedy", "randomized", "second best taken", "warm start", "choices:2", "choices:3", "steps:3", "all kinds", "many requests")
BOUNDS = {
    "quick": "2-3 trips out of 9 shapes x 6 fleets x 2 iterators x 3 strategies x 6 criteria, list of candidates of 1-3: every draw; 24 requests, each of which is the best one in turn",
    "thorough": "2-3 trips out of 15 shapes, 4 out of 4; every warm start; every draw",
}
ASSUMPTIONS = ["vehicles are interchangeable and the neighbourhood is at least as large as the number of trips"]
CHUNK = 2
SOME = [SHAPES[i] for i in (0, 1, 3, 4, 6, 7, 8, 11, 12)]
FLEETS = ("two", "pair", "shift", "hours", "later", "away")
CRITERIA = ("earliest", "average", "shortest", "longest", "util", "hashcode")
STRATEGIES = ("intensive", "sampling", "tail")


def cases(tier):
    n = 0
    for iterator in ("ranking", "best"):
        for first in range(0, long.MANY, 4):
            yield dict(mode="many", first=first, iterator=iterator)
    shapes = SOME if tier == "quick" else SHAPES
    for size in (2, 3):
        for group in fam.pick(size, shapes):
            n += 1
            if tier == "quick" and size == 3 and n % 2:
                continue
            yield dict(trips=group, fleet=FLEETS[n % 6], metric=("euclidean", "manhattan")[n % 2], reverse=bool(n // 2 % 2),
                       iterator=("ranking", "best")[n % 2], n=n, mode="build")
    for size in (2,) if tier == "quick" else (2, 3):
        for group in fam.pick(size, shapes[:8]):
            n += 1
            yield dict(trips=group, fleet=FLEETS[n % 6], metric="euclidean", reverse=bool(n % 2),
                       iterator=("ranking", "best")[n // 2 % 2], n=n, mode="warm")
    if tier != "quick":
        for group in fam.pick(4, SOME[:4]):
            n += 1
            yield dict(trips=group, fleet=FLEETS[n % 6], metric="euclidean", reverse=False,
                       iterator=("ranking", "best")[n % 2], n=n, mode="build")


def recording(base, log):
    class Recording(base):
        def __next__(self):
            try:
                route = super().__next__()
            except StopIteration:
                log.append(None)
                raise
            log.append(route)
            return route

    return Recording


def score(inst, built, route, criterion):
    k = built.vehicle_index(route.vehicle)
    visits, rows = visits_of(built, route), rows_of(route)
    value, direction = ref.criterion(inst, criterion, k, visits, rows, True)
    return direction * value, k, visits, tuple(round(r[1], 6) for r in rows)


def judge(inst, built, cfg, log, routes, size, ctx, taken):
    """Follow the recorded steps, working out the candidates again at each of them."""
    current = {built.vehicle_index(r.vehicle): r for r in routes}
    for k, vehicle in enumerate(built.vehicles):
        if k not in current:
            current[k] = jit.Route(vehicle)
    strategy = jit.TailInsertionStrategy() if cfg["strategy"] == "tail" else jit.IntensiveInsertionStrategy()
    done = {built.trip_index(t) for r in current.values() for t in r.trips}
    steps = 0
    for n, picked in enumerate(log):
        pending = [t for i, t in enumerate(built.trips) if i not in done]
        busy = [r for r in current.values() if any(r.planned_trips)]
        idle = [r for r in current.values() if not any(r.planned_trips)]
        candidates = [
            score(inst, built, c, cfg["criterion"])
            for r in busy + idle[:1] for t in pending for c in strategy.compute(r, t, only_feasible=True)
        ]
        candidates.sort(key=lambda c: -c[0])
        info = dict(cfg=cfg, step=n, pending=len(pending), best=[(c[0], c[1], str(c[2])) for c in candidates[:size + 1]])
        ctx.step()
        if picked is None:
            ctx.expect(not candidates, "the insertion ended with candidates left", **info)
            ctx.trace("end")
            break
        if not ctx.expect(visits_of(built, picked) is not None, "a candidate with shared stops", **info):
            return
        mine = score(inst, built, picked, cfg["criterion"])
        info["taken"] = (mine[0], mine[1], str(mine[2]))
        if not picked.feasible:
            ctx.expect(not candidates, "an infeasible route is taken with feasible ones left", **info)
            ctx.trace("end")
            break
        if not ctx.expect(bool(candidates), "a candidate that is none was taken", **info):
            return
        k = mine[1]
        same = [c for c in candidates if abs(c[0] - mine[0]) <= 1e-6 and c[2] == mine[2]
                and len(c[3]) == len(mine[3]) and all(abs(a - b) <= 1e-5 for a, b in zip(c[3], mine[3]))]
        ctx.expect(bool(same), "what was taken is not a candidate of the step", **info)
        worst = candidates[min(size, len(candidates)) - 1][0]
        ctx.expect(mine[0] >= worst - 1e-6, "a candidate out of the best ones was taken", **info)
        if n == 0:
            taken.append((round(mine[0], 5), [round(c[0], 5) for c in candidates[:size]]))
        if mine[0] < candidates[0][0] - 1e-6:
            ctx.outcomes["second best taken"] += 1
        ctx.outcomes[f"choices:{min(3, len(candidates))}"] += 1
        new = {built.trip_index(t) for t in picked.trips} - done
        ctx.expect(len(new) == 1, "a step does not insert one trip", new=list(new), **info)
        done |= new
        current[k] = picked
        steps += 1
        ctx.state(cfg["criterion"], cfg["strategy"], tuple(sorted((v, visits_of(built, r)) for v, r in current.items())))
        ctx.trace("step", "greedy" if size == 1 else "randomized")
    ctx.outcomes[f"steps:{steps}"] += 1


def run(case, ctx):
    if case["mode"] == "many":
        for best in range(case["first"], case["first"] + 4):
            inst = long.many(best)
            configs = [dict(iterator=case["iterator"], strategy=strategy, criterion=criterion, size=size)
                       for strategy, criterion, size in (("tail", "shortest", 1), ("intensive", "earliest", 1), ("sampling", "average", 2))]
            follow(ctx, inst, configs, [None])
            ctx.outcomes["many requests"] += 1
        return
    inst = sweep.instance_of(case)
    n = case["n"]
    configs = []
    for m, criterion in enumerate(goals.CRITERIA if case.get("own") else CRITERIA):
        size = (1, 2, 3)[(n + m) % 3] if case["mode"] == "build" else 1 + (n + m) % 2
        configs.append(dict(iterator=case["iterator"], strategy=STRATEGIES[(n // 2 + m) % 3], criterion=criterion, size=size))
        if case["mode"] == "build":
            configs.append(dict(iterator=case["iterator"], strategy=STRATEGIES[(n // 2 + m + 1) % 3], criterion=criterion, size=1, all=True))
    starts = [None] if case["mode"] == "build" else [p for p in sweep.starts(inst, 2) if any(p)]
    follow(ctx, inst, configs, starts if start_all(case) else starts[n % 3 :: 3])


def follow(ctx, inst, configs, starts):
    for cfg in configs:
        for start in starts:
            taken = []

            def once(_):
                built = Built(inst)
                log = []
                kwargs = dict(
                    fleet=built.fleet, job=built.job, criterion_cls=dict(goals.CRITERIA, **solve.CRITERIA)[cfg["criterion"]],
                    strategy_cls=solve.STRATEGIES[cfg["strategy"]], randomized_size=cfg["size"],
                    iterator_cls=recording(solve.ITERATORS[cfg["iterator"]], log),
                )
                if cfg.get("all"):
                    kwargs["only_feasible"] = False
                routes = set()
                if start is not None:
                    kwargs["initial"] = result_from(built, start)
                    routes = kwargs["initial"].routes
                jit.InsertionAlgorithm(**kwargs).optimize()
                return built, log, routes

            count = 0
            cap = 200
            for _, (built, log, routes) in explore(once, ctx, bound=3, cap=cap):
                count += 1
                judge(inst, built, cfg, log, routes, cfg["size"], ctx, taken)
                if start is not None:
                    ctx.outcomes["warm start"] += 1
                if cfg.get("all"):
                    ctx.outcomes["all kinds"] += 1
            if taken and count < cap:
                wanted = set(taken[0][1])
                ctx.expect({t[0] for t in taken} >= wanted, "some of the best candidates are never taken", cfg=cfg,
                           taken=sorted({t[0] for t in taken}), best=sorted(wanted))
            ctx.sample(dict(cfg=cfg, steps=len(log)))


def start_all(case):
    return case["mode"] == "build" or len(case["trips"]) == 2
