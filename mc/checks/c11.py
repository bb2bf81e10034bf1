"""C11: the criteria score, sort and choose routes by what they stand for."""
import itertools

from .. import families as fam
from .. import goals, ref
from ..env import BOUND, INF, jit
from ..inst import Built, route_from, sequences
from ..observe import rows_of
from ..solve import CRITERIA
from .c10 import SHAPES, spread

REQUIRED = ("feasible", "infeasible", "best", "nbest", "sorted", "ties", "empty", "none", "inplace")
BOUNDS = {
    "quick": "6 criteria, every route of 0-2 trips out of 14 shapes x 5 fleets; every arrangement of up to 4 of 6 of them",
    "thorough": "routes of 3 trips too; every arrangement of up to 5 of 7",
}
CHUNK = 4


def cases(tier):
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for m, fleet in enumerate(("two", "shift", "hours", "away", "single")):
            if tier == "quick" and (n + m) % 2:
                continue
            yield dict(trips=pair, fleet=fleet, metric=("euclidean", "manhattan")[n % 2], objective="hashcode", size=4 if tier == "quick" else 5)
    if tier != "quick":
        for n, triple in enumerate(fam.pick(3, SHAPES[:8])):
            yield dict(trips=triple, fleet=("two", "hours")[n % 2], metric="euclidean", objective="hashcode", size=4)


def run(case, ctx):
    from .c10 import instance_of

    inst = instance_of(case)
    n = len(inst["trips"])
    routes = []
    for size in range(n + 1):
        for group in itertools.combinations(range(n), size):
            for visits in sequences(group):
                for late in (None, 0.75):
                    built = Built(inst)
                    starts = None
                    if late:
                        first = ref.schedule(inst, 0, visits)
                        starts = [first[0][1] + late] + [None] * (len(first) - 1)
                    route = route_from(built, 0, visits, starts)
                    rows = ref.schedule(inst, 0, visits, starts)
                    worst = ref.excess(inst, 0, visits, rows)
                    if BOUND / 2 < worst < 4 * BOUND:
                        continue
                    routes.append((route, visits, rows, worst <= BOUND))
                    ctx.outcomes["feasible" if worst <= BOUND else "infeasible"] += 1
                    if not visits:
                        ctx.outcomes["empty"] += 1
    for name, cls in (goals.CRITERIA if case.get("own") else CRITERIA).items():
        criterion = cls()
        scored = []
        for route, visits, rows, feasible in routes:
            want, direction = ref.criterion(inst, name, 0, visits, rows, feasible)
            got = criterion.scoring(route)
            ctx.step()
            ctx.state(name, visits, round(want, 6))
            ctx.trace(name)
            ctx.expect(ref.close(got, want), "wrong score of a route", criterion=name, visits=visits, got=got, want=want,
                       feasible=feasible, trips=inst["trips"], rows=rows)
            scored.append((want, route))
        few = [(s, r) for s, r in spread([((w,), r) for w, r in scored], 5)]
        if few:
            few.append((few[0][0], few[0][1]))
        score = {id(r): s[0] for s, r in few}
        for size in range(0, case["size"]):
            for chosen in itertools.permutations(few, size):
                pick(ctx, name, criterion, direction, [r for _, r in chosen], score)
        if len(few) > 2:
            pick(ctx, name, criterion, direction, [r for _, r in few], score)
            pick(ctx, name, criterion, direction, [r for _, r in reversed(few)], score)
    ctx.sample(dict(trips=inst["trips"], routes=len(routes)))


def pick(ctx, name, criterion, direction, options, score):
    ctx.step()
    values = sorted((score[id(r)] for r in options), reverse=direction > 0)
    info = dict(criterion=name, scores=[score[id(r)] for r in options])
    best = criterion.best(None, *options, None)
    ctx.outcomes["best"] += 1
    if len(set(values)) < len(values):
        ctx.outcomes["ties"] += 1
    if not options:
        ctx.outcomes["none"] += 1
        ctx.expect(best is None, "the best of nothing is something", **info)
    else:
        ctx.expect(best is not None and any(best is r for r in options) and ref.close(score[id(best)], values[0]),
                   "the best route is not the best", got=best is not None and score.get(id(best)), **info)
    for count in (0, 1, 2, len(options) + 1):
        for source in (list(options), iter(list(options))):
            got = [score.get(id(r)) for r in criterion.nbest(count, source)]
            ctx.outcomes["nbest"] += 1
            ctx.expect(None not in got and ref.close_all(got, values[:count]), "the n best routes are not the best", count=count, got=got, **info)
    for inplace in (False, True):
        source = list(options)
        out = criterion.sorted(source, inplace=inplace)
        got = [score.get(id(r)) for r in out]
        ctx.outcomes["sorted"] += 1
        ctx.expect(None not in got and ref.close_all(got, values), "the routes are not sorted", inplace=inplace, got=got, **info)
        if inplace:
            ctx.outcomes["inplace"] += 1
            ctx.expect(all(a is b for a, b in zip(source, out)), "a list is not sorted in place", **info)
        else:
            ctx.expect(all(a is b for a, b in zip(source, options)), "sorting changed its input", **info)
    source = list(options)
    criterion.sorted(source)
    ctx.expect(all(a is b for a, b in zip(source, options)), "sorting changed its input", **info)
    for again in (False, True):
        got = [score.get(id(r)) for r in criterion.sorted(tuple(options), inplace=again)]
        ctx.expect(None not in got and ref.close_all(got, values), "the routes of a tuple are not sorted", inplace=again, got=got, **info)
    for side, order in ((jit.OptimizationDirection.MAXIMIZATION, True), (jit.OptimizationDirection.MINIMIZATION, False)):
        want = sorted(values, reverse=order)
        source = list(options)
        got = [[score.get(id(r)) for r in out] for out in (side.sorted(source, key=criterion.scoring), side.nbest(2, source, key=criterion.scoring))]
        ctx.expect(None not in got[0] + got[1] and ref.close_all(got[0], want) and ref.close_all(got[1], want[:2]), "a direction orders in another way",
                   direction=str(side), got=got, **info)
        ctx.expect(len(source) == len(options) and all(a is b for a, b in zip(source, options)), "choosing changed its input", direction=str(side), **info)
        if options:
            ctx.expect(ref.close(score[id(side(source, key=criterion.scoring))], want[0]), "a direction chooses another", direction=str(side), **info)
