"""C27: answers do not depend on where the clock and the axes start, on the units, on names, nor on hopeless requests."""
import copy

from .. import families as fam
from .. import solve, sweep
from ..env import INF, Diverged, Order, jit
from ..explore import Chooser, explore, run_with
from ..inst import Built, result_from, trip
from ..observe import plan_of, planning_structure
from .c01 import SHAPES

REQUIRED = ("later", "moved", "mirrored", "turned", "larger", "smaller", "heavier", "lighter", "renamed", "hopeless", "served:0", "served:2", "served:3",
            "from nothing", "from a plan", "randomized", "exact", "waiting")
BOUNDS = {
    "quick": "every pair of 15 shapes, 12 builders and 8 improvers from every start, 10 transformations of each execution (same decisions); 3 trips out of 6",
    "thorough": "all fleets and both metrics; 3 trips out of 15",
}
ASSUMPTIONS = ["amounts are multiples of 1/4 and units powers of 2, so that the transformed instances are computed exactly"]
CHUNK = 2
SMALL = [SHAPES[i] for i in (0, 1, 3, 6, 7, 8)]
FLEETS = ("two", "hours", "mixed", "later", "away", "shift", "single")


def cases(tier):
    if tier == "quick":
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            for m, mode in enumerate(("build", "randomized", "improve", "meta")):
                if mode == "meta" and n % 3:
                    continue
                yield dict(trips=pair, fleet=FLEETS[(n + m) % 7], metric=("manhattan", "euclidean")[(n // 7 + m) % 2], reverse=bool(n % 2), mode=mode,
                           objective=("dar", "taxi", "hashcode")[n % 3])
        for n, triple in enumerate(fam.pick(3, SMALL)):
            yield dict(trips=triple, fleet=FLEETS[n % 7], metric=("manhattan", "euclidean")[n // 7 % 2], reverse=False, mode="build",
                       objective=("hashcode", "dar", "taxi")[n % 3])
        for n, pair in enumerate(fam.pick(2, SHAPES[::2])):
            yield dict(trips=pair, fleet=("two", "later", "hours")[n % 3], metric="manhattan", reverse=False, mode="exact", objective="dar")
        return
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for fleet in FLEETS:
            for metric in ("manhattan", "euclidean"):
                for mode in ("build", "randomized", "improve", "meta"):
                    if mode == "meta" and (n + len(fleet)) % 4:
                        continue
                    yield dict(trips=pair, fleet=fleet, metric=metric, reverse=bool(n % 2), mode=mode, objective=("dar", "taxi", "hashcode")[n % 3])
    for n, triple in enumerate(fam.pick(3, SHAPES)):
        yield dict(trips=triple, fleet=FLEETS[n % 7], metric=("manhattan", "euclidean")[n // 7 % 2], reverse=False, mode="build",
                   objective=("hashcode", "dar", "taxi")[n % 3])
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for fleet in ("two", "later", "hours"):
            yield dict(trips=pair, fleet=fleet, metric="manhattan", reverse=False, mode="exact", objective="dar")


def every(inst, change):
    inst = copy.deepcopy(inst)
    for t in inst["trips"]:
        change(t, True)
    for v in inst["vehicles"]:
        change(v, False)
    return inst


def add(x, by):
    return None if x is None else x + by


def times(x, by):
    return None if x is None else x * by


def later(inst, by=4096.0):
    def change(x, is_trip):
        for key in ("oe", "ol", "de", "dl") if is_trip else ("e", "l", "de", "dl"):
            x[key] = add(x[key], by)

    return every(inst, change)


def spots(inst, f):
    def change(x, is_trip):
        x["o"] = f(x["o"])
        x["d"] = None if x["d"] is None else f(x["d"])

    return every(inst, change)


def scaled(inst, by):
    def change(x, is_trip):
        for key in ("oe", "ol", "de", "dl", "od", "dd", "timeout", "bonus") if is_trip else ("e", "l", "de", "dl", "timeout"):
            x[key] = times(x[key], by)
        x["o"] = [by * y for y in x["o"]]
        x["d"] = None if x["d"] is None else [by * y for y in x["d"]]

    return every(inst, change)


def weighed(inst, by):
    def change(x, is_trip):
        x["cap"] = times(x["cap"], by)

    return every(inst, change)


def hopeless(inst):
    return dict(inst, trips=inst["trips"] + [trip((1, 1), (2, 1), oe=9000.0, ol=9001.0, dl=8000.0)])


SHIFT = 4096.0
# name: (how the instance changes, how much later everything is, how many times the unit, names)
WAYS = {
    "later": (later, SHIFT, 1, None),
    "moved": (lambda i: spots(i, lambda p: [p[0] + 32, p[1] - 64]), 0, 1, None),
    "mirrored": (lambda i: spots(i, lambda p: [-p[0], p[1]]), 0, 1, None),
    "turned": (lambda i: spots(i, lambda p: [p[1], -p[0]]), 0, 1, None),
    "larger": (lambda i: scaled(i, 64), 0, 64, None),
    "smaller": (lambda i: scaled(i, 0.25), 0, 0.25, None),
    "heavier": (lambda i: weighed(i, 4), 0, 1, None),
    "lighter": (lambda i: weighed(i, 0.25), 0, 1, None),
    "renamed": (copy.deepcopy, 0, 1, "renamed"),
    "hopeless": (hopeless, 0, 1, None),
}


class Nobody:
    """Takes the place of the hopeless request in the order of the sets."""


def world(inst, rename, size):
    built = Built(inst)
    built.nobody = [Nobody() for _ in range(size - len(built.trips))]
    for nobody in built.nobody:
        Order.of(nobody)
    if rename:
        for n, t in enumerate(built.trips):
            t.identifier = ("zeta, z", "-3", "", "P1", "0")[n]
        for n, v in enumerate(built.vehicles):
            v.identifier = ("9", "bus 1", "-")[n]
    return built


def execute(inst, cfg, plan, chooser, size, rename=None):
    """What a run answers, in plain values."""

    def once(_):
        built = world(inst, rename, size)
        initial = None if plan is None else result_from(built, plan)
        result = solve.algorithm(built, cfg, initial).optimize()
        if planning_structure(built, result.planning):
            return None  # that is C03's
        rows = {k: (visits, r) for k, visits, r in plan_of(built, result.planning)}
        return rows, tuple(result.optimization_value), result.feasible

    return run_with(chooser, once)


def same(got, want, later, unit, times_too=True):
    if (got is None) != (want is None):
        return "well formed only once"
    if got is None:
        return None
    if {k: v for k, (v, _) in got[0].items() if v} != {k: v for k, (v, _) in want[0].items() if v}:
        return "other visits"
    if got[2] != want[2]:
        return "another verdict"
    for k, (visits, rows) in want[0].items():
        if not visits and k not in got[0]:
            continue
        for a, b in zip(got[0][k][1], rows):
            if any(abs(x - (y * unit + later)) > 1e-6 for x, y in zip(a, b) if y < INF or x < INF):
                return "other times"
    return None


def run(case, ctx):
    inst = sweep.instance_of(case)
    mode = case["mode"]
    if mode == "exact":
        return run_exact(inst, case, ctx)
    starts = [None]
    if mode == "improve":
        starts = list(sweep.starts(inst, min(2, len(inst["vehicles"]))))
    size = len(inst["trips"]) + 1
    groups = dict(build=solve.BUILD, randomized=solve.RANDOMIZED, meta=solve.META, improve=solve.IMPROVE)
    ways = {}
    for name, (change, shift, unit, rename) in WAYS.items():
        if name == "later" and case["metric"] == "euclidean":
            continue  # rounding would break ties in another way
        ways[name] = (change(inst), shift, unit, rename)
    for cfg in groups[mode]:
        for n, plan in enumerate(starts):
            bound, cap = (1, 12) if mode in ("randomized", "meta") else (0, 1)

            def once(chooser):
                return execute(inst, cfg, plan, chooser, size)

            for chooser, want in explore(once, ctx, bound=bound, cap=cap):
                one(ctx, case, inst, cfg, plan, chooser, want, ways, n)


def one(ctx, case, inst, cfg, plan, chooser, want, ways, n):
    mode = case["mode"]
    for m, (name, (other, shift, unit, rename)) in enumerate(ways.items()):
        if mode == "improve" and (m + n) % 2:
            continue  # half of them for each start
        if name == "hopeless" and mode in ("meta", "improve"):
            continue  # the draws of a sampled neighbourhood follow the number of requests
        again = Chooser(chooser.trace)
        try:
            got = execute(other, cfg, plan, again, len(inst["trips"]) + 1, rename)
        except Diverged as exc:
            ctx.violate("other decisions to take", way=name, cfg=cfg, start=plan, what=str(exc))
            continue
        info = dict(way=name, cfg=cfg, start=plan and [str(v) for v in plan], decisions=chooser.trace)
        ctx.expect(again.arity == chooser.arity, "other decisions to take", before=chooser.arity, after=again.arity, **info)
        wrong = same(got, want, shift, unit)
        if not ctx.expect(wrong is None, f"another answer to an equivalent problem: {wrong}", before=str(want)[:900], after=str(got)[:900], **info):
            return
        if want is None:
            continue
        value = [x * unit for x in want[1]]
        if case["objective"] == "dar":
            value[0] = want[1][0]
        ctx.expect(all(abs(a - b) <= 1e-6 for a, b in zip(got[1], value)), "another value of an equivalent plan", before=want[1], after=got[1], **info)
        ctx.trace(name, "from nothing" if plan is None else "from a plan")
    if want is None:
        return
    ctx.state(case["fleet"], case["metric"], tuple((k, v) for k, (v, _) in sorted(want[0].items())), want[1])
    ctx.outcomes[f"served:{sum(len(v) for v, _ in want[0].values()) // 2}"] += 1
    if mode == "randomized":
        ctx.outcomes["randomized"] += 1
    if any(a[1] > a[0] + 1e-6 for _, rows in want[0].values() for a in rows):
        ctx.outcomes["waiting"] += 1
    ctx.sample(dict(cfg=cfg, start=plan and [str(v) for v in plan], visits={str(k): str(v) for k, (v, _) in want[0].items()}))


def run_exact(inst, case, ctx):
    """The linear model answers plans of the same value (which of the shortest is up to its solver)."""

    def value(inst, rename=None):
        built = world(inst, rename, 0)
        try:
            result = solve.algorithm(built, dict(algorithm="milp")).optimize()
        except jit.exceptions.JineteException:
            return None  # it cannot serve them all
        return tuple(result.optimization_value) if result.planning.feasible else None

    want = value(inst)
    for name, (change, shift, unit, rename) in WAYS.items():
        if name in ("hopeless",):
            continue  # the model serves every request or none
        got = value(change(inst), rename)
        good = (got is None) == (want is None)
        good = good and (want is None or abs(got[0] - want[0]) < 1e-6 and abs(got[1] - want[1] * unit) < 1e-3)
        ctx.expect(good, "another optimum of an equivalent problem", way=name, before=want, after=got, case=case)
        ctx.trace("exact", name)
        ctx.state("exact", str(case["trips"]), case["fleet"], name)
