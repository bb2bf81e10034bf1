"""C01: whatever is reported as feasible can be driven as reported."""
from .. import families as fam
from .. import ref, solve, sweep
from ..env import TOL
from ..observe import brief, plan_of

REQUIRED = ("feasible", "served:0", "served:2", "waiting", "delayed depot", "shared ride")
BOUNDS = {
    "quick": "2 trips out of 15 shapes, 7 fleets, 7 builders, loads of 0-3; 2 deviations of the randomized ones; every start of 8 improvers",
    "thorough": "2 and 3 trips out of 30 shapes, all fleets and metrics, both set orders, all configurations",
}
ASSUMPTIONS = ["every limit of a plan is granted a tolerance of 0.002 (jinete documents 0.001 per verdict)"]
CHUNK = 4

SHAPES = [
    ("out", "free", "none"), ("out", "late", "both"), ("out", "tight", "none"), ("back", "due", "both"),
    ("back", "ride", "none"), ("diag", "strict", "pick"), ("diag", "appoint", "none"), ("home", "slot", "drop"),
    ("same", "late", "both"), ("same", "strict", "none"), ("home", "ride", "pick"), ("depot", "late", "none"),
    ("out", "appoint", "both"), ("back", "never", "none"), ("depot", "strict", "drop"),
]
MORE = SHAPES + [
    ("back", "late", "drop"), ("back", "appoint", "pick"), ("diag", "slot", "both"), ("home", "strict", "both"),
    ("out", "ride", "drop"), ("depot", "due", "pick"), ("out", "strict", "both"), ("diag", "late", "pick"),
    ("same", "appoint", "both"), ("home", "tight", "none"), ("diag", "ride", "drop"), ("back", "slot", "both"),
    ("depot", "appoint", "both"), ("out", "due", "pick"), ("home", "late", "none"),
]


def cases(tier):
    if tier == "quick":
        pairs = list(fam.pick(2, SHAPES))
        for n, pair in enumerate(pairs):
            for fleet in ("two", "shift", "hours", "later", "away", "mixed", "single"):
                yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=bool(n % 2), mode="build")
        for n, pair in enumerate(pairs):
            yield dict(trips=pair, fleet=("hours", "mixed", "shift")[n % 3], metric="euclidean", reverse=bool(n % 2),
                       mode="randomized")
            yield dict(trips=pair, fleet=("mixed", "later", "away")[n % 3], metric="manhattan", reverse=bool(n % 2),
                       mode="improve")
            if n % 3 == 0:
                yield dict(trips=pair, fleet="two", metric="manhattan", reverse=bool(n % 2), mode="meta")
        for n, pair in enumerate(fam.pick(2, SHAPES, ordered=True)):
            # trips that take no room, and fleets without room for both
            yield dict(trips=pair, caps=((0, 1), (0, 0), (2, 1), (0, 3))[n % 4], fleet=("two", "later", "mixed", "single", "shift")[n % 5],
                       metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 2), mode=("build", "improve")[n % 3 == 0])
        for n, triple in enumerate(fam.pick(3, SHAPES[1:9])):
            yield dict(trips=triple, fleet=("single", "two", "hours")[n % 3], metric="euclidean", reverse=False,
                       mode="few")
        return
    for mode in ("build", "randomized", "improve", "meta"):
        for pair in fam.pick(2, MORE):
            for fleet in fam.FLEETS:
                for reverse in (False, True):
                    if mode in ("meta",) and (reverse or fleet not in ("two", "mixed", "hours")):
                        continue
                    yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=reverse, mode=mode)
    for pair in fam.pick(2, SHAPES, ordered=True):
        for caps in ((0, 1), (0, 0), (2, 1), (0, 3)):
            for fleet in ("two", "later", "mixed", "single", "shift"):
                yield dict(trips=pair, caps=caps, fleet=fleet, metric="euclidean", reverse=False, mode="build")
    for triple in fam.pick(3, SHAPES):
        for fleet in ("single", "two", "hours", "mixed", "away"):
            yield dict(trips=triple, fleet=fleet, metric="euclidean", reverse=False, mode="build")
    for triple in fam.pick(3, SHAPES[1:9]):
        yield dict(trips=triple, fleet="mixed", metric="manhattan", reverse=False, mode="improve")


def judge(ctx, x):
    inst, built, planning, cfg, extra = x.inst, x.built, x.planning, x.cfg, x.start
    plan = plan_of(built, planning)
    feasible = planning.feasible
    routes = {built.vehicle_index(r.vehicle): r for r in planning.routes}
    ctx.state(plan_key(plan))
    ctx.trace("feasible" if feasible else "infeasible", f"served:{sum(len(v or ()) for _, v, _ in plan) // 2}")
    for k, visits, rows in plan:
        if visits is None or any(isinstance(i, str) for _, i in visits) or isinstance(k, str):
            ctx.violate("a plan made of unknown trips, vehicles or stops", cfg=cfg, plan=brief(plan))
            continue
        if not routes[k].feasible:
            if feasible:
                ctx.violate("a planning reported as feasible holds an infeasible route", cfg=cfg, plan=brief(plan))
            continue
        wrong = [p for p in ref.problems(inst, k, visits, rows) if p[1] > TOL]
        if any(row[1] > row[0] + 1e-9 for row in rows[1:]):
            ctx.outcomes["waiting"] += 1
        if rows[0][1] > ref.shift(inst["vehicles"][k])[0]:
            ctx.outcomes["delayed depot"] += 1
        if any(a == b == "P" for (a, _), (b, _) in zip(visits, visits[1:])):
            ctx.outcomes["shared ride"] += 1
        ctx.expect(
            not wrong,
            "a route reported as feasible cannot be driven as reported",
            cfg=cfg, problems=[(n, round(x, 4)) for n, x in wrong], plan=brief(plan), start=extra,
        )
    ctx.sample(dict(cfg=cfg, plan=brief(plan), feasible=feasible))


def plan_key(plan):
    return tuple((k, v, tuple(tuple(round(x, 6) for x in row) for row in rows)) for k, v, rows in plan)


def run(case, ctx):
    mode = case["mode"]
    inst = sweep.instance_of(case)
    if mode in ("build", "few"):
        for cfg in solve.BUILD if mode == "build" else solve.BUILD[:4]:
            for x in sweep.constructions(inst, cfg, ctx):
                judge(ctx, x)
    elif mode == "randomized":
        for cfg in solve.RANDOMIZED:
            for x in sweep.constructions(inst, cfg, ctx, bound=2):
                judge(ctx, x)
    elif mode == "meta":
        for cfg in solve.META:
            for x in sweep.constructions(inst, cfg, ctx, bound=1, cap=50):
                judge(ctx, x)
    elif mode == "improve":
        for plan in sweep.starts(inst, min(len(inst["vehicles"]), 2)):
            for exact in (inst, sweep.snug(inst, plan)) if any(plan) else (inst,):
                for cfg in solve.IMPROVE:
                    for x in sweep.improvements(exact, cfg, plan, ctx):
                        judge(ctx, x)
