"""C03: every plan is well formed."""
from .. import families as fam
from .. import solve, sweep
from ..observe import brief, plan_of, planning_structure
from .c01 import MORE, SHAPES

REQUIRED = ("served:0", "served:2", "served:3", "routes:2", "moved")
BOUNDS = {
    "quick": "3 trips out of 6 shapes on 2 vehicles by every builder; every start of 2-3 trips by every improver; metaheuristics",
    "thorough": "3 trips out of 15 shapes and 4 out of 4, all fleets, both set orders; every start of 3 trips out of 8 shapes",
}
CHUNK = 2
SMALL = [SHAPES[i] for i in (0, 1, 6, 7, 8, 11)]


def cases(tier):
    if tier == "quick":
        for n, triple in enumerate(fam.pick(3, SMALL)):
            yield dict(trips=triple, fleet=("two", "pair", "mixed", "shift")[n % 4], metric="euclidean",
                       reverse=bool(n % 2), mode="build", caps=[1, 1 + n % 2, n % 3])
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            yield dict(trips=pair, fleet=("two", "mixed", "away")[n % 3], metric="manhattan", reverse=bool(n % 2),
                       mode="randomized")
            yield dict(trips=pair, fleet=("mixed", "later", "two")[n % 3], metric="euclidean", reverse=bool(n % 2),
                       mode="improve", caps=((1, 1), (1, 2), (0, 1), (1, 0), (0, 0))[n % 5])
            if n % 3 == 0:
                yield dict(trips=pair, fleet="two", metric="euclidean", reverse=bool(n % 2), mode="meta")
        for n, triple in enumerate(fam.pick(3, SMALL[:3])):
            yield dict(trips=triple, fleet="two", metric="euclidean", reverse=False, mode="search", objective=("dar", "taxi", "hashcode")[n % 3])
        return
    for mode in ("build", "randomized", "meta", "improve"):
        for pair in fam.pick(2, MORE if mode != "meta" else SHAPES):
            for fleet in ("two", "mixed", "away", "pair", "later"):
                yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=True, mode=mode)
                if mode == "improve":
                    for caps in ((0, 1), (1, 0), (0, 0)):
                        yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=False, mode=mode, caps=caps)
    for triple in fam.pick(3, SHAPES):
        for fleet in ("two", "pair", "mixed"):
            for reverse in (False, True):
                yield dict(trips=triple, fleet=fleet, metric="euclidean", reverse=reverse, mode="build")
    for triple in fam.pick(3, SMALL):
        for objective in ("dar", "taxi", "hashcode"):
            yield dict(trips=triple, fleet="two", metric="euclidean", reverse=False, mode="search", objective=objective)
    for quad in fam.pick(4, SMALL[:4]):
        yield dict(trips=quad, fleet="two", metric="euclidean", reverse=False, mode="build")


def judge(ctx, x):
    plan = plan_of(x.built, x.planning)
    wrong = planning_structure(x.built, x.planning)
    count = sum(len(v or ()) for _, v, _ in plan) // 2
    ctx.state(tuple((k, v) for k, v, _ in plan), tuple(sorted(wrong)))
    ctx.trace(f"served:{count}", f"routes:{sum(1 for _, v, _ in plan if v)}")
    if x.start is not None and any(tuple(x.start[k]) != v for k, v, _ in plan if isinstance(k, int) and k < len(x.start)):
        ctx.outcomes["moved"] += 1
    ctx.expect(not wrong, "a plan is not well formed", cfg=x.cfg, start=x.start, wrong=wrong[:5], plan=brief(plan))
    completed = sorted(x.built.trip_index(t) for t in x.result.completed_trips)
    loaded = sorted(i for _, v, _ in plan for kind, i in v or () if kind == "P" and x.inst["trips"][i]["cap"])
    ctx.expect(completed == loaded, "the completed trips are not those of the plan", cfg=x.cfg, completed=completed, plan=brief(plan))
    ctx.sample(dict(cfg=x.cfg, plan=brief(plan)))


def run(case, ctx):
    mode = case["mode"]
    inst = sweep.instance_of(case)
    if mode in ("build", "randomized", "meta"):
        configurations = dict(build=solve.BUILD, randomized=solve.RANDOMIZED, meta=solve.META)[mode]
        for cfg in configurations:
            for x in sweep.constructions(inst, cfg, ctx, bound=1 if mode == "meta" else 2, cap=200):
                judge(ctx, x)
        return
    for plan in sweep.starts(inst, min(len(inst["vehicles"]), 2), all_served=mode == "search"):
        for cfg in solve.IMPROVE[:3] if mode == "search" else solve.IMPROVE:
            for x in sweep.improvements(inst, cfg, plan, ctx):
                judge(ctx, x)
