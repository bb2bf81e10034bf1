"""C29: every job gets an answer: whatever the data, an algorithm ends with a plan of that job."""
import itertools

from .. import goals, ref, solve
from ..env import INF, jit
from ..explore import explore
from ..inst import Built, instance, plans, result_from, trip, vehicle
from ..observe import brief, plan_of, planning_structure
from .c01 import SHAPES  # noqa: F401

REQUIRED = ("no vehicles", "no trips", "no routes", "impossible", "served:0", "served:1", "served:2", "from nothing", "from a plan", "default",
            "text", "value", "exact", "exact refused", "same place", "nobody can work")
BOUNDS = {
    "quick": "every 0-2 trips out of 13 extreme ones x 14 extreme fleets x 3 objectives; 40 configurations, from nothing and from empty and feasible plans",
    "thorough": "2 deviations of the randomized ones, both set orders; 3 trips",
}
CHUNK = 1

TRIPS = {
    "plain": trip((1, 0), (3, 0)),
    "still": trip((2, 0), (2, 0)),
    "home": trip((0, 0), (0, 0)),
    "back": trip((3, 0), (0, 0), od=0.5, dd=0.5),
    "empty": trip((1, 0), (2, 0), cap=0),
    "big": trip((1, 0), (2, 0), cap=9),
    "shut": trip((1, 0), (2, 0), oe=5.0, ol=4.0),
    "instant": trip((1, 0), (2, 0), oe=3.0, ol=3.0, de=4.0, dl=4.0),
    "no time": trip((1, 0), (2, 0), timeout=0.0),
    "still no time": trip((2, 0), (2, 0), timeout=0.0, ol=9.0),
    "never": trip((1, 0), (2, 0), oe=INF),
    "endless": trip((1, 0), (2, 0), dd=1e9),
    "far": trip((1e8, 0), (-1e8, 1), bonus=3.0),
}
FLEETS = {
    "none": [],
    "one": [vehicle(cap=2)],
    "two": [vehicle(cap=1), vehicle(cap=1)],
    "full": [vehicle(cap=0)],
    "closed": [vehicle(cap=2, e=5.0, l=4.0)],
    "instant": [vehicle(cap=2, e=3.0, l=3.0), vehicle(cap=2)],
    "no time": [vehicle(cap=2, timeout=0.0)],
    "far end": [vehicle(cap=2, d=(50, 0), dl=10.0)],
    "elsewhere": [vehicle(o=(2, 0), d=(3, 0), cap=2), vehicle(o=(1, 0), cap=1, e=2.0)],
    "endless": [vehicle(cap=None), vehicle(cap=None)],
    "short": [vehicle(cap=2, timeout=4.0), vehicle(cap=2, timeout=4.0), vehicle(cap=2, timeout=4.0)],
    "opens late": [vehicle(cap=2, e=1e9)],
    "end opens": [vehicle(cap=2, d=(0, 0), de=20.0, dl=30.0)],
    "mixed": [vehicle(cap=0), vehicle(cap=2, timeout=8.0), vehicle(cap=1, l=2.0)],
}
DEFAULT = {
    "insertion": lambda b, r: jit.InsertionAlgorithm(fleet=b.fleet, job=b.job),
    "insertion again": lambda b, r: jit.InsertionAlgorithm(fleet=b.fleet, job=b.job, initial=r),
    "search": lambda b, r: jit.LocalSearchAlgorithm(r, fleet=b.fleet, job=b.job),
    "sequential": lambda b, r: jit.SequentialAlgorithm(fleet=b.fleet, job=b.job, initial=r),
    "iterative": lambda b, r: jit.IterativeAlgorithm(fleet=b.fleet, job=b.job, episodes=2),
    "kept": lambda b, r: jit.IterativeAlgorithm(fleet=b.fleet, job=b.job, episodes=2, restart_mode=False),
    "grasp": lambda b, r: jit.GraspAlgorithm(fleet=b.fleet, job=b.job, first_solution_kwargs={"episodes": 1}),
    "naive": lambda b, r: jit.NaiveAlgorithm(fleet=b.fleet, job=b.job),
    "narrow": lambda b, r: jit.InsertionAlgorithm(fleet=b.fleet, job=b.job, neighborhood_max_size=1),
    "wide": lambda b, r: jit.InsertionAlgorithm(fleet=b.fleet, job=b.job, neighborhood_max_size=None, randomized_size=99),
    "any": lambda b, r: jit.InsertionAlgorithm(fleet=b.fleet, job=b.job, iterator_cls=jit.BestStatelessInsertionIterator, randomized_size=99),
}


def cases(tier):
    names = list(TRIPS)
    jobs = [()] + [(a,) for a in names] + list(itertools.combinations_with_replacement(names, 2))
    if tier != "quick":
        jobs += list(itertools.combinations(names, 3))
    for n, trips in enumerate(jobs):
        for m, fleet in enumerate(FLEETS):
            if tier == "quick" and len(trips) == 2 and (n + m) % 3:
                continue
            yield dict(trips=trips, fleet=fleet, metric=("euclidean", "manhattan")[(n + m) % 2], objective=("dar", "taxi", "hashcode")[(n + m) % 3],
                       reverse=bool(n % 2), wide=tier != "quick" and len(trips) < 3, turn=n + m)


def run(case, ctx):
    inst = instance([TRIPS[x] for x in case["trips"]], FLEETS[case["fleet"]], case["metric"], case["objective"], case["reverse"])
    if not inst["vehicles"]:
        ctx.outcomes["no vehicles"] += 1
    if not inst["trips"]:
        ctx.outcomes["no trips"] += 1
    if any(t["o"] == t["d"] for t in inst["trips"]):
        ctx.outcomes["same place"] += 1
    if case["fleet"] in ("closed", "none"):
        ctx.outcomes["nobody can work"] += 1
    wide = case["wide"]
    for cfg in solve.BUILD + solve.RANDOMIZED + solve.META:
        execute(ctx, inst, cfg, lambda b, r, cfg=cfg: solve.algorithm(b, cfg), None, 2 if wide else 1)
    for name, make in DEFAULT.items():
        execute(ctx, inst, name, make, (), 1)
        ctx.outcomes["default"] += 1
    size = len(inst["vehicles"])
    starts = [(), ((),) * size, (None,) * size]
    for plan in plans(len(inst["trips"]), min(size, 2)):
        if any(plan) and all(ref.excess(inst, k, v, ref.schedule(inst, k, v)) <= 0 for k, v in enumerate(plan) if v):
            starts.append(plan)
    for n, plan in enumerate(starts):
        for m, cfg in enumerate(solve.IMPROVE):
            if not wide and (n + m + case["turn"]) % 2:
                continue
            execute(ctx, inst, cfg, lambda b, r, cfg=cfg: solve.algorithm(b, cfg, r), plan, 1)
    exact(ctx, inst, case)


def execute(ctx, inst, name, make, plan, bound):
    def once(_):
        built = Built(inst)
        initial = None if plan is None else result_from(built, plan)
        return built, make(built, initial).optimize()

    for _, (built, result) in explore(once, ctx, bound=bound, cap=6):
        info = dict(cfg=name, start=plan and [str(v) for v in plan])
        if not ctx.expect(isinstance(result, jit.Result) and isinstance(result.planning, jit.Planning), "no answer", got=repr(result)[:200], **info):
            return
        judge(ctx, inst, built, result, info)
        ctx.trace("from nothing" if plan is None else "from a plan")


def judge(ctx, inst, built, result, info):
    ours = result.job is built.job and result.fleet is built.fleet
    ctx.expect(ours, "the answer to another job", **info)
    wrong = planning_structure(built, result.planning)
    ctx.expect(not wrong, "the answer is not a plan of the job", wrong=wrong[:4], **info)
    plan = plan_of(built, result.planning)
    done = {i for _, v, _ in plan for _, i in v or ()}
    for k, visits, rows in plan:
        if visits:
            late = ref.problems(inst, k, visits, rows)
            ctx.expect(max([x for _, x in late], default=0) <= 0.02, "an answer that cannot be driven", vehicle=k, late=late[:3], plan=brief(plan), **info)
    if all(visits for _, visits, _ in plan):
        ctx.expect(result.feasible, "an answer that is not feasible", plan=brief(plan), **info)
    ctx.outcomes[f"served:{len(done)}"] += 1
    if not plan:
        ctx.outcomes["no routes"] += 1
    for i, t in enumerate(inst["trips"]):
        room = max([v["cap"] if v["cap"] is not None else INF for v in inst["vehicles"]], default=0)
        hopeless = t["oe"] == INF or t["cap"] > room or (t["ol"] is not None and t["oe"] > t["ol"] + 0.01)
        hopeless = hopeless or (t["timeout"] is not None and t["timeout"] + 0.01 < ref.time(inst, t["o"], t["d"]))
        if hopeless:
            ctx.outcomes["impossible"] += 1
            ctx.expect(i not in done, "a trip that nobody can serve is served", trip=i, plan=brief(plan), **info)
    value = result.optimization_value
    ctx.expect(len(value) == goals.SIZES[inst["objective"]] and all(x == x for x in value), "an answer without value", got=value, **info)
    rate = result.coverage_rate
    ctx.expect(0 <= rate <= 1 and isinstance(result.feasible, bool), "an answer without figures", got=rate, **info)
    ctx.outcomes["value"] += 1
    for formatter in (jit.ColumnarStorerFormatter, jit.HashCodeStorerFormatter):
        text = formatter(result=result).format()
        ctx.expect(isinstance(text, str), "an answer that cannot be written", got=repr(text)[:100], **info)
    ctx.outcomes["text"] += 1
    ctx.state(inst["objective"], str(inst["trips"]), str(inst["vehicles"]), str([(k, v) for k, v, _ in plan]))
    ctx.sample(dict(info, plan=brief(plan)))


def exact(ctx, inst, case):
    """The exact algorithm answers, or says that it cannot."""
    if case["fleet"] not in ("none", "one", "two", "closed", "short", "full") or case["turn"] % 2 or "never" in case["trips"]:
        return
    built = Built(inst)
    try:
        result = jit.MilpAlgorithm(fleet=built.fleet, job=built.job).optimize()
    except jit.JineteException:
        ctx.outcomes["exact refused"] += 1
        ctx.expect(inst["trips"] or case["fleet"] == "closed", "the exact algorithm refuses a job without requests", case=case)
        return
    ctx.outcomes["exact"] += 1
    wrong = planning_structure(built, result.planning)
    ctx.expect(not wrong, "the answer is not a plan of the job", wrong=wrong[:4], case=case)
    ctx.trace()
