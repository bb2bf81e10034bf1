"""C19: the seed, and nothing else, decides what a randomized algorithm does."""
import itertools
import json
import os
import subprocess
import sys

from .. import families as fam
from .. import ref, solve, sweep
from ..env import Rng, jit
from ..inst import Built, result_from
from ..observe import planning_view
from .c01 import SHAPES

REQUIRED = ("repeated", "interleaved", "no global generator", "seeded", "other seed", "several answers", "episodes", "process", "insertion", "grasp",
            "iterative", "search", "sequential", "position of the episode", "long")
BOUNDS = {
    "quick": "2-3 trips out of 8 shapes x 12 randomized configurations x 6 seeds, repeated and interleaved; routes of 18-34 stops, of which only some places are sampled; every seed up to 30 x 1-5 episodes; 4 hash seeds",
    "thorough": "3 trips out of 15 shapes x 12 configurations x 20 seeds; every seed up to 200; 12 hash seeds",
}
ASSUMPTIONS = ["the order in which the sets of the instance are iterated is the same in the compared runs (it follows memory addresses otherwise)"]
CHUNK = 2
SOME = [SHAPES[i] for i in (0, 1, 3, 4, 6, 7, 8, 11)]
FLEETS = ("two", "later", "away", "hours")


def configurations(seed):
    """Everything that accepts a seed, randomized."""
    size = dict(randomized_size=3)
    return [
        dict(solve.ins(**size), seed=seed),
        dict(solve.ins(iterator="best", strategy="sampling", **size), seed=seed),
        dict(solve.ins(strategy="sampling", criterion="shortest", **size), seed=seed),
        dict(kind="iterative", seed=seed, kwargs=dict(episodes=2, **size)),
        dict(kind="iterative", seed=seed, kwargs=dict(episodes=3, restart_mode=False, inner=True)),
        dict(kind="grasp", seed=seed, first=dict(episodes=1, **size)),
        dict(kind="grasp", seed=seed, first=dict(episodes=2, **size)),
        dict(kind="sequential", seed=seed),
        dict(kind="sequential", seed=seed, stages=True),
        dict(kind="search", seed=seed, search="reallocation"),
        dict(kind="search", seed=seed, search="one_shift"),
        dict(kind="search", seed=seed, search="two_opt"),
    ]


def build(built, cfg, start):
    base = dict(fleet=built.fleet, job=built.job)
    kind = cfg.get("kind", "insertion")
    seed = cfg["seed"]
    if kind == "insertion":
        return solve.algorithm(built, cfg)
    if kind == "iterative":
        kwargs = dict(cfg["kwargs"])
        if kwargs.pop("inner", False):
            kwargs.update(algorithm_cls=jit.SequentialAlgorithm, initial=result_from(built, start))
            # a kept initial result is only for the first episode: the others start from the best one
            return jit.IterativeAlgorithm(seed=seed, **kwargs, **base)
        return jit.IterativeAlgorithm(seed=seed, **kwargs, **base)
    if kind == "grasp":
        return jit.GraspAlgorithm(seed=seed, first_solution_kwargs=dict(cfg["first"]), **base)
    if kind == "sequential":
        kwargs = {}
        if cfg.get("stages"):
            kwargs["algorithms_cls"] = [
                (jit.InsertionAlgorithm, dict(randomized_size=3)),
                (jit.LocalSearchAlgorithm, {}),
                (jit.InsertionAlgorithm, dict(randomized_size=2)),
            ]
        return jit.SequentialAlgorithm(initial=result_from(built, start), seed=seed, **kwargs, **base)
    return jit.LocalSearchAlgorithm(result_from(built, start), strategy_cls=solve.SEARCHES[cfg["search"]], seed=seed, **base)


def kind_of(cfg):
    return cfg.get("kind", "insertion")


def cases(tier):
    n = 0
    shapes = SOME if tier == "quick" else SHAPES
    for size in (2, 3):
        for group in fam.pick(size, shapes):
            n += 1
            if size == 3 and n % (4 if tier == "quick" else 6):
                continue
            yield dict(mode="runs", trips=group, fleet=FLEETS[n % 4], metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 3 == 0),
                       seeds=6 if tier == "quick" else 20)
    yield dict(mode="several", trips=[SOME[0], SOME[1], SOME[5]], fleet="two", metric="euclidean")
    yield dict(mode="several", trips=[SOME[0], SOME[7], SOME[7]], fleet="two", metric="euclidean")
    for low in range(0, 30 if tier == "quick" else 200, 10):
        yield dict(mode="episodes", low=low)
    for requests in (8, 10, 16) if tier == "quick" else (8, 9, 10, 12, 16, 24):
        for m in range(3):
            yield dict(mode="long", requests=requests, m=m)
    for m in range(4 if tier == "quick" else 12):
        yield dict(mode="process", hashing=m)


def once(inst, cfg, start):
    built = Built(inst)
    calls = Rng.global_calls
    Rng.seeds = seeds = []
    try:
        planning = build(built, cfg, start).optimize().planning
    finally:
        Rng.seeds = None
    return planning_view(built, planning), tuple(seeds), Rng.global_calls - calls


def run(case, ctx):
    {"runs": runs, "several": several, "episodes": episodes, "process": process, "long": long}[case["mode"]](case, ctx)


def start_of(inst):
    """A plan to improve: everything driven by the first vehicle, one by one, or as much as fits."""
    best = ()
    for plan in sweep.starts(inst, 2):
        if plan[1] == () and len(plan[0]) > len(best):
            best = plan[0]
    return (best, ())


def runs(case, ctx):
    inst = sweep.instance_of(case)
    start = start_of(inst)
    seen = {}
    seeds = range(case["seeds"])
    order = [(seed, m) for seed in seeds for m in range(len(configurations(0)))]
    for turn in (order, order[::-1]):  # the second time around, every run comes after others than the first one
        for seed, m in turn:
            cfg = configurations(seed)[m]
            view, used, calls = once(inst, cfg, start)
            info = dict(cfg=cfg, trips=inst["trips"])
            ctx.step()
            ctx.state(case["fleet"], str(case["trips"]), m, seed)
            ctx.expect(calls == 0, "the generator of the process is used", calls=calls, **info)
            ctx.expect(None not in used, "a generator is built without a seed", used=used[:6], **info)
            ctx.trace("no global generator", kind_of(cfg))
            if (seed, m) in seen:
                ctx.expect(seen[seed, m][0] == view, "the same seed gives another solution", first=seen[seed, m][0], second=view, **info)
                ctx.expect(seen[seed, m][1] == used, "the same seed feeds the generators otherwise", **info)
                ctx.trace("repeated", "interleaved")
            seen[seed, m] = view, used
    for m in (0, 1, 2, 3, 4, 5, 6, 8, 9):  # those whose decisions are drawn
        used = [seen[seed, m][1] for seed in seeds]
        ctx.expect(len(set(used)) == len(used), "another seed feeds the same generators", cfg=configurations(0)[m], used=used[:2])
        ctx.trace("seeded", "other seed")
    ctx.sample(dict(cfg=configurations(1)[5], seeds_of_the_generators=list(seen[1, 5][1])[:8]))


def several(case, ctx):
    """Among many seeds, the randomized insertions reach more than one solution."""
    inst = sweep.instance_of(case)
    for m in (0, 1, 2, 3):
        views = set()
        for seed in range(40):
            view, _, _ = once(inst, configurations(seed)[m], None)
            views.add(view)
            ctx.step()
        ctx.state(m, str(case["trips"]))
        ctx.expect(len(views) > 1, "no seed changes anything", cfg=configurations(0)[m])
        ctx.trace("several answers")


def long(case, ctx):
    """Routes with more places for a trip than those that are sampled, with and without giving the seed."""
    n, m = case["requests"], case["m"]
    trips = [fam.trip((i * 7 % 11, i * 5 % 7), (i * 3 % 13, i * 4 % 9)) for i in range(n + 2)]
    inst = fam.build(trips, [fam.vehicle(cap=3), fam.vehicle(cap=3)], "euclidean", "dar")
    visits = tuple(x for i in range(n) for x in (("P", i), ("D", i)))
    start = (visits, ())
    seen = {}
    kinds = [
        lambda built, kw: solve.algorithm(built, dict(solve.ins(strategy="sampling", criterion=("earliest", "shortest", "average")[m]), **kw),
                                          result_from(built, start)),
        lambda built, kw: jit.InsertionAlgorithm(fleet=built.fleet, job=built.job, routes=result_from(built, start).routes, **kw),
        lambda built, kw: jit.SequentialAlgorithm(initial=result_from(built, start), fleet=built.fleet, job=built.job, **kw),
    ]

    def note(key, value):
        ctx.step()
        ctx.state(n, m, key, value)
        if key in seen:
            ctx.expect(seen[key] == value, "a run on long routes gives something else the second time", run=key, first=str(seen[key])[:300], second=str(value)[:300])
            ctx.trace("repeated", "long")
        seen.setdefault(key, value)

    for turn in range(3):
        for seed in (None, 0, 1, 56, None):
            kw = {} if seed is None else {"seed": seed}
            for count in (1, 4, 20, None):
                built = Built(inst)
                route = next(r for r in result_from(built, start).routes if r.loaded)
                strategy = jit.SamplingInsertionStrategy(**kw)
                many = {} if count is None else {"count": count}
                ways = tuple(
                    tuple(tuple(s.identifier for s in way.stops) for way in strategy.compute(route, built.trips[n + extra], **many)) for extra in (0, 1)
                )
                note(("strategy", seed, count), ways)
            if turn < 2 and n <= 10:
                built = Built(inst)
                note((m, seed), planning_view(built, kinds[m](built, kw).optimize().planning))
    some = [seen["strategy", seed, 4] for seed in (0, 1, 56)]
    ctx.expect(len(set(some)) > 1, "no seed changes what is sampled", ways=str(some)[:300])
    ctx.trace("other seed")


def episodes(case, ctx):
    """What the repeating algorithms give to each one of their episodes."""
    inst = sweep.instance_of(dict(trips=[SOME[0]], fleet="one", metric="euclidean"))
    for seed, count in itertools.product(range(case["low"], case["low"] + 10), range(1, 6)):
        given = []
        for _ in range(2):
            built = Built(inst)
            got = []

            class Asked(jit.Algorithm):
                def __init__(self, *args, seed=None, **kwargs):
                    super().__init__(*args, **kwargs)
                    got.append(seed)

                def _optimize(self):
                    return jit.Planning(set(jit.Route(v) for v in built.vehicles))

            jit.IterativeAlgorithm(episodes=count, algorithm_cls=Asked, seed=seed, fleet=built.fleet, job=built.job).optimize()
            given.append(tuple(got))
            ctx.step(count)
        info = dict(seed=seed, episodes=count, given=given)
        ctx.state(seed, count)
        ctx.expect(given[0] == given[1], "the episodes do not receive the same seeds again", **info)
        ctx.expect(len(given[0]) == count and len(set(given[0])) == count and None not in given[0], "the episodes do not receive a seed of their own", **info)
        ctx.trace("episodes")
        # stages of a sequence
        stages = []
        for _ in range(2):
            built = Built(inst)
            got = []

            class Stage(jit.Algorithm):
                def __init__(self, *args, seed=None, initial=None, **kwargs):
                    super().__init__(*args, **kwargs)
                    got.append(seed)

                def _optimize(self):
                    return jit.Planning(set(jit.Route(v) for v in built.vehicles))

            jit.SequentialAlgorithm(algorithms_cls=[(Stage, {})] * count, seed=seed, fleet=built.fleet, job=built.job).optimize()
            stages.append(tuple(got))
        ctx.expect(stages[0] == stages[1] and len(set(stages[0])) == count and None not in stages[0],
                   "the stages do not receive a seed of their own", stages=stages, **info)
        ctx.trace("position of the episode")


SCRIPT = """
import json, sys
from mc import sweep
from mc.checks import c19
case = json.loads(sys.argv[1])
inst = sweep.instance_of(case)
start = c19.start_of(inst)
for seed in (1, 2):
    for cfg in c19.configurations(seed):
        view, used, calls = c19.once(inst, cfg, start)
        print(json.dumps([view, used, calls]))
"""


def process(case, ctx):
    """Another process, with another hashing of strings."""
    data = dict(trips=[SOME[0], SOME[1], SOME[5]], fleet="two", metric="euclidean")
    inst = sweep.instance_of(data)
    start = start_of(inst)
    want = [once(inst, cfg, start) for seed in (1, 2) for cfg in configurations(seed)]
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = subprocess.run(
        [sys.executable, "-c", SCRIPT, json.dumps(data)], cwd=root, capture_output=True, text=True, timeout=300,
        env=dict(os.environ, PYTHONHASHSEED=str(case["hashing"] * 17), TZ=("UTC", "Asia/Tokyo")[case["hashing"] % 2]),
    )
    if out.returncode:
        raise RuntimeError(out.stderr[-1500:])
    got = [json.loads(line) for line in out.stdout.splitlines()]
    for a, b in zip(got, want):
        ctx.step()
        ctx.expect(json.dumps(a) == json.dumps(b), "another process gives another solution", first=a, second=json.loads(json.dumps(b)))
        ctx.trace("process")
    ctx.expect(len(got) == len(want), "another process does not end")
    ctx.state("process", case["hashing"])
