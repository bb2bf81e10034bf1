"""C32: runs at the same time, over the same instance or the same starting result, do not disturb one another."""
import pathlib
import tempfile

from .. import families as fam
from .. import interleave, solve, sweep
from ..env import Order, jit
from ..inst import Built, result_from
from ..observe import planning_view
from .c01 import SHAPES
from .c07 import view

REQUIRED = ("construction", "improvement", "observer", "randomized", "pipeline", "same kind", "different kind", "moment")
BOUNDS = {
    "quick": "2 runs over one instance of 2-3 trips, one preemption: before the first and last execution of every line of the first run; half of 53 pairs of 16 algorithms, 3 observers and the whole pipeline on each of 2 instances; 5 of the pairs before every line",
    "thorough": "before the first 3 and the last execution of every line, every pair, 6 instances; on 3 of them before every line executed by the insertion, the local searches and the observers",
}
ASSUMPTIONS = ["a run is interrupted between lines of the library, once, by a run that ends before it goes on"]
CHUNK = 1

COLD = {
    "greedy": solve.ins(),
    "sampled": solve.ins(strategy="sampling", criterion="shortest"),
    "tail": solve.ins(strategy="tail", criterion="util"),
    "best": solve.ins(iterator="best", criterion="average"),
    "stateless": solve.ins(iterator="stateless"),
    "drawn": solve.ins(randomized_size=2),
    "drawn again": solve.ins(iterator="best", strategy="sampling", randomized_size=3, seed=7),
    "iterative": dict(algorithm="iterative", episodes=2, randomized_size=2),
    "kept": dict(algorithm="iterative", episodes=2, restart_mode=False),
    "grasp": dict(algorithm="grasp", first=dict(episodes=1, randomized_size=2), search="two_opt"),
}
WARM = {
    "reallocation": dict(algorithm="search", search="reallocation"),
    "one_shift": dict(algorithm="search", search="one_shift"),
    "two_opt": dict(algorithm="search", search="two_opt"),
    "sequential": dict(algorithm="sequential", search="two_opt"),
    "insertion": solve.ins(),
    "tail again": solve.ins(iterator="best", strategy="tail"),
}
OBSERVERS = ("view", "text", "copy")
PAIRS = [(a, a) for a in COLD if a != "grasp"] + [(a, a) for a in WARM] + [
    ("greedy", "drawn"), ("drawn", "drawn again"), ("iterative", "drawn"), ("reallocation", "two_opt"), ("two_opt", "one_shift"), ("one_shift", "insertion"),
    ("insertion", "reallocation"), ("sequential", "insertion"), ("reallocation", "greedy"), ("greedy", "sequential"), ("grasp", "drawn"), ("drawn", "grasp"), ("solver", "solver"), ("solver", "drawn"), ("drawn", "solver"),
] + [(a, o) for a in ("reallocation", "one_shift", "two_opt", "insertion", "greedy") for o in OBSERVERS] + [(o, a) for a in ("two_opt", "insertion") for o in OBSERVERS] + [("copy", "view"), ("copy", "insertion")]
EXACT = ("greedy", "insertion", "reallocation", "one_shift", "two_opt", "best", "view", "text", "copy")
INSTANCE = """2 4 480 3 90
0 0 0 0 0 0 480
1 1 0 1 1 0 40
2 3 1 1 2 5 60
3 4 0 1 -1 0 100
4 1 2 1 -2 0 90
5 0 0 0 0 0 480
"""
EVERY = [("two_opt", "view"), ("insertion", "view"), ("copy", "insertion"), ("copy", "view"), ("view", "two_opt")]
PARTS = 4


def cases(tier):
    jobs = [
        dict(trips=[SHAPES[0], SHAPES[3]], fleet="two", objective="dar"),
        dict(trips=[SHAPES[1], SHAPES[7], SHAPES[0]], fleet="mixed", objective="hashcode"),
        dict(trips=[SHAPES[2], SHAPES[4]], fleet="later", objective="taxi"),
        dict(trips=[SHAPES[8], SHAPES[11]], fleet="away", objective="dar"),
        dict(trips=[SHAPES[13], SHAPES[0]], fleet="hours", objective="hashcode"),
        dict(trips=[SHAPES[7], SHAPES[8]], fleet="pair", objective="dar"),
    ]
    for n, job in enumerate(jobs[:2] if tier == "quick" else jobs):
        for m, (first, second) in enumerate(PAIRS):
            short = first in EXACT and second in EXACT
            if tier == "quick":
                if first == "grasp" or (n + m) % 2 and (first, second) not in EVERY:
                    continue
                each = None if n == 0 and (first, second) in EVERY else 1
            else:
                each = None if short and n < 3 else 3
            asked = (n + m) % 2 == 0 or (first, second) in EVERY
            parts = PARTS if tier == "quick" else 4 * PARTS
            for part in range(parts):
                yield dict(job, metric=("euclidean", "manhattan")[n % 2], first=first, second=second, each=each, part=part, parts=parts, asked=asked)


def start_of(inst):
    """A plan that can be improved: the feasible one of the most requests whose value is the worst."""
    best = None
    for plan in sweep.starts(inst, min(2, len(inst["vehicles"]))):
        built = Built(inst)
        result = result_from(built, plan)
        if not result.feasible:
            continue
        key = (sum(map(len, plan)), tuple(-x for x in result.optimization_value))
        if best is None or key > best[0]:
            best = (key, plan)
    return best[1]


def setup(inst, plan, asked, folder):
    Order.reset()
    built = Built(inst)
    built.folder = folder
    initial = result_from(built, plan)
    for group in (built.trips, built.vehicles):
        for x in group:
            hash(x)
    for route in sorted(initial.routes, key=lambda r: r.vehicle.identifier):
        hash(route)
        for stop in route.stops:
            hash(stop)
            for planned_trip in sorted(stop.planned_trips, key=lambda pt: pt.trip_identifier):
                hash(planned_trip)
    if asked:  # some of its figures are known already, and kept
        for route in initial.routes:
            route.last_departure_time
    return built, initial


def runner(name, built, initial):
    """What the run does, and what a user sees of its answer."""
    if name == "view":
        return lambda: view(built, initial)
    if name == "text":
        return lambda: [cls(result=initial).format().replace(str(initial.planning_uuid), "") for cls in (jit.ColumnarStorerFormatter, jit.HashCodeStorerFormatter)]
    if name == "copy":
        from copy import deepcopy

        return lambda: (lambda r: (len(r.planning.routes), bool(r.feasible), r.optimization_value))(deepcopy(initial))
    if name == "solver":
        if not hasattr(built, "solver"):  # the same one for both
            path, built.out = pathlib.Path(built.folder) / "instance", pathlib.Path(built.folder) / "out"
            path.write_text(INSTANCE)
            built.solver = jit.Solver(algorithm=jit.InsertionAlgorithm, algorithm_kwargs=dict(randomized_size=2, seed=3), loader_kwargs=dict(file_path=path),
                                      storer=jit.FileStorer, storer_kwargs=dict(file_path=built.out, formatter_cls=jit.HashCodeStorerFormatter))

        def solve_file():
            result = built.solver.solve()
            routes = sorted((route.vehicle.identifier, [stop.identifier for stop in route.stops]) for route in result.routes)
            return routes, result.optimization_value, bool(result.feasible), sorted(trip.identifier for trip in result.completed_trips), built.out.read_text()

        return solve_file
    cfg = COLD.get(name) or WARM[name]

    def run():
        result = solve.algorithm(built, cfg, initial if name in WARM else None).optimize()
        return planning_view(built, result.planning), tuple(round(x, 9) for x in result.optimization_value), bool(result.feasible)

    return run


def run(case, ctx):
    with tempfile.TemporaryDirectory() as folder:
        explore(case, ctx, folder)


def explore(case, ctx, folder):
    inst = sweep.instance_of(case)
    plan = start_of(inst)
    asked = case["asked"]
    first, second = case["first"], case["second"]
    alone = {}
    for name in (first, second):
        built, initial = setup(inst, plan, asked, folder)
        alone[name] = interleave.attempt(runner(name, built, initial))
        built, initial = setup(inst, plan, asked, folder)
        ctx.expect(interleave.attempt(runner(name, built, initial)) == alone[name], "a run does not repeat itself", run=name)
        ctx.expect(alone[name][0] == "answer", "a run fails", run=name, got=alone[name][1])
    before = view(*setup(inst, plan, asked, folder))
    built, initial = setup(inst, plan, asked, folder)
    seen, _ = interleave.steps(runner(first, built, initial))
    moments = interleave.points(seen, case["each"])[case["part"]::case["parts"]]
    for point in moments:
        built, initial = setup(inst, plan, asked, folder)
        one, two, _ = interleave.interleave(runner(first, built, initial), runner(second, built, initial), point)
        where = dict(interrupted=first, by=second, at=f"{seen[point][0].co_name}, step {point} of {len(seen)}", start=plan)
        ctx.expect(one == alone[first], "a run answers something else when another one happens meanwhile", got=one, alone=alone[first], **where)
        ctx.expect(two == alone[second], "a run answers something else in the middle of another one", got=two, alone=alone[second], **where)
        after = view(built, initial)
        ctx.expect(after == before, "two runs at the same time change what they were given", **where)
        ctx.trace("moment", "construction" if first in COLD else "improvement" if first in WARM else "pipeline" if first == "solver" else "observer",
                  "same kind" if first == second else "different kind")
        if second in OBSERVERS:
            ctx.outcomes["observer"] += 1
        if "drawn" in first or "iterative" in first:
            ctx.outcomes["randomized"] += 1
        ctx.state(first, second, inst["objective"], point)
        ctx.step()
    ctx.sample(dict(first=first, second=second, moments=len(moments), steps=len(seen)))
