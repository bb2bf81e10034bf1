"""C06: improving never makes the objective worse, and repeating keeps the best."""
import itertools

from .. import families as fam
from .. import ref, solve, sweep
from ..env import jit
from ..inst import Built, result_from, sequences
from ..observe import brief, plan_of
from .c01 import MORE, SHAPES

REQUIRED = ("better", "same", "script", "search script", "dar", "taxi", "hashcode")
BOUNDS = {
    "quick": "every feasible start of 2 trips out of 15 shapes and of 3 out of 4 x 3 objectives; every script of 4 episodes/rounds over 3 values",
    "thorough": "starts of 2 trips out of 30 shapes, 3 trips out of 8; scripts of 5 over 4 values",
}
CHUNK = 2
DAR_ONLY = [
    dict(algorithm="sequential"),
    dict(algorithm="sequential", search="one_shift"),
    dict(algorithm="iterative", inner="sequential", episodes=3, restart_mode=False),
    solve.ins(),
    solve.ins(iterator="best", strategy="sampling"),
]
ANY = [
    dict(algorithm="search", search="reallocation"),
    dict(algorithm="search", search="one_shift"),
    dict(algorithm="search", search="two_opt"),
    dict(algorithm="search", search="two_opt", threshold=2),
    dict(algorithm="stages", stages=[["two_opt", {}], ["one_shift", {}], ["reallocation", {}]]),
]


def cases(tier):
    size, values = (4, 3) if tier == "quick" else (5, 4)
    for script in itertools.product(range(values), repeat=size):
        yield dict(mode="script", script=script)
    for threshold in (1, 2, 3):
        for script in itertools.product(range(3), repeat=size):
            yield dict(mode="search script", script=script, threshold=threshold)
    if tier == "quick":
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            yield dict(mode="starts", trips=pair, fleet=("two", "mixed", "later", "away", "hours")[n % 5],
                       metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 2), objective=("dar", "taxi", "hashcode")[n % 3])
        for n, triple in enumerate(fam.pick(3, [SHAPES[i] for i in (0, 1, 7, 11)])):
            yield dict(mode="starts", trips=triple, fleet=("two", "one")[n % 2], metric="euclidean", reverse=bool(n % 2),
                       objective=("dar", "taxi", "hashcode")[n % 3], all=True)
        return
    for objective in ("dar", "taxi", "hashcode"):
        for n, pair in enumerate(fam.pick(2, MORE)):
            for fleet in ("two", "mixed", "later", "away", "hours"):
                yield dict(mode="starts", trips=pair, fleet=fleet, metric="euclidean", reverse=bool(n % 2), objective=objective)
        for triple in fam.pick(3, SHAPES[:8]):
            yield dict(mode="starts", trips=triple, fleet="two", metric="manhattan", reverse=False, objective=objective, all=True)


def value(inst, plan):
    return ref.worth(inst, ref.objective(inst, plan))


def not_worse(before, after, tol=1e-6):
    """Lexicographic, as tuples compare, but for the noise of floating point."""
    for a, b in zip(before, after):
        if b > a + tol:
            return True
        if b < a - tol:
            return False
    return True


def run(case, ctx):
    if case["mode"] == "script":
        return run_script(case, ctx)
    if case["mode"] == "search script":
        return run_search_script(case, ctx)
    inst = sweep.instance_of(case)
    configurations = ANY + (DAR_ONLY if inst["objective"] == "dar" else [])
    for plan in sweep.starts(inst, min(2, len(inst["vehicles"])), all_served=case.get("all", False)):
        # every vehicle has its route from the start: idle vehicles that end elsewhere than they start also drive
        plan = tuple(plan) + ((),) * (len(inst["vehicles"]) - len(plan))
        initial = [(k, v, ref.schedule(inst, k, v)) for k, v in enumerate(plan)]
        before = value(inst, initial)
        for cfg in configurations:
            for x in sweep.improvements(inst, cfg, plan, ctx):
                final = plan_of(x.built, x.planning)
                if any(v is None or isinstance(k, str) for k, v, _ in final):
                    continue
                after = value(inst, final)
                ctx.state(plan, tuple((k, v) for k, v, _ in final))
                ctx.trace(inst["objective"], "better" if after > before else "same")
                ctx.expect(
                    not_worse(before, after), "the result of improving is worse than where it started",
                    cfg=cfg, objective=inst["objective"], before=before, after=after, start=plan, plan=brief(final),
                )
                ctx.sample(dict(cfg=cfg, before=before, after=after, start=plan, plan=brief(final)))


# --- scripted components: every history of outcomes of the episodes (rounds) --------------------------------------



def outcomes(objective="dar"):
    """Results of increasing objective: longer and longer ways of serving the same trip (worse to better)."""
    inst = fam.build([fam.shape("out")], "one", objective=objective)
    built = Built(inst)
    far = [built.surface.get_or_create_position([x, 0]) for x in (9, 7, 5, 3)]
    plannings = []
    for p in far:
        route = jit.Route(built.vehicles[0])
        trip = jit.Trip("0", jit.Service(built.surface.get_or_create_position([1, 0])), jit.Service(p))
        pickup = jit.Stop(route.vehicle, trip.origin_position, route.stops[0])
        delivery = jit.Stop(route.vehicle, trip.destination_position, pickup)
        route.append_planned_trip(jit.PlannedTrip(route.vehicle, trip, pickup, delivery))
        plannings.append(jit.Planning({route}))
    return built, plannings


def run_script(case, ctx):
    """An iterative algorithm whose episodes end as scripted, for every history of outcomes."""
    script = case["script"]
    for restart in (True, False, None):
        built, plannings = outcomes(case.get("objective", "dar"))
        calls = []

        class Scripted(jit.Algorithm):
            def __init__(self, *args, seed=None, initial=None, **kwargs):
                super().__init__(*args, **kwargs)
                calls.append((seed, initial))

            def _optimize(self):
                # a planning of its own for every episode
                return jit.Planning(set(plannings[script[len(calls) - 1]].routes))

        kwargs = {} if restart is None else dict(restart_mode=restart)
        algorithm = jit.IterativeAlgorithm(
            episodes=len(script), algorithm_cls=Scripted, fleet=built.fleet, job=built.job, **kwargs
        )
        result = algorithm.optimize()
        got = result.optimization_value
        values = [built.job.objective.optimization_function(p) for p in plannings]
        best = values[max(script)]
        ctx.step(len(script))
        ctx.state("script", tuple(script), restart)
        ctx.trace("script")
        info = dict(script=script, restart_mode=restart, calls=len(calls), got=got, best=best)
        ctx.expect(got == best, "repeating does not keep the best episode", **info)
        ctx.expect(len(calls) == len(script), "wrong number of episodes", **info)
        ctx.expect(len({seed for seed, _ in calls}) == len(calls), "the episodes draw the same", seeds=[seed for seed, _ in calls], **info)
        for n, (seed, initial) in enumerate(calls):
            if restart is False and n > 0:
                so_far = values[max(script[:n])]
                ctx.expect(
                    initial is not None and initial.optimization_value == so_far,
                    "an episode does not start from the best result so far", episode=n, **info,
                )
            else:
                ctx.expect(initial is None, "an episode that must restart starts from another one", episode=n, **info)
        ctx.sample(info)


def run_search_script(case, ctx):
    """A local search whose rounds end as scripted: it goes on until nothing improves, from the best it has."""
    script = list(case["script"]) + [0] * 12
    threshold = case["threshold"]
    built, plannings = outcomes(case.get("objective", "dar"))
    values = [built.job.objective.optimization_function(p) for p in plannings]
    initial = jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), plannings[1], 0.0)
    received, draws = [], []

    class Scripted(jit.LocalSearchStrategy):
        def __init__(self, result, *args, **kwargs):
            super().__init__(result, *args, **kwargs)
            received.append(result.optimization_value)
            draws.append(self.random.random())

        def _improve(self):
            self.result.planning.routes = set(plannings[script[len(received) - 1]].routes)

    result = jit.LocalSearchAlgorithm(
        initial, no_improvement_threshold=threshold, strategy_cls=Scripted, fleet=built.fleet, job=built.job
    ).optimize()
    best, rounds, idle = 1, 0, 0
    expected = []
    while idle < threshold:
        expected.append(values[best])
        now = script[rounds]
        rounds += 1
        idle = 0 if now > best else idle + 1
        best = max(best, now)
    best = values[best]
    ctx.step(rounds)
    ctx.state("search", tuple(case["script"]), threshold)
    ctx.trace("search script")
    info = dict(script=case["script"], threshold=threshold, received=received, expected=expected)
    ctx.expect(result.optimization_value == best, "the search does not keep its best round", got=result.optimization_value, best=best, **info)
    ctx.expect(len(set(draws)) == len(draws), "the rounds of the search draw the same", draws=draws, **info)
    ctx.expect(received == expected, "the rounds of the search do not start from the best, or end at the wrong time", **info)
    ctx.expect(initial.optimization_value == values[1], "the initial result changed", **info)
