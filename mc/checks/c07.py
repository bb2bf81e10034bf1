"""C07: nothing an algorithm is given is changed by running it."""
from .. import families as fam
from .. import ref, solve, sweep
from ..env import jit
from ..inst import Built, result_from
from ..observe import planning_structure, planning_view
from .c01 import MORE, SHAPES

REQUIRED = ("kept", "result differs", "cold", "warm", "shared input", "routes given", "strategy")
BOUNDS = {
    "quick": "every feasible start of 2 trips out of 15 shapes x 13 algorithms, read before or only after; chains of two on one input",
    "thorough": "2 trips out of 30 shapes, 3 trips out of 7, 5 fleets, 3 objectives",
}
CHUNK = 2
CONFIGS = solve.IMPROVE + [
    solve.ins(iterator="stateless"),
    solve.ins(strategy="sampling", randomized_size=2),
    dict(algorithm="iterative", inner="sequential", episodes=2, restart_mode=False),
    dict(algorithm="iterative", episodes=2, restart_mode=True, iterator="ranking", strategy="intensive"),
    dict(algorithm="search", search="reallocation", threshold=2),
]


def cases(tier):
    if tier == "quick":
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            yield dict(trips=pair, fleet=("two", "later", "mixed", "away", "hours")[n % 5], metric=("euclidean", "manhattan")[n % 2],
                       reverse=bool(n % 2), objective=("dar", "dar", "hashcode", "taxi")[n % 4])
        return
    for objective in ("dar", "hashcode", "taxi"):
        for n, pair in enumerate(fam.pick(2, MORE)):
            for fleet in ("two", "mixed", "away"):
                yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=bool(n % 2), objective=objective)
        for triple in fam.pick(3, SHAPES[:7]):
            yield dict(trips=triple, fleet="two", metric="euclidean", reverse=False, objective=objective)


def view(built, result):
    return (
        planning_view(built, result.planning),
        bool(result.feasible),
        tuple(round(x, 6) for x in result.optimization_value),
        tuple(planning_structure(built, result.planning)),
        inputs(built, result),
    )


def inputs(built, result):
    trips = tuple(
        (i, t.capacity, t.timeout, t.on_time_bonus, tuple(t.origin_position.coordinates), t.origin_earliest, t.origin_latest,
         t.origin_duration, tuple(t.destination_position.coordinates), t.destination_earliest, t.destination_latest,
         t.destination_duration, t in result.trips)
        for i, t in enumerate(built.trips)
    )
    vehicles = tuple(
        (k, v.capacity, v.timeout, tuple(v.origin_position.coordinates), v.origin_earliest, v.origin_latest,
         tuple(v.destination_position.coordinates), v.destination_earliest, v.destination_latest, v in result.vehicles)
        for k, v in enumerate(built.vehicles)
    )
    return trips, vehicles, len(result.trips), len(result.vehicles)


def run(case, ctx):
    inst = sweep.instance_of(case)
    for n, plan in enumerate(sweep.starts(inst, min(2, len(inst["vehicles"])))):
        fresh = Built(inst)
        expected = view(fresh, result_from(fresh, plan))
        for m, cfg in enumerate(CONFIGS):
            warm = bool((n + m) % 2)

            def before(built, initial, warm=warm):
                return view(built, initial) if warm else None

            for x in sweep.improvements(inst, cfg, plan, ctx, before=before):
                after = view(x.built, x.initial)
                check(ctx, expected, after, cfg, plan)
                ctx.trace("warm" if warm else "cold")
                if planning_view(x.built, x.planning) != after[0]:
                    ctx.outcomes["result differs"] += 1
                other = CONFIGS[(m + n) % len(CONFIGS)]
                if n % 3 == 0:
                    # another algorithm on the same input
                    second = solve.algorithm(x.built, other, x.initial).optimize()
                    ctx.step()
                    final = planning_view(x.built, x.planning)
                    check(ctx, expected, view(x.built, x.initial), [cfg, other], plan)
                    second = planning_view(x.built, second.planning)
                    # ... whose run changes neither the input nor the first result
                    ctx.expect(planning_view(x.built, x.planning) == final, "a later run changed an earlier result", cfg=[cfg, other], start=plan)
                    ctx.trace("shared input")
                    ctx.state(plan, m, second)
                ctx.state(plan, m, final_key(after))
        # strategies and keyword routes
        for name, cls in solve.SEARCHES.items():
            built = Built(inst)
            initial = result_from(built, plan)
            improved = cls(initial).improve()
            ctx.step()
            check(ctx, expected, view(built, initial), f"strategy {name}", plan)
            ctx.expect(improved is not initial, "a strategy that copies answers its input", cfg=name, start=plan)
            ctx.trace("strategy")
            built = Built(inst)
            initial = result_from(built, plan)
            again = cls(initial, with_copy=False).improve()
            ctx.step()
            ctx.expect(again is initial, "a strategy that does not copy answers something else", cfg=name, start=plan)
            ctx.expect(ref.close_all(again.optimization_value, improved.optimization_value),
                       "a strategy that does not copy answers another plan", cfg=name, start=plan)
        built = Built(inst)
        initial = result_from(built, plan)
        jit.InsertionAlgorithm(fleet=built.fleet, job=built.job, routes=initial.routes,
                               strategy_cls=jit.IntensiveInsertionStrategy).optimize()
        check(ctx, expected, view(built, initial), "routes", plan)
        ctx.trace("routes given")
        ctx.sample(dict(start=plan, view=expected[0]))


def final_key(v):
    return v[0]


def check(ctx, expected, after, cfg, plan):
    ctx.outcomes["kept"] += 1
    if after == expected:
        return
    which = [name for name, a, b in zip(("routes", "verdict", "value", "structure", "inputs"), expected, after) if a != b]
    ctx.violate("an algorithm changed its input", cfg=cfg, start=plan, changed=which, before=expected[:4], after=after[:4])
