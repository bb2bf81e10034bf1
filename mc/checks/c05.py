"""C05: starting from a plan never drops a request it served, and a plan that can be driven stays so."""
import itertools

from .. import families as fam
from .. import ref, solve, sweep
from ..env import BOUND
from ..observe import brief, plan_of, served
from .c01 import MORE, SHAPES

REQUIRED = ("kept:0", "kept:2", "kept:3", "gained", "vehicles added", "snug", "fragile")
BOUNDS = {
    "quick": "every feasible start of 2 trips out of 15 shapes on 2 of up to 3 vehicles, and of 3 trips out of 4; again with vehicles whose limits are exactly what the start needs; 14 improvers; 3 trips of which one holds back the others",
    "thorough": "2 trips out of 30 shapes on 6 fleets, 3 trips out of 9, both set orders",
}
CHUNK = 2
CONFIGS = solve.IMPROVE + [
    solve.ins(strategy="sampling", criterion="longest"),
    solve.ins(iterator="stateless"),
    dict(algorithm="iterative", inner="sequential", episodes=2, restart_mode=False),
    dict(algorithm="iterative", episodes=2, restart_mode=False, iterator="ranking", strategy="tail"),
    dict(algorithm="search", search="two_opt", threshold=2),
    dict(algorithm="stages", stages=[["insertion", {}], ["reallocation", {}], ["one_shift", {}]]),
]


# a ride that is limited, a pickup that opens late and something before both
FRAGILE = [
    (a, b, c)
    for a in (("out", "ride", "none"), ("out", "strict", "none"), ("diag", "ride", "none"), ("same", "strict", "none"))
    for b in (("out", "late", "none"), ("back", "late", "both"), ("diag", "late", "none"), ("same", "late", "both"))
    for c in (("diag", "free", "drop"), ("depot", "free", "pick"), ("same", "free", "none"), ("out", "free", "none"))
]


def fragile(inst, plan):
    """Is there a request whose vehicle cannot drive the rest of its visits without it (as soon as possible)?"""
    for k, visits in enumerate(plan):
        for i in {i for _, i in visits}:
            rest = tuple(x for x in visits if x[1] != i)
            if ref.excess(inst, k, rest, ref.schedule(inst, k, rest)) > 4 * BOUND:
                return True
    return False


def cases(tier):
    for n, triple in enumerate(FRAGILE):
        for m, fleet in enumerate(("ends", "mixed") if tier == "quick" else ("ends", "mixed", "two", "later")):
            yield dict(trips=triple, fleet=fleet, metric="euclidean" if tier == "quick" else ("euclidean", "manhattan")[m % 2],
                       reverse=bool(n % 2), objective="dar", fragile=True)
    if tier == "quick":
        for n, pair in enumerate(fam.pick(2, SHAPES)):
            yield dict(trips=pair, fleet=("mixed", "two", "hours", "later", "away")[n % 5],
                       metric=("euclidean", "manhattan")[n % 2], reverse=bool(n % 2),
                       objective=("dar", "taxi", "hashcode")[n % 3])
        for n, triple in enumerate(fam.pick(3, [SHAPES[0], SHAPES[1], SHAPES[7], SHAPES[8]])):
            yield dict(trips=triple, fleet=("two", "pair")[n % 2], metric="euclidean", reverse=False, few=True,
                       objective=("dar", "dar", "taxi", "hashcode")[n % 4])
        return
    for pair in fam.pick(2, MORE):
        for fleet in ("mixed", "two", "hours", "later", "away", "pair"):
            for objective in ("dar", "hashcode"):
                yield dict(trips=pair, fleet=fleet, metric="euclidean", reverse=True, objective=objective)
    for triple in fam.pick(3, [SHAPES[i] for i in (0, 1, 3, 4, 6, 7, 8, 11, 12)]):
        for objective in ("dar", "taxi"):
            yield dict(trips=triple, fleet="mixed", metric="euclidean", reverse=False, objective=objective)


def run(case, ctx):
    base = sweep.instance_of(case)
    for turn, plan in itertools.product((0, 1), sweep.starts(base, min(2, len(base["vehicles"])), case.get("fragile", False))):
        if turn and not any(plan):
            continue
        if case.get("fragile"):
            if turn or not fragile(base, plan):
                continue
            ctx.outcomes["fragile"] += 1
        inst = sweep.snug(base, plan) if turn else base
        before = sorted(str(i) for visits in plan for kind, i in visits if kind == "P")
        for n, cfg in enumerate(CONFIGS):
            if case.get("few") and cfg["algorithm"] not in ("search", "sequential"):
                continue
            for x in sweep.improvements(inst, cfg, plan, ctx, given=n % 2 == 1):
                after = served(x.built, x.planning)
                ctx.state(plan, n, turn, tuple(after))
                ctx.outcomes["snug"] += turn
                ctx.trace(f"kept:{len(before)}", "gained" if len(after) > len(before) else "same")
                if len(x.planning.routes) > sum(1 for v in plan if v):
                    ctx.outcomes["vehicles added"] += 1
                ctx.expect(
                    set(before) <= set(after), "a request served by the initial plan is dropped",
                    cfg=cfg, start=plan, before=before, after=after, plan=brief(plan_of(x.built, x.planning)),
                )
                final = plan_of(x.built, x.planning)
                late = [(k, ref.problems(inst, k, v, rows)) for k, v, rows in final if v is not None and ref.excess(inst, k, v, rows) > 4 * BOUND]
                ctx.expect(x.result.feasible and not late, "a plan that can be driven becomes one that cannot", cfg=cfg, start=plan,
                           plan=brief(final), problems=late)
                ctx.sample(dict(cfg=cfg, start=plan, after=after))
