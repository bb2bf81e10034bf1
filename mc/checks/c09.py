"""C09: the copy of a route is equal to it, and what is done to either does not reach the other."""
import itertools

from .. import families as fam
from .. import ref
from ..env import jit
from ..inst import Built, append, route_from, sequences
from ..observe import answers, differences, route_view, structure, visits_of
from .c01 import MORE, SHAPES
from .c23 import edits

REQUIRED = ("equal", "edit copy", "edit original", "partial", "shared tail", "second copy")
BOUNDS = {
    "quick": "every route of 0-2 trips out of 5 shapes, copied from every stop, plain and held; every pair (single) of edits of either side",
    "thorough": "every route of 0-3 trips out of 15 shapes, triples of edits",
}
ASSUMPTIONS = ["a copy taken from a stop onwards shares the stops before it: only edits from that stop on are made"]
CHUNK = 4


def cases(tier):
    shapes = [SHAPES[i] for i in (0, 1, 4, 6, 8)] if tier == "quick" else SHAPES
    n = 0
    for size in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for trips in fam.pick(size, shapes if size < 3 else shapes[:6]):
            for extra in (shapes[0], shapes[3]):
                n += 1
                if size == 3 and n % 2:
                    continue
                yield dict(trips=list(trips) + [extra], fleet=("two", "away", "later")[n % 3],
                           metric=("euclidean", "manhattan")[n % 2], depth=2 if tier == "quick" or size > 2 else 3)


def run(case, ctx):
    from .. import sweep

    inst = sweep.instance_of(case)
    n = len(inst["trips"]) - 1
    for m, visits in enumerate(sequences(range(n))):
        rows = ref.schedule(inst, 0, visits)
        holds = [None]
        if n:
            held = [None] * len(rows)
            held[0], held[-2] = rows[0][1] + 0.5, rows[-2][1] + 1.25
            holds.append(held)
        for held in holds:
            for idx in [None] + list(range(len(rows))):
                one(ctx, inst, visits, held, idx, n, case["depth"] if m == 0 else min(1, case["depth"]))


def one(ctx, inst, visits, held, idx, new, depth):
    def make(warm=True):
        built = Built(inst)
        route = route_from(built, 0, visits, held)
        if warm:
            route_view(built, route), route.feasible
        return built, route

    def clone(route):
        return route.clone() if idx is None else route.clone(idx)

    info = dict(visits=" ".join(f"{a}{b}" for a, b in visits), held=held, idx=idx, trips=inst["trips"])
    built, route = make(False)
    copy = clone(route)
    view = route_view(built, route)
    ctx.step()
    ctx.trace("equal", "partial" if idx else "whole")
    ctx.expect(route_view(built, copy) == view, "a copy differs from its route", route=view, copy=route_view(built, copy), **info)
    ctx.expect(bool(copy.feasible) == bool(route.feasible), "a copy and its route are judged differently", **info)
    told = answers(built, route)
    wrong = differences(told, answers(built, copy))
    ctx.expect(not wrong, "a copy answers in another way than its route", wrong=wrong[:5], **info)
    ctx.expect(not structure(built, copy) or bool(structure(built, route)), "a copy is not well formed", wrong=structure(built, copy), **info)
    wrong = structure(built, route)
    ctx.expect(not wrong, "copying damaged the route", wrong=wrong, **info)
    ctx.expect(copy is not route and copy.stops is not route.stops, "the copy is the route", **info)
    limit = idx or 0
    if idx is None or idx == 0:
        shared = [s for s in copy.stops if any(s is t for t in route.stops)]
        ctx.expect(not shared and not any(p is q for p in copy.planned_trips for q in route.planned_trips),
                   "a whole copy shares stops or planned trips with its route", **info)
    else:
        ctx.outcomes["shared tail"] += 1
        tail = [s for s in copy.stops[limit:] if any(s is t for t in route.stops)]
        ctx.expect(not tail, "a copy shares the stops it should own", **info)
    # a copy of the copy
    again = clone(copy)
    ctx.trace("second copy")
    ctx.expect(route_view(built, again) == view and not structure(built, again), "a copy of a copy differs", **info)

    # every history of edits of one side, seen from the other
    for side in ("copy", "original"):
        for history in itertools.product(range(len(edits(inst, visits, new, limit))), repeat=depth):
            built, route = make(True)
            copy = clone(route)
            if side == "copy":
                target, other = copy, route
            else:
                target, other = route, copy
            if len(history) % 2:
                route_view(built, other)
            names = []
            for step in history:
                options = edits(inst, visits_of(built, target), new, limit)
                if step >= len(options):
                    break
                name, apply = options[step]
                apply(built, target)
                names.append(name)
                ctx.step()
            ctx.state(visits, idx, side, tuple(names), held is None)
            ctx.trace(f"edit {side}")
            got = route_view(built, other)
            wrong = differences(told, answers(built, other))
            ctx.expect(not wrong, f"editing the {side} of a route changed what the other answers", edits=names, wrong=wrong[:5], **info)
            ctx.expect(got == view and not structure(built, other), f"editing the {side} of a route changed the other",
                       edits=names, before=view, after=got, wrong=structure(built, other), **info)
    ctx.sample(dict(info, view=view))
