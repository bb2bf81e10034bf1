"""C25: the deep copy of a solution is that solution, and a life of its own."""
import copy
import itertools

from .. import families as fam
from .. import ref, sweep
from ..env import jit
from ..inst import Built, GivenAlgorithm, plans, route_from
from ..observe import answers, differences, planning_view, route_view, structure, visits_of
from .c01 import SHAPES
from .c23 import edits

REQUIRED = ("route", "routes", "planning", "result", "together", "partial", "merged stops", "held", "asked", "silent", "edit copy", "edit original", "again", "same life")
BOUNDS = {
    "quick": "every plan of 2 trips out of 6 shapes on 2 vehicles x held or not x asked or not x 4 kinds of object; every pair of edits of either side of 1 plan in 6",
    "thorough": "every plan of 2 trips out of 15 shapes, of 3 out of 4; every pair of edits",
}
ASSUMPTIONS = ["the services, trips, vehicles, fleet and job are shared by the copies: they are immutable"]
CHUNK = 2


def cases(tier):
    shapes = [SHAPES[i] for i in (0, 1, 4, 7, 8, 11)] if tier == "quick" else SHAPES
    n = 0
    for size in (1, 2) if tier == "quick" else (1, 2, 3):
        for trips in fam.pick(size, shapes if size < 3 else shapes[:4]):
            n += 1
            yield dict(trips=list(trips) + [SHAPES[n % 5]], fleet=("two", "away", "later", "mixed")[n % 4],
                       metric=("euclidean", "manhattan")[n % 2], objective=("dar", "hashcode", "taxi")[n % 3],
                       depth=2 if size < 3 else 1, step=6 if tier == "quick" else 1 if size < 3 else 5)


def merge(built, route):
    """Turn consecutive pickups (or deliveries) at the same place into one stop."""
    merged = False
    m = 1
    while m < len(route.stops) - 2:
        a, b = route.stops[m], route.stops[m + 1]
        same = a.position == b.position and bool(a.pickup_planned_trips) == bool(b.pickup_planned_trips)
        if not same:
            m += 1
            continue
        merged = True
        route.remove_stop_at(m + 1)
        for pt in list(b.pickup_planned_trips):
            pt.pickup = a
            a.append_pickup(pt)
        for pt in list(b.delivery_planned_trips):
            pt.delivery = a
            a.append_delivery(pt)
    route.flush()
    return merged


class World:
    """A solution, in the object that is going to be copied."""

    def __init__(self, inst, plan, held, merged, kind, reset=True):
        self.built = Built(inst, reset)
        self.routes = []
        self.merged = False
        for k, visits in enumerate(plan):
            starts = None
            if held and visits:
                rows = ref.schedule(inst, k, visits)
                starts = [None] * len(rows)
                starts[0], starts[-2] = rows[0][1] + 0.5, rows[-2][1] + 1.25
            self.routes.append(route_from(self.built, k, visits, starts))
            if merged:
                self.merged |= merge(self.built, self.routes[-1])
        planning = jit.Planning(set(self.routes))
        if kind == "route":
            self.root = self.routes[0]
        elif kind == "routes":
            self.root = set(self.routes)
        elif kind == "planning":
            self.root = planning
        elif kind == "together":
            self.root = [self.routes[0], planning, self.routes[0], self.routes]
        else:
            self.root = jit.Result(GivenAlgorithm(planning, fleet=self.built.fleet, job=self.built.job), planning, 1.5)
        self.kind = kind

    def routes_of(self, root):
        kind = self.kind
        if kind == "route":
            return [root]
        if kind == "together":
            return sorted(root[3], key=lambda r: self.built.vehicle_index(r.vehicle))
        found = root if kind == "routes" else root.routes
        return sorted(found, key=lambda r: str(self.built.vehicle_index(r.vehicle)))

    def view(self, root):
        routes = self.routes_of(root)
        out = [tuple(route_view(self.built, r) for r in routes), tuple(bool(r.feasible) for r in routes)]
        if self.kind in ("planning", "result"):
            out.append(bool(root.feasible))
            out.append(tuple(round(x, 6) for x in self.built.job.objective.optimization_function(root)))
        if self.kind == "result":
            out.append((root.computation_time, round(root.coverage_rate, 9), root.direction, len(root.trips), len(root.vehicles)))
        if self.kind == "together":
            out.append(planning_view(self.built, root[1]))
        return tuple(out)

    def told(self, root):
        return {(n, key): x for n, r in enumerate(self.routes_of(root)) for key, x in answers(self.built, r).items()}

    def wrong(self, root):
        return [x for r in self.routes_of(root) for x in structure(self.built, r)]


def parts(routes):
    """The identity of everything that must not be shared."""
    out = set(map(id, routes))
    for r in routes:
        out |= {id(r.stops)} | set(map(id, r.stops)) | set(map(id, r.planned_trips))
        out |= {id(s.pickup_planned_trips) for s in r.stops} | {id(s.delivery_planned_trips) for s in r.stops}
    return out


def run(case, ctx):
    inst = sweep.instance_of(case)
    size = len(inst["trips"]) - 1
    for n, plan in enumerate(plans(size, 2)):
        plan = tuple(plan)
        for held, merged, asked in itertools.product((False, True), repeat=3):
            for kind in ("route", "routes", "planning", "result", "together"):
                if not whole(ctx, inst, plan, held, merged, asked, kind):
                    break  # nothing to merge
        if n % case["step"] == 0:
            lives(ctx, inst, plan, size, case["depth"], n)
        partial(ctx, inst, plan)


def whole(ctx, inst, plan, held, merged, asked, kind):
    fresh = World(inst, plan, held, merged, kind)
    if merged and not fresh.merged:
        return False
    want = fresh.view(fresh.root)
    world = World(inst, plan, held, merged, kind)
    info = dict(plan=str(plan), held=held, merged=merged, asked=asked, kind=kind, trips=inst["trips"])
    if asked:
        world.view(world.root)
    other = copy.deepcopy(world.root)
    ctx.step()
    ctx.state(plan, held, merged, asked, kind)
    ctx.trace(kind, "asked" if asked else "silent")
    if held:
        ctx.outcomes["held"] += 1
    if merged:
        ctx.outcomes["merged stops"] += 1
    got = world.view(other)
    ctx.expect(got == want, "the copy is another solution", got=got, want=want, **info)
    said = differences(world.told(world.root), world.told(other))
    ctx.expect(not said, "the copy answers in another way", wrong=said[:5], **info)
    ctx.expect(not world.wrong(other), "the copy is broken", wrong=world.wrong(other)[:3], **info)
    ctx.expect(world.view(world.root) == want and not world.wrong(world.root), "copying changes the original", **info)
    ctx.expect(not parts(world.routes_of(world.root)) & parts(world.routes_of(other)), "the copy shares its routes with the original", **info)
    if kind == "together":
        ctx.expect(other[0] is other[2] and other[0] in other[1].routes and set(map(id, other[3])) == set(map(id, other[1].routes)),
                   "what was one object is more than one in the copy", **info)
    if kind == "result":
        ctx.expect(other.job is world.root.job and other.fleet is world.root.fleet, "the copy belongs to another job", **info)
    again = copy.deepcopy(other)
    ctx.trace("again")
    ctx.expect(world.view(again) == want and not world.wrong(again), "the copy of the copy is another solution", **info)
    return True


def partial(ctx, inst, plan):
    """A route and copies of it that share its first stops, copied at once."""
    if not plan[0]:
        return
    for idx in range(0, len(plan[0]) + 2):
        world = World(inst, plan, False, False, "route")
        route = world.root
        group = [route, route.clone(idx), route.clone(max(0, idx - 1))]
        want = route_view(world.built, route)
        for order in ((0, 1, 2), (2, 1, 0)):
            others = copy.deepcopy([group[m] for m in order])
            ctx.step()
            ctx.state(plan, idx, order)
            ctx.trace("partial")
            views = [route_view(world.built, r) for r in others]
            ctx.expect(all(v == want for v in views), "routes that share stops are not copied as they are", plan=str(plan), idx=idx,
                       got=[v for v in views if v != want][:1], want=want)
            ctx.expect(not any(parts([r]) & parts(group) for r in others), "the copy shares its routes with the original", plan=str(plan), idx=idx)


def lives(ctx, inst, plan, new, depth, n):
    """Every history of edits of one side."""
    for held, kind, asked in ((False, "planning", True), (True, "result", False), (False, "route", False), (True, "routes", True)):
        target = 0 if kind == "route" or n % 2 == 0 else 1
        for side in ("copy", "original"):
            for history in itertools.product(range(len(edits(inst, plan[target], new, 0))), repeat=depth):
                world = World(inst, plan, held, False, kind)
                if asked:
                    world.view(world.root)
                want = world.view(world.root) if asked else None
                other = copy.deepcopy(world.root)
                edited, kept = (other, world.root) if side == "copy" else (world.root, other)
                if want is None:
                    want = World(inst, plan, held, False, kind, False)
                    want = want.view(want.root)
                plain = World(inst, plan, held, False, kind, False)
                names = []
                for step in history:
                    route = world.routes_of(edited)[target]
                    options = edits(inst, visits_of(world.built, route), new, 0)
                    if step >= len(options):
                        break
                    name, apply = options[step]
                    apply(world.built, route)
                    apply(plain.built, plain.routes_of(plain.root)[target])
                    names.append(name)
                    ctx.step()
                info = dict(plan=str(plan), held=held, kind=kind, asked=asked, edits=names, trips=inst["trips"], side=side)
                ctx.state(plan, kind, side, tuple(names))
                ctx.trace(f"edit {side}")
                ctx.expect(world.view(kept) == want and not world.wrong(kept), f"editing the {side} changes the other", **info)
                ctx.expect(world.view(edited) == plain.view(plain.root) and not world.wrong(edited),
                           f"the edits of the {side} do not do what they do without copying", **info)
                said = differences(plain.told(plain.root), world.told(edited))
                ctx.expect(not said, f"the {side} answers in another way after its edits", wrong=said[:5], **info)
                ctx.trace("same life")
