"""C15: what is written about a solution is the solution."""
import collections
import re

from .. import families as fam
from .. import goals, ref
from ..env import INF, jit
from ..inst import plans, result_from, Built
from ..observe import rows_of, visits_of
from .c10 import SHAPES, instance_of

REQUIRED = ("hashcode", "columnar", "empty routes kept", "empty routes removed", "empty trip", "routes:0", "routes:2", "waiting",
            "infeasible", "feasible", "shared ride", "read back")
BOUNDS = {
    "quick": "every plan of 2 trips out of 14 shapes and of 3 out of 4 on 2 vehicles (and without routes), 3 objectives, all format options",
    "thorough": "every plan of 3 trips out of 7 too, on 4 fleets",
}
CHUNK = 2


def cases(tier):
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        for fleet in (("two", "mixed", "ends", "later")[n % 4],) if tier == "quick" else ("two", "mixed", "ends", "later"):
            yield dict(trips=pair, fleet=fleet, metric=("euclidean", "manhattan")[n % 2], objective=("dar", "taxi", "hashcode")[n % 3])
    for n, triple in enumerate(fam.pick(3, SHAPES[:4] if tier == "quick" else SHAPES[:7])):
        yield dict(trips=triple, fleet=("two", "ends")[n % 2], metric=("manhattan", "euclidean")[n % 2], objective=("dar", "taxi", "hashcode")[n % 3])
    for objective in ("dar", "taxi", "hashcode"):
        yield dict(trips=[], fleet="two", metric="euclidean", objective=objective)


def near(text, value, digits):
    got = float(text)
    if got in (INF, -INF) or value in (INF, -INF):
        return got == value
    return abs(got - value) <= 0.5 * 10 ** -digits + 1e-6


def field(row, name):
    """The text after a field name: up to the next field."""
    match = re.search(rf"(?:^|\s){name}:\s+(.*?)(?=\s+[A-Z]{{1,2}}:\s|$)", row)
    return match.group(1).strip() if match else None


def run(case, ctx):
    inst = instance_of(case)
    size = min(2, len(inst["vehicles"]))
    for plan in plans(len(inst["trips"]), size):
        for given in (False, True):  # whether vehicles without visits have a route
            if given and all(plan):
                continue
            built = Built(inst)
            result = result_from(built, [None if given and not v else v for v in plan])
            ctx.step()
            hashcode(ctx, inst, built, result, plan)
            columnar(ctx, inst, built, result, plan)
            ctx.state(inst["objective"], plan, given)
            ctx.outcomes[f"routes:{len(result.routes)}"] += 1
            ctx.outcomes["feasible" if result.feasible else "infeasible"] += 1
    ctx.sample(dict(plan=[str(v) for v in plan], text=jit.ColumnarStorerFormatter(result=result).format().splitlines()[:12]))


def hashcode(ctx, inst, built, result, plan):
    rides = collections.Counter()
    empty = 0
    for route in result.routes:
        visits = visits_of(built, route)
        ids = [str(i) for kind, i in visits if kind == "P" and inst["trips"][i]["cap"]]
        if visits:
            rides[tuple(ids)] += 1
        else:
            empty += 1
        if any(not inst["trips"][i]["cap"] for _, i in visits):
            ctx.outcomes["empty trip"] += 1
    for keep in (None, False, True):
        kwargs = {} if keep is None else {"remove_empty_routes": not keep}
        text = jit.HashCodeStorerFormatter(result=result, **kwargs).format()
        want = collections.Counter(rides)
        if keep:
            want[()] += empty
        got = collections.Counter()
        for line in text.split("\n") if text else []:
            words = line.split()
            fine = bool(words) and words[0].isdigit() and int(words[0]) == len(words) - 1
            if not ctx.expect(fine, "a line whose number of rides is not the one it lists", line=line, text=text, plan=str(plan)):
                return
            got[tuple(words[1:])] += 1
        want = +want
        ctx.expect(got == want, "the rides written are not those of the routes", text=text, want=str(dict(want)), keep=keep, plan=str(plan))
        ctx.outcomes["empty routes kept" if keep else "empty routes removed"] += 1
        ctx.trace("hashcode")


def columnar(ctx, inst, built, result, plan):
    for tab, remove in (("  ", None), ("\t", True), ("    ", False)):
        kwargs = {"tab_character": tab}
        if remove is not None:
            kwargs["remove_empty_routes"] = remove
        text = jit.ColumnarStorerFormatter(result=result, **kwargs).format()
        info = dict(plan=str(plan), trips=inst["trips"], text=text.splitlines()[:60])

        def head(name, quoted=True):
            match = re.search(rf'^{name}: "(.*)"', text, re.M)
            return match.group(1) if match else None

        routes = [r for r in result.routes if not remove or any(r.planned_trips)]
        ctx.expect(head("Planning UUID") == str(result.planning.uuid), "another planning", **info)
        ctx.expect(head("Routes count") == str(len(routes)), "wrong number of routes", **info)
        ctx.expect(near(head("Computation time"), result.computation_time, 4), "wrong computation time", **info)
        loaded = {i for v in plan for _, i in v if inst["trips"][i]["cap"]}
        rate = len(loaded) / len(inst["trips"]) if inst["trips"] else 1.0
        ctx.expect(near(head("Coverage Rate"), rate, 6), "wrong coverage", **info)
        ctx.expect(head("Feasible") == str(result.feasible), "wrong feasibility", **info)
        ctx.expect(head("Objective") == type(built.job.objective).__name__, "wrong objective", **info)
        ctx.expect((head("Direction") or "").lower() == ("minimization" if inst["objective"] in goals.MINIMIZED else "maximization"), "wrong direction", **info)
        values = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?|inf", head("Optimization Value") or "")]
        want = ref.objective(inst, [(built.vehicle_index(r.vehicle), visits_of(built, r), rows_of(r)) for r in result.routes]) or (0, 0)
        if not result.routes:
            want = (0,) * goals.SIZES[inst["objective"]]
        ctx.expect(ref.close_all(values, want), "wrong value", got=values, want=want, **info)
        blocks = re.split(r"^\s*Vehicle:\s*$", text, flags=re.M)[1:]
        if not ctx.expect(len(blocks) == len(routes), "wrong number of routes described", **info):
            return
        pending = {r.vehicle.identifier: r for r in routes}
        for block in blocks:
            lines = [x.strip() for x in block.strip().splitlines()]
            name = re.search(r'ID: "(.*)"', lines[0]).group(1)
            if not ctx.expect(name in pending, "a vehicle that has no route (or twice)", vehicle=name, **info):
                return
            one(ctx, inst, built, pending.pop(name), lines, info)
        ctx.trace("columnar", "read back")


def one(ctx, inst, built, route, lines, info):
    k = built.vehicle_index(route.vehicle)
    v = inst["vehicles"][k]
    visits = visits_of(built, route)
    rows = ref.schedule(inst, k, visits)
    first, last = ref.ends(v)
    spots = [first] + [ref.spot(inst, k, x) for x in visits] + [last]

    def place(text):
        return tuple(float(x) for x in re.findall(r"-?\d+\.\d+", text))

    text = "\n".join(lines)

    def spec(name):
        return re.search(rf"^{name}:\s+(.*)$", text, re.M).group(1)

    ctx.expect(place(spec("Initial")) == tuple(map(float, first)) and place(spec("Final")) == tuple(map(float, last)), "wrong ends of the vehicle", **info)
    ctx.expect(near(spec("Earliest"), v["e"], 2) and near(spec("Latest"), v["l"] if v["l"] is not None else INF, 2), "wrong hours of the vehicle", **info)
    ctx.expect(near(spec("Capacity"), v["cap"], 2), "wrong capacity of the vehicle", **info)

    ids = [i for kind, i in visits if kind == "P"]
    at = next(n for n, x in enumerate(lines) if x.startswith("Planned Trips:"))
    end = next(n for n, x in enumerate(lines) if x.startswith("Stops:"))
    ctx.expect(lines[at] == f'Planned Trips: "{len(ids)}"' and lines[end] == f'Stops: "{len(rows)}"', "wrong counts", **info)
    trips, stops = lines[at + 1:end], lines[end + 1:end + 1 + len(rows)]
    if not ctx.expect(len(trips) == len(ids) and len(stops) == len(rows), "wrong number of rows", **info):
        return
    for i, row in zip(ids, trips):
        t = inst["trips"][i]
        p, d = visits.index(("P", i)) + 1, visits.index(("D", i)) + 1
        w = ref.windows(inst, i)
        between = range(p + 1, d + 1)
        wait = sum(rows[n][1] - rows[n][0] for n in between)
        move = sum(ref.time(inst, spots[n - 1], spots[n], rows[n - 1][2]) for n in between)
        pieces = field(row, "P").split(" to ")
        span = field(row, "T").split(" to ")
        window = field(row, "TW").split(" to ")
        ok = field(row, "ID") == str(i) and place(pieces[0]) == tuple(map(float, t["o"])) and place(pieces[1]) == tuple(map(float, t["d"]))
        ok = ok and near(window[0], w[0][0], 1) and near(window[1], w[1][1], 1) and near(field(row, "WT"), wait, 1)
        ok = ok and near(field(row, "NT"), move, 1) and near(field(row, "LT"), t["od"] + t["dd"], 1)
        ok = ok and near(field(row, "TT"), rows[d][1] - rows[p][2], 1) and near(span[0], rows[p][2], 1) and near(span[1], rows[d][1], 1)
        ok = ok and near(field(row, "L"), t["cap"], 3)
        ctx.expect(ok, "a planned trip is not described as it is", row=row, rows=rows, **info)
        if d > p + 1:
            ctx.outcomes["shared ride"] += 1
    load = 0
    for n, row in enumerate(stops):
        names, window, service = "[]", (0.0, INF), 0.0
        if 0 < n < len(rows) - 1:
            kind, i = visits[n - 1]
            t = inst["trips"][i]
            names = f"[{kind}{i}]"
            window = ref.windows(inst, i)[0 if kind == "P" else 1]
            service = t["od"] if kind == "P" else t["dd"]
            load += t["cap"] if kind == "P" else -t["cap"]
        bounds = field(row, "TW").split(" to ")
        move = ref.time(inst, spots[n - 1], spots[n], rows[n - 1][2]) if n else 0.0
        ok = field(row, "ID") == names and place(field(row, "P")) == tuple(map(float, spots[n]))
        ok = ok and near(bounds[0], window[0], 1) and near(bounds[1], window[1], 1) and near(field(row, "WT"), rows[n][1] - rows[n][0], 1)
        ok = ok and near(field(row, "NT"), move, 1) and near(field(row, "LT"), service, 1) and near(field(row, "DT"), rows[n][2], 1)
        ok = ok and near(field(row, "L"), load, 3)
        ctx.expect(ok, "a stop is not described as it is", row=row, rows=rows, stop=n, **info)
        if rows[n][1] > rows[n][0] + 1e-6:
            ctx.outcomes["waiting"] += 1
