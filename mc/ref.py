"""The reference: an evaluator of plans written from the meaning of the data, sharing no code with jinete."""
from . import goals, roads
from .env import INF, TOL
from .inst import num


def dist(inst, a, b):
    return roads.distance(inst["metric"], a, b)


def time(inst, a, b, now=None):
    return roads.time(inst["metric"], a, b, now)


def ends(v):
    return v["o"], (v["o"] if v["d"] is None else v["d"])


def shift(v):
    """(earliest departure, latest end)"""
    return v["e"], num(v["l"] if v["d"] is None else v["dl"])


def windows(inst, i):
    """The windows of the pickup and of the delivery, tightened with what each one implies on the other."""
    t = inst["trips"][i]
    travel = time(inst, t["o"], t["d"])
    timeout = num(t["timeout"])
    pe = max(t["oe"], t["de"] - timeout - t["od"])
    pl = min(num(t["ol"]), num(t["dl"]) - travel - t["od"])
    de = max(t["de"], t["oe"] + t["od"] + travel)
    dl = min(num(t["dl"]), num(t["ol"]) + t["od"] + timeout)
    return (pe, pl), (de, dl)


def spot(inst, k, visit):
    kind, i = visit
    t = inst["trips"][i]
    return t["o"] if kind == "P" else t["d"]


def schedule(inst, k, visits, starts=None):
    """Arrival, start and departure times at every stop (depots included): as soon as possible from the requested
    starting times, never before the (tightened) windows open."""
    v = inst["vehicles"][k]
    first, last = ends(v)
    spots = [first] + [spot(inst, k, x) for x in visits] + [last]
    starts = starts or [None] * len(spots)
    rows = []
    now, here = shift(v)[0], first
    for n, place in enumerate(spots):
        arrival = now + time(inst, here, place, now)
        start, load = arrival, 0.0
        if 0 < n < len(spots) - 1:
            kind, i = visits[n - 1]
            t = inst["trips"][i]
            w = windows(inst, i)
            start = max(start, w[0][0] if kind == "P" else w[1][0])
            load = t["od"] if kind == "P" else t["dd"]
        else:
            start = max(start, 0.0)
        if starts[n] is not None:
            start = max(start, starts[n])
        now, here = start + load, place
        rows.append((arrival, start, now))
    return rows


def problems(inst, k, visits, rows):
    """What is wrong with performing ``visits`` at those times, with the amount of each excess."""
    out = []
    v = inst["vehicles"][k]
    first, last = ends(v)
    spots = [first] + [spot(inst, k, x) for x in visits] + [last]
    cap = 0
    onboard = {}
    earliest, latest = shift(v)
    if len(rows) != len(spots):
        return [("stops", INF)]
    out.append(("shift-start", earliest - rows[0][1]))
    previous = None
    for n, (arrival, start, departure) in enumerate(rows):
        if previous is not None:
            out.append((f"travel@{n}", previous[2] + time(inst, spots[n - 1], spots[n], previous[2]) - start))
        load = 0.0
        if 0 < n < len(rows) - 1:
            kind, i = visits[n - 1]
            t = inst["trips"][i]
            if kind == "P":
                load = t["od"]
                out.append((f"window@{n}", t["oe"] - start))
                out.append((f"window@{n}", start - num(t["ol"])))
                cap += t["cap"]
                onboard[i] = departure
                out.append((f"capacity@{n}", cap - num(v["cap"])))
            else:
                load = t["dd"]
                out.append((f"window@{n}", t["de"] - start))
                out.append((f"window@{n}", start - num(t["dl"])))
                cap -= t["cap"]
                if i not in onboard:
                    out.append((f"order@{n}", INF))
                else:
                    out.append((f"ride@{n}", start - onboard.pop(i) - num(t["timeout"])))
        out.append((f"service@{n}", start + load - departure))
        previous = (arrival, start, departure)
    if onboard:
        out.append(("undelivered", INF))
    out.append(("shift-end", rows[-1][2] - latest))
    out.append(("duration", rows[-1][2] - rows[0][2] - num(v["timeout"])))
    return [(name, x) for name, x in out if x > 0 or x != x]


def excess(inst, k, visits, rows):
    return max([x for _, x in problems(inst, k, visits, rows)], default=0.0)


def distance(inst, k, visits):
    v = inst["vehicles"][k]
    first, last = ends(v)
    spots = [first] + [spot(inst, k, x) for x in visits] + [last]
    return sum(dist(inst, a, b) for a, b in zip(spots[:-1], spots[1:]))


def route_objective(inst, k, visits, rows):
    """The value of a route for the objective of the instance."""
    name = inst["objective"]
    served = [i for kind, i in visits if kind == "P"]
    if name == "dar":
        return (len(served), -distance(inst, k, visits))
    if name == "soon":
        return (rows[-1][2],)
    if name in ("calm", "prompt"):
        values = [trip_objective(inst, k, visits, rows, i) for i in served]
        return tuple(sum(v[d] for v in values) for d in range(2))
    total = 0.0
    for i in served:
        t = inst["trips"][i]
        if t["cap"] == 0:
            continue
        p = next(n for n, x in enumerate(visits) if tuple(x) == ("P", i)) + 1
        d = next(n for n, x in enumerate(visits) if tuple(x) == ("D", i)) + 1
        if name == "taxi":
            total += rows[d][1] - rows[p][2]
        else:
            total += dist(inst, t["o"], t["d"])
            if abs(windows(inst, i)[0][0] - rows[p][2]) <= 1e-9:
                total += t["bonus"]
    return (total,)


def trip_objective(inst, k, visits, rows, i):
    """The value of one served trip for the objective of the instance."""
    t = inst["trips"][i]
    p = tuple(visits).index(("P", i)) + 1
    d = tuple(visits).index(("D", i)) + 1
    if inst["objective"] == "dar":
        first, last = ends(inst["vehicles"][k])
        spots = [first] + [spot(inst, k, x) for x in visits] + [last]
        return (1, -sum(dist(inst, spots[n], spots[n + 1]) for n in range(p, d)))
    if inst["objective"] == "soon":
        return None  # of routes only
    if inst["objective"] == "calm":
        return rows[d][1] - rows[p][2], goals.WEIGHT * rows[d][1]
    if inst["objective"] == "prompt":
        return (1 if abs(windows(inst, i)[0][0] - rows[p][2]) <= 1e-6 else 0), -rows[d][1]
    if t["cap"] == 0:
        return (0.0,)
    if inst["objective"] == "taxi":
        return (rows[d][1] - rows[p][2],)
    bonus = t["bonus"] if abs(windows(inst, i)[0][0] - rows[p][2]) <= 1e-9 else 0.0
    return (dist(inst, t["o"], t["d"]) + bonus,)


def criterion(inst, name, k, visits, rows, feasible):
    """(score, direction) of a route for a criterion; direction 1 when larger is better."""
    direction = 1 if name in ("longest", "util", "hashcode", "lazy") else -1
    if not feasible:
        return -direction * INF, direction
    if name == "near":
        return distance(inst, k, visits), direction
    if name == "lazy":
        return sum(row[1] - row[0] for row in rows), direction
    trips = [i for kind, i in visits if kind == "P"]
    duration = rows[-1][2] - rows[0][2]
    if name == "earliest":
        return rows[-1][2], direction
    if name in ("shortest", "longest"):
        return duration, direction
    if name == "average":
        rides = [rows[list(visits).index(("D", i)) + 1][1] - rows[list(visits).index(("P", i)) + 1][2] for i in trips]
        return (sum(rides) / len(rides) if rides else 0.0), direction
    total = sum(dist(inst, inst["trips"][i]["o"], inst["trips"][i]["d"]) for i in trips)
    if name == "hashcode":
        for i in trips:
            if abs(windows(inst, i)[0][0] - rows[list(visits).index(("P", i)) + 1][2]) <= 1e-9:
                total += inst["trips"][i]["bonus"]
    return total, direction


def objective(inst, plan):
    """``plan``: list of (k, visits, rows)."""
    values = [route_objective(inst, *route) for route in plan]
    return tuple(sum(v[d] for v in values) for d in range(goals.SIZES[inst["objective"]]))


def worth(inst, value):
    """A value of the objective of the instance, such that more is better."""
    return goals.signed(inst["objective"], value)


def close(a, b, tol=1e-6):
    if a == b:
        return True
    return abs(a - b) <= tol


def close_all(a, b, tol=1e-6):
    return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))


def schedulable(inst, k, visits):
    """Whether some choice of starting times makes the route feasible: the difference constraints of the route, solved
    by longest paths (Bellman-Ford)."""
    v = inst["vehicles"][k]
    first, last = ends(v)
    spots = [first] + [spot(inst, k, x) for x in visits] + [last]
    size = len(spots)
    earliest, latest = shift(v)
    edges = []  # x[b] >= x[a] + w
    lower = [0.0] * size
    upper = [INF] * size
    loads = [0.0] * size
    lower[0] = earliest
    upper[-1] = latest
    cap = 0
    at = {}
    for n, (kind, i) in enumerate(visits, start=1):
        t = inst["trips"][i]
        if kind == "P":
            lower[n], upper[n], loads[n] = t["oe"], num(t["ol"]), t["od"]
            cap += t["cap"]
            at[i] = n
            if cap > num(v["cap"]) + TOL:
                return False
        else:
            lower[n], upper[n], loads[n] = t["de"], num(t["dl"]), t["dd"]
            cap -= t["cap"]
            if num(t["timeout"]) < INF:
                edges.append((n, at[i], -num(t["timeout"]) - loads[at[i]]))
    for n in range(1, size):
        edges.append((n - 1, n, loads[n - 1] + time(inst, spots[n - 1], spots[n])))
    if num(v["timeout"]) < INF:
        edges.append((size - 1, 0, -num(v["timeout"])))
    x = list(lower)
    for _ in range(size + 2):
        changed = False
        for a, b, w in edges:
            if x[b] < x[a] + w - 1e-9:
                x[b] = x[a] + w
                changed = True
        if not changed:
            break
    else:
        return False
    return all(x[n] <= upper[n] + 1e-6 for n in range(size))


def stop_schedule(inst, k, stops, starts):
    """As ``schedule``, for stops that may perform several visits at once (``stops``: a collection of visits each)."""
    v = inst["vehicles"][k]
    first, last = ends(v)
    rows = []
    now, here = shift(v)[0], first
    for n in range(len(stops) + 2):
        visits = () if n in (0, len(stops) + 1) else stops[n - 1]
        place = first if n == 0 else last if n == len(stops) + 1 else spot(inst, k, next(iter(visits)))
        arrival = now + time(inst, here, place, now)
        earliest, load = 0.0, 0.0
        for kind, i in visits:
            t = inst["trips"][i]
            w = windows(inst, i)
            earliest = max(earliest, w[0][0] if kind == "P" else w[1][0])
            load = max(load, t["od"] if kind == "P" else t["dd"])
        start = max(arrival, earliest)
        if starts[n] is not None:
            start = max(start, starts[n])
        now, here = start + load, place
        rows.append((arrival, start, now))
    return rows


def stop_problems(inst, k, stops, rows):
    """The worst excess over the limits of a route whose stops may perform several visits at once."""
    v = inst["vehicles"][k]
    earliest, latest = shift(v)
    worst = max(earliest - rows[0][1], rows[-1][2] - latest, rows[-1][2] - rows[0][2] - num(v["timeout"]))
    load = 0
    at = {}
    for n, visits in enumerate(stops, start=1):
        for kind, i in visits:
            t = inst["trips"][i]
            if kind == "P":
                load += t["cap"]
                at[i] = n
                worst = max(worst, t["oe"] - rows[n][1], rows[n][1] - num(t["ol"]))
            else:
                load -= t["cap"]
                worst = max(worst, t["de"] - rows[n][1], rows[n][1] - num(t["dl"]))
                worst = max(worst, rows[n][1] - rows[at[i]][2] - num(t["timeout"]))
        worst = max(worst, load - num(v["cap"]))
    return worst


def stop_derived(inst, stops, rows):
    """The worst delay over the derived latest times (see ``windows``): with shared stops they may be exceeded although
    no limit is, because a trip leaves with its stop and not as soon as its own service ends."""
    worst = 0.0
    for n, visits in enumerate(stops, start=1):
        for kind, i in visits:
            worst = max(worst, rows[n][1] - windows(inst, i)[0 if kind == "P" else 1][1])
    return worst
