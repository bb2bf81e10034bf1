"""C14: what the loaders build says what the file says."""
import itertools
import os
import shutil
import tempfile

from .. import ref
from ..env import INF, REPO, jit

REQUIRED = ("cordeau", "hashcode", "shipped", "histories", "rewritten", "refused", "trips:0", "trips:3", "vehicles:0",
            "style:tabs", "style:end depot", "text path", "shared position")
BOUNDS = {
    "quick": "files of 0-3 trips, all cells distinct and every pair of cells changed; 7 styles; all orders of 4 accesses; every shipped file",
    "thorough": "every pair of cells over 3 values, triples of cells of one row; all orders of 5 accesses; every shipped file",
}
CHUNK = 4
STYLES = ("plain", "spaces", "tabs", "floats", "no newline", "crlf", "end depot")
LOADERS = {"cordeau": jit.CordeauLaporteLoaderFormatter, "hashcode": jit.HashCodeLoaderFormatter}
DATA = os.path.join(REPO, "res", "datasets")


def base(kind, m, n):
    """A file whose cells are all different (as a list of rows)."""
    if kind == "cordeau":
        rows = [[m, 2 * n, 481, 7, 93]]
        for i in range(2 * n + 1):
            load = 0 if i == 0 else (1 if i <= n else -1) * (11 + (i - 1) % n)
            x = 1000 + 20 * i
            rows.append([i, x + 1.25, x + 2.5, 0 if i == 0 else x + 3, load, x + 4, x + 400.5])
        return rows
    rows = [[311, 419, m, n, 17, 100003]]
    for i in range(n):
        x = 1000 + 20 * i
        rows.append([x + 1, x + 2, x + 3, x + 4, x + 5, x + 600])
    return rows


def free_cells(kind, rows):
    """The cells that can take any value on their own."""
    if kind == "cordeau":
        cells = [(0, 2), (0, 3), (0, 4)] + [(1, c) for c in (1, 2, 5, 6)]
        return cells + [(r, c) for r in range(2, len(rows)) for c in (1, 2, 3, 5, 6)]
    return [(0, 4), (0, 5)] + [(r, c) for r in range(1, len(rows)) for c in range(6)]


def render(rows, style):
    def cell(v):
        if style == "floats":
            return f"{v:.3f}"
        return repr(v)

    rows = [list(r) for r in rows]
    if style == "end depot":
        first = rows[1]
        rows.append([len(rows) - 1] + first[1:])
    gap = {"spaces": "   ", "tabs": "\t"}.get(style, " ")
    lead = "  " if style == "spaces" else ""
    lines = [lead + gap.join(cell(v) for v in row) + ("  " if style == "spaces" else "") for row in rows]
    end = "\r\n" if style == "crlf" else "\n"
    return end.join(lines) + ("" if style == "no newline" else end)


def expected(kind, rows):
    rows = [[float(v) for v in row] for row in rows]
    head = rows[0]
    if kind == "cordeau":
        m, n = int(head[0]), int(head[1]) // 2
        depot = rows[1]
        vehicle = dict(origin=tuple(depot[1:3]), destination=tuple(depot[1:3]), earliest=depot[5], latest=depot[6], capacity=head[3], timeout=head[2])
        trips = {}
        for i in range(1, n + 1):
            p, d = rows[1 + i], rows[1 + i + n]
            trips[str(i)] = dict(
                origin=tuple(p[1:3]), o=(p[5], p[6], p[3]), destination=tuple(d[1:3]), d=(d[5], d[6], d[3]), capacity=p[4],
                timeout=head[4], bonus=0.0,
            )
        return dict(vehicles=[vehicle] * m, trips=trips, objective=jit.DialARideObjective, metric="euclidean")
    vehicle = dict(origin=(0.0, 0.0), destination=(0.0, 0.0), earliest=0.0, latest=head[5], capacity=1.0, timeout=INF)
    trips = {}
    for i, (a, b, x, y, s, f) in enumerate(rows[1:]):
        trips[str(i)] = dict(origin=(a, b), o=(s, INF, 0.0), destination=(x, y), d=(0.0, f, 0.0), capacity=1.0, timeout=INF, bonus=head[4])
    return dict(vehicles=[vehicle] * int(head[2]), trips=trips, objective=jit.HashCodeObjective, metric="manhattan")


def of_vehicle(v):
    return dict(origin=tuple(v.origin_position.coordinates), destination=tuple(v.destination_position.coordinates), earliest=v.origin.earliest,
                latest=v.destination_latest, capacity=v.capacity, timeout=v.timeout)


def of_trip(t):
    return dict(
        origin=tuple(t.origin_position.coordinates), o=(t.origin.earliest, t.origin.latest, t.origin.duration),
        destination=tuple(t.destination_position.coordinates), d=(t.destination.earliest, t.destination.latest, t.destination.duration),
        capacity=t.capacity, timeout=t.timeout, bonus=t.on_time_bonus,
    )


def compare(ctx, loader, want, **info):
    fleet, job = loader.fleet, loader.job
    got = [of_vehicle(v) for v in fleet.vehicles]
    ok = ctx.expect(len(got) == len(want["vehicles"]), "wrong number of vehicles", got=len(got), want=len(want["vehicles"]), **info)
    for v in got:
        ok = ok and ctx.expect(v == want["vehicles"][0], "a vehicle is not the one of the file", got=v, want=want["vehicles"][0], **info)
    names = [v.identifier for v in fleet.vehicles]
    ctx.expect(len(set(names)) == len(names), "two vehicles with the same name", names=names, **info)
    got = {t.identifier: of_trip(t) for t in job.trips}
    ok = ctx.expect(len(job.trips) == len(want["trips"]) == len(got), "wrong number of trips", got=len(job.trips), want=len(want["trips"]), **info)
    for name, t in want["trips"].items():
        if ok and not ctx.expect(got.get(name) == t, "a trip is not the one of the file", name=name, got=got.get(name), want=t, **info):
            break
    ctx.expect(type(job.objective) is want["objective"], "wrong objective", got=str(type(job.objective)), **info)
    # the places are where they are, and as far from each other as they are
    places = []
    for t in list(job.trips)[:12]:
        places += [t.origin_position, t.destination_position]
    places += [v.origin_position for v in list(fleet.vehicles)[:1]]
    for a in places:
        for b in places:
            far = ref.dist(dict(metric=want["metric"]), a.coordinates, b.coordinates)
            ctx.expect(ref.close(a.distance_to(b), far, 1e-6) and ref.close(a.time_to(b), far, 1e-6), "wrong distance",
                       a=a.coordinates, b=b.coordinates, got=a.distance_to(b), want=far, **info)
    kind = info.get("kind", "")
    ctx.trace(kind, f"trips:{min(3, len(job.trips))}", f"vehicles:{min(3, len(fleet.vehicles))}")


def cases(tier):
    for kind in LOADERS:
        for m in range(0, 4):
            for n in range(0, 4):
                yield dict(mode="styles", kind=kind, m=m, n=n)
        for n in (1, 2, 3):
            cells = free_cells(kind, base(kind, 2, n))
            for first in range(len(cells)):
                if tier == "quick" and n == 3 and first % 3:
                    continue
                yield dict(mode="cells", kind=kind, n=n, first=first, values=(0, 2.75) if tier == "quick" else (0, 2.75, 70000))
        yield dict(mode="histories", kind=kind, depth=4 if tier == "quick" else 5)
        yield dict(mode="refused", kind=kind)
        folder = os.path.join(DATA, "cordeau-laporte" if kind == "cordeau" else "hashcode")
        for name in sorted(os.listdir(folder)):
            if not name.endswith(".md"):
                yield dict(mode="shipped", kind=kind, name=os.path.join(folder, name))


def loader_of(path, kind):
    if kind == "cordeau" and len(str(path)) % 2:
        return jit.FileLoader(file_path=path)  # that format is the default
    return jit.FileLoader(file_path=path, formatter_cls=LOADERS[kind])


def run(case, ctx):
    from pathlib import Path

    kind = case["kind"]
    folder = tempfile.mkdtemp(prefix="c14-")
    path = Path(folder) / "instance.txt"
    try:
        if case["mode"] == "shipped":
            with open(case["name"]) as file:
                rows = [line.split() for line in file]
            if kind == "cordeau":
                compare(ctx, jit.FileLoader(file_path=case["name"]), expected(kind, rows), kind=kind, file=case["name"])
            compare(ctx, jit.FileLoader(file_path=case["name"], formatter_cls=LOADERS[kind]), expected(kind, rows), kind=kind, file=case["name"])
            ctx.outcomes["shipped"] += 1
            ctx.state(case["name"])
            ctx.step(len(rows))
        elif case["mode"] == "styles":
            rows = base(kind, case["m"], case["n"])
            for style in STYLES:
                if style == "end depot" and kind != "cordeau":
                    continue
                path.write_bytes(render(rows, style).encode())
                for given in (path, str(path)):
                    loader = jit.FileLoader(file_path=given, formatter_cls=LOADERS[kind])
                    compare(ctx, loader, expected(kind, rows), kind=kind, style=style, rows=rows)
                    ctx.step()
                ctx.outcomes["text path"] += 1
                ctx.outcomes[f"style:{style}"] += 1
                ctx.state(kind, case["m"], case["n"], style)
            ctx.sample(dict(rows=rows))
        elif case["mode"] == "cells":
            rows = base(kind, 2, case["n"])
            cells = free_cells(kind, rows)
            a = cells[case["first"]]
            for b in cells[case["first"]:]:
                for x, y in itertools.product(case["values"], repeat=2):
                    changed = [list(r) for r in rows]
                    changed[a[0]][a[1]] = x
                    changed[b[0]][b[1]] = y
                    path.write_text(render(changed, "plain"))
                    compare(ctx, jit.FileLoader(path, LOADERS[kind]) if (a[0] + b[1]) % 2 else jit.FileLoader(file_path=path, formatter_cls=LOADERS[kind]),
                            expected(kind, changed), kind=kind, rows=changed)
                    ctx.step()
                    ctx.state(kind, case["n"], a, b, x, y)
            # two visits at the same place
            if len(rows) > 2:
                changed = [list(r) for r in rows]
                changed[-1][1:3] = changed[1][1:3]
                path.write_text(render(changed, "plain"))
                compare(ctx, jit.FileLoader(file_path=path, formatter_cls=LOADERS[kind]), expected(kind, changed), kind=kind, rows=changed)
                ctx.outcomes["shared position"] += 1
        elif case["mode"] == "histories":
            histories(case, ctx, path)
        else:
            refused(ctx, kind, path)
    finally:
        shutil.rmtree(folder)


def histories(case, ctx, path):
    """Every order of asking the loader, with the file as it was or replaced at any point of it."""
    kind = case["kind"]
    old, new = base(kind, 2, 2), base(kind, 3, 1)
    wants = [expected(kind, old), expected(kind, new)]
    for order in itertools.product(("fleet", "job", "surface"), repeat=case["depth"]):
        for when in (None, 0, 1, 2, 3):
            path.write_text(render(old, "plain"))
            loader = jit.FileLoader(file_path=path, formatter_cls=LOADERS[kind])
            seen = {}
            for n, name in enumerate(order):
                if n == when:
                    path.write_text(render(new, "plain"))
                value = getattr(loader, name)
                if name in seen:
                    ctx.expect(seen[name] is value, "the loader answers another object", kind=kind, order=order, name=name)
                seen[name] = value
                ctx.step()
            fleet, job = loader.fleet, loader.job
            version = None
            for n, want in enumerate(wants):
                if len(fleet.vehicles) == len(want["vehicles"]) and {t.identifier: of_trip(t) for t in job.trips} == want["trips"] and all(
                    of_vehicle(v) == want["vehicles"][0] for v in fleet.vehicles
                ):
                    version = n
            ctx.expect(version is not None, "the fleet and the trips come from different contents", kind=kind, order=order, replaced_before=when)
            if when is None:
                ctx.expect(version == 0, "the instance is not the one of the file", kind=kind, order=order)
            places = {id(t.origin_position.surface) for t in job.trips} | {id(v.origin_position.surface) for v in fleet.vehicles}
            ctx.expect(places == {id(loader.surface)}, "the instance is spread over several surfaces", kind=kind, order=order)
            ctx.state(kind, order, when, version)
            ctx.trace("histories", *(["rewritten"] if when is not None else []))


def refused(ctx, kind, path):
    """What cannot be understood is not loaded as something else."""
    broken = []
    for n in (1, 2, 3):
        rows = base(kind, 2, n)
        if kind == "cordeau":
            for i in range(n):
                other = [list(r) for r in rows]
                other[2 + i][4] += 1
                broken.append(render(other, "plain"))
            broken.append(render(rows[:-1], "plain"))
        else:
            broken.append(render([r[:5] if i else r for i, r in enumerate(rows)], "plain"))
        broken.append(render(rows, "plain").replace("1", "x"))
    broken.append("")
    for text in broken + [None]:
        if text is None:
            path.unlink()
        else:
            path.write_text(text)
        raised = False
        try:
            loader = jit.FileLoader(file_path=path, formatter_cls=LOADERS[kind])
            loader.fleet, loader.job
        except Exception:
            raised = True
        ctx.expect(raised, "a broken file is loaded", kind=kind, text=text)
        ctx.state(kind, text)
        ctx.step()
        ctx.trace("refused")
