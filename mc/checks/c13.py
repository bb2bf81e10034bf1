"""C13: the windows of a trip are exactly the times at which its two visits can be performed."""
import itertools

from .. import ref
from ..env import INF
from ..inst import Built, instance, num, trip, vehicle

REQUIRED = ("servable", "impossible", "origin opens later", "origin closes earlier", "destination opens later",
            "destination closes earlier", "unbounded", "load matters", "order matters not")
BOUNDS = {
    "quick": "every combination of limits out of 4x5x4x4 ends, 3 durations, 4 ride limits, 3 distances, 2 metrics; times on a grid of 0.5 up to 12",
    "thorough": "5x6x5x5 ends, 5 durations, 6 ride limits, 5 distances; times up to 16",
}
CHUNK = 4
GRID = {
    "quick": dict(oe=(0, 2, 5), ol=(None, 2, 4, 8), de=(0, 4, 7), dl=(None, 4, 7, 10), od=(0, 1), dd=(0, 1.5), timeout=(None, 1, 2, 3),
                  d=((0, 0), (2, 0), (1, 1)), horizon=12),
    "thorough": dict(oe=(0, 1, 2, 5), ol=(None, 0, 2, 4, 6, 8), de=(0, 3, 4, 7, 9), dl=(None, 1, 4, 7, 10), od=(0, 0.5, 1, 3), dd=(0, 1.5),
                     timeout=(None, 0, 1, 2, 2.5, 3), d=((0, 0), (2, 0), (1, 1), (0, 3.5), (3, 1)), horizon=14),
}
NAMES = ("origin_earliest", "origin_latest", "destination_earliest", "destination_latest")


def cases(tier):
    g = GRID[tier]
    for oe, ol, d, metric in itertools.product(g["oe"], g["ol"], g["d"], ("euclidean", "manhattan")):
        yield dict(oe=oe, ol=ol, d=d, metric=metric, tier=tier)


def run(case, ctx):
    g = GRID[case["tier"]]
    n = 0
    for de, dl, od, dd, timeout in itertools.product(g["de"], g["dl"], g["od"], g["dd"], g["timeout"]):
        t = trip((0, 0), case["d"], oe=case["oe"], ol=case["ol"], de=de, dl=dl, od=od, dd=dd, timeout=timeout)
        inst = instance([t], [vehicle(cap=1)], case["metric"])
        n += 1
        one(inst, t, n, g["horizon"], ctx)


def one(inst, t, n, horizon, ctx):
    (pe, pl), (de, dl) = ref.windows(inst, 0)
    want = dict(zip(NAMES, (pe, pl, de, dl)))
    # the attributes are asked for in every order over the cases: what one answers may not change another
    order = list(itertools.permutations(NAMES))[n % 24]
    built = Built(inst)
    real = built.trips[0]
    got = {name: getattr(real, name) for name in order}
    again = {name: getattr(real, name) for name in NAMES}
    ctx.expect(got == again, "the windows of a trip change", trip=t, got=got, again=again)
    ctx.outcomes["order matters not"] += 1
    for name in NAMES:
        ctx.expect(ref.close(got[name], want[name]), "wrong window", trip=t, name=name, got=got[name], want=want[name])
    # the meaning: every way of performing the trip, on a grid
    travel = ref.time(inst, t["o"], t["d"])
    seen = []
    steps = [x * 0.5 for x in range(int(horizon / 0.5) + 1)]
    for p in steps:
        if not t["oe"] <= p <= num(t["ol"]):
            continue
        first = max(p + t["od"] + travel, t["de"])
        last = min(p + t["od"] + num(t["timeout"]), num(t["dl"]))
        for d in [first] + [x for x in steps if first < x < last] + ([last] if last < INF else []):
            if d <= last and d >= first:
                seen.append((p, d))
                ctx.step()
    for p, d in seen:
        ok = got["origin_earliest"] - 1e-6 <= p <= got["origin_latest"] + 1e-6
        ok = ok and got["destination_earliest"] - 1e-6 <= d <= got["destination_latest"] + 1e-6
        if not ctx.expect(ok, "the windows exclude a way of performing the trip", trip=t, pickup=p, delivery=d, got=got):
            break
    if seen:
        # both opening times can be reached, so they exclude nothing less than they should (ends on the grid only)
        euclidean_off_grid = travel * 2 != int(travel * 2)
        if not euclidean_off_grid:
            ctx.expect(ref.close(min(p for p, _ in seen), got["origin_earliest"]), "the pickup window opens too early", trip=t, got=got)
            ctx.expect(ref.close(min(d for _, d in seen), got["destination_earliest"]), "the delivery window opens too early", trip=t, got=got)
            if got["origin_latest"] <= horizon:
                ctx.expect(ref.close(max(p for p, _ in seen), got["origin_latest"]), "the pickup window closes too late", trip=t, got=got)
            if got["destination_latest"] <= horizon:
                ctx.expect(ref.close(max(d for _, d in seen), got["destination_latest"]), "the delivery window closes too late", trip=t, got=got)
    ctx.trace("servable" if seen else "impossible")
    for flag, label in (
        (pe > t["oe"], "origin opens later"), (pl < num(t["ol"]), "origin closes earlier"), (de > t["de"], "destination opens later"),
        (dl < num(t["dl"]), "destination closes earlier"), (pl == INF, "unbounded"), (t["od"] > 0, "load matters"),
    ):
        if flag:
            ctx.outcomes[label] += 1
    ctx.state(pe, pl, de, dl)
    ctx.sample(dict(trip=t, windows=got))
