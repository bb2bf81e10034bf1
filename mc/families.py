"""The bounded alphabets the instances are made of."""
import itertools

from . import roads
from .inst import instance, trip, vehicle

# Where trips go (the depot is at the origin of the plane).
GEO = {
    "out": ((1, 0), (3, 0)),
    "back": ((3, 0), (1, 0)),
    "same": ((2, 0), (2, 0)),
    "home": ((2, 1), (0, 0)),
    "diag": ((0, 1), (1, 2.5)),
    "depot": ((0, 0), (2, 0)),
}


def shape(geo, timing="free", load="none", metric="euclidean", cap=1, bonus=0.0):
    """A trip: one geometry, one kind of time limits, one kind of loads."""
    o, d = GEO[geo]
    od, dd = {"none": (0.0, 0.0), "both": (0.5, 0.25), "pick": (1.0, 0.0), "drop": (0.0, 1.0)}[load]
    reach = roads.time(metric, (0, 0), o)
    ride = roads.time(metric, o, d)
    kw = {}
    if timing == "free":
        pass
    elif timing == "late":  # the pickup opens after the vehicle can be there
        kw = dict(oe=reach + 2.0)
    elif timing == "tight":  # only reachable straight from the depot
        kw = dict(ol=reach)
    elif timing == "due":  # the delivery closes early
        kw = dict(dl=reach + od + ride + 0.5)
    elif timing == "ride":  # limited time on board
        kw = dict(timeout=ride + 0.5)
    elif timing == "strict":  # no detour at all
        kw = dict(timeout=ride)
    elif timing == "appoint":  # the delivery opens late, and the ride is limited
        kw = dict(de=reach + ride + 4.0, timeout=ride + 1.0)
    elif timing == "slot":  # windows on both sides
        kw = dict(oe=1.5, ol=reach + 4.0, de=2.0, dl=reach + od + ride + 5.0)
    elif timing == "never":  # cannot be served
        kw = dict(oe=10.0, dl=9.0)
    else:
        raise KeyError(timing)
    return trip(o, d, od=od, dd=dd, cap=cap, bonus=bonus, **kw)


FLEETS = {
    "one": [vehicle(cap=2)],
    "single": [vehicle(cap=1)],
    "two": [vehicle(cap=2), vehicle(cap=2)],
    "pair": [vehicle(cap=1), vehicle(cap=1)],
    "shift": [vehicle(cap=2, l=9.0), vehicle(cap=2, l=9.0)],
    "hours": [vehicle(cap=2, timeout=7.0), vehicle(cap=2, timeout=7.0)],
    "later": [vehicle(cap=2, e=1.0, l=14.0), vehicle(cap=2, e=1.0, l=14.0)],
    "away": [vehicle(cap=2, d=(2, 2), dl=11.0), vehicle(cap=2, d=(2, 2), dl=11.0)],
    "ends": [vehicle(cap=2, e=1.0, l=15.0, d=(2, 2), de=4.0, dl=13.0), vehicle(cap=2, e=0.5, l=15.0, d=(2, 2), de=2.0, dl=11.0)],
    "mixed": [vehicle(cap=2, timeout=9.0), vehicle(o=(1, 0), cap=1, e=0.5, l=12.0), vehicle(o=(3, 0), d=(0, 0), cap=3)],
}


def pick(n, shapes, ordered=False):
    """Every combination (with repetition) of ``n`` of the shapes."""
    pool = list(shapes)
    if ordered:
        return itertools.product(pool, repeat=n)
    return itertools.combinations_with_replacement(pool, n)


def build(trips, fleet, metric="euclidean", objective="dar", reverse=False):
    return instance(trips, FLEETS[fleet] if isinstance(fleet, str) else fleet, metric, objective, reverse)
