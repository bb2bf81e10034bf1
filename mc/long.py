"""Instances on a line, as large as the library still searches completely: routes of 16 stops, and 24 pending requests.

    ride ... every visit of the first route takes place at its own unit of the line, at its own instant
"""
import itertools

from .inst import instance, trip, vehicle

TRIPS = 7
LENGTH = 2 * TRIPS + 1  # where the line ends; every stop n of the route is at n


def visits(nested):
    """The visits of the route along the line: one ride after another, or everybody on board at once."""
    if nested:
        return tuple(("P", i) for i in range(TRIPS)) + tuple(("D", i) for i in range(TRIPS))
    return tuple((kind, i) for i in range(TRIPS) for kind in "PD")


def places():
    """Every pair of the stops of the route: pick up after the first one, deliver before the second one."""
    return list(itertools.combinations(range(LENGTH + 1), 2))


def riders(nested, exact):
    at = {x: n for n, x in enumerate(visits(nested), 1)}
    out = []
    for i in range(TRIPS):
        p, d = at["P", i], at["D", i]
        out.append(trip((p, 0), (d, 0), oe=float(p) if exact else 0.0, ol=float(p) if exact else None, de=0.0, dl=float(d) if exact else None))
    return out


def fitting(place):
    """A request that only fits at that place of the route, without a detour."""
    i, j = place
    return trip((i + 0.25, 0), (j - 0.25, 0), oe=i + 0.25, ol=i + 0.25, dl=j - 0.25)


def van(**kw):
    return vehicle(o=(0, 0), d=(LENGTH, 0), cap=TRIPS + 1, **kw)


def crowded(place, nested):
    """A route of 16 stops with room for one more request exactly at that place, and the request."""
    return instance(riders(nested, exact=True) + [fitting(place)], [van()])


def movable(place, nested):
    """The same, and a second vehicle that serves the request with a detour."""
    base = crowded(place, nested)
    i, j = place
    other = vehicle(o=(i + 0.25, 0.25), d=(j - 0.25, 0.25), cap=1)
    return dict(base, vehicles=base["vehicles"] + [other])


def open_line():
    """A route of 16 stops without windows."""
    return instance(riders(True, exact=False), [van()])


MANY = 24


def many(best):
    """As many requests as a neighbourhood holds, the nearest of which is at the given place of the list."""
    trips = []
    for n in range(MANY):
        r = 1.0 if n == best else 2.0 + n / 16
        trips.append(trip((r, 0), (r - 0.5, 0), ol=r))  # straight from the depot: one for each vehicle
    return instance(trips, [vehicle(cap=1, l=7.5), vehicle(cap=1, l=7.5)])
