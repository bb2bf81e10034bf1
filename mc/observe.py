"""What a user sees of routes, plannings and results: read through the public attributes of the model only."""
import re


def visits_of(built, route):
    """The visits of the inner stops, or None when some stop does not hold exactly one visit."""
    visits = []
    for stop in route.stops[1:-1]:
        here = [("P", built.trip_index(pt.trip)) for pt in stop.pickup_planned_trips]
        here += [("D", built.trip_index(pt.trip)) for pt in stop.delivery_planned_trips]
        if len(here) != 1:
            return None
        visits.append(here[0])
    return tuple(visits)


def rows_of(route):
    return [(stop.arrival_time, stop.starting_time, stop.departure_time) for stop in route.stops]


def starts_of(route):
    return [stop.starting_time for stop in route.stops]


def structure(built, route):
    """The list of what is wrong with how the objects of a route hang together."""
    out = []
    stops = route.stops
    if len(stops) < 2:
        return ["a route without its two ends"]
    if stops[0].previous is not None:
        out.append("the first stop has a previous stop")
    for n in range(1, len(stops)):
        if stops[n].previous is not stops[n - 1]:
            out.append(f"stop {n} does not follow stop {n - 1}")
    if len(set(map(id, stops))) != len(stops):
        out.append("a stop appears twice")
    vehicle = route.vehicle
    if stops[0].position != vehicle.origin_position or stops[-1].position != vehicle.destination_position:
        out.append("the route does not start and end where its vehicle does")
    for stop in (stops[0], stops[-1]):
        if any(True for _ in stop.planned_trips):
            out.append("an end of the route serves a trip")
    where = {}
    for n, stop in enumerate(stops):
        if stop.vehicle is not vehicle:
            out.append(f"stop {n} belongs to another vehicle")
        for kind, planned_trips, position in (
            ("P", stop.pickup_planned_trips, "origin_position"),
            ("D", stop.delivery_planned_trips, "destination_position"),
        ):
            for pt in planned_trips:
                i = built.trip_index(pt.trip)
                if isinstance(i, str):
                    out.append(f"a trip that was not requested: {i}")
                if pt.vehicle is not vehicle:
                    out.append(f"trip {i} is planned for another vehicle")
                if getattr(pt.trip, position) != stop.position:
                    out.append(f"{kind}{i} is performed at the wrong position")
                if (pt.pickup if kind == "P" else pt.delivery) is not stop:
                    out.append(f"{kind}{i}: the planned trip points to another stop")
                if (kind, i) in where:
                    out.append(f"{kind}{i} is performed twice")
                where[(kind, i)] = (n, pt)
    for kind, i in list(where):
        other = ("D" if kind == "P" else "P", i)
        if other not in where:
            out.append(f"{kind}{i} without {other[0]}{i}")
        elif kind == "P":
            if where[other][0] <= where[(kind, i)][0]:
                out.append(f"trip {i} is delivered before it is picked up")
            if where[other][1] is not where[(kind, i)][1]:
                out.append(f"trip {i}: pickup and delivery belong to different planned trips")
    listed = sorted(str(built.trip_index(t)) for t in route.trips)
    if listed != sorted(str(i) for kind, i in where if kind == "P"):
        out.append("the trips of the route are not those its stops pick up")
    return out


def planning_structure(built, planning):
    out = []
    vehicles = []
    served = []
    for route in planning.routes:
        k = built.vehicle_index(route.vehicle)
        if isinstance(k, str):
            out.append(f"a vehicle out of the fleet: {k}")
        vehicles.append(k)
        out += [f"vehicle {k}: {x}" for x in structure(built, route)]
        served += [built.trip_index(t) for t in route.trips]
    if len(set(vehicles)) != len(vehicles):
        out.append("two routes for one vehicle")
    if len(set(served)) != len(served):
        out.append(f"a trip is served twice: {sorted(map(str, served))}")
    return out


def route_view(built, route):
    """(vehicle, visits, rows) with plain values; visits is a tuple of tuples of (kind, trip) per inner stop."""
    visits = []
    for stop in route.stops:
        here = sorted(("P", str(built.trip_index(pt.trip))) for pt in stop.pickup_planned_trips)
        here += sorted(("D", str(built.trip_index(pt.trip))) for pt in stop.delivery_planned_trips)
        visits.append((tuple(stop.position.coordinates), tuple(here)))
    return (str(built.vehicle_index(route.vehicle)), tuple(visits), tuple(rows_of(route)))


def planning_view(built, planning):
    return tuple(sorted(route_view(built, route) for route in planning.routes))


def plan_of(built, planning):
    """[(vehicle index, visits, rows)] of the routes, by vehicle; visits None when stops are shared."""
    out = [(built.vehicle_index(r.vehicle), visits_of(built, r), rows_of(r)) for r in planning.routes]
    return sorted(out, key=lambda x: str(x[0]))


def served(built, planning):
    return sorted(str(built.trip_index(t)) for r in planning.routes for t in r.trips)


def brief(plan):
    """A plan that fits in a report."""
    return [
        {
            "vehicle": k,
            "visits": None if visits is None else " ".join(f"{a}{b}" for a, b in visits),
            "starts": [round(row[1], 4) for row in rows],
        }
        for k, visits, rows in plan
    ]


def _public(cls):
    """The names of everything a class computes for its users."""
    names = _public.cache.get(cls)
    if names is None:
        names = []
        for name in dir(cls):
            if name.startswith("_"):
                continue
            for base in cls.__mro__:
                if name in vars(base):
                    if isinstance(vars(base)[name], property) or type(vars(base)[name]).__name__ == "cached_property":
                        names.append(name)
                    break
        _public.cache[cls] = names
    return names


_public.cache = {}


def answers(built, route):
    """Everything a route, its stops and its planned trips answer, as plain values that can be compared."""
    places = {id(stop): n for n, stop in enumerate(route.stops)}

    def plain(name, value, depth=0):
        if value is None or isinstance(value, (bool, str)):
            return sorted(re.findall(r"[PD]?\w+", value)) if isinstance(value, str) else value
        if isinstance(value, (int, float)):
            return value if value in (float("inf"), float("-inf")) else round(value, 6) + 0.0
        if id(value) in places:
            return f"stop {places[id(value)]}"
        if id(value) in built.tidx:
            return f"trip {built.tidx[id(value)]}"
        if id(value) in built.vidx:
            return f"vehicle {built.vidx[id(value)]}"
        if hasattr(value, "pickup") and hasattr(value, "trip"):
            return f"planned {built.tidx.get(id(value.trip), '?')}"
        if hasattr(value, "coordinates"):
            return tuple(value.coordinates)
        if depth < 2 and hasattr(value, "__iter__"):
            values = [plain(name, v, depth + 1) for v in value]
            return values if name == "positions" else sorted(values, key=repr)
        return type(value).__name__

    def read(obj):
        out = {}
        for name in _public(type(obj)):
            out[name] = plain(name, getattr(obj, name))
        return out

    view = {"route": read(route)}
    for n, stop in enumerate(route.stops):
        for name, value in read(stop).items():
            view[n, name] = value
        for pt in stop.pickup_planned_trips:
            for name, value in read(pt).items():
                view[built.tidx.get(id(pt.trip), "?"), "planned", name] = value
    return view


def differences(a, b):
    """What differs between two readings, in words (empty when nothing does)."""

    def same(x, y):
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
            return x == y or abs(x - y) <= 2e-6
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            return len(x) == len(y) and all(same(i, j) for i, j in zip(x, y))
        if isinstance(x, dict) and isinstance(y, dict):
            return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
        return x == y

    out = []
    for key in sorted(set(a) | set(b), key=repr):
        x, y = a.get(key, "absent"), b.get(key, "absent")
        if isinstance(x, dict) and isinstance(y, dict):
            out += [f"{key}.{d}" for d in differences(x, y)]
        elif not same(x, y):
            out.append(f"{key}: {x} / {y}")
    return out
