"""Instances as plain JSON-able data, and the jinete objects built from them through the public constructors."""
from . import goals, roads
from .env import INF, Order, jit
from .goals import OBJECTIVES  # noqa: F401 (for the checks)


def num(v):
    return INF if v is None else v


def trip(o, d, oe=0.0, ol=None, de=0.0, dl=None, od=0.0, dd=0.0, cap=1, timeout=None, bonus=0.0):
    """``None`` limits are unbounded."""
    return dict(o=list(o), d=list(d), oe=oe, ol=ol, de=de, dl=dl, od=od, dd=dd, cap=cap, timeout=timeout, bonus=bonus)


def vehicle(o=(0, 0), d=None, e=0.0, l=None, de=0.0, dl=None, cap=1, timeout=None):
    """Without ``d`` the vehicle comes back to its origin, whose window is (e, l)."""
    return dict(o=list(o), d=None if d is None else list(d), e=e, l=l, de=de, dl=dl, cap=cap, timeout=timeout)


def instance(trips, vehicles, metric="euclidean", objective="dar", reverse=False):
    return dict(trips=list(trips), vehicles=list(vehicles), metric=metric, objective=objective, reverse=reverse)


class Built:
    """The jinete counterpart of an instance."""

    def __init__(self, inst, reset=True):
        if reset:
            Order.reset(inst.get("reverse", False))
        self.inst = inst
        self.surface = roads.surface(jit, inst["metric"])
        self.vehicles = []
        for k, v in enumerate(inst["vehicles"]):
            origin = jit.Service(self._pos(v["o"]), earliest=v["e"], latest=num(v["l"]))
            destination = None
            if v["d"] is not None:
                destination = jit.Service(self._pos(v["d"]), earliest=v["de"], latest=num(v["dl"]))
            self.vehicles.append(
                jit.Vehicle(str(k), origin, destination, capacity=num(v["cap"]), timeout=num(v["timeout"]))
            )
        self.trips = []
        for i, t in enumerate(inst["trips"]):
            self.trips.append(
                jit.Trip(
                    identifier=str(i),
                    origin=jit.Service(self._pos(t["o"]), earliest=t["oe"], latest=num(t["ol"]), duration=t["od"]),
                    destination=jit.Service(self._pos(t["d"]), earliest=t["de"], latest=num(t["dl"]), duration=t["dd"]),
                    capacity=t["cap"],
                    on_time_bonus=t["bonus"],
                    timeout=num(t["timeout"]),
                )
            )
        for obj in self.vehicles + self.trips:
            hash(obj)  # the order of the sets follows the order of the instance
        self.fleet = jit.Fleet(set(self.vehicles))
        self.job = jit.Job(set(self.trips), objective_cls=goals.CLASSES[inst["objective"]], **goals.ARGUMENTS.get(inst["objective"], {}))
        self.tidx = {id(t): i for i, t in enumerate(self.trips)}
        self.vidx = {id(v): i for i, v in enumerate(self.vehicles)}

    def _pos(self, xy):
        return self.surface.get_or_create_position(list(xy))

    def trip_index(self, t):
        return self.tidx.get(id(t), f"foreign:{t.identifier}")

    def vehicle_index(self, v):
        return self.vidx.get(id(v), f"foreign:{v.identifier}")


def append(route, t, i, j):
    """Insert the trip on the route through the public API: pickup after stop ``i``, delivery before stop ``j``.

    ``i < j`` index the stops of the route as it is before the insertion.
    """
    pickup = jit.Stop(route.vehicle, t.origin_position, route.stops[i])
    delivery = jit.Stop(route.vehicle, t.destination_position, pickup if i + 1 == j else route.stops[j - 1])
    planned_trip = jit.PlannedTrip(route.vehicle, t, pickup, delivery)
    route.append_planned_trip(planned_trip)
    return planned_trip


def route_from(built, k, visits, starts=None):
    """A route of vehicle ``k`` performing ``visits`` ([kind, trip index], kind in 'PD') in order, one stop each.

    ``starts`` optionally fixes the requested starting time of each stop, depots included.
    """
    route = jit.Route(built.vehicles[k])
    planned = {}
    for kind, i in visits:
        t = built.trips[i]
        previous = route.stops[-2]
        if kind == "P":
            stop = jit.Stop(route.vehicle, t.origin_position, previous)
            planned[i] = jit.PlannedTrip(route.vehicle, t, pickup=stop)
        else:
            stop = jit.Stop(route.vehicle, t.destination_position, previous)
            planned[i].delivery = stop
            stop.append_delivery(planned[i])
        route.insert_stop(stop)
    if starts is not None:
        for stop, start in zip(route.stops, starts):
            if start is not None:
                stop.starting_time = start
    route.flush()
    return route


def route_of_stops(built, k, stops, starts=None):
    """A route of vehicle ``k`` put together at once, whose stops perform several visits each (a collection of visits)."""
    vehicle = built.vehicles[k]
    starts = starts or [None] * (len(stops) + 2)
    nodes = [jit.Stop(vehicle, vehicle.origin_position, None, starting_time=starts[0])]
    planned = {}
    for n, visits in enumerate(stops, 1):
        kind, i = next(iter(visits))
        place = built.trips[i].origin_position if kind == "P" else built.trips[i].destination_position
        stop = jit.Stop(vehicle, place, nodes[-1], starting_time=starts[n])
        for kind, i in sorted(visits):
            if kind == "P":
                planned[i] = jit.PlannedTrip(vehicle, built.trips[i], pickup=stop)
            else:
                planned[i].delivery = stop
                stop.append_delivery(planned[i])
        nodes.append(stop)
    nodes.append(jit.Stop(vehicle, vehicle.destination_position, nodes[-1], starting_time=starts[-1]))
    return jit.Route(vehicle, nodes)


def merges(inst, visits):
    """Every way of performing consecutive visits at the same place in one stop (never both visits of one trip)."""

    def place(visit):
        return tuple(inst["trips"][visit[1]]["o" if visit[0] == "P" else "d"])

    def rec(n, stops):
        if n == len(visits):
            yield [list(s) for s in stops]
            return
        visit = visits[n]
        yield from rec(n + 1, stops + [[visit]])
        if stops and place(stops[-1][-1]) == place(visit) and all(i != visit[1] for _, i in stops[-1]):
            yield from rec(n + 1, stops[:-1] + [stops[-1] + [visit]])

    yield from rec(0, [])


class GivenAlgorithm(jit.Algorithm):
    """An algorithm that answers a given planning: makes the results the checks start from."""

    def __init__(self, planning, **kwargs):
        super().__init__(**kwargs)
        self.planning = planning

    def _optimize(self):
        return self.planning


def result_from(built, plan, starts=None):
    """A result for ``plan``: a list with the visits of each vehicle (or None to leave the vehicle without route)."""
    routes = set()
    for k, visits in enumerate(plan):
        if visits is None:
            continue
        routes.add(route_from(built, k, visits, None if starts is None else starts[k]))
    planning = jit.Planning(routes) if routes else jit.Planning()
    return jit.Result(GivenAlgorithm(jit.Planning(routes), fleet=built.fleet, job=built.job), planning, 0.0)


def sequences(trips):
    """Every order of the visits of ``trips`` with each pickup before its delivery."""

    def rec(pending, onboard, acc):
        if not pending and not onboard:
            yield tuple(acc)
            return
        for i in pending:
            yield from rec([p for p in pending if p != i], onboard + [i], acc + [("P", i)])
        for i in onboard:
            yield from rec(pending, [p for p in onboard if p != i], acc + [("D", i)])

    yield from rec(list(trips), [], [])


def plans(n, k, all_served=False):
    """Every plan of ``n`` trips on ``k`` vehicles (as the visits of each vehicle); unserved trips allowed unless not."""

    def rec(i, groups):
        if i == n:
            yield [list(g) for g in groups]
            return
        for v in range(k):
            groups[v].append(i)
            yield from rec(i + 1, groups)
            groups[v].pop()
        if not all_served:
            yield from rec(i + 1, groups)

    def product(groups):
        if not groups:
            yield ()
            return
        for head in sequences(groups[0]):
            for tail in product(groups[1:]):
                yield (head,) + tail

    for groups in rec(0, [[] for _ in range(k)]):
        yield from product(groups)
