"""What is pursued: the objectives of the library, and objectives as a user may write them."""
from .env import jit

OBJECTIVES = {
    "dar": jit.DialARideObjective,
    "taxi": jit.TaxiSharingObjective,
    "hashcode": jit.HashCodeObjective,
}
WEIGHT = 0.5


class Soon(jit.Objective):
    """Everybody is back as soon as possible."""

    def __init__(self):
        super().__init__(name="Soon", dimension_count=1)
        self.direction = jit.OptimizationDirection.MINIMIZATION

    def _route_optimization_function(self, route):
        return (route.last_departure_time,)


class Calm(jit.Objective):
    """Short rides first, then early deliveries."""

    def __init__(self, weight=1.0):
        super().__init__(name="Calm", dimension_count=2)
        self.direction = jit.OptimizationDirection.MINIMIZATION
        self.weight = weight

    def _planned_trip_optimization_function(self, planned_trip):
        return planned_trip.duration, self.weight * planned_trip.delivery_time


class Prompt(jit.Objective):
    """As many requests as possible picked up as they open, and then delivered early."""

    def __init__(self):
        super().__init__(name="Prompt", dimension_count=2)

    def _planned_trip_optimization_function(self, planned_trip):
        on_time = abs(planned_trip.pickup_time - planned_trip.trip.origin_earliest) <= 1e-6
        return 1 if on_time else 0, -planned_trip.delivery_time


OWN = {"soon": Soon, "calm": Calm, "prompt": Prompt}
CLASSES = {**OBJECTIVES, **OWN}
ARGUMENTS = {"calm": dict(weight=WEIGHT)}
SIZES = dict(dar=2, taxi=1, hashcode=1, soon=1, calm=2, prompt=2)
MINIMIZED = ("soon", "calm")


def signed(name, value):
    """The value such that more is better."""
    return tuple(-x for x in value) if name in MINIMIZED else tuple(value)


class Lazy(jit.RouteCriterion):
    """As much waiting as possible."""

    def __init__(self, *args, **kwargs):
        super().__init__(name="Lazy", direction=jit.OptimizationDirection.MAXIMIZATION, *args, **kwargs)

    def scoring(self, route):
        return route.waiting_time if route.feasible else -jit.MAX_FLOAT


class Near(jit.RouteCriterion):
    """As little driving as possible."""

    def __init__(self, *args, **kwargs):
        super().__init__(name="Near", direction=jit.OptimizationDirection.MINIMIZATION, *args, **kwargs)

    def scoring(self, route):
        return route.distance if route.feasible else jit.MAX_FLOAT


CRITERIA = {"lazy": Lazy, "near": Near}
