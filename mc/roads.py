"""How far and how long: the two metrics of the library, and surfaces as a user may write them."""
import math


def distance(metric, a, b):
    if metric == "euclidean":
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    if metric == "oneway":  # going back along the first axis takes a detour
        return sum(abs(x - y) for x, y in zip(a, b)) + max(0, a[0] - b[0])
    return sum(abs(x - y) for x, y in zip(a, b))  # manhattan, and the ones whose times are not their distances


def time(metric, a, b, now=None):
    """Without ``now``: the shortest it may ever take."""
    far = distance(metric, a, b)
    if metric == "slow":
        return 1.5 * far
    if metric == "fast":
        return 0.5 * far
    if metric == "gates":  # the shortest way is not always the fastest: near places take a detour to start from the origin
        return far + (6 if tuple(a) == (0, 0) and 0 < far <= 1.5 else 0)
    if metric == "rush" and now is not None and now >= 4:  # roads fill up, and stay so
        return 1.5 * far
    return far


OWN = ("oneway", "slow", "rush", "fast", "gates")
STATIC = ("gates", "oneway", "fast", "slow")


def surface(jit, metric):
    """The surface of jinete with those distances and times."""
    if metric not in OWN:
        return jit.GeometricSurface(getattr(jit.DistanceMetric, metric.upper()))

    class Roads(jit.GeometricSurface):
        def distance(self, position_a, position_b):
            return distance(metric, position_a.coordinates, position_b.coordinates)

        def time(self, position_a, position_b, now=None, **kwargs):
            return time(metric, position_a.coordinates, position_b.coordinates, now)

    return Roads(jit.DistanceMetric.MANHATTAN)
