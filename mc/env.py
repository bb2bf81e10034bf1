"""Closes the system: imports jinete from /repo with every source of nondeterminism owned by the harness.

* ``random.Random`` is replaced (before jinete is imported) by a subclass whose decisions come from the explorer while
  one is active, and from the ordinary generator otherwise.
* the functions of the ``random`` module (the process-wide generator) are wrapped so that their use is noticed.
* objects that hash by identity get small deterministic hashes, so that the iteration order of the sets that hold them
  is the same on every execution (and can be reversed on demand) instead of depending on memory addresses.
"""
import logging
import os
import random as _random
import sys
import weakref

REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_RealRandom = _random.Random


class Diverged(Exception):
    """Replaying a prefix of choices met another choice point: some nondeterminism is not owned by the harness."""


class Rng:
    """What the generators do: 'real' (an ordinary generator) or the active chooser."""

    chooser = None
    small = 64  # randint over more values than these is considered a seed, not a decision
    global_calls = 0
    seeds = None  # when a list, the seeds every generator is built with are appended to it


class OracleRandom(_RealRandom):
    def __new__(cls, *args, **kwargs):
        return _RealRandom.__new__(cls)

    def __init__(self, x=None):
        if Rng.seeds is not None:
            Rng.seeds.append(x)
        super().__init__(x)

    def __setstate__(self, state):
        if Rng.seeds and Rng.seeds[-1] is None:
            Rng.seeds.pop()  # it is the copy of another one
        super().__setstate__(state)

    def choice(self, seq):
        if Rng.chooser is None:
            return super().choice(seq)
        return seq[Rng.chooser.choose(len(seq), "choice")]

    def randrange(self, start, stop=None, step=1):
        if Rng.chooser is None:
            return super().randrange(start, stop, step) if stop is not None else super().randrange(start)
        values = range(start) if stop is None else range(start, stop, step)
        if (values.stop - values.start) // values.step > Rng.small:
            return super().randrange(values.start, values.stop, values.step)
        return values[Rng.chooser.choose(len(values), "randrange")]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def shuffle(self, x):
        if Rng.chooser is None:
            return super().shuffle(x)
        for i in reversed(range(1, len(x))):
            j = Rng.chooser.choose(i + 1, "shuffle")
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, **kwargs):
        if Rng.chooser is None:
            return super().sample(population, k, **kwargs)
        pool, result = list(population), []
        for _ in range(k):
            result.append(pool.pop(Rng.chooser.choose(len(pool), "sample")))
        return result

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if Rng.chooser is None:
            return super().choices(population, weights, cum_weights=cum_weights, k=k)
        return [population[Rng.chooser.choose(len(population), "choices")] for _ in range(k)]

    def getrandbits(self, k):
        return super().getrandbits(k)

    def random(self):
        if Rng.chooser is None:
            return super().random()
        return (0.0, 0.5, 0.999999)[Rng.chooser.choose(3, "random")]

    def uniform(self, a, b):
        return a + (b - a) * self.random()


_random.Random = OracleRandom


def _wrap_global(name):
    original = getattr(_random, name)

    def wrapper(*args, **kwargs):
        Rng.global_calls += 1
        return original(*args, **kwargs)

    setattr(_random, name, wrapper)


for _name in ("random", "randint", "randrange", "choice", "choices", "sample", "shuffle", "uniform", "gauss",
              "triangular", "betavariate", "expovariate", "normalvariate", "getrandbits", "seed"):
    _wrap_global(_name)

import jinete as jit  # noqa: E402
import jinete.models.constants as jit_constants  # noqa: E402,F401

assert os.path.realpath(jit.__file__).startswith(os.path.realpath(REPO) + os.sep), jit.__file__

logging.disable(logging.CRITICAL)


class Order:
    """Serial numbers used as hashes: sets are iterated in first-hash order (or the reverse of it)."""

    serials = {}
    count = 0
    reverse = False

    @classmethod
    def reset(cls, reverse=False):
        cls.serials = {}
        cls.count = 0
        cls.reverse = reverse

    @classmethod
    def of(cls, obj):
        key = id(obj)
        entry = cls.serials.get(key)
        if entry is not None and entry[1]() is obj:
            return entry[0]
        serials = cls.serials
        serial = (1 << 20) - 1 - cls.count if cls.reverse else cls.count
        cls.count += 1
        serials[key] = (serial, weakref.ref(obj, lambda _, key=key: serials.pop(key, None)))
        return serial


def _own_hash(cls):
    if cls.__hash__ is object.__hash__ and cls.__eq__ is object.__eq__:
        cls.__hash__ = lambda self: Order.of(self)


for _cls in (jit.Trip, jit.Vehicle, jit.Route, jit.PlannedTrip, jit.Stop, jit.Planning, jit.Result):
    _own_hash(_cls)

INF = float("inf")
BOUND = 1e-3  # the tolerance jinete documents for its feasibility verdicts
TOL = 2e-3  # what the checks grant on every single limit of a plan
