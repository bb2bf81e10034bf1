"""Stateless exploration of executions: depth first over every sequence of choices, bounding deviations."""
from .env import Diverged, Rng


class EmptyChoice(IndexError):
    """What ``random.choice([])`` raises."""


class Chooser:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.arity = []
        self.labels = []

    def choose(self, n, label=""):
        if n <= 0:
            raise EmptyChoice("nothing to choose from")
        i = len(self.trace)
        if i < len(self.prefix):
            value = self.prefix[i]
            if value >= n:
                raise Diverged(f"choice {i} ({label}) replays {value} but only {n} are enabled")
        else:
            value = 0
        self.trace.append(value)
        self.arity.append(n)
        self.labels.append(label)
        return value


def run_with(chooser, fn):
    previous, Rng.chooser = Rng.chooser, chooser
    try:
        return fn(chooser)
    finally:
        Rng.chooser = previous


def explore(fn, ctx=None, bound=None, cap=100000):
    """Run ``fn(chooser)`` for every choice sequence with at most ``bound`` deviations from the first option.

    Yields ``(chooser, result)``. Executions always run to completion.
    """
    stack = [[]]
    count = 0
    while stack:
        prefix = stack.pop()
        chooser = Chooser(prefix)
        result = run_with(chooser, fn)
        if len(chooser.trace) < len(prefix):
            raise Diverged(f"the prefix {prefix} was not consumed: {chooser.trace}")
        count += 1
        if ctx is not None:
            ctx.transitions += max(1, len(chooser.trace) - len(prefix))
        yield chooser, result
        if count >= cap:
            if ctx is not None and stack:
                ctx.capped += 1
            return
        cost = sum(1 for v in prefix if v)
        for i in reversed(range(len(prefix), len(chooser.trace))):
            if bound is not None and cost + 1 > bound:
                break
            for alt in reversed(range(1, chooser.arity[i])):
                stack.append(chooser.trace[:i] + [alt])
