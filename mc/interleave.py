"""Interleavings of two runs: one of them stops before a chosen line of the library, the other one runs, the first goes on.

The steps of a run are the lines of jinete it executes (counted by the tracing of the interpreter). With one preemption
this is every schedule of two threads that starts with the first one, up to the granularity of lines: nothing else of
the interpreter is run in between, and the second run is finished when the first one resumes.
"""
import os
import sys

from .env import REPO, Order

HOME = os.path.join(os.path.realpath(REPO), "jinete") + os.sep
_inside = {}


def _ours(code):
    name = code.co_filename
    if name not in _inside:
        _inside[name] = os.path.realpath(name).startswith(HOME)
    return _inside[name]


def traced(fn, on_step):
    """Run ``fn``, calling ``on_step(code, line)`` before every line of the library."""

    def local(frame, event, _):
        if event == "line":
            on_step(frame.f_code, frame.f_lineno)
        return local

    def start(frame, event, _):
        return local if _ours(frame.f_code) else None

    sys.settrace(start)
    try:
        return fn()
    finally:
        sys.settrace(None)


def steps(fn):
    """The lines a run executes, in order, and what it answers."""
    seen = []
    answer = traced(fn, lambda code, line: seen.append((code, line)))
    return seen, answer


def points(seen, each):
    """The first ``each`` and the last occurrence of every line (all of them when ``each`` is None)."""
    if each is None:
        return list(range(len(seen)))
    count, last, chosen = {}, {}, set()
    for n, where in enumerate(seen):
        count[where] = count.get(where, 0) + 1
        last[where] = n
        if count[where] <= each:
            chosen.add(n)
    return sorted(chosen | set(last.values()))


class Interrupted(Exception):
    """What the other run answered is an exception: kept as the answer of that run."""


def interleave(first, second, point):
    """Run ``first``; before its step number ``point``, run ``second`` as a whole. Both answers, or their exceptions."""
    answers = {}
    count = [0]
    base = Order.count

    def other():
        resume, Order.count = Order.count, base  # the objects of each run are numbered as when it runs alone
        try:
            answers[1] = attempt(second)
        finally:
            Order.count = resume

    def on_step(code, line):
        if count[0] == point:
            other()
        count[0] += 1

    answers[0] = attempt(lambda: traced(first, on_step))
    if 1 not in answers:
        other()  # the first run was shorter than expected
    return answers[0], answers[1], count[0]


def attempt(fn):
    try:
        return ("answer", fn())
    except Exception as exception:  # the verdict of the check
        return ("failed", f"{type(exception).__name__}: {exception}"[:300])
