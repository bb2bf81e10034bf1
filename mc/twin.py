"""What every algorithm answers over some instances, as text: run with and without assertions, and compared.

    python -m mc.twin < instances        (a JSON list of cases; prints a JSON list of answers)
"""
import json
import sys

from . import solve, sweep
from .env import Order, jit
from .inst import Built, result_from
from .observe import planning_view

EXTRA = [
    solve.ins(iterator="best", strategy="sampling", criterion="shortest", randomized_size=3, seed=5),
    solve.ins(strategy="sampling", randomized_size=2, seed=11),
    dict(algorithm="naive"),
]


def answers(case):
    """Every configuration, from nothing and from a plan, with the generators as they are."""
    inst = sweep.instance_of(case)
    out = []
    for cfg in solve.BUILD + solve.RANDOMIZED + solve.META + EXTRA:
        out.append([solve.label(cfg), None, attempt(inst, cfg, None)])
    for n, plan in enumerate(sweep.starts(inst, min(2, len(inst["vehicles"])))):
        if n % case.get("step", 1):
            continue
        for cfg in solve.IMPROVE:
            out.append([solve.label(cfg), str(plan), attempt(inst, cfg, plan)])
    return out


def attempt(inst, cfg, plan):
    Order.reset()
    built = Built(inst)
    initial = None if plan is None else result_from(built, plan)
    try:
        result = solve.algorithm(built, cfg, initial).optimize()
        view = planning_view(built, result.planning)
        text = jit.ColumnarStorerFormatter(result=result).format().replace(str(result.planning_uuid), "")
        text = [line for line in text.split("\n") if "omputation" not in line]
        return repr((view, bool(result.feasible), result.optimization_value, text))
    except Exception as exception:
        return f"{type(exception).__name__}"


if __name__ == "__main__":
    json.dump([answers(case) for case in json.load(sys.stdin)], sys.stdout)
