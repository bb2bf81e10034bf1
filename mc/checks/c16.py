"""C16: the pipeline loads, solves and stores, in that order, once, with what the user configured, or fails as it failed."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import tempfile
from functools import partial
from pathlib import Path

from .. import ref, solve
from ..env import REPO, Order, jit
from ..observe import planning_structure, rows_of
from .c14 import render

REQUIRED = ("end to end", "fault", "no fault", "again", "failed store keeps the file", "cordeau", "hashcode", "prompt", "file", "set",
            "default", "text path", "served all", "no trips", "no vehicles", "failed:loader", "failed:store")
BOUNDS = {
    "quick": "12 instances x 28 algorithm configurations x 5 storers, solved twice; every fault at 9 points in 2 consecutive runs",
    "thorough": "30 instances; every fault in 3 consecutive runs",
}
CHUNK = 1

# (vehicles, hours, capacity, ride limit, trips: (ox, oy, dx, dy, load, earliest pickup, latest delivery))
SMALL = [
    (2, 60, 2, 20, [(1, 0, 3, 0, 1, 0, 50), (3, 0, 1, 0, 1, 10, 50), (0, 2, 2, 2, 1, 0, 40)]),
    (1, 60, 1, 20, [(1, 1, 2, 2, 1, 0, 50), (2, 2, 1, 1, 1, 0, 50)]),
    (2, 30, 3, 8, [(1, 0, 5, 0, 2, 0, 30), (2, 0, 4, 0, 1, 3, 30), (0, 1, 0, 6, 1, 0, 30)]),
    (3, 12, 1, 6, [(1, 0, 2, 0, 1, 0, 12), (1, 0, 2, 0, 1, 0, 12), (1, 0, 2, 0, 1, 0, 12)]),
    (1, 60, 2, 9, []),
    (0, 60, 2, 9, [(1, 0, 2, 0, 1, 0, 50)]),
    (1, 5, 1, 9, [(9, 9, 1, 0, 1, 0, 4)]),
    (2, 100, 4, 30, [(1, 2, 3, 4, 1, 5, 90), (3, 4, 1, 2, 1, 20, 90), (5, 5, 1, 1, 2, 0, 90), (2, 2, 4, 4, 1, 40, 90)]),
]


def text_of(kind, spec):
    m, hours, cap, ride, trips = spec
    if kind == "cordeau":
        rows = [[m, 2 * len(trips), hours, cap, ride], [0, 0, 0, 0, 0, 0, hours]]
        rows += [[i, t[0], t[1], 0.5, t[4], t[5], hours] for i, t in enumerate(trips, 1)]
        rows += [[i + len(trips), t[2], t[3], 0.5, -t[4], 0, t[6]] for i, t in enumerate(trips, 1)]
    else:
        rows = [[10, 10, m, len(trips), 2, hours]] + [[t[0], t[1], t[2], t[3], t[5], t[6]] for t in trips]
    return render(rows, "plain")


def more():
    spots = [(1, 0, 3, 0), (3, 1, 0, 1), (2, 2, 2, 2), (0, 0, 4, 0), (4, 3, 1, 0)]
    for n, (a, b) in enumerate(itertools.product(spots, repeat=2)):
        yield (1 + n % 3, 40, 1 + n % 2, 9, [a + (1, 2 * (n % 4), 38), b + (1, 3, 30 + n % 5)])


ALGORITHMS = {
    "default": {},
    "naive": dict(algorithm=jit.NaiveAlgorithm),
    "insertion": dict(algorithm=jit.InsertionAlgorithm, algorithm_kwargs={"neighborhood_max_size": None}),
    "stateless": dict(algorithm=jit.InsertionAlgorithm, algorithm_kwargs={"iterator_cls": jit.StatelessInsertionIterator}),
    "best stateless": dict(algorithm=jit.InsertionAlgorithm, algorithm_kwargs={"iterator_cls": jit.BestStatelessInsertionIterator, "randomized_size": 2}),
    "sequential": dict(algorithm=jit.SequentialAlgorithm, algorithm_kwargs={"algorithms_cls": [(jit.InsertionAlgorithm, {}), (jit.LocalSearchAlgorithm, {"strategy_cls": jit.TwoOPTLocalSearchStrategy})]}),
    "sequence": dict(algorithm=jit.SequentialAlgorithm, algorithm_kwargs={"algorithms_cls": [(jit.InsertionAlgorithm, {"strategy_cls": jit.TailInsertionStrategy}), (jit.LocalSearchAlgorithm, {}), (jit.InsertionAlgorithm, {}), (jit.LocalSearchAlgorithm, {"strategy_cls": jit.OneShiftLocalSearchStrategy, "no_improvement_threshold": 2})]}),
    "iterative": dict(algorithm=jit.IterativeAlgorithm, algorithm_kwargs={"episodes": 2, "seed": 3}),
    "iterative kept": dict(algorithm=jit.IterativeAlgorithm, algorithm_kwargs={"episodes": 3, "restart_mode": False, "randomized_size": 2}),
    "grasp": dict(algorithm=jit.GraspAlgorithm, algorithm_kwargs={"first_solution_kwargs": {"episodes": 1, "randomized_size": 2}, "episodes": 2}),
    "grasp search": dict(algorithm=jit.GraspAlgorithm, algorithm_kwargs={"local_search_kwargs": {"strategy_cls": jit.TwoOPTLocalSearchStrategy}, "seed": 4, "episodes": 1}),
    "grasp shift": dict(algorithm=jit.GraspAlgorithm, algorithm_kwargs={"local_search_kwargs": {"strategy_cls": jit.OneShiftLocalSearchStrategy}, "episodes": 1}),
}
for _name, _cls in solve.STRATEGIES.items():
    ALGORITHMS[f"strategy {_name}"] = dict(algorithm_kwargs={"strategy_cls": _cls})
for _name, _cls in solve.CRITERIA.items():
    ALGORITHMS[f"criterion {_name}"] = dict(algorithm_kwargs={"criterion_cls": _cls, "randomized_size": 1})
STORERS = ("default", "prompt", "file", "set", "naive")


def cases(tier):
    specs = SMALL + (list(more())[::6] if tier == "quick" else list(more()))
    for kind in ("cordeau", "hashcode"):
        for n, spec in enumerate(specs):
            for m, name in enumerate(ALGORITHMS):
                yield dict(mode="end", kind=kind, spec=spec, algorithm=name, storers=list(STORERS) if tier != "quick" else [STORERS[(n + m) % 5], STORERS[(n + m + 2) % 5]])
    for name in ("default", "insertion", "grasp", "iterative"):
        yield dict(mode="end", kind="hashcode", file="res/datasets/hashcode/a_example.in", algorithm=name, storers=list(STORERS))
        yield dict(mode="end", kind="cordeau", file="tests/res/problem-4.txt", algorithm=name, storers=list(STORERS))
    for runs in (2,) if tier == "quick" else (2, 3):
        for first in (None,) + POINTS:
            yield dict(mode="faults", kind="cordeau", runs=runs, first=first)
    for n in range(2):
        yield dict(mode="failed", kind=("cordeau", "hashcode")[n])


def run(case, ctx):
    folder = tempfile.mkdtemp(prefix="c16-")
    where = os.getcwd()
    os.chdir(folder)
    try:
        dict(end=end, faults=faults, failed=failed)[case["mode"]](case, ctx, Path(folder))
    finally:
        os.chdir(where)
        shutil.rmtree(folder)


def storing(name, kind, folder):
    formatter = jit.HashCodeStorerFormatter if kind == "hashcode" else None
    extra = {} if formatter is None else {"formatter_cls": formatter}
    out = folder / f"out-{name}.txt"
    if name == "default":
        return dict(storer_kwargs=dict(extra)) if extra else {}, None, True
    if name == "prompt":
        return dict(storer=jit.PromptStorer, storer_kwargs=extra), None, True
    if name == "file":
        return dict(storer=jit.FileStorer, storer_kwargs=dict(extra, file_path=out)), out, False
    if name == "set":
        return dict(storer=jit.StorerSet, storer_kwargs=dict(extra, storer_cls_set={jit.PromptStorer, partial(jit.FileStorer, file_path=out)})), out, True
    from jinete.storers import NaiveStorer

    return dict(storer=NaiveStorer), None, False


def snapshot(value):
    if isinstance(value, dict):
        return {k: snapshot(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [snapshot(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted(repr(v) for v in value)
    return repr(value)


class Named:
    """What ``observe`` needs of an instance that came from a file."""

    def __init__(self, result):
        self.trips = {id(t) for t in result.job.trips}
        self.vehicles = {id(v) for v in result.fleet.vehicles}

    def trip_index(self, t):
        return int(t.identifier) if id(t) in self.trips else f"foreign:{t.identifier}"

    def vehicle_index(self, v):
        return int(v.identifier) if id(v) in self.vehicles else f"foreign:{v.identifier}"


def described(result):
    """The solution without what changes from a run to another."""
    out = []
    for route in result.routes:
        out.append((route.vehicle.identifier, tuple(s.identifier for s in route.stops), tuple(rows_of(route))))
    return sorted(out), result.optimization_value


def end(case, ctx, folder):
    kind = case["kind"]
    path = folder / "instance.txt"
    if "file" in case:
        path = Path(REPO) / case["file"]
    else:
        path.write_text(text_of(kind, case["spec"]))
    loader_kwargs = dict(file_path=path)
    if kind == "hashcode":
        loader_kwargs["formatter_cls"] = jit.HashCodeLoaderFormatter
    for n, name in enumerate(case["storers"]):
        if n % 2:
            loader_kwargs = dict(loader_kwargs, file_path=str(path))
            ctx.outcomes["text path"] += 1
        storer, out, printed = storing(name, kind, folder)
        config = dict(copy.copy(ALGORITHMS[case["algorithm"]]), loader_kwargs=loader_kwargs, **storer)
        if n % 2:
            config.setdefault("loader", jit.FileLoader)
        before = snapshot(config)
        info = dict(algorithm=case["algorithm"], storer=name, spec=case.get("spec"), kind=kind)
        solver = jit.Solver(**config)
        seen = []
        for again in (False, True):
            Order.reset()
            if out is not None:
                out.write_text("what was there before " * 50)
            stream = io.StringIO()
            with contextlib.redirect_stdout(stream):
                result = solver.solve()
            ctx.step()
            ctx.expect(isinstance(result, jit.Result), "the answer is not a result", **info)
            wrong = planning_structure(Named(result), result.planning)
            ctx.expect(not wrong, "the plan does not hang together", wrong=wrong, **info)
            ctx.expect(result.feasible, "an infeasible plan is answered", plan=str(described(result)), **info)
            ctx.expect(result.computation_time >= 0, "a negative time", **info)
            served = {t.identifier for r in result.routes for t in r.trips}
            if "spec" in case:
                ctx.expect(len(result.job.trips) == len(case["spec"][4]) and len(result.fleet.vehicles) == case["spec"][0], "the result is of another instance", **info)
                if not case["spec"][4]:
                    ctx.outcomes["no trips"] += 1
                if not case["spec"][0]:
                    ctx.outcomes["no vehicles"] += 1
            ctx.expect(case["algorithm"] != "naive" or not served, "the naive algorithm serves trips", **info)
            if served and len(served) == len(result.job.trips):
                ctx.outcomes["served all"] += 1
            for what, text in (("file", out.read_text() if out is not None else None), ("prompt", stream.getvalue() if printed else None)):
                if text is not None:
                    written(ctx, kind, text, result, what, info)
                    ctx.outcomes[what] += 1
            if not printed:
                ctx.expect(not stream.getvalue(), "something is printed", text=stream.getvalue()[:200], **info)
            seen.append(described(result))
        ctx.expect(seen[0] == seen[1], "solving again gives another solution", first=str(seen[0]), second=str(seen[1]), **info)
        ctx.expect(snapshot(config) == before, "the configuration of the user is modified", **info)
        ctx.state(case["algorithm"], kind, str(seen[0]))
        ctx.trace("end to end", kind, "again", name)
    stray = sorted(p.name for p in folder.iterdir())
    ctx.expect(all(p == "instance.txt" or p.startswith("out-") for p in stray), "files nobody asked for", files=stray)
    ctx.sample(dict(case=case, plan=str(seen[0])))


def written(ctx, kind, text, result, what, info):
    if kind == "hashcode":
        want = sorted(" ".join([str(len(list(r.trips)))] + [t.identifier for s in r.stops for t in (p.trip for p in s.pickup_planned_trips)]) for r in result.routes if list(r.trips))
        got = sorted(" ".join(line.split()) for line in text.splitlines() if line.strip())
        ctx.expect(got == want, "what is stored is not the solution", what=what, got=got, want=want, **info)
        return
    ok = str(result.planning.uuid) in text and text.count("Vehicle:") == len(result.routes) and f'Feasible: "{result.feasible}"' in text
    ok = ok and str(result.optimization_value) in text
    ctx.expect(ok, "what is stored is not the solution", what=what, text=text[:400], **info)


# The points of a run at which something can fail, in the order they are met.
POINTS = ("loader", "job", "fleet", "algorithm", "optimize", "storer", "format", "store", "write")


class Fault(Exception):
    pass


def faults(case, ctx, folder):
    """Every fault at every point of consecutive runs of one solver."""
    path = folder / "instance.txt"
    path.write_text(text_of("cordeau", SMALL[0]))
    for rest in itertools.product((None,) + POINTS, repeat=case["runs"] - 1):
        for way in ("file", "set"):
            plan = (case["first"],) + rest
            ctx.state(plan, way)
            one_history(ctx, folder, path, plan, way)


def one_history(ctx, folder, path, plan, way):
    log = []
    now = {"fault": None, "raised": None}
    made = {}

    def at(point, **seen):
        log.append(point)
        for key, value in seen.items():
            made[key] = value
        if now["fault"] == point:
            now["raised"] = Fault(point)
            raise now["raised"]

    class Loader(jit.FileLoader):
        def __init__(self, *args, **kwargs):
            at("loader", loader_kwargs=(args, {k: v for k, v in kwargs.items()}))
            super().__init__(*args, **kwargs)

        @property
        def job(self):
            at("job")
            made["job"] = super().job
            return made["job"]

        @property
        def fleet(self):
            at("fleet")
            made["fleet"] = super().fleet
            return made["fleet"]

    class Algorithm(jit.InsertionAlgorithm):
        def __init__(self, *args, **kwargs):
            at("algorithm", algorithm_kwargs=kwargs)
            super().__init__(*args, **kwargs)

        def _optimize(self):
            at("optimize")
            return super()._optimize()

    class Formatter(jit.ColumnarStorerFormatter):
        def format(self):
            at("format", formatted=self.result)
            return super().format()

    class Written(type(path)):
        def open(self, *args, **kwargs):
            at("write")
            return super().open(*args, **kwargs)

    class Storer(jit.FileStorer):
        def __init__(self, *args, **kwargs):
            at("storer", storer_kwargs=kwargs, result=kwargs.get("result"))
            super().__init__(*args, **kwargs)

        def store(self):
            at("store")
            return super().store()

    out = folder / "out.txt"
    target = Written(str(out))
    out.write_text("before")
    if way == "file":
        config = dict(storer=Storer, storer_kwargs=dict(file_path=target, formatter_cls=Formatter))
    else:
        config = dict(storer=jit.StorerSet, storer_kwargs=dict(storer_cls_set={partial(Storer, file_path=target)}, formatter_cls=Formatter))
    mark = object()
    solver = jit.Solver(loader=Loader, loader_kwargs=dict(file_path=path), algorithm=Algorithm, algorithm_kwargs=dict(criterion_cls=jit.ShortestTimeRouteCriterion, mark=mark), **config)
    content = "before"
    for n, fault in enumerate(plan):
        now["fault"], now["raised"] = fault, None
        log.clear()
        made.clear()
        info = dict(plan=plan, run=n, way=way, log=list(log))
        result, error = None, None
        try:
            result = solver.solve()
        except Fault as exc:
            error = exc
        ctx.step()
        info["log"] = list(log)
        if fault == "write" and "write" not in log:
            fault = None  # the file is written in some other way, in which nothing failed
        ctx.expect(error is now["raised"], "the failure does not reach the user as it is", error=repr(error), **info)
        # the stages in order, none of them twice, none after the failure
        stages = [x for x in log if x not in ("format", "write")]
        groups = [("loader",), ("job", "fleet"), ("algorithm",), ("optimize",), ("storer",), ("store",)]
        level = [next(i for i, g in enumerate(groups) if x in g) for x in stages]
        ctx.expect(level == sorted(level), "the stages are not run in order", **info)
        once = [x for x in stages if x not in ("job", "fleet")]
        ctx.expect(len(set(once)) == len(once), "a stage is run twice", **info)
        if fault is not None:
            ctx.expect(log[-1] == fault, "something is done after the failure", **info)
            ctx.expect(result is None, "an answer in spite of the failure", **info)
            ctx.outcomes[f"failed:{fault}"] += 1
        else:
            ctx.expect(set(stages) == {x for g in groups for x in g}, "some stage is not run", **info)
            ctx.expect(made.get("result") is result and made.get("formatted") is result, "what is stored is not what is answered", **info)
            ctx.expect(result is not None and result.job is made["job"] and result.fleet is made["fleet"], "the result is not of the loaded instance", **info)
            kw = made["algorithm_kwargs"]
            ctx.expect(kw.get("mark") is mark and kw.get("criterion_cls") is jit.ShortestTimeRouteCriterion, "the options of the algorithm are lost", **info)
            ctx.expect(made["storer_kwargs"].get("file_path") is target and made["storer_kwargs"].get("formatter_cls") is Formatter, "the options of the storer are lost", **info)
        text = out.read_text()
        if fault is None:
            ctx.expect(str(result.planning.uuid) in text, "the file does not hold the solution", text=text[:200], **info)
        else:
            ctx.expect(text == content, "a failed run changes the stored solution", text=text[:200], **info)
        content = text
        ctx.trace("no fault" if fault is None else "fault")


def failed(case, ctx, folder):
    """A solution that cannot be written leaves the previous one as it was."""
    path = folder / "instance.txt"
    path.write_text(text_of(case["kind"], SMALL[0]))
    out = folder / "out.txt"
    for name in ("_routes", "_objective", "_planning"):
        for base in (jit.HashCodeStorerFormatter, jit.ColumnarStorerFormatter):
            def broken(self):
                raise Fault(name)

            formatter = type("Broken", (base,), {name: property(broken)})
            out.write_text("the previous solution")
            loader_kwargs = dict(file_path=path)
            if case["kind"] == "hashcode":
                loader_kwargs["formatter_cls"] = jit.HashCodeLoaderFormatter
            error = None
            try:
                jit.Solver(loader_kwargs=loader_kwargs, storer=jit.FileStorer, storer_kwargs=dict(file_path=out, formatter_cls=formatter)).solve()
            except Fault as exc:
                error = exc
            text = out.read_text()
            if error is not None:
                ctx.expect(text == "the previous solution", "a failed run changes the stored solution", text=text[:100], at=name)
            ctx.state(case["kind"], name, base.__name__)
            ctx.step()
            ctx.trace("failed store keeps the file")
