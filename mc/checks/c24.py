"""C24: every place a solution is sent to receives that very solution, whole, once, and failures are not hidden."""
import contextlib
import functools
import io
import itertools
import os
import shutil
import tempfile
from pathlib import Path
from unittest import mock

from .. import families as fam
from .. import ref
from ..env import jit
from ..inst import Built, plans, result_from
from ..observe import rows_of, visits_of
from .c10 import SHAPES, instance_of

REQUIRED = ("set", "set with failures", "file", "file fault", "prompt", "graph", "drawn", "saved", "shown", "routes:0", "routes:2", "shared place", "solver", "alike")
BOUNDS = {
    "quick": "every list of 0-3 storers out of 5 (2 of them failing), and of up to 3 that look alike; every previous content of a file; every plan of 2 trips out of 14 shapes on 2 vehicles as a graph",
    "thorough": "lists of 4 storers; every plan of 3 trips out of 5 as a graph",
}
CHUNK = 2
PARTS = ("keeps", "keeps too", "set", "fails", "breaks")
OLD = (None, "", "x", "short\n", "a much longer text than any solution\n" * 400)
FORMATTERS = ("hashcode", "columnar", "given", "empty", "unicode")


def cases(tier):
    for size in range(0, 4 if tier == "quick" else 5):
        for parts in itertools.permutations(PARTS, size):
            yield dict(mode="set", parts=parts)
    for count in (1, 2, 3):
        for how in ("partial", "named", "subclass", "method"):
            yield dict(mode="alike", count=count, how=how)
    for old in range(len(OLD)):
        for formatter in FORMATTERS:
            yield dict(mode="file", old=old, formatter=formatter)
    for formatter in FORMATTERS:
        yield dict(mode="prompt", formatter=formatter)
    for n, pair in enumerate(fam.pick(2, SHAPES)):
        yield dict(mode="graph", trips=pair, fleet=("two", "mixed", "away", "later")[n % 4], metric="euclidean", objective="dar")
    for n, triple in enumerate(fam.pick(3, SHAPES[:2] if tier == "quick" else SHAPES[:5])):
        yield dict(mode="graph", trips=triple, fleet=("two", "away")[n % 2], metric="euclidean", objective="dar")
    yield dict(mode="graph", trips=[], fleet="two", metric="euclidean", objective="dar")
    for way in ("file", "none", "solver"):
        yield dict(mode="draw", way=way)


def run(case, ctx):
    folder = tempfile.mkdtemp(prefix="mc-storers-")
    try:
        {"set": run_set, "alike": run_alike, "file": run_file, "prompt": run_prompt, "graph": run_graph, "draw": run_draw}[case["mode"]](case, ctx, folder)
    finally:
        shutil.rmtree(folder)


def example(visits=((("P", 0), ("P", 1), ("D", 0), ("D", 1)), ())):
    inst = fam.build([fam.shape("out"), fam.shape("diag", "late", "both")], "two")
    built = Built(inst)
    return inst, built, result_from(built, visits)


class Given(jit.StorerFormatter):
    text = "a text\nof two lines, without end"

    def format(self):
        return self.text


def formatter(name):
    if name == "hashcode":
        return jit.HashCodeStorerFormatter
    if name == "columnar":
        return jit.ColumnarStorerFormatter
    return type("Formatter", (Given,), {"text": {"given": Given.text, "empty": "", "unicode": "\u00e1\u00f1\u6f22\n\n"}[name]})


def run_set(case, ctx, folder):
    _, _, result = example()
    seen = []

    class Failure(Exception):
        pass

    def part(name):
        class Part(jit.Storer):
            def store(self):
                if name == "breaks":
                    raise Failure(name)
                seen.append((name, self.result, self.formatter_cls))

            def __init__(self, *args, **kwargs):
                if name == "fails":
                    raise Failure(name)
                super().__init__(*args, **kwargs)

        Part.__name__ = name
        if name != "set":
            return Part
        inner = [part("inner"), part("other")]

        class Nested(jit.StorerSet):
            def __init__(self, *args, **kwargs):
                super().__init__(inner, *args, **kwargs)

        return Nested

    parts = [part(name) for name in case["parts"]]
    for container in (list, tuple, set):
        for chosen in (None, jit.HashCodeStorerFormatter):
            del seen[:]
            kwargs = {} if chosen is None else {"formatter_cls": chosen}
            error = None
            try:
                jit.StorerSet(container(parts), result=result, **kwargs).store()
            except Failure as exc:
                error = str(exc)
            names = sorted(x[0] for x in seen)
            want = sorted(sum([["inner", "other"] if n == "set" else [n] for n in case["parts"] if n not in ("fails", "breaks")], []))
            bad = [n for n in case["parts"] if n in ("fails", "breaks")]
            info = dict(parts=case["parts"], seen=names, error=error, container=container.__name__)
            ctx.step()
            ctx.state(case["parts"], container.__name__, chosen is None)
            if bad:
                ctx.expect(error in bad, "the failure of a storer is hidden", **info)
                ctx.expect(len(set(names)) == len(names) and set(names) <= set(want), "a storer stores twice, or one that was not asked", **info)
                ctx.trace("set with failures")
            else:
                ctx.expect(error is None and names == want, "not every storer stores once", want=want, **info)
                ctx.trace("set")
            ctx.expect(all(r is result for _, r, _ in seen), "a storer receives another result", **info)
            ctx.expect(all(f is (chosen or jit.ColumnarStorerFormatter) for _, _, f in seen), "a storer receives another format", **info)


def run_alike(case, ctx, folder):
    """Destinations that look alike: partial applications, classes of one name, functions that make them."""
    _, _, result = example()
    count, how = case["count"], case["how"]
    paths = [Path(folder) / f"out-{n}.txt" for n in range(count)]

    def maker(path):
        if how == "partial":
            return functools.partial(jit.FileStorer, file_path=path)
        if how == "named":
            return type("FileStorer", (jit.FileStorer,), {"__init__": lambda self, *a, **k: jit.FileStorer.__init__(self, path, *a, **k)})
        if how == "subclass":
            class Part(jit.FileStorer):
                def __init__(self, *args, **kwargs):
                    super().__init__(path, *args, **kwargs)
            return Part

        def make(*args, **kwargs):
            return jit.FileStorer(path, *args, **kwargs)
        return make

    for cls in (jit.HashCodeStorerFormatter, jit.ColumnarStorerFormatter):
        for container in (list, tuple, set):
            for path in paths:
                if path.exists():
                    os.unlink(path)
            jit.StorerSet(container(maker(path) for path in paths), result=result, formatter_cls=cls).store()
            want = cls(result=result).format()
            ctx.step()
            ctx.state("alike", count, how, container.__name__, cls.__name__)
            ctx.trace("alike")
            got = [path.exists() and path.read_text() == want for path in paths]
            ctx.expect(all(got), "a destination that looks like another one receives nothing", written=got, how=how, container=container.__name__)


def run_file(case, ctx, folder):
    _, _, result = example()
    old, cls = OLD[case["old"]], formatter(case["formatter"])
    path = Path(folder) / "out.txt"
    want = cls(result=result).format()

    def reset():
        if path.exists():
            os.unlink(path)
        if old is not None:
            path.write_text(old)

    info = dict(case)
    for times in (1, 2):
        reset()
        storer = jit.FileStorer(file_path=path, result=result, formatter_cls=cls)
        for _ in range(times):
            storer.store()
        ctx.step()
        ctx.expect(path.exists() and path.read_text() == want, "the file does not hold the text of the solution", times=times,
                   got=path.read_text()[:200] if path.exists() else None, want=want[:200], **info)
        ctx.expect(os.listdir(folder) == ["out.txt"], "more than the file is left behind", files=os.listdir(folder), **info)
        ctx.trace("file")
        ctx.state("file", case["old"], case["formatter"], times)
    # a failure of the format must be told, and leaves what there was
    reset()

    class Broken(cls):
        def format(self):
            raise ZeroDivisionError("broken")

    try:
        jit.FileStorer(file_path=path, result=result, formatter_cls=Broken).store()
        ctx.violate("the failure of a format is hidden", **info)
    except ZeroDivisionError:
        pass
    now = path.read_text() if path.exists() else None
    ctx.expect(now == old, "a failed format destroys the previous solution", now=now and now[:80], **info)
    ctx.trace("file fault")
    # nowhere to write
    for bad in (Path(folder) / "missing" / "out.txt", Path(folder)):
        try:
            jit.FileStorer(file_path=bad, result=result, formatter_cls=cls).store()
            ctx.violate("a file that cannot be written is not told", path=str(bad.relative_to(folder)), **info)
        except OSError:
            ctx.trace("file fault")


def run_prompt(case, ctx, folder):
    _, _, result = example()
    cls = formatter(case["formatter"])
    want = cls(result=result).format()
    for times in (1, 2):
        out = io.StringIO()
        storer = jit.PromptStorer(result=result, formatter_cls=cls)
        with contextlib.redirect_stdout(out):
            for _ in range(times):
                storer.store()
        ctx.step()
        ctx.trace("prompt")
        ctx.state("prompt", case["formatter"], times)
        ctx.expect(out.getvalue() == (want + "\n") * times, "what is shown is not the text of the solution", got=out.getvalue()[:200], want=want[:200], times=times)
    from jinete.storers import NaiveStorer

    ctx.expect(NaiveStorer(result=result, formatter_cls=cls).store() is None, "storing nothing answers something")


class Drawing:
    """Stands in for what draws."""

    def __init__(self):
        self.graph = self.pos = self.labels = self.colors = None
        self.saved, self.shown, self.draws = [], 0, 0

    def draw(self, graph, pos=None, edge_color=None, **kwargs):
        self.draws += 1
        self.graph, self.pos, self.colors = graph, pos, list(edge_color or [])

    def draw_labels(self, graph, pos=None, labels=None, **kwargs):
        self.labels = labels

    def savefig(self, path, *args, **kwargs):
        self.saved.append(str(path))

    def show(self, *args, **kwargs):
        self.shown += 1

    @contextlib.contextmanager
    def active(self):
        import matplotlib.pyplot as plt
        import networkx as nx

        with contextlib.ExitStack() as stack:
            for target, name, replacement in (
                (nx, "draw", self.draw), (nx, "draw_networkx", self.draw), (nx, "draw_networkx_labels", self.draw_labels),
                (nx, "draw_networkx_edge_labels", lambda *a, **k: None), (plt, "savefig", self.savefig), (plt, "show", self.show),
            ):
                stack.enter_context(mock.patch.object(target, name, replacement))
            yield self


def run_graph(case, ctx, folder):
    inst = instance_of(case)
    for n, plan in enumerate(plans(len(inst["trips"]), min(2, len(inst["vehicles"])))):
        for given in (False, True):
            if given and all(plan):
                continue
            built = Built(inst)
            result = result_from(built, [None if given and not v else v for v in plan])
            path = None if n % 2 else Path(folder) / "plot.png"
            with Drawing().active() as seen:
                jit.GraphPlotStorer(file_path=path, result=result).store()
            info = dict(plan=str(plan), given=given)
            ctx.step()
            ctx.state(tuple(map(tuple, case["trips"])), case["fleet"], plan, given)
            ctx.trace("graph", f"routes:{len(result.routes)}")
            if not ctx.expect(seen.draws == 1 and seen.graph is not None, "the solution is not drawn once", draws=seen.draws, **info):
                continue
            if path is None:
                ctx.expect(seen.shown == 1 and not seen.saved, "what should be shown is not", **info)
                ctx.outcomes["shown"] += 1
            else:
                ctx.expect(seen.saved == [str(path)] and not seen.shown, "what should be saved is not", saved=seen.saved, **info)
                ctx.outcomes["saved"] += 1
            judge(ctx, inst, built, result, seen, info)


def judge(ctx, inst, built, result, seen, info):
    legs, names, where = {}, {}, set()
    for route in result.routes:
        k = built.vehicle_index(route.vehicle)
        visits = visits_of(built, route)
        first, last = ref.ends(inst["vehicles"][k])
        spots = [tuple(x) for x in [first] + [ref.spot(inst, k, v) for v in visits] + [last]]
        for a, b in zip(spots[:-1], spots[1:]):
            legs.setdefault((a, b), set()).add(k)
        where |= set(spots)
        for (kind, i), spot in zip(visits, spots[1:-1]):
            names.setdefault(spot, set()).add(("+" if kind == "P" else "-") + str(i))
    if any(len(x) > 1 for x in names.values()):
        ctx.outcomes["shared place"] += 1
    graph = seen.graph
    at = {node: tuple(seen.pos[node]) for node in graph.nodes} if seen.pos is not None else {}
    edges = [(at.get(a), at.get(b)) for a, b in graph.edges]
    ctx.expect(sorted(edges) == sorted(legs), "the legs drawn are not those of the routes", got=sorted(edges), want=sorted(legs), **info)
    # the places of the trips of the job that nobody serves may be drawn as well
    others = {tuple(t[x]) for t in inst["trips"] for x in "od"}
    ctx.expect(where <= set(at.values()) <= where | others and len(set(at.values())) == len(at), "the places drawn are not those visited",
               got=sorted(at.values()), want=sorted(where), **info)
    for node, spot in at.items():
        label = (seen.labels or {}).get(node)
        # the requests that nobody serves may be drawn as well
        asked = {s + str(i) for i, t in enumerate(inst["trips"]) for s, x in (("+", "o"), ("-", "d")) if tuple(t[x]) == spot}
        allowed = asked if names.get(spot) else asked | {""}
        ctx.expect(label in allowed, "a place is not labelled with what is done there", place=spot, label=label, allowed=sorted(allowed), **info)
    colors = {}
    if ctx.expect(len(seen.colors) == len(edges), "not every leg has its color", **info):
        for edge, color in zip(edges, seen.colors):
            owners = legs.get(edge) or ()
            if len(owners) == 1:
                colors.setdefault(next(iter(owners)), set()).add(tuple(color))
        ctx.expect(all(len(c) == 1 for c in colors.values()), "a route changes its color", colors=str(colors), **info)
        flat = [next(iter(c)) for c in colors.values() if len(c) == 1]
        ctx.expect(len(set(flat)) == len(flat), "two routes have the same color", colors=str(colors), **info)


def run_draw(case, ctx, folder):
    """The whole thing, with what really draws."""
    import matplotlib.pyplot as plt

    _, built, result = example()
    path = Path(folder) / "plot.png"
    try:
        if case["way"] == "file":
            jit.GraphPlotStorer(file_path=path, result=result).store()
            ctx.expect(path.exists() and path.read_bytes()[:4] == b"\x89PNG", "there is no picture")
        elif case["way"] == "none":
            with mock.patch.object(plt, "show") as show:
                jit.GraphPlotStorer(result=result).store()
            ctx.expect(show.call_count == 1, "the picture is not shown")
        else:
            problem = Path(folder) / "in.txt"
            problem.write_text("3 4 2 3 2 10\n0 0 1 3 2 9\n1 2 1 0 0 9\n2 0 2 2 0 9\n")

            class Both(jit.StorerSet):
                def __init__(self, *args, **kwargs):
                    super().__init__([One, Two], *args, **kwargs)

            class One(jit.FileStorer):
                def __init__(self, *args, **kwargs):
                    super().__init__(file_path=Path(folder) / "one.txt", *args, **kwargs)

            class Two(jit.GraphPlotStorer):
                def __init__(self, *args, **kwargs):
                    super().__init__(file_path=path, *args, **kwargs)

            solver = jit.Solver(
                loader_kwargs={"file_path": problem, "formatter_cls": jit.HashCodeLoaderFormatter}, storer=Both,
                storer_kwargs={"formatter_cls": jit.HashCodeStorerFormatter},
            )
            result = solver.solve()
            want = jit.HashCodeStorerFormatter(result=result).format()
            ctx.expect((Path(folder) / "one.txt").read_text() == want and path.exists(), "a solution is not stored everywhere")
            ctx.outcomes["solver"] += 1
    finally:
        plt.close("all")
    ctx.state("draw", case["way"])
    ctx.step()
    ctx.trace("drawn")
