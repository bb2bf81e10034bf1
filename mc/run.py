"""The runner: enumerates the cases of a check over worker processes, and reports what was covered.

    python -m mc.run <property> [quick|thorough]      run a check
    python -m mc.run --replay <file>                  run one recorded case again
    python -m mc.run --selftest                       import every check

Exit codes: 0 the property held on everything explored, 1 a violation (and its ``VIOLATION`` line), 2 an error of the
machinery itself.
"""
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import time
import traceback

from . import env
from .explore import Diverged, EmptyChoice

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PREFIX = os.path.realpath(env.REPO) + os.sep
CPU_LIMIT = float(os.environ.get("MC_CASE_CPU", "150"))
WALL_LIMIT = float(os.environ.get("MC_CASE_WALL", "400"))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
BUDGET = {"quick": float(os.environ.get("MC_BUDGET", "420")), "thorough": float(os.environ.get("MC_BUDGET", "780"))}
MAX_VIOLATIONS = 5


class CaseTimeout(BaseException):
    """A case did not end within its limit of processor time."""


class Ctx:
    """What a case reports."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.capped = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.slowest = 0.0

    def state(self, *key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, *outcome):
        """One execution of the real code was compared against the reference, with that outcome."""
        self.traces += 1
        for label in outcome:
            self.outcomes[label] += 1

    def sample(self, value):
        if len(self.samples) < 1:
            self.samples.append(value)

    def violate(self, message, **details):
        self.violations.append((message, details))

    def expect(self, condition, message, **details):
        if not condition:
            self.violate(message, **details)
        return condition


HARNESS_PREFIX = os.path.join(ROOT, "mc") + os.sep


def _in_repo(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    if not isinstance(exc, (EmptyChoice, AssertionError)) and frames[-1].filename.startswith(HARNESS_PREFIX):
        return False
    return any(os.path.realpath(f.filename).startswith(REPO_PREFIX) for f in frames)


def run_case(check, case):
    """Returns ``(ctx, error)``."""
    ctx = Ctx()
    env.Rng.chooser = None
    env.Rng.seeds = None

    def expired(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, expired)
    limit = getattr(check, "CPU", CPU_LIMIT)
    signal.setitimer(signal.ITIMER_PROF, limit)
    error = None
    try:
        check.run(case, ctx)
    except CaseTimeout:
        ctx.violate(f"the code under test did not end within {limit:.0f} s of processor time")
    except Diverged as exc:
        error = f"diverged: {exc}\n{traceback.format_exc()}"
    except BaseException as exc:  # noqa: B902
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        if _in_repo(exc):
            where = [f for f in traceback.extract_tb(exc.__traceback__) if os.path.realpath(f.filename).startswith(REPO_PREFIX)]
            last = where[-1]
            ctx.violate(
                f"unexpected {type(exc).__name__} raised by the code under test: {exc}",
                at=f"{os.path.relpath(last.filename, env.REPO)}:{last.name}",
                traceback=traceback.format_exc().splitlines()[-12:],
            )
        else:
            error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        env.Rng.chooser = None
    return ctx, error


_check = None


def _init(name):
    global _check
    _check = importlib.import_module(f"mc.checks.{name.lower()}")
    limit = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # solvers and storers may write there


def _work(chunk):
    merged = Ctx()
    errors = []
    bad = []
    done = 0
    for case in chunk:
        started = time.process_time()
        ctx, error = run_case(_check, case)
        done += 1
        merged.slowest = max(merged.slowest, time.process_time() - started)
        merged.states |= ctx.states
        merged.transitions += ctx.transitions
        merged.traces += ctx.traces
        merged.capped += ctx.capped
        merged.outcomes.update(ctx.outcomes)
        if ctx.samples and len(merged.samples) < 1:
            merged.samples.append({"case": case, "observed": ctx.samples[0]})
        if error:
            errors.append((case, error))
            break
        if ctx.violations:
            bad.append((case, ctx.violations[:3]))
            break
    return done, merged, bad, errors


def _chunks(cases, size):
    iterator = iter(cases)
    while True:
        chunk = list(itertools.islice(iterator, size))
        if not chunk:
            return
        yield chunk


def _jsonable(value):
    if isinstance(value, float) and (value != value or value in (float("inf"), float("-inf"))):
        return str(value)
    if isinstance(value, dict):
        return {str(k): _jsonable(v) for k, v in value.items()}
    if isinstance(value, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in value]
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    return str(value)


def known_findings(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    entries = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == prop and entry.get("status") == "known":
                        entries.append(entry)
    return entries


def case_id(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        return selftest()
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    check = importlib.import_module(f"mc.checks.{prop.lower()}")
    optimized(check, argv)
    started = time.time()

    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    total = Ctx()
    done = 0
    bad = []
    errors = []
    truncated = False
    workers = getattr(check, "WORKERS", WORKERS)
    chunk_size = getattr(check, "CHUNK", 8)
    pool = multiprocessing.get_context("fork").Pool(workers, initializer=_init, initargs=(prop,))
    try:
        pending = collections.deque()
        source = _chunks(check.cases(tier), chunk_size)
        exhausted = False
        while True:
            while not exhausted and len(pending) < workers * 3:
                chunk = next(source, None)
                if chunk is None:
                    exhausted = True
                    break
                pending.append(pool.apply_async(_work, (chunk,)))
            if not pending:
                break
            ready = [r for r in pending if r.ready()]
            if not ready:
                pending[0].wait(0.02)
                if time.time() - started > BUDGET[tier] + WALL_LIMIT:
                    errors.append((None, "the workers gave no answer in time"))
                    break
                continue
            for r in ready:
                pending.remove(r)
                n, ctx, b, e = r.get()
                done += n
                total.states |= ctx.states
                total.transitions += ctx.transitions
                total.traces += ctx.traces
                total.capped += ctx.capped
                total.slowest = max(total.slowest, ctx.slowest)
                total.outcomes.update(ctx.outcomes)
                if len(total.samples) < 3:
                    total.samples.extend(ctx.samples)
                bad.extend(b)
                errors.extend(e)
            if len(bad) >= MAX_VIOLATIONS or (errors and not exhausted):
                break
            if bad and time.time() - started > 60:
                break
            if not exhausted and time.time() - started > BUDGET[tier]:
                truncated = True
                exhausted = True
    finally:
        pool.terminate()
        pool.join()

    findings = known_findings(prop)
    new = []
    for case, violations in bad:
        match = next((f for f in findings if f.get("case_id") == case_id(case)), None)
        if match is not None:
            print(f"KNOWN-FINDING: property={prop} {match.get('what', '')}")
            continue
        new.append((case, violations))

    required = getattr(check, "REQUIRED", ())
    missing = [label for label in required if not total.outcomes.get(label)]
    wall = time.time() - started
    level = getattr(check, "LEVEL", "model_checking")
    coverage = {
        "cases": done,
        "outcomes": dict(sorted(total.outcomes.items(), key=lambda kv: str(kv[0]))),
        "exhaustive": not truncated and not total.capped and not bad and not errors,
        "capped_explorations": total.capped,
        "budget_reached": truncated,
        "slowest_case_cpu_s": round(total.slowest, 2),
        "bounds": getattr(check, "BOUNDS", {}).get(tier, ""),
        "labels_never_seen": missing,
        "samples": _jsonable(total.samples) or ["no case ended"],
    }
    if level == "model_checking":
        coverage.update(
            states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces
        )
    else:
        coverage.update(evaluations=total.traces, distinct_nontrivial=len(total.states), rule=check.RULE)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    path = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as file:
        json.dump(evidence, file, indent=1)
    os.replace(path + ".tmp", path)

    print(
        f"{prop} {tier}: cases={done} states={len(total.states)} transitions={total.transitions} "
        f"traces={total.traces} capped={total.capped} truncated={truncated} slowest={total.slowest:.1f}s wall={wall:.1f}s"
    )
    for label in sorted(total.outcomes, key=str):
        print(f"  {label}: {total.outcomes[label]}")
    if missing:
        print(f"  WARNING: never seen: {missing}")

    status = 0
    if new:
        status = 1
        new.sort(key=lambda cv: len(json.dumps(cv[0], default=str)))
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for case, violations in new[:MAX_VIOLATIONS]:
            out = os.path.join("replays", f"{prop}-{case_id(case)}.json")
            with open(os.path.join(ROOT, out), "w") as file:
                json.dump(
                    {"property": prop, "case": case, "violations": _jsonable(violations), "commit": _commit()},
                    file,
                    indent=1,
                )
            print(f"  {violations[0][0]} {json.dumps(_jsonable(violations[0][1]))[:600]}")
            print(f"VIOLATION property={prop} replay={out}")
    elif errors:
        status = 2
    if errors:
        for case, error in errors[:3]:
            print(f"ERROR in {json.dumps(case, default=str)[:400]}\n{error[-2500:]}", file=sys.stderr)
    sys.stdout.flush()
    return status


def _commit():
    try:
        return subprocess.run(
            ["git", "-C", env.REPO, "rev-parse", "HEAD"], capture_output=True, text=True, timeout=10
        ).stdout.strip()
    except Exception:
        return ""


def optimized(check, argv):
    """Start again without assertions when the check asks for it."""
    if getattr(check, "OPTIMIZED", False) and __debug__:
        os.execv(sys.executable, [sys.executable, "-O", "-m", "mc.run", *argv])


def selftest():
    """Every check can be imported, and has cases."""
    for name in sorted(os.listdir(os.path.join(ROOT, "mc", "checks"))):
        if name.startswith("c") and name.endswith(".py"):
            check = importlib.import_module(f"mc.checks.{name[:-3]}")
            for tier in ("quick", "thorough"):
                next(iter(check.cases(tier)))
    print("every check has cases")
    return 0


def replay(path):
    """Run a recorded case twice: both runs must say the same."""
    with open(path) as file:
        record = json.load(file)
    check = importlib.import_module(f"mc.checks.{record['property'].lower()}")
    optimized(check, ["--replay", path])
    seen = []
    for _ in range(2):
        ctx, error = run_case(check, record["case"])
        if error:
            print(error, file=sys.stderr)
            return 2
        seen.append(_jsonable(ctx.violations))
    for message, details in seen[0]:
        print(f"{message}\n{json.dumps(details, indent=1)}")
    if seen[0] != seen[1]:
        print("the two runs of the case differ", file=sys.stderr)
        print(json.dumps(seen[1]))
    if seen[0]:
        print(f"VIOLATION property={record['property']} replay={path}")
        return 1
    print("the property holds on this case")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
