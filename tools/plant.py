"""Makes the planted bugs of /verif/seeded from tools/bugs.py, and confirms each of them in a scratch copy of /repo.

    python3 tools/plant.py [ID ...]      make and confirm (all that are not there yet, when none is given)
    python3 tools/plant.py --check [ID ...]   run the property's quick check against each (applies it to a scratch copy)
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SCRATCH = "/tmp/plant-scratch"
sys.path.insert(0, os.path.join(ROOT, "tools"))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0")
DEMO_SH = """#!/bin/bash
# Run in the root of the repository: 0 when it behaves, 1 when it does not.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec {py} "$(dirname "$0")/demo.py"
"""


def copy():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH)
    return SCRATCH


def sh(*cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def demo(folder):
    elsewhere = "/tmp/plant-demo"
    shutil.rmtree(elsewhere, ignore_errors=True)
    shutil.copytree(folder, elsewhere, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash", f"{elsewhere}/demo.sh", cwd=SCRATCH, timeout=300)
    shutil.rmtree(elsewhere)
    return r


def tests():
    r = sh(PY, "-m", "pytest", "-x", "-q", "tests", "-p", "no:cacheprovider", "--timeout=300", "--randomly-seed=0",
           "--randomly-dont-reorganize", cwd=SCRATCH)
    return r.returncode == 0, r.stdout[-600:]


def make(bug):
    name = bug["id"]
    folder = os.path.join(SEEDED, name)
    copy()
    for file, old, new in bug["edits"]:
        path = f"{SCRATCH}/{file}"
        text = open(path).read()
        if text.count(old) != 1:
            return f"{file}: the text is there {text.count(old)} times"
        start = text[: text.index(old)].count("\n") + 1
        open(path, "w").write(text.replace(old, new))
    diff = sh("git", "diff", cwd=SCRATCH).stdout
    # the lines taken away must be of the original repository
    for file in {f for f, _, _ in bug["edits"]}:
        blame = sh("git", "blame", "-s", "HEAD", "--", file, cwd=SCRATCH).stdout.splitlines()
        at, original, removed = 0, 0, 0
        for line in sh("git", "diff", "-U0", "--", file, cwd=SCRATCH).stdout.splitlines():
            if line.startswith("@@"):
                at = int(line.split()[1][1:].split(",")[0])
            elif line.startswith("-") and not line.startswith("---"):
                removed += 1
                original += blame[at - 1].split()[0].startswith("^")
                at += 1
        print(f"   {name} {file}: {original} of {removed} changed lines are original")
    os.makedirs(folder, exist_ok=True)
    open(f"{folder}/demo.py", "w").write(bug["demo"].lstrip("\n"))
    open(f"{folder}/demo.sh", "w").write(DEMO_SH.format(py=PY))
    os.chmod(f"{folder}/demo.sh", 0o755)
    open(f"{folder}/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(f"{folder}/meta.json", "w"), indent=1)
    ok, out = tests()
    if not ok:
        return "the tests notice: " + out
    r = demo(folder)
    if r.returncode == 0:
        return "the demonstration does not fail with it"
    tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
    sh("git", "checkout", "--", ".", cwd=SCRATCH)
    r = demo(folder)
    if r.returncode != 0:
        return "the demonstration fails without it: " + r.stdout[-500:] + r.stderr[-1500:]
    print(f"   {name}: confirmed ({tail})")
    return None


def check(name):
    folder = os.path.join(SEEDED, name)
    meta = json.load(open(f"{folder}/meta.json"))
    copy()
    assert sh("git", "apply", f"{folder}/patch.diff", cwd=SCRATCH).returncode == 0
    env = dict(ENV, MC_REPO=SCRATCH, VERIF_SEED="1")
    r = subprocess.run([f"{ROOT}/check.sh", meta["property"], "quick"], capture_output=True, text=True, env=env)
    line = f"VIOLATION property={meta['property']}"
    return r.returncode == 1 and line in r.stdout, r


if __name__ == "__main__":
    from bugs import BUGS

    args = sys.argv[1:]
    try:
        if args[:1] == ["--check"]:
            for name in args[1:] or sorted(os.listdir(SEEDED)):
                caught, r = check(name)
                print(name, "caught" if caught else f"MISSED rc={r.returncode} {r.stderr[-300:]}", flush=True)
        else:
            for bug in BUGS:
                if bug["id"] in args or (not args and not os.path.exists(f"{SEEDED}/{bug['id']}")):
                    problem = make(bug)
                    if problem:
                        shutil.rmtree(f"{SEEDED}/{bug['id']}", ignore_errors=True)
                        print(f"   {bug['id']}: DROPPED: {problem}", flush=True)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
