#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id>/ from an edit script and confirms each in a scratch copy of /repo.

    tools/plant.py make FILE.py    FILE.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)]
    tools/plant.py catch [ID...]   runs the property's own check (and with --all every check) against each planted bug
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(d, "repo")
    run(["git", "clone", "-q", "/repo", r], "/")
    return d, r


def tests(r):
    stable = json.load(open("/opt/vp/BASELINE.json"))
    p = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], r, {"PYTHONPATH": r, "CI": "true", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0"})
    return p.returncode == 0, p.stdout.strip()[-250:]


def demo(r, folder):
    return run(["bash", os.path.join(folder, "demo.sh")], r, timeout=300)


DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
DEMO_HEAD = "import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n"


def make(bug):
    d, r = copy()
    folder = os.path.join(SEEDED, bug["id"])
    try:
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        with open(os.path.join(folder, "demo.py"), "w") as f:
            f.write(DEMO_HEAD + bug["demo"].strip() + "\n")
        with open(os.path.join(folder, "meta.json"), "w") as f:
            json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        p = demo(r, folder)
        if p.returncode:
            return "%s: demo fails on the clean tree: %s" % (bug["id"], p.stderr[-600:] + p.stdout[-300:])
        for file, old, new in bug["edits"]:
            path = os.path.join(r, "atlas_doc_parser", file)
            s = open(path).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r in %s" % (bug["id"], s.count(old), old, file)
            open(path, "w").write(s.replace(old, new))
        with open(os.path.join(folder, "patch.diff"), "w") as f:
            f.write(run(["git", "diff"], r).stdout)
        base = run(["git", "log", "--format=%H", "--reverse"], r).stdout.split()[0]
        orig, file, n = 0, None, 0
        for line in run(["git", "diff", "-U0"], r).stdout.splitlines():
            if line.startswith("--- "):
                file = line[6:]
            elif line.startswith("@@"):
                n = int(line.split()[1][1:].split(",")[0])
            elif line.startswith("-"):
                h = run(["git", "blame", "-l", "-s", "-L%d,%d" % (n, n), "HEAD", "--", file], r).stdout.split()[0]
                orig += h.lstrip("^")[:39] == base[:39]
                n += 1
        if not orig:
            return "%s: changes no original line" % bug["id"]
        ok, out = tests(r)
        if not ok:
            return "%s: the tests notice: %s" % (bug["id"], out)
        p = demo(r, folder)
        if p.returncode == 0:
            return "%s: demo passes with the bug" % bug["id"]
        return "%s: ok (%s)" % (bug["id"], (p.stderr.strip().splitlines() or ["?"])[-1][:150])
    finally:
        shutil.rmtree(d)


def catch(bid, checks, seed="1"):
    d, r = copy()
    try:
        p = run(["git", "apply", os.path.join(SEEDED, bid, "patch.diff")], r)
        if p.returncode:
            return "%s: patch does not apply" % bid
        own = json.load(open(os.path.join(SEEDED, bid, "meta.json")))["property"]
        v = os.path.join(d, "verif")
        run(["git", "clone", "-q", ROOT, v], "/")
        for x in ("lib", "props", "check"):
            run(["cp", "-a", os.path.join(ROOT, x), v], "/")
        found = []
        for c in checks or [own]:
            p = run(["./check", c], v, {"VERIF_REPO": r, "VERIF_SEED": seed})
            if p.returncode == 1 and "VIOLATION property=" + c in p.stdout:
                found.append(c)
                if c == own:
                    msg = p.stdout.strip().splitlines()[0][:160]
            elif p.returncode:
                found.append(c + "(exit %d)" % p.returncode)
        return "%s [%s]: caught by %s%s" % (bid, own, ", ".join(found) or "NOTHING",
                                             "  -- " + msg if own in found else "  -- NOT BY ITS OWN CHECK")
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "make":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        want = sys.argv[3:]
        with ThreadPoolExecutor(6) as ex:
            for line in ex.map(make, [b for b in bugs if not want or b["id"] in want]):
                print(line, flush=True)
    else:
        args = sys.argv[2:]
        checks = ["C%02d" % i for i in range(1, 34)] if "--all" in args else []
        seed = "1"
        if "--seed" in args:
            seed = args[args.index("--seed") + 1]
            del args[args.index("--seed"):args.index("--seed") + 2]
        ids = [a for a in args if a != "--all"] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(3) as ex:
            for line in ex.map(lambda b: catch(b, checks, seed), ids):
                print(line, flush=True)


main()
