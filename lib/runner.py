"""Runs one check: python -m lib.runner <property id> [--replay FILE]

Every check is a module props/<id>.py with
    RULE         how cases are made and what makes one non-trivial
    ASSUMPTIONS  list of strings
    EXAMPLES     {"quick": cases per worker, "thorough": cases per worker}
    cases()      a Hypothesis strategy producing JSON-able cases
    check(case, note)   raises sut.Violation when the property is broken;
                        note("label") counts a class of cases,
                        note.nontrivial() marks the case as non-trivial

Exit status: 0 held, 1 violated (with the VIOLATION line), 3 error of the check.
"""

import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Hypothesis lives in the tooling venv; everything else comes from the
# interpreter that runs the repository's own tests.
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if ROOT not in sys.path:
    sys.path.insert(0, ROOT)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
sys.setrecursionlimit(6000)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase  # noqa: E402
from hypothesis import errors as hyp_errors  # noqa: E402

from hypothesis.internal import constants_ast  # noqa: E402
from hypothesis.internal.conjecture import providers  # noqa: E402

try:
    from lib import sut  # noqa: E402
    BROKEN = None
except Exception:
    # a package whose public API cannot be imported has none of the properties
    REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(sys.exc_info()[2])):
        raise
    BROKEN = traceback.format_exc()

CASE_CPU_SECONDS = 60
SHRINK_SECONDS = 100
WORKERS = int(os.environ.get("VERIF_WORKERS", "6"))


def use_constants_of_the_package():
    """Hypothesis mixes constants of the code under test into its draws. Left alone
    it takes them from whatever happens to be imported and caches them in files of
    the working directory; take them from the sources of the package instead."""
    constants = providers.Constants()
    top = os.path.join(sut.REPO, "atlas_doc_parser")
    for folder, dirs, files in sorted(os.walk(top)):
        dirs[:] = [d for d in dirs if d not in ("tests", "vendor", "docs", "__pycache__")]
        for name in sorted(files):
            if name.endswith(".py"):
                try:
                    with open(os.path.join(folder, name), "rb") as f:
                        constants |= constants_ast._constants_from_source(f.read(), limit=True)
                except (OSError, SyntaxError, ValueError):
                    pass
    providers._get_local_constants = lambda: constants


class EnoughShrinking(BaseException):
    """Time to report what has been found."""


class Note:
    def __init__(self):
        self.labels = Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self._nontrivial = False
        self._case_labels = set()

    def start(self):
        self.evaluations += 1
        self._nontrivial = False
        self._case_labels = set()

    def __call__(self, *labels):
        self._case_labels.update(labels)

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def finish(self, case):
        self.labels.update(self._case_labels)
        if not self._nontrivial:
            self.labels["(trivial)"] += 1
            return
        text = json.dumps(case, sort_keys=True)
        h = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=12).digest()
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 3 and 60 < len(text) < 1500:
                self.samples.append(case)


def _on_prof(signum, frame):
    raise sut.Hang()


def run_case(mod, case, note):
    """One case, no Hypothesis. Raises sut.Violation if the property is broken."""
    note.start()
    # what renders without errors gives the same in both error modes
    sut.LENIENT["on"] = zlib.crc32(json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass")) % 6 == 0
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        mod.check(case, note)
    except sut.Hang:
        raise sut.Violation("no result after %d s of CPU time" % CASE_CPU_SECONDS)
    except RecursionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(sut.REPO + os.sep) for f in tb[-200:]):
            raise sut.Violation("RecursionError in the code under test")
        raise
    except (sut.Violation, sut.HarnessError, hyp_errors.HypothesisException):
        raise
    except Exception as e:
        # what the checks call on generated input must not raise; where it may, they catch it
        if any(f.filename.startswith(sut.REPO + os.sep) for f in traceback.extract_tb(e.__traceback__)):
            raise sut.Violation("unexpected %s in the code under test:\n%s" % (type(e).__name__, traceback.format_exc()[-1500:]))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    note.finish(case)


def worker(mod, seed, examples, queue):
    note = Note()
    state = {"first": None, "last": None}

    def body(case):
        # the case must not be changed by the check: work on a private copy
        frozen = json.dumps(case)
        if state["first"] is not None and time.time() - state["since"] > SHRINK_SECONDS:
            raise EnoughShrinking()
        try:
            run_case(mod, json.loads(frozen), note)
        except sut.Violation as v:
            found = {"case": json.loads(frozen), "message": str(v)}
            if state["first"] is None:
                state["first"] = state["best"] = found
                state["since"] = time.time()
            elif len(frozen) <= len(json.dumps(state["best"]["case"])):
                state["best"] = found
            state["last"] = found
            raise

    result = {"status": "ok"}
    try:
        test = hypothesis.given(mod.cases())(body)
        test = hypothesis.settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            # VERIF_NO_SHRINK: only for tools/mutate.py
            phases=(Phase.generate,) if os.environ.get("VERIF_NO_SHRINK") else (Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        hypothesis.seed(seed)(test)()
    except sut.Violation:
        result = {"status": "violation", **state["last"]}
    except EnoughShrinking:
        result = {"status": "violation", **state["best"]}
    except (hyp_errors.Flaky, hyp_errors.FlakyFailure, BaseExceptionGroup):
        if state["first"] is not None:
            result = {"status": "violation", **state["first"]}
            result["message"] += "\n(not reproduced every time: the outcome depends on earlier cases)"
        else:
            result = {"status": "error", "message": traceback.format_exc()}
    except BaseException:
        if state["first"] is not None and isinstance(sys.exc_info()[1], hyp_errors.HypothesisException):
            result = {"status": "violation", **state["first"]}
        else:
            result = {"status": "error", "message": traceback.format_exc()}
    result.update(
        evaluations=note.evaluations,
        labels=dict(note.labels),
        distinct=note.distinct,
        samples=note.samples,
    )
    queue.put(result)


def run_workers(mod, tier, seed):
    n = getattr(mod, "WORKERS", WORKERS)
    examples = mod.EXAMPLES[tier]
    ctx = multiprocessing.get_context("fork")
    procs = []
    for i in range(n):
        q = ctx.SimpleQueue()
        p = ctx.Process(target=worker, args=(mod, seed * 1000 + i, examples, q))
        p.start()
        procs.append((p, q))
    results = []
    for p, q in procs:
        # SimpleQueue.get blocks; a worker that dies closes nothing, so poll
        while q.empty():
            p.join(0.02)
            if not p.is_alive() and q.empty():
                break
        if q.empty():
            results.append({"status": "error", "message": "a worker process died (exit code %s)" % p.exitcode,
                            "evaluations": 0, "labels": {}, "distinct": set(), "samples": []})
        else:
            results.append(q.get())
        p.join()
    return results


def write_replay(pid, found, tier, seed):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "case": found["case"], "message": found["message"], "tier": tier, "seed": seed,
            "rerun": "./check %s --replay <this file>" % pid}
    text = json.dumps(body, indent=1)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.blake2b(text.encode(), digest_size=5).hexdigest()))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def broken(pid, tier, seed):
    """Nothing can be imported: the import itself is the failing case."""
    message = "the public API cannot be imported\n" + BROKEN[-3000:]
    path = write_replay(pid, {"case": {"import": "atlas_doc_parser.api"}, "message": message}, tier, seed)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "importing the public API, before any case is generated",
                     "samples": [{"import": "atlas_doc_parser.api"}]},
        "assumptions": ["the declared dependency is installed"], "wall_s": 0.0, "violations": 1,
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print(message)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    if argv == ["--selftest"]:
        if BROKEN:
            print("the public API cannot be imported: every check will say so")
            return 0
        # everything the checks need is there
        import jinja2, markdown_it  # noqa: F401, E401
        for name in sorted(os.listdir(os.path.join(ROOT, "props"))):
            if name.startswith("c") and name.endswith(".py"):
                importlib.import_module("props." + name[:-3])
        print("ok: hypothesis %s" % hypothesis.__version__)
        return 0
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if BROKEN:
        return broken(pid, tier, seed)
    mod = importlib.import_module("props." + pid.lower())
    sut.quiet()
    use_constants_of_the_package()

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            case = json.load(f)["case"]
        try:
            run_case(mod, case, Note())
        except sut.Violation as v:
            print(str(v))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("property %s holds on %s" % (pid, path))
        return 0

    t0 = time.time()
    results = []
    if hasattr(mod, "once"):
        # deterministic part that needs no generated input
        note = Note()
        try:
            mod.once(note)
            results.append({"status": "ok"})
        except sut.Violation as v:
            results.append({"status": "violation", "case": {"once": True}, "message": str(v)})
        results[-1].update(evaluations=0, labels=dict(note.labels), distinct=set(), samples=[])
    results += run_workers(mod, tier, seed)

    labels, distinct, samples, evaluations = Counter(), set(), [], 0
    for r in results:
        labels.update(r["labels"])
        distinct |= r["distinct"]
        evaluations += r["evaluations"]
        for s in r["samples"]:
            if len(samples) < 5:
                samples.append(s)
    missing = [c for c in getattr(mod, "REQUIRED_CLASSES", ()) if not labels.get(c)]
    violations = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] == "error"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples or ["(no non-trivial case of printable size in this run)"],
            "classes_meant_but_not_seen": missing,
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if violations:
        best = min(violations, key=lambda r: len(json.dumps(r["case"])))
        path = write_replay(pid, best, tier, seed)
        print(best["message"])
        print("minimal case: " + json.dumps(best["case"])[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print(errors[0]["message"], file=sys.stderr)
        return 3
    if missing:
        # development aid (tools/soak): the answer stands, but covers less than meant
        print("note: no generated case of %s" % missing, file=sys.stderr)
    if not distinct:
        print("the generator produced no non-trivial case", file=sys.stderr)
        return 3
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, evaluations, len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
