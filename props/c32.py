import os

from hypothesis import strategies as st

from lib import fresh, ref, spec, sut, tree
from lib.gen import built
from lib.sut import HarnessError, require, same

RULE = ("In a fresh interpreter that has the standard library, the one declared dependency and the package, generated sequences "
        "of the package's modules are imported (each possibly first), then documents go through a generated entry point; "
        "results and warnings are compared with the reference, and everything else in the process with its state before. "
        "Non-trivial: two or more modules, or an entry other than the API module.")
ASSUMPTIONS = ["the test helpers, the vendored test runner and the code generator need more packages and are not imported"]
EXAMPLES = {"quick": 110, "thorough": 3000}
ENTRIES = ["api", "api doc", "doc module", "parse module"]
VARIANTS = [(["-W", "error"], {"LC_ALL": "C.UTF-8"}), (["-OO"], {"LC_ALL": "C", "TZ": "Asia/Tokyo"}),
            (["-bb", "-X", "utf8=0"], {"LC_ALL": "POSIX", "PYTHONHASHSEED": "5"}), (["-X", "dev"], {"TZ": "America/Lima"})]
REQUIRED_CLASSES = ["entry " + e for e in ENTRIES] + ["variant %d" % i for i in range(len(VARIANTS))] + [
    "no module first", "many modules", "skipped element", "a node module first", "a mark module first", "another module first", "variables set"]

ZYGOTES = {}


def zygote(i):
    key = (os.getpid(), i)
    if key not in ZYGOTES:
        ZYGOTES[key] = fresh.Zygote(sut.REPO, *VARIANTS[i])
    return ZYGOTES[key]


MODULES = fresh.modules(sut.REPO)


def _case(g):
    g.fuel = g.int(2, 12)
    k = g.int(0, 7)
    n = 0 if k == 0 else g.int(1, 3) if k < 6 else g.int(4, len(MODULES))
    left, order = list(MODULES), []
    for _ in range(n):
        if left:
            order.append(left.pop(g.int(0, len(left) - 1)))
    docs = [g.doc(3, hi=3) for _ in range(g.int(1, 2))]
    skips = []
    for d in docs:
        if g.flip(3):
            d["content"].insert(g.int(0, len(d["content"])), {"type": "zzNew"})
    return {"order": order, "entry": g.pick(ENTRIES), "variant": g.int(0, len(VARIANTS) - 1), "docs": docs,
            "variables": g.pick([None, "1", "0", "", "true", "error", "CRITICAL", "no", "C", "/nonexistent", "ä"])}


def cases():
    return built(_case, wild=True)


def check(case, note):
    order, docs = case["order"], case["docs"]
    note("entry " + case["entry"], "variant %d" % case["variant"])
    if not order:
        note("no module first")
    else:
        if len(order) > 10:
            note("many modules")
        first = order[0].split(".")[-1]
        note("a node module first" if first.startswith("node_") else "a mark module first" if first.startswith("mark_")
             else "another module first")
    if case["variables"] is not None:
        note("variables set")
    note.nontrivial(len(order) > 1 or case["entry"] not in ("api", "api doc"))
    z = zygote(case["variant"])
    out = z.ask({"order": order, "entry": case["entry"], "docs": docs, "variables": case["variables"]})
    if out is None:
        raise HarnessError("the interpreter %s ended" % z.name)
    about = "importing %s, then %s (%s%s)" % (", ".join(order) or "nothing", case["entry"], z.name, "" if case["variables"] is None
                                              else ", every variable asked for is %r" % case["variables"])
    require(not out["failed"], "%s: %s", about, out["failed"])
    skipped = 0
    for d, (got, strict, lenient) in zip(docs, out["results"]):
        kept = tree.clone(d)
        kept["content"] = [c for c in kept["content"] if c["type"] != "zzNew"]
        skipped += len(d["content"]) - len(kept["content"])
        require(tree.json_equal(got, spec.project(kept)), "%s: the serialisation is %r", about, got)
        same(strict, ref.render(kept), about)
        same(lenient, strict, about + " (lenient)")
    if skipped:
        note("skipped element")
    require(len(out["records"]) == skipped and all("zzNew" in r[1] and r[0] == "WARNING" for r in out["records"]),
            "%s: %d elements skipped, warnings %r", about, skipped, out["records"])
    require(out["same class"], "%s: the objects are no instances of the class in the public API", about)
    same(out["error"], "zzNew mark", about + ": the error for an unimplemented mark")
    require(not out["after import"], "%s: importing changes the %s", about, out["after import"])
    require(not out["after work"], "%s: parsing or rendering changes the %s", about, out["after work"])
    require(not out["events"], "%s: %s", about, out["events"][:3])
    require(not out["printed"], "%s prints %r", about, out["printed"])
