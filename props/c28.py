"""Model: each thread's results are those of the document alone, under every schedule."""
import dataclasses
import functools
import sys
import typing

from func_args.api import OPT

from lib import pool, ref, spec, threads, tree
from lib.gen import built
from lib.sut import Capture, Violation, api, outcome, require, settings

RULE = ("Two to four threads, each with its own list of operations (parse, render in either error mode, serialise, compare, "
        "type-test, parse something invalid) on one to three documents, some of them shared objects, run under a generated "
        "schedule that switches threads inside the package every few lines or byte code instructions, or freely with the "
        "shortest switch interval. Every result must be that of the reference renderer and serialiser, and the number of "
        "warnings that of the skipped elements parsed. Non-trivial: at least five switches inside the package, or free.")
ASSUMPTIONS = ["lib/ref.py and lib/spec.py give the right result of a single operation (checked by C25 and C01)",
               "switches inside other packages (func_args, copy, dataclasses) happen in the free runs only"]
EXAMPLES = {"quick": 450, "thorough": 5000}
REQUIRED_CLASSES = ["lines", "opcodes", "free", "shared object", "skipped", "op:parse", "op:render", "op:render lenient",
                    "op:serialise", "op:equal", "op:invalid", "op:type", "op:own", "many classes before"]
OPS = ["parse", "parse", "render", "render", "render lenient", "serialise", "equal", "type", "invalid", "own"]


@functools.lru_cache(None)
def own(i):
    """The i-th class of the caller's."""
    return dataclasses.make_dataclass("Own%d" % i, [("x%d" % i, typing.Any, dataclasses.field(default_factory=lambda: OPT)),
                                                    ("y", typing.Any, dataclasses.field(default_factory=lambda: OPT))],
                                      bases=(api.Base,), frozen=True)


OWN = 160


# documents made of one type of block, so that the threads are often in the same code
THEMES = ["taskList", "bulletList", "orderedList", "table", "panel", "blockquote", "decisionList", "paragraph", "codeBlock",
          "heading", "mediaSingle", "expand"]


def themed(g, t):
    b = g.block(t, 4)
    if g.flip() and t in ("taskList", "bulletList", "orderedList", "panel", "blockquote", "expand"):
        inner = themed(g, t)
        if t == "taskList":
            b["content"].insert(g.int(0, len(b["content"])), inner)
        elif t in ("bulletList", "orderedList"):
            b["content"].insert(g.int(0, len(b["content"])), {"type": "listItem", "content": [inner]})
        elif t == "expand":
            b["content"].append(inner)
    return b


def _case(g):
    docs = []
    theme = g.pick(THEMES) if g.flip() else None
    for _ in range(g.int(1, 3)):
        g.fuel = g.int(2, 10)
        if theme:
            g.fuel = g.int(6, 20)
            docs.append({"type": "doc", "version": 1, "content": [themed(g, theme) for _ in range(g.int(1, 2))]})
        else:
            docs.append(g.doc(depth=3, hi=4))
    skipped = 0
    if g.flip(3):
        for d in docs:
            d["content"].insert(g.int(0, len(d["content"])), {"type": g.pick(["zz", "layoutSection"])})
    n = g.int(2, 4)
    k = g.int(0, 5)
    lo, hi = g.pick([(1, 3), (1, 20), (5, 60), (20, 300)])
    jobs = [[[g.pick(OPS), g.int(0, 9)] for _ in range(g.int(1, 4))] for _ in range(n)]
    shared = bool(g.flip())
    if g.flip():  # everyone does the same at the same time
        name = g.pick(["render", "render lenient", "parse", "serialise", "equal", "own", "own", "own"])
        jobs = [[[name, g.int(0, 9)] for _ in range(g.int(1, 3))] for _ in range(n)]
        shared = name != "parse"
    gaps = [g.int(lo, hi) for _ in range(g.int(1, 12))]
    if g.flip():  # one thread is held up in the middle of something while the others get far
        gaps = [n if i % 2 else n * g.pick([20, 100]) for i, n in enumerate(gaps)]
    return {"docs": docs, "mode": ["lines", "opcodes", "free"][0 if k < 3 else 1 if k < 5 else 2],
            "threads": jobs, "same": shared, "warm": g.pick([0, g.int(0, 130), 1 << g.int(3, 7)]), "gaps": gaps}


def cases():
    return built(_case, wild=True, loose=14, bad=25)


def expected_md(d, lenient):
    d = spec.project(d)
    try:
        return ["ok", ref.render(ref.prune(d) if lenient else d)]
    except ref.RefError:
        return ["err", None]


def work(ops, docs, shared, warm):
    out = []
    mine = {}
    for name, a in ops:
        i = a % len(docs)
        if name == "own":  # a few classes of the caller's, used for the first time by whoever comes first
            for k in range(16):
                c = own((warm + a * 8 + k) % OWN)
                d = {"x%d" % ((warm + a * 8 + k) % OWN): k, "y": [name, a]}
                out.append([name, i, sorted(c.get_fields()) == sorted(d) and c.from_dict(d).to_dict() == d
                            and c.from_dict({"y": 1}).to_dict() == {"y": 1}])
            continue
        if name == "parse" or (i not in mine and i not in shared):
            mine[i] = api.parse_node(docs[i])
            out.append(["serialise", i, mine[i].to_dict()])
            if name == "parse":
                continue
        obj = mine.get(i) or shared[i]
        if name in ("render", "render lenient"):
            state, md = outcome(obj.to_markdown, ignore_error=name == "render lenient")
            out.append([name, i, [state, md if state == "ok" else None]])
        elif name == "serialise":
            out.append([name, i, obj.to_dict()])
        elif name == "equal":
            other = api.parse_node(docs[i])
            out.append([name, i, obj == other and not obj != other])
        elif name == "type":
            out.append([name, i, obj.is_type_of(api.TypeEnum.doc) and not obj.is_type_of([api.TypeEnum.text])])
        elif name == "invalid":
            state, e = outcome(api.parse_node, {"type": "paragraph", "content": [{"type": "text", "marks": []}]})
            out.append([name, i, state == "err" and isinstance(e, api.ParamError)])
    return out


def expected(out, docs):
    for name, i, got in out:
        if name == "serialise":
            want = spec.project(docs[i])
            good = tree.json_equal(got, want)
        elif name in ("render", "render lenient"):
            want = expected_md(docs[i], name == "render lenient")
            good = got == want
        else:
            want = good = got is True
        require(good, "with other threads at work, %s of document %d gives\n  %r\nnot\n  %r", name, i, got, want)


def parses(ops, docs, shared):
    """How many times each document is parsed."""
    count = [0] * len(docs)
    mine = set()
    for name, a in ops:
        i = a % len(docs)
        if name == "own":
            continue
        if name == "parse" or (i not in mine and i not in shared):
            mine.add(i)
            count[i] += 1
            if name == "parse":
                continue
        if name == "equal":
            count[i] += 1
    return count


def scenario(case):
    docs = case["docs"]
    settings.WARN_UNIMPLEMENTED_TYPE = True
    with Capture() as cap:
        # in half of the cases the threads share objects, in the others everything is parsed in the threads
        shared = {i: api.parse_node(d) for i, d in enumerate(docs)} if case["same"] else {}
        for i in range(case["warm"]):
            own(i).get_fields()
        before = len(cap.records)
        jobs = [lambda ops=ops: work(ops, docs, shared, case["warm"]) for ops in case["threads"]]
        old = sys.getswitchinterval()
        if case["mode"] == "free":
            sys.setswitchinterval(1e-6)
        try:
            results, b = threads.run(jobs, case["gaps"] if case["mode"] != "free" else [10 ** 9], case["mode"] == "opcodes",
                                     free=case["mode"] == "free")
        finally:
            sys.setswitchinterval(old)
        got = len(cap.records) - before
    for state, value in results:
        if not state:
            raise Violation("with other threads at work: %s: %s" % (type(value).__name__, value))
        expected(value, docs)
    want = sum(n * sum(1 for c in docs[i]["content"] if c["type"] not in spec.NODES)
               for ops in case["threads"] for i, n in enumerate(parses(ops, docs, shared)))
    require(got == want, "%d warnings for %d skipped elements", got, want)
    for i, obj in shared.items():
        require(tree.json_equal(obj.to_dict(), spec.project(docs[i])), "a shared object changed")
    return b.inside


def check(case, note):
    for i in range(OWN):  # made here once, used for the first time in the child
        own(i)
    inside = pool.forked(lambda: scenario(case))
    note(case["mode"])
    if case["same"]:
        note("shared object")
    if any(c["type"] not in spec.NODES for d in case["docs"] for c in d["content"]):
        note("skipped")
    if case["warm"] >= 32:
        note("many classes before")
    for ops in case["threads"]:
        for name, _ in ops:
            note("op:" + name)
    note.nontrivial(case["mode"] == "free" or inside >= 5)
