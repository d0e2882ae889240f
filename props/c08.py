from hypothesis import strategies as st

from lib import faults, ref, tree
from lib.gen import built
from lib.sut import call, outcome, parse, render, require, same

RULE = ("A document or container with any number of inconvertible leaves at any positions, among them nodes and marks of "
        "own classes that raise any exception. Its lenient rendering is "
        "compared with the rendering of the document from which just those leaves were deleted. Non-trivial: at least "
        "one inconvertible leaf in a rendered position.")
ASSUMPTIONS = ["the inconvertible leaves are: cards without URL, media that is neither file, link nor external with a "
               "URL, dates whose timestamp is no integer or out of range, code-marked text with a newline"]
EXAMPLES = {"quick": 2250, "thorough": 40000}
REQUIRED_CLASSES = ["bad:text", "bad:date", "bad:inlineCard", "bad:blockCard", "bad:media", "several", "depth>=6",
                    "in tableCell", "in listItem", "in taskItem", "in decisionItem", "in panel", "in blockquote",
                    "in nestedExpand", "in heading", "injected"] + ["injected " + e for e in faults.ERRORS]

ROOTS = ["paragraph", "heading", "bulletList", "orderedList", "taskList", "decisionList",
         "decisionItem", "taskItem", "listItem", "table", "tableRow", "tableCell", "tableHeader", "panel", "blockquote",
         "expand", "nestedExpand", "mediaSingle"]


def _case(g):
    if g.flip():
        g.fuel = g.int(8, 40)
        return g.doc(lo=2)
    return g.node(g.pick(ROOTS), 4)


def cases():
    return st.one_of(built(_case, wild=True, loose=14, bad=1), built(_case, wild=True, loose=14, bad=2), built(_case, wild=True, loose=14, bad=5),
                     built(_faulty, wild=True, loose=14, bad=20))


def _faulty(g):
    d, where = faults.inject(g, _case(g), 6)
    return {"faults": where, "d": d}


def injected(case, note):
    got = render(faults.build(case["d"]), ignore_error=True)
    same(got, render(parse(faults.without(case["d"])), ignore_error=True),
         "rendering with ignore_error differs from the rendering without the leaves that raise %r" % case["faults"])
    note("injected", *["injected " + e for e, _, _ in case["faults"]])
    note.nontrivial(bool(case["faults"]))


def check(case, note):
    if "faults" in case:
        injected(case, note)
        return
    bad = []

    def find(n, above):
        if n["type"] in ("caption", "mediaGroup", "mediaInline"):
            return
        if n["type"] in ref.LEAVES and not ref.convertible(n):
            bad.append((n, above))
        for c in n.get("content", ()):
            find(c, above + [n["type"]])

    find(case, [])
    for n, above in bad:
        note("bad:" + n["type"], *("in " + t for t in set(above)))
        # the oracle's notion of inconvertible is the library's
        got, e = outcome(parse(n).to_markdown)
        require(got == "err", "%r renders alone as %r; the check takes it for inconvertible", n, e)
    pruned = ref.prune(case)
    want = render(parse(pruned))
    got = render(parse(case), ignore_error=True)
    same(got, want, "rendering with ignore_error differs from the rendering without the %d inconvertible leaves" % len(bad))
    same(render(parse(pruned), ignore_error=True), want, "ignore_error changes a document without errors")
    if len(bad) > 1:
        note("several")
    note(*(x for x in tree.shape(case) if x.startswith("depth")))
    note.nontrivial(bool(bad))
