from hypothesis import strategies as st

from lib import ref, spec, tree
from lib.gen import built
from lib.sut import parse, render, require, same

RULE = ("A document or a node of any type with arbitrary text, compared with the reference renderer, character for "
        "character. Non-trivial: at least three nodes.")
ASSUMPTIONS = ["lib/ref.py, written from the documentation of each type, states the conversion rules"]
EXAMPLES = {"quick": 3150, "thorough": 60000}
REQUIRED_CLASSES = ["depth>=8", "falsy", "null"] + ["root:" + t for t in spec.NODES] + ["mark:" + t for t in spec.TEXT_MARKS]


def _case(g):
    k = g.int(0, 4)
    if k == 0:
        return g.node(g.pick(list(spec.NODES)), 4)
    if k == 1:
        g.fuel = 30
        return g.node(g.pick(["table", "bulletList", "orderedList", "taskList", "panel", "blockquote", "expand",
                              "decisionList", "tableCell", "listItem"]), 5)
    return g.doc()


def cases():
    return st.one_of(built(_case, wild=True, loose=14, nulls=25), built(_case))


def check(d, note):
    got = render(parse(d))
    same(got, ref.render(tree.without_nulls(d)), "the Markdown differs from what the conversion rules give")
    note("root:" + d["type"], *tree.shape(d))
    if tree.falsy_values(d):
        note("falsy")
    if tree.without_nulls(d) != d:
        note("null")
    note.nontrivial(tree.size(d) >= 3)
