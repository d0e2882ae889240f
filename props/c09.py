from hypothesis import strategies as st

from lib import faults, ref, spec, tree
from lib.gen import built
from lib.sut import outcome, parse, render, require, same

RULE = ("A document or container with no inconvertible leaf, or with one or more, among them nodes and marks of own "
        "classes that raise any exception. Non-trivial: one or more in a "
        "rendered position (the error must surface), or none and at least three nodes (both modes must agree).")
ASSUMPTIONS = ["a leaf is inconvertible if the library raises when it renders that leaf alone"]
EXAMPLES = {"quick": 3000, "thorough": 48000}
REQUIRED_CLASSES = ["surfaces", "nothing fails", "only in an unrendered place", "bad:text", "bad:date", "bad:inlineCard",
                    "bad:blockCard", "bad:media", "in tableCell", "in listItem", "in taskItem", "in decisionItem",
                    "in panel", "in blockquote", "in nestedExpand", "in heading",
                    "injected"] + ["injected " + e for e in faults.ERRORS]

ROOTS = ["paragraph", "heading", "bulletList", "orderedList", "taskList", "decisionList",
         "decisionItem", "taskItem", "listItem", "table", "tableRow", "tableCell", "tableHeader", "panel", "blockquote",
         "expand", "nestedExpand", "mediaSingle"]

REPAIR = {"date": {"timestamp": "0"}, "inlineCard": {"url": "u"}, "blockCard": {"url": "u"},
          "media": {"type": "external", "url": "u"}}


def repaired(n):
    n = dict(n)
    if n["type"] == "text":
        n["text"] = n["text"].replace("\n", "")
    else:
        n["attrs"] = dict(n["attrs"], **REPAIR[n["type"]])
    return n


def _case(g):
    if g.flip():
        g.fuel = g.int(8, 40)
        d = g.doc(lo=2)
    else:
        d = g.node(g.pick(ROOTS), 4)
    keep = g.int(0, 3)  # 0: repair all, 1-2: keep one, 3: keep all
    bad = [n for n in tree.nodes(d) if n["type"] in ref.LEAVES and not ref.convertible(n)]
    if keep < 3:
        left = g.pick(bad) if bad and keep else None
        for n in bad:
            if n is not left:
                n.update(repaired(n))
    return d


def cases():
    return st.one_of(built(_case, wild=True, loose=14, bad=4), built(_case, wild=True, loose=14, bad=4),
                     built(_faulty, wild=True, loose=14))


def _faulty(g):
    d, where = faults.inject(g, g.doc(lo=1) if g.flip() else g.node(g.pick(ROOTS), 4))
    return {"faults": where, "d": d}


def injected(case, note):
    where = case["faults"]
    obj = faults.build(case["d"])
    got, res = outcome(obj.to_markdown)
    if not where:
        require(got == "ok", "nothing is inconvertible, but rendering raises %r", res)
        return
    require(got == "err", "own nodes or marks that raise (%r), and yet rendering gives %r", where, res)
    require([type(res).__name__, res.args] in [[e, (t,)] for e, t, _ in where], "the error is %s%r, not one of %r",
            type(res).__name__, res.args, where)
    note("injected", *["injected " + e for e, _, _ in where])
    note.nontrivial()


def check(case, note):
    if "faults" in case:
        injected(case, note)
        return
    bad = []

    def find(n, above):
        if n["type"] in ("caption", "mediaGroup", "mediaInline"):
            return
        if n["type"] in ref.LEAVES:
            got, e = outcome(parse(n).to_markdown)
            if got == "err":
                bad.append((n, e, above))
            require((got == "ok") == ref.convertible(n), "whether %r can be converted", n)
        for c in n.get("content", ()):
            find(c, above + [n["type"]])

    find(case, [])
    obj = parse(case)
    got, res = outcome(obj.to_markdown)
    if bad:
        note("surfaces")
        for n, _, above in bad:
            note("bad:" + n["type"], *("in " + t for t in set(above)))
        require(got == "err", "%d inconvertible leaves and yet rendering gives %r", len(bad), res)
        own = [(type(e), str(e)) for _, e, _ in bad]
        require((type(res), str(res)) in own, "the error is %s(%s), not one of %r", type(res).__name__, res, own)
        note.nontrivial()
        return
    require(got == "ok", "nothing is inconvertible, but rendering raises %r", res)
    same(render(obj, ignore_error=True), res, "the two modes differ although nothing fails")
    if any(n["type"] in ref.LEAVES and not ref.convertible(n) for n in tree.nodes(case)):
        note("only in an unrendered place")
    note("nothing fails")
    note.nontrivial(tree.size(case) >= 3)
