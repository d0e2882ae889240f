import unicodedata

from hypothesis import strategies as st

from lib import spec, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("A document with arbitrary text and (a) the renderings of all its parts alone; (b) an edit of its top level "
        "(replace, insert, delete, swap blocks), (c) text nodes split in two, (d) blocks wrapped in an expand or nested "
        "expand. Non-trivial: at least two blocks or inline nodes.")
ASSUMPTIONS = ["block sequences are compared up to empty lines"]
EXAMPLES = {"quick": 2250, "thorough": 40000}
REQUIRED_CLASSES = ["edit:replace", "edit:insert", "edit:delete", "edit:swap", "split", "wrap", "parts", "paragraph parts",
                    "item parts", "cell parts", "nested"]


def _case(g):
    g.fuel = g.int(3, 30)
    d = g.doc(lo=1, hi=6)
    c = d["content"]
    k = g.pick(["replace", "insert", "delete", "swap", "split", "wrap"])
    e = tree.clone(d)
    ec = e["content"]
    i, j = g.int(0, len(c) - 1), g.int(0, len(c) - 1)
    if k in ("replace", "insert"):
        g.fuel = 8
        new = g.block(g.pick(spec.BLOCKS), 2)
        if k == "replace":
            ec[i] = new
        else:
            ec.insert(i, new)
    elif k == "delete":
        del ec[i]
    elif k == "swap":
        ec[i], ec[j] = ec[j], ec[i]
    elif k == "split":
        split(g, e)
    elif k == "wrap":
        lo, hi = min(i, j), max(i, j) + 1
        ec[lo:hi] = [{"type": "expand", "attrs": {"title": "h"}, "content": ec[lo:hi]}]
    return {"kind": k, "a": d, "b": e, "i": i, "j": j}


def split(g, n):
    if "content" in n:
        out = []
        for c in n["content"]:
            # code marks and emphasis belong to one text; only unformatted text is split
            if c["type"] == "text" and not c.get("marks") and g.flip():
                cut = g.int(0, len(c["text"]))
                joined = [i for i, x in enumerate(c["text"]) if unicodedata.combining(x) or x in "\u200d\ufe0f"]
                if joined and g.flip():
                    cut = g.pick(joined)    # between a character and what belongs to it
                for part in (c["text"][:cut], c["text"][cut:]):
                    new = dict(c)
                    new["text"] = part
                    out.append(new)
            else:
                out.append(c)
                split(g, c)
        n["content"] = out


def cases():
    return st.one_of(built(_case, wild=True), built(_case))


def filled(text):
    return [x for x in text.split("\n") if x]


INLINE_PARENTS = ("paragraph", "heading", "taskItem", "caption")


def check(case, note):
    a, b, k = case["a"], case["b"], case["kind"]
    ma, mb = md(a), md(b)
    # whole and parts
    parts = [md(c) for c in a["content"]]
    same(filled(ma), [x for p in parts for x in filled(p)], "a document and its blocks rendered alone")
    note("parts")
    for n in tree.nodes(a):
        t = n["type"]
        if t == "paragraph" and not n.get("marks"):
            same(md(n), "".join(md(c) for c in n.get("content", ())) + "\n", "a paragraph and its parts")
            note("paragraph parts")
        elif t in ("expand", "nestedExpand"):
            same(filled(md(n)), [x for c in n["content"] for x in filled(md(c))], "an expand and its blocks")
            note("nested")
        elif t == "listItem":
            same(filled(md(n)), [x for c in n["content"] for x in filled(md(c))], "a list item and its blocks")
            note("item parts")
        elif t in ("tableCell", "tableHeader"):
            got = md(n).replace("&nbsp;", " ").split("<br>")
            want = [x.replace("|", "\\|").replace("&nbsp;", " ") for c in n["content"] for x in md(c).split("\n")]
            want = [y for x in want for y in x.split("<br>")]
            same([x for x in got if x], [x for x in want if x], "a cell and its blocks")
            note("cell parts")
        elif t == "mediaSingle":
            same(md(n), "".join(md(c) for c in n.get("content", ())), "a media single and its parts")
        elif t == "tableRow":
            same(md(n), "| " + " | ".join(md(c) for c in n["content"]) + " |", "a row and its cells")
    # edits
    if k in ("replace", "insert", "delete", "swap"):
        own = {tree.canon(c): md(c) for c in b["content"]}
        same(filled(mb), [x for c in b["content"] for x in filled(own[tree.canon(c)])], "the edited document")
        for c, p in zip(a["content"], parts):
            if tree.canon(c) in own:
                same(own[tree.canon(c)], p, "an untouched block after the edit %s" % k)
        note("edit:" + k)
    elif k == "split":
        same(mb, ma, "splitting unformatted text changes the Markdown")
        note("split")
    else:
        same(filled(mb), filled(ma), "wrapping blocks in an expand changes more than empty lines")
        note("wrap")
    note.nontrivial(tree.size(a) >= 3)
