import re

from hypothesis import strategies as st

from lib import mdparse, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("A document, expand, quote or panel with long runs of empty paragraphs, headings, rules, cards and padded blocks. "
        "Non-trivial: at least two blocks.")
ASSUMPTIONS = ["an empty line is a line without characters (after the quote prefix)"]
EXAMPLES = {"quick": 2700, "thorough": 48000}
REQUIRED_CLASSES = ["run of empties", "padded block between others", "doc", "expand", "nestedExpand", "blockquote", "panel",
                    "bulletList", "orderedList", "codeBlock", "taskList", "decisionList", "table"]

PADDED = ("bulletList", "orderedList", "codeBlock", "taskList", "decisionList", "table")
EMPTY = [{"type": "paragraph"}, {"type": "paragraph", "content": []}, {"type": "mediaGroup", "content": []}]


def _case(g):
    root = g.pick(["doc", "doc", "doc", "expand", "nestedExpand", "blockquote", "panel"])
    kinds = {"doc": ["paragraph", "heading", "rule", "blockCard", "embedCard", "extension", "mediaSingle", "mediaGroup",
                     "blockquote", "panel", "expand", "table"] + list(PADDED),
             "blockquote": ["paragraph", "orderedList", "bulletList", "codeBlock", "mediaSingle", "extension"],
             "panel": ["paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaSingle", "codeBlock",
                       "taskList", "rule", "decisionList", "extension"]}
    pool = kinds.get(root, [k for k in kinds["doc"] if k not in ("expand", "table")])
    if root == "expand":
        pool = pool + ["table", "nestedExpand"]
    content = []
    for _ in range(g.int(1, 7)):
        k = g.int(0, 3)
        if k == 0:
            for _ in range(g.pick([1, 2, 3, 5, 9, 20])):
                content.append(tree.clone(g.pick(EMPTY)))
        elif k == 1 and "rule" in pool:
            content += [{"type": "rule"}] * g.int(1, 3)
        else:
            g.fuel = max(g.fuel, 4)
            content.append(g.block(g.pick(pool), 2))
    attrs = {"panelType": "note"} if root == "panel" else {}
    n = {"type": root, "content": content}
    if root != "doc":
        n["attrs"] = attrs
    return n


def cases():
    return st.one_of(built(_case), built(_case, wild=True, loose=14))


def filled(text):
    return [x for x in text.split("\n") if x]


def check(n, note):
    root = n["type"]
    text = md(n)
    note(root)
    if root in ("blockquote", "panel"):
        body = "\n".join(re.sub(r"^> ?", "", x) for x in text.rstrip("\n").split("\n"))
    else:
        body = text
    require("\n\n\n" not in body, "two empty lines in a row in a %s: %r", root, text)
    # apart from empty lines: the blocks, unchanged and in order
    parts = [md(c) for c in n["content"]]
    want = [x for p in parts for x in filled(p)]
    if root == "panel":
        want = ["**" + n["attrs"]["panelType"].upper() + "**"] + want
    same(filled(body), want, "the blocks of the %s apart from empty lines\n%s" % (root, text))
    # padded blocks between others
    lines = body.split("\n")
    at = 1 if root == "panel" else 0
    for i, (c, p) in enumerate(zip(n["content"], parts)):
        own = filled(p)
        if not own:
            continue
        while lines[at] == "":
            at += 1
        if c["type"] in PADDED:
            before = at == 0 or lines[at - 1] == ""
            end = at
            for x in own:
                while lines[end] == "":
                    end += 1
                end += 1
            after = end >= len(lines) or lines[end] == ""
            others_before = any(filled(x) for x in parts[:i]) or root == "panel"
            others_after = any(filled(x) for x in parts[i + 1:])
            if others_before:
                require(before, "no empty line before the %s in %r", c["type"], text)
            if others_after:
                require(after, "no empty line after the %s in %r", c["type"], text)
            if others_before and others_after:
                note("padded block between others")
            note(c["type"])
        for x in own:
            while lines[at] == "":
                at += 1
            at += 1
    run = best = 0
    for p in parts:
        run = run + 1 if not p.strip() else 0
        best = max(best, run)
    if best >= 3:
        note("run of empties")
    note.nontrivial(len(n["content"]) >= 2)
