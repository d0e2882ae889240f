import re

from hypothesis import strategies as st

from lib import mdparse, spec, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("(a) a document of ordinary words, mostly headings and rules among all other blocks, also inside expands and "
        "panels: markdown-it must find the same headings (level, words) and as many thematic breaks; (b) a heading with "
        "arbitrary inline content: its exact single line; (c) headings and rules among other blocks in a table cell, with "
        "line break tags for blank lines. Non-trivial: at least one heading or rule.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser",
               "inside table cells headings and rules have no Markdown structure; there only their text and the line "
               "break tags around it are checked"]
EXAMPLES = {"quick": 3600, "thorough": 48000}
REQUIRED_CLASSES = ["heading", "rule", "heading in panel", "heading in expand", "rule in panel", "hard break in heading",
                    "line", "heading in cell", "rule in cell", "heading in nestedExpand", "level 1", "level 6"]

KINDS = ["heading", "rule"] * 6 + ["expand", "panel"] * 4 + [
    "blockCard", "codeBlock", "mediaSingle", "paragraph", "taskList", "orderedList", "bulletList", "blockquote",
    "decisionList", "embedCard", "extension", "mediaGroup", "table"]


def _doc(g):
    def block(depth):
        t = g.pick(KINDS)
        if t in ("expand", "panel") and depth > 0:
            if t == "expand" and g.flip(3):
                t = "nestedExpand"
            n = g.put_attrs({"type": t}, {"panelType": "note"} if t == "panel" else None)
            n["content"] = [block(depth - 1) for _ in range(g.int(1, 4))]
            if t != "expand":
                allowed = PANEL if t == "panel" else spec.NODES[t].content
                n["content"] = [c for c in n["content"] if c["type"] in allowed]
            return n
        if t == "heading" and g.flip(3):
            n = g.n_heading()
            n["content"] += [{"type": "hardBreak"}, {"type": "text", "text": g.words()}]
            return n
        if t == "expand":
            return g.n_nestedExpand(1)
        return g.block(t, 1)

    return {"kind": "doc", "d": {"type": "doc", "version": 1, "content": [block(2) for _ in range(g.int(1, 6))]}}


PANEL = {"paragraph", "heading", "bulletList", "orderedList", "blockCard", "mediaGroup", "mediaSingle", "codeBlock",
         "taskList", "rule", "decisionList", "extension"}


def _line(g):
    n = g.n_heading()
    return {"kind": "line", "d": n}


def _cell(g):
    """A table cell with headings and rules behind and before all kinds of blocks."""
    kinds = spec.NODES["tableCell"].content
    blocks = [g.block(g.pick(kinds), 1) for _ in range(g.int(1, 3))]
    blocks.insert(g.int(0, len(blocks)), g.n_heading() if g.flip() else {"type": "rule"})
    if g.flip():
        blocks = [b for b in blocks if b["type"] != "paragraph"]
    return {"kind": "cell", "d": {"type": g.pick(["tableCell", "tableHeader"]), "content": blocks}}


def check_cell(n, note):
    """In a cell, where there is only one line, the blank lines are line break tags."""
    got = md({"type": "table", "content": [{"type": "tableRow", "content": [n]}]})
    row = got.strip("\n").split("\n")[0]
    require(row.startswith("| ") and row.endswith(" |"), "the row of a cell is %r", row)
    parts = row[2:-2].split("<br>")
    blocks = n["content"]
    for i, b in enumerate(blocks):
        t = b["type"]
        if t not in ("heading", "rule"):
            continue
        mark = "#" * b["attrs"]["level"] + " " if t == "heading" else "---"
        lone = md(b).strip("\n").replace("\n", " ").strip()
        places = [j for j, p in enumerate(parts) if p.strip() == lone.replace("|", "\\|")]
        if t == "heading" and len(lone) <= len(mark):
            continue
        require(places, "the %s %r is not on its own between line breaks in %r", t, lone, row)
        if len([x for x in blocks if x["type"] == t]) > 1 or len(places) > 1:
            continue
        j = places[0]
        before = "".join(parts[:j]).strip()
        after = "".join(parts[j + 1:]).strip()
        require(not before or parts[j - 1].strip() == "", "no blank line before the %s in %r", t, row)
        require(not after or parts[j + 1].strip() == "", "no blank line after the %s in %r", t, row)
        note("%s in cell" % t)
        note.nontrivial(bool(before or after))


def cases():
    return st.one_of(built(_cell, md=True), built(_doc, md=True), built(_line, wild=True))


def check(case, note):
    d = case["d"]
    if case["kind"] == "cell":
        return check_cell(d, note)
    if case["kind"] == "line":
        return check_line(d, note)
    text = md(d)
    read = mdparse.Read(text)
    want, rules, depth = [], [0], [0]

    def visit(n, above):
        t = n["type"]
        if t in ("table", "caption", "mediaGroup"):
            return
        if t == "heading":
            want.append((n["attrs"]["level"], [w for c in n["content"]
                                              for w in mdparse.TOKEN.findall(mdparse.leaf_text(c))]))
            note("heading", "level %d" % n["attrs"]["level"], *("heading in " + a for a in above))
            if any(c["type"] == "hardBreak" for c in n["content"]):
                note("hard break in heading")
        if t == "rule":
            rules[0] += 1
            note("rule", *("rule in " + a for a in above))
        for c in n.get("content", ()):
            visit(c, above | {t})

    visit(d, frozenset())
    for x, y in zip(read.headings + [None], want + [None]):
        if x != y:
            require(False, "headings read back: %r, expected %r\n%s", x, y, text)
    same(read.rules, rules[0], "number of thematic breaks\n" + text)
    # blank lines around, in the source (quotes have a prefix)
    lines = text.split("\n")
    for i, line in enumerate(lines):
        bare = re.sub(r"^(> ?)+", "", line)
        if re.match(r"#{1,6} ", bare) and not in_code(lines, i):
            for j in (i - 1, i + 1):
                if 0 <= j < len(lines):
                    require(re.fullmatch(r"(> ?)*", lines[j]), "no blank line beside the heading %r but %r\n%s", line,
                            lines[j], text)
    note.nontrivial(bool(want) or rules[0] > 0)


def in_code(lines, i):
    fences = sum(1 for x in lines[:i] if re.match(r"[> ]*```", x))
    return fences % 2 == 1


def check_line(n, note):
    got = md(n)
    inline = "".join(md(c) for c in n.get("content", ()))
    require(got.startswith("\n") and got.endswith("\n\n"), "no blank lines around the heading %r", got)
    line = got.strip("\n")
    require("\n" not in line, "the heading is not one line: %r", got)
    want = "#" * n["attrs"]["level"] + " " + inline.replace("  \n", " ").replace("\n", " ")
    same(line, want.strip("\n"), "the heading line")
    note("line", "heading")
    note.nontrivial()
