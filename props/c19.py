import re

from hypothesis import strategies as st

from lib import mdparse, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("(a) a quote, panel or decision with arbitrary content and text: every line starts with the prefix, and without "
        "it stands the rendering of the content (as a document of its own); (b) documents of ordinary words with quotes, "
        "panels and decision lists between and inside other blocks, read back by markdown-it: each word is in its own "
        "quote, nothing else is. Non-trivial: content that renders to something.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser",
               "trailing whitespace of a decision's lines and its superfluous blank lines have no meaning"]
EXAMPLES = {"quick": 2700, "thorough": 48000}
REQUIRED_CLASSES = ["blockquote", "panel", "decisionItem", "decisionList", "read back", "exotic line separator",
                    "empty content", "code inside", "list inside", "blank lines"] + [
    "panel " + t for t in ("info", "note", "tip", "warning", "error", "success", "custom")]

EXOTIC = re.compile("[\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029]")


def _alone(g):
    g.fuel = g.int(2, 20)
    t = g.pick(["blockquote", "panel", "decisionItem", "decisionList"])
    n = g.node(t, 3)
    if t == "decisionItem" and g.flip():
        n["content"] = (n.get("content") or []) + [{"type": "hardBreak"}] * g.int(1, 3) + [
            {"type": "text", "text": g.words()}] + [{"type": "hardBreak"}] * g.int(0, 3) + [
            {"type": "text", "text": g.words()}]
    return {"kind": "alone", "d": n}


def _read(g):
    kinds = ["blockquote", "panel", "decisionList"] * 3 + ["paragraph", "bulletList", "heading", "mediaSingle", "extension",
                                                           "expand", "codeBlock", "table", "rule", "taskList"]
    d = g.doc(kinds=kinds, lo=1)
    return {"kind": "read back", "d": d}


def cases():
    return st.one_of(built(_alone, wild=True, loose=14), built(_alone), built(_read, md=True))


def unquote(text, what):
    """The lines without their prefix."""
    out = []
    for line in text.split("\n"):
        require(line.startswith(">"), "%s: the line %r has no prefix\n%s", what, line, text)
        require(line == ">" or line.startswith("> "), "%s: prefix of %r", what, line)
        out.append(line[2:])
    return out


def bare(lines):
    return [x.rstrip() for x in lines if x.strip()]


def check(case, note):
    d = case["d"]
    if case["kind"] == "read back":
        text = md(d)
        got, exp = mdparse.normal(mdparse.Read(text).words), mdparse.normal(mdparse.expected(d))
        for x, y in zip(got + [None], exp + [None]):
            if x != y:
                require(False, "reading the document back: found %r, expected %r\n%s", x, y, text)
        note("read back")
        note.nontrivial(any(p[0] == "quote" for _, place in exp for p in place))
        return
    t = d["type"]
    note(t)
    text = md(d)
    for n in tree.nodes(d):
        if EXOTIC.search(n.get("text", "")):
            note("exotic line separator")
        if n["type"] == "codeBlock":
            note("code inside")
        if n["type"] in ("bulletList", "orderedList", "taskList"):
            note("list inside")
    if t in ("blockquote", "panel"):
        inner = md({"type": "doc", "version": 1, "content": d["content"]})
        if t == "panel":
            note("panel " + d["attrs"]["panelType"])
            inner = "**" + d["attrs"]["panelType"].upper() + "**\n\n" + inner
            while "\n\n\n" in inner:
                inner = inner.replace("\n\n\n", "\n\n")
        require(text.endswith("\n"), "a %s does not end its last line: %r", t, text)
        if not inner:
            note("empty content")
            same(text.strip("\n"), "", "an empty quote")
            return
        body = text[:-1]
        want = inner
        if want.endswith("\n"):
            require(body.endswith("\n"), "the last empty line: %r", text)
            body, want = body[:-1], want[:-1]
        same(unquote(body, t), want.split("\n"), "the content of the %s\n%s" % (t, text))
        note.nontrivial(bool(inner.strip()))
        return
    items = [d] if t == "decisionItem" else d["content"]
    blocks = []
    for item in items:
        own = md(item)
        inner = "".join(md(c) for c in item.get("content", ())).split("\n")
        if not own:
            note("empty content")
            same(bare(inner), [], "an item that renders to nothing")
        else:
            got = unquote(own, "decisionItem")
            same(bare(got), bare(inner), "the content of the decision\n" + own)
            require(not any(not a and not b for a, b in zip(got, got[1:])), "two blank lines in a row: %r", own)
            require(got[0] and got[-1], "a decision begins or ends with a blank line: %r", own)
            if any(not x for x in got):
                note("blank lines")
            # paragraphs of the decision after its title line stay apart
            want_gaps = gaps(inner)
            require(gaps(got) == want_gaps, "blank lines between %r: %r", inner, got)
        blocks.append(own)
    if t == "decisionList":
        same(text, "\n\n".join(blocks), "decisions of a list")
    note.nontrivial(bool(text.strip()))


def gaps(lines):
    """After which non-blank lines (from the second on) a blank line follows before the next one."""
    out, count, blank = [], 0, False
    for x in lines:
        if x.strip():
            if blank and count > 1:
                out.append(count)
            count, blank = count + 1, False
        else:
            blank = True
    return out
