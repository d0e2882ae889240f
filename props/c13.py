import re

from hypothesis import strategies as st
from markdown_it import MarkdownIt

from lib import mdparse, spec, tree
from lib.gen import WILD, built
from lib.sut import api, call, md, require, same

RULE = ("(a) texts of ordinary words with any marks in any order, in paragraphs, headings, list items, tasks, decisions, "
        "cells and captions' neighbours: markdown-it must report exactly the formats on exactly the words; (b) arbitrary "
        "text with any list of marks rendered alone: exact nesting of the delimiters; (c) inline code with backticks, "
        "pipes and spaces read back. Non-trivial: at least one mark.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser",
               "in (a) a code mark is listed first, because a code span shows delimiters inside it literally"]
EXAMPLES = {"quick": 5000, "thorough": 48000}
REQUIRED_CLASSES = ["read back", "alone", "code", "code with backticks", "blank text", "link title", "blank link title", "no-op mark",
                    "several marks", "indentation", "in cell", "in heading", "in taskItem", "in listItem"]

CONTEXTS = ["paragraph", "heading", "taskItem", "decisionItem", "listItem", "cell", "paragraph"]
_md = MarkdownIt("commonmark").enable(["table", "strikethrough"])


def wrap(ctx, inl):
    p = {"type": "paragraph", "content": inl}
    if ctx == "paragraph":
        b = p
    elif ctx == "heading":
        b = {"type": "heading", "attrs": {"level": 2}, "content": inl}
    elif ctx == "taskItem":
        b = {"type": "taskList", "attrs": {"localId": ""},
             "content": [{"type": "taskItem", "attrs": {"localId": "", "state": "DONE"}, "content": inl}]}
    elif ctx == "decisionItem":
        b = {"type": "decisionList", "attrs": {"localId": ""},
             "content": [{"type": "decisionItem", "attrs": {"localId": "", "state": "DECIDED"}, "content": inl}]}
    elif ctx == "listItem":
        b = {"type": "bulletList", "content": [{"type": "listItem", "content": [p]}]}
    else:
        b = {"type": "table", "content": [{"type": "tableRow", "content": [{"type": "tableHeader", "content": [p]}]}]}
    return {"type": "doc", "version": 1, "content": [b]}


def marks(g, hi):
    """Any list of marks, all attributes, possibly repeated."""
    kinds = spec.TEXT_MARKS + ["indentation", "code", "strong", "em", "strike", "alignment", "border"]
    return [g.mark(g.pick(kinds)) for _ in range(g.int(0, hi))]


def _read_back(g):
    inl = []
    for _ in range(g.int(1, 4)):
        if inl:
            inl.append({"type": "text", "text": " "})
        n = {"type": "text", "text": g.words()}
        if g.flip(4):
            n["text"] = g.pick(["%s, %s", "(%s) %s", "%s%s", "%s-%s", "%s: %s.", "%s 1 %s"]) % (g.tok(), g.tok())
        ms = g.marks(spec.TEXT_MARKS, 5)
        ms.sort(key=lambda m: m["type"] != "code")
        if ms or g.flip():
            n["marks"] = ms
        inl.append(n)
    return {"kind": "read back", "ctx": g.pick(CONTEXTS), "inline": inl}


def _alone(g):
    text = g.text()
    ms = marks(g, 4)
    if g.flip(4):
        text = g.pick(["", " ", "\t", "  ", "\u00a0", "\u3000 "])
    if any(m["type"] == "code" for m in ms):
        text = text.replace("\n", "")
        for m in ms:
            if "title" in m.get("attrs", {}):
                m["attrs"]["title"] = m["attrs"]["title"].replace("\n", "")
    return {"kind": "alone", "text": text, "marks": ms}


CODE_PARTS = ["`", "``", "```", "````", " ", "  ", "|", "*", "**", "_", "~~", "<", "&amp;", "[a](b)", "]", "!", "#", "é", "-"]


def _code(g):
    parts = [g.pick(CODE_PARTS) if g.flip() else g.tok() for _ in range(g.int(1, 6))]
    return {"kind": "code", "text": "".join(parts), "ctx": g.pick(CONTEXTS), "others": g.marks(
        [t for t in spec.TEXT_MARKS if t in spec.NOOP_MARKS], 2), "around": bool(g.flip())}


def cases():
    return st.one_of(built(_read_back, md=True), built(_alone, wild=True), built(_code))


WRAP = {"strong": "**", "em": "*", "strike": "~~"}


def check(case, note):
    globals()["check_" + case["kind"].replace(" ", "_")](case, note)


def check_read_back(case, note):
    d = wrap(case["ctx"], case["inline"])
    text = md(d)
    got = [(w.tok, w.formats) for w in mdparse.Read(text).words]
    want = []
    for n in case["inline"]:
        for w in mdparse.TOKEN.findall(n["text"]):
            want.append((w, mdparse.leaf_formats(n)))
    for x, y in zip(got + [None], want + [None]):
        if x != y:
            require(False, "formats read back: %r, expected %r\n%s", x, y, text)
    # the words stay untouched between the delimiters
    plain = "".join(n["text"] for n in case["inline"])
    rendered = "".join(t.content for b in _md.parse(text) if b.type == "inline" for t in b.children
                       if t.type in ("text", "code_inline"))
    if case["ctx"] == "taskItem":
        rendered = rendered[4:]
    same(rendered.strip(), plain.strip(), "the text without its formats\n" + text)
    note("read back", "in " + case["ctx"])
    for n in case["inline"]:
        label(n.get("marks", ()), note)
    note.nontrivial(any(n.get("marks") for n in case["inline"]))


def label(ms, note):
    for m in ms:
        t = m["type"]
        note("mark:" + t)
        if t == "code":
            note("code")
        if t in spec.NOOP_MARKS:
            note("no-op mark")
        if t == "indentation":
            note("indentation")
        if t == "link" and "title" in m["attrs"]:
            note("link title" if m["attrs"]["title"].strip() else "blank link title")
    if len(ms) > 1:
        note("several marks")


def marked(m, inner, got):
    """What the mark makes of the text (got: what it made)."""
    t = m["type"]
    if t in WRAP:
        return inner if not inner.strip() else WRAP[t] + inner + WRAP[t]
    if t == "link":
        title = m["attrs"].get("title", "")
        return "[%s](%s)" % (title if title.strip() else inner, m["attrs"]["href"])
    if t == "indentation":
        require(got.endswith(inner), "indentation changes the text: %r to %r", inner, got)
        lead = got[:len(got) - len(inner)]
        require(lead.strip() == "" and lead != "" and "\n" not in lead, "indentation puts %r in front", lead)
        return got
    if t == "code" and inner.strip():
        found = re.fullmatch(r"(`+) (.*) \1", got, re.S)
        require(found and found.group(2) == inner, "code on %r gives %r", inner, got)
        require(len(found.group(1)) not in [len(x) for x in re.findall("`+", inner)],
                "the delimiter of the code span %r occurs in the code", got)
        return got
    return inner


# every mark once, applied to every text
EVERY = [{"type": t} if a is None else {"type": t, "attrs": {
    k: kind[0] if isinstance(kind, list) else {"int": 1, "strs": ["x"], "url": "u", "str": "v"}[kind]
    for k, (req, kind) in a.items() if req}} for t, a in spec.MARKS.items()]


def check_alone(case, note):
    """The delimiters around the text, the first mark innermost."""
    text, ms = case["text"], case["marks"]
    node = {"type": "text", "text": text, "marks": ms}
    got = md(node)
    same(md({"type": "text", "text": text}), text, "text without marks")
    for m in EVERY:
        if m["type"] != "code" or "\n" not in text:
            out = md({"type": "text", "text": text, "marks": [m]})
            same(out, marked(m, text, out), "mark %s alone on %r" % (m["type"], text))
    # peel the marks off from the outside, last mark first
    inner = [text]
    for m in ms:                      # what each mark is applied to
        inner.append(None)
    rest = got
    for i in range(len(ms) - 1, -1, -1):
        m = ms[i]
        want_inner = md({"type": "text", "text": text, "marks": ms[:i]})
        t = m["type"]
        want = marked(m, want_inner, rest)
        same(rest, want, "mark %s (number %d of %r) on %r" % (t, i, [x["type"] for x in ms], want_inner))
        # the mark object says the same as the node
        mark = call("parse_mark", api.parse_mark, m)
        same(call("mark.to_markdown", mark.to_markdown, want_inner), rest, "mark %s applied alone" % t)
        rest = want_inner
    same(rest, text, "text without marks")
    if not text.strip():
        note("blank text")
    note("alone")
    label(ms, note)
    note.nontrivial(bool(ms))


def check_code(case, note):
    text = case["text"]
    node = {"type": "text", "text": text, "marks": [{"type": "code"}] + case["others"]}
    inl = [node]
    if case["around"]:
        inl = [{"type": "text", "text": "w9001w "}, node, {"type": "text", "text": " w9002w"}]
    out = md(wrap(case["ctx"], inl))
    if not text.strip():
        require("`" not in out, "blank inline code gives %r", out)
        note("blank text")
        return
    spans = [t.content for b in _md.parse(out) if b.type == "inline" for t in b.children if t.type == "code_inline"]
    same(spans, [text], "inline code read back\n" + out)
    words = [w.tok for w in mdparse.Read(out).words]
    want = mdparse.TOKEN.findall("".join(n["text"] for n in inl))
    same(words, want, "words around inline code\n" + out)
    note("code", "in " + case["ctx"])
    if "`" in text:
        note("code with backticks")
    note.nontrivial()
