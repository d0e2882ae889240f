import re

from hypothesis import strategies as st

from lib import mdparse, tree
from lib.gen import LANGS, WILD, built
from lib.sut import md, require, same

RULE = ("A code block with arbitrary code (any characters except carriage return and NUL, backtick runs, fences, blank "
        "lines, leading and trailing whitespace, Markdown syntax) and any language, rendered alone and inside a document, "
        "list item, quote, panel or expand between other blocks, read back by markdown-it. Non-trivial: non-empty code.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser; it normalises carriage returns and NUL, so those are left out",
               "runs of blank lines are collapsed by design; in list items and quotes leading whitespace is compared up "
               "to tabs, blank lines up to their whitespace"]
EXAMPLES = {"quick": 5000, "thorough": 48000}
REQUIRED_CLASSES = ["alone", "doc", "listItem", "blockquote", "panel", "expand", "nestedExpand", "backticks", "fence in code",
                    "blank lines", "trailing newline", "no language", "language none", "several text nodes", "nested item"]

PIECES = ["\n", "\n\n", "\n\n\n\n", "    ", "\t", " ", "`", "``", "```", "````", "~~~", "```python\n", "\n```\n", "|", "- a",
          "# x", "> q", "<div>", "&amp;", "*", "\\", "\u2028", "\x0b", "\x0c", "é", "1. ", "---", "[a]: b", "    code", "'''",
          "$", "\u00a0", "\\n", "|---|", "  "]

CONTEXTS = ["doc", "doc", "listItem", "nested item", "blockquote", "panel", "expand", "nestedExpand"]


def _case(g):
    n = {"type": "codeBlock"}
    a = {}
    k = g.int(0, 3)
    if k > 0:
        a["language"] = g.pick(LANGS)
    g.put_attrs(n, a)
    texts = []
    for _ in range(g.pick([1, 1, 1, 0, 2, 3])):
        t = ""
        for _ in range(g.int(0, 6)):
            j = g.int(0, 3)
            t += g.tok() if j == 0 else g.pick(PIECES) if j < 3 else g.wild_char()
        texts.append({"type": "text", "text": t.replace("\r", "").replace("\0", "")})
    if texts or g.flip():
        n["content"] = texts
    return {"code": n, "ctx": g.pick(CONTEXTS), "before": g.int(0, 5), "after": g.int(0, 3), "kind": g.int(0, 1)}


def cases():
    return built(_case, wild=True)


def para(word):
    return {"type": "paragraph", "content": [{"type": "text", "text": word}]}


def place(case):
    n, ctx = case["code"], case["ctx"]
    before = [[], [para("w9001w")], [{"type": "mediaSingle", "content": [{"type": "media", "attrs": {
        "type": "external", "url": "u"}}]}], [{"type": "codeBlock", "content": [{"type": "text", "text": "w9003w"}]}],
        [{"type": "extension", "attrs": {"extensionKey": "k", "extensionType": "t"}}],
        [{"type": "bulletList", "content": [{"type": "listItem", "content": [para("w9004w")]}]}]][case["before"]]
    after = [[], [para("w9002w")], [{"type": "codeBlock", "content": [{"type": "text", "text": "w9005w"}]}],
             [{"type": "extension", "attrs": {"extensionKey": "k", "extensionType": "t"}}]][case["after"]]
    blocks = before + [n] + after
    kind = ["bulletList", "orderedList"][case["kind"]]
    if ctx == "doc":
        content = blocks
    elif ctx == "listItem":
        content = [{"type": kind, "content": [{"type": "listItem", "content": [para("w9000w"), n]
                                              + [x for x in after if x["type"] != "codeBlock"]}]}]
    elif ctx == "nested item":
        inner = {"type": kind, "content": [{"type": "listItem", "content": [para("w9000w"), n]}]}
        content = [{"type": "bulletList", "content": [{"type": "listItem", "content": [para("w8000w"), inner]}]}]
    elif ctx == "nestedExpand":
        content = [{"type": "expand", "content": [{"type": "nestedExpand", "attrs": {}, "content": blocks}]}]
    elif ctx == "panel":
        content = [{"type": "panel", "attrs": {"panelType": "note"}, "content": blocks}]
    else:
        content = [{"type": ctx, "content": blocks}]
    return {"type": "doc", "version": 1, "content": content}


def collapse(text):
    while "\n\n\n" in text:
        text = text.replace("\n\n\n", "\n\n")
    return text


def check(case, note):
    n, ctx = case["code"], case["ctx"]
    code = "".join(t["text"] for t in n.get("content", ()))
    lang = n.get("attrs", {}).get("language")
    info = "" if lang in (None, "none") else lang
    # alone, with the line ends and characters that parsers normalise
    for raw in (code.replace("\n", "\r\n"), code + "\r", "a\0" + code + "\r\nb"):
        text = md(dict(n, content=[{"type": "text", "text": raw}]))
        ticks = text[:len(text) - len(text.lstrip("`"))]
        require(len(ticks) >= 3 and ticks not in raw, "the code %r is fenced with %r", raw, ticks)
        same(text, "%s%s\n%s\n%s" % (ticks, info, raw, ticks), "code with carriage returns")
    # alone: the fence, the code, the fence
    text = md(n)
    m = re.fullmatch(r"(`{3,})([^\n`]*)\n(.*)\n(`{3,})", text, re.S)
    require(m, "a code block gives %r", text)
    same((m.group(2), m.group(3)), (info, code), "language and code")
    require(m.group(1) == m.group(4), "the fences differ: %r", text)
    require(m.group(1) not in code, "the code contains its own fence: %r", text)
    note("alone")
    got = mdparse.Read(text).codes
    same([c[:2] for c in got], [(info.strip(), code + "\n")], "code block read back\n" + text)
    # in its context
    d = place(case)
    text = md(d)
    codes = mdparse.Read(text).codes
    index = 1 if case["before"] == 3 and ctx not in ("listItem", "nested item") else 0
    others = sum(1 for x in tree.nodes(d) if x["type"] == "codeBlock")
    require(len(codes) == others, "%d code blocks read back, not %d\n%s", len(codes), others, text)
    got_lang, got_code, above = codes[index]
    same(got_lang, info.strip(), "language read back\n" + text)
    want = collapse("\n" + code + "\n")[1:]
    if ctx in ("listItem", "nested item", "blockquote", "panel"):
        # leading whitespace up to tabs, blank lines up to their whitespace
        def norm(s):
            return collapse("\n" + "\n".join(loose(x) for x in s.split("\n")))
        same(norm(got_code), norm(want), "code read back\n" + text)
    else:
        same(got_code, want, "code read back\n" + text)
    same(above, {"listItem": (["ul", "ol"][case["kind"]], "li"), "nested item": ("ul", "li", ["ul", "ol"][case["kind"]], "li"),
                 "blockquote": ("quote",), "panel": ("quote",)}.get(ctx, ()), "where the code block stands\n" + text)
    for w in ("w9000w", "w8000w", "w9001w", "w9002w", "w9003w", "w9005w"):
        same([x.tok for x in mdparse.Read(text).words].count(w), sum(
            1 for x in tree.nodes(d) if x.get("text") == w), "occurrences of %s around the code\n%s" % (w, text))
    note(ctx)
    if "`" in code:
        note("backticks")
    if "```" in code:
        note("fence in code")
    if "\n\n" in code:
        note("blank lines")
    if code.endswith("\n"):
        note("trailing newline")
    note("no language" if lang is None else "language none" if lang == "none" else "language")
    if len(n.get("content", ())) > 1:
        note("several text nodes")
    note.nontrivial(bool(code))


def loose(line):
    line = line.expandtabs(4)
    return "" if not line.strip() else line if "\t" not in line else line.lstrip()
