from hypothesis import strategies as st

from lib import lists, mdparse, tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("(a) a tree of bullet, ordered and task lists with any blocks and arbitrary text: its exact lines, computed from "
        "the tree and from the renderings of the non-list parts alone; (b) lists of ordinary words in documents, quotes, "
        "panels and expands, read back by markdown-it: kind of list, item and nesting of every word, start number of "
        "each ordered list, item count. Non-trivial: at least two items.")
ASSUMPTIONS = ["markdown-it is the standard Markdown parser",
               "in (b) every item begins with a paragraph of words, paragraphs precede nested lists, and neighbouring "
               "lists of the same kind merge (limits of Markdown)"]
EXAMPLES = {"quick": 2480, "thorough": 48000}
REQUIRED_CLASSES = ["lines", "read back", "order 0", "order given", "no attrs", "nested ordered in bullet",
                    "nested bullet in ordered", "nested taskList", "level 3", "level>=10", "several blocks", "code in item",
                    "empty item", "in blockquote", "in panel"]


def a_list(g, depth, order_max=None):
    n = g.block(g.pick(["bulletList", "orderedList"]), depth)
    return n


def _lines(g):
    g.fuel = g.int(3, 25)
    return {"kind": "lines", "d": a_list(g, g.int(0, 4))}


def _deep(g):
    """A chain of lists inside lists, with something before, after or beside them."""
    n = None
    for _ in range(g.int(4, 24)):
        items = []
        for k in range(g.pick([1, 1, 2])):
            content = [{"type": "paragraph", "content": [{"type": "text", "text": g.text()}]}]
            if n is not None and (k == 0 or g.flip()):
                content.append(n)
                n = None
                if g.flip(4):
                    g.fuel = 3
                    content.append(g.block(g.pick(["paragraph", "codeBlock"]), 0))
            items.append({"type": "listItem", "content": content})
        t = g.pick(["bulletList", "bulletList", "orderedList"])
        n = {"type": t, "content": items}
    return {"kind": "lines", "d": n}


def _read(g):
    g.fuel = g.int(4, 25)
    ctx = g.pick(["doc", "doc", "blockquote", "panel", "expand"])
    blocks = []
    for _ in range(g.int(1, 3)):
        blocks.append(a_list(g, g.int(0, 3)))
        g.fuel = max(g.fuel, 5)
        blocks.append({"type": "paragraph", "content": [{"type": "text", "text": g.words()}]})
    if ctx == "doc":
        content = blocks
    else:
        content = [{"type": ctx, "attrs": {"panelType": "info"} if ctx == "panel" else {}, "content": blocks}]
    return {"kind": "read back", "ctx": ctx, "d": {"type": "doc", "version": 1, "content": content}}


def cases():
    return st.one_of(built(_lines, wild=True), built(_lines), built(_read, md=True), built(_read, md=True),
                     built(_deep, wild=True))


def labels(d, note):
    def visit(n, above, level):
        t = n["type"]
        if t in lists.LISTS:
            if above:
                note("nested %s in %s" % (t.replace("List", ""), above.replace("List", "")))
                if t == "taskList":
                    note("nested taskList")
            note("level %d" % level, *(["level>=10"] if level >= 10 else []))
            if t == "orderedList":
                if "attrs" not in n:
                    note("no attrs")
                elif "order" in n["attrs"]:
                    note("order given", "order 0" if n["attrs"]["order"] == 0 else "order >0")
            above, level = t, level + 1
        if t == "listItem":
            kinds = [c["type"] for c in n["content"]]
            if len([k for k in kinds if k not in lists.LISTS]) > 1:
                note("several blocks")
            if "codeBlock" in kinds:
                note("code in item")
            if not kinds:
                note("empty item")
        for c in n.get("content", ()):
            visit(c, above, level)

    visit(d, "", 0)


def check(case, note):
    d = case["d"]
    labels(d, note)
    items = sum(1 for n in tree.nodes(d) if n["type"] == "listItem")
    note.nontrivial(items >= 2)
    if case["kind"] == "lines":
        got = md(d)
        want = lists.lines_of(d)
        same([lists.loose(x) for x in got.split("\n")], [lists.loose(x) for _, x in want] or [""],
             "lines of the list\n" + got)
        note("lines")
        # the same as part of a list of the caller's, so many levels down
        level = len(got) % 4
        inner = md(d, level=level)
        same([lists.loose(x) for x in inner.split("\n")], [lists.loose(x) for _, x in lists.lines_of(d, level)] or [""],
             "lines of the list at level %d\n%s" % (level, inner))
        return
    text = md(d)
    read = mdparse.Read(text)
    got, exp = mdparse.normal(read.words), mdparse.normal(mdparse.expected(d))
    for x, y in zip(got + [None], exp + [None]):
        if x != y:
            require(False, "reading the lists back: found %r, expected %r\n%s", x, y, text)
    # start numbers and numbers of items, in document order
    want = []

    def visit(n, level):
        t = n["type"]
        if t in lists.LISTS:
            start = n.get("attrs", {}).get("order", 1) if t == "orderedList" and not level else 1
            if t != "taskList":
                want.append((t, start if t == "orderedList" else None, len(n["content"])))
            level += 1
        for c in n.get("content", ()):
            visit(c, level)

    visit(d, 0)
    if not any(n["type"] == "taskList" for n in tree.nodes(d)) and not adjacent(d):
        same(structure(text), want, "kind, start number and number of items of the lists\n" + text)
        note("counted")
    note("read back", "in " + case["ctx"])


def adjacent(d):
    """Whether two lists stand next to each other with nothing visible between."""
    for n in tree.nodes(d):
        last = None
        for c in n.get("content", ()):
            if c["type"] in lists.LISTS and last in lists.LISTS:
                return True
            if c["type"] in lists.LISTS or mdparse.expected(c):
                last = c["type"]
    return False


def structure(text):
    from markdown_it import MarkdownIt
    out, stack = [], []
    for t in MarkdownIt("commonmark").enable(["table", "strikethrough"]).parse(text):
        if t.type in ("bullet_list_open", "ordered_list_open"):
            kind = "bulletList" if t.type[0] == "b" else "orderedList"
            out.append([kind, int(t.attrs.get("start", 1)) if kind == "orderedList" else None, 0])
            stack.append(out[-1])
        elif t.type in ("bullet_list_close", "ordered_list_close"):
            stack.pop()
        elif t.type == "list_item_open":
            stack[-1][2] += 1
    return [tuple(x) for x in out]
