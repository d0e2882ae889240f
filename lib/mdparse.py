"""Reads Markdown back with markdown-it (CommonMark + tables + strikethrough)
and says, for every word token, where it stands and how it is formatted; and the
same for ADF, computed from the document alone.

A place is a tuple of
    ("li",)        one list item - compared by identity, see ``normal``
    ("quote",)     one quote - compared by identity
    ("ul"|"ol",)   a list (identity not compared: Markdown merges neighbours)
    ("h", level)   heading - by identity
    ("code", lang) fenced code - by identity
    ("cell", r, c) table cell - r, c are positions, identity of the table compared
"""

import re

from markdown_it import MarkdownIt

TOKEN = re.compile(r"[wc]\d{4}[wc]")

_md = MarkdownIt("commonmark").enable(["table", "strikethrough"])


class Word:
    __slots__ = ("tok", "place", "formats")

    def __init__(self, tok, place, formats=frozenset()):
        self.tok, self.place, self.formats = tok, tuple(place), formats

    def __repr__(self):
        return "%s@%s%s" % (self.tok, "/".join(".".join(map(str, p)) for p in self.place),
                            "{%s}" % ",".join(sorted(map(str, self.formats))) if self.formats else "")


class Read:
    def __init__(self, text):
        self.words = []
        self.headings = []      # (level, [tokens])
        self.rules = 0          # number of thematic breaks
        self.codes = []         # (info, code, place kinds)
        self.tables = []        # list of rows of cells of tokens
        self.ids = 0
        stack = []
        cell = [0, 0]
        for t in _md.parse(text):
            k = t.type
            if k in ("bullet_list_open", "ordered_list_open"):
                stack.append(("ul",) if k[0] == "b" else ("ol",))
            elif k == "list_item_open":
                stack.append(("li", self.id()))
            elif k == "blockquote_open":
                stack.append(("quote", self.id()))
            elif k == "heading_open":
                # setext headings keep their level but are told apart
                stack.append(("h", int(t.tag[1]) if t.markup[0] == "#" else "setext", self.id()))
                self.headings.append((stack[-1][1], []))
            elif k == "table_open":
                stack.append(("table", self.id()))
                cell = [-1, -1]
                self.tables.append([])
            elif k == "tr_open":
                cell = [cell[0] + 1, -1]
                self.tables[-1].append([])
            elif k in ("th_open", "td_open"):
                cell[1] += 1
                stack.append(("cell", cell[0], cell[1]))
                self.tables[-1][-1].append([])
            elif k in ("bullet_list_close", "ordered_list_close", "list_item_close", "blockquote_close",
                       "heading_close", "table_close", "th_close", "td_close"):
                stack.pop()
            elif k == "hr":
                self.rules += 1
            elif k in ("fence", "code_block"):
                kind = t.info.strip() if k == "fence" else "(indented)"
                place = stack + [("code", kind, self.id())]
                self.codes.append((kind, t.content, tuple(p[0] for p in stack)))
                for m in TOKEN.findall(t.content):
                    self.words.append(Word(m, place))
            elif k == "html_block":
                for m in TOKEN.findall(t.content):
                    self.words.append(Word(m, stack + [("html",)]))
            elif k == "inline":
                self.inline(t.children, stack)

    def id(self):
        self.ids += 1
        return self.ids

    def inline(self, children, stack):
        formats = []
        for t in children:
            k = t.type
            if k == "link_open":
                formats.append(("link", t.attrs["href"]))
            elif k in ("strong_open", "em_open", "s_open"):
                formats.append(k[:-5])
            elif k in ("strong_close", "em_close", "s_close", "link_close"):
                formats.pop()
            elif k in ("text", "code_inline", "html_inline"):
                extra = ["code"] if k == "code_inline" else []
                self.found(TOKEN.findall(t.content), stack, formats + extra)
            elif k == "image":
                self.found(TOKEN.findall(t.content), stack, formats + [("image", t.attrs["src"])])

    def found(self, toks, stack, formats):
        for m in toks:
            w = Word(m, stack, frozenset(formats))
            self.words.append(w)
            for p in stack:
                if p[0] == "h":
                    self.headings[-1][1].append(m)
                elif p[0] == "cell":
                    self.tables[-1][-1][-1].append(m)


def normal(words):
    """Words with identities replaced by the order of their first appearance, in document order."""
    ids = {}
    out = []
    for w in words:
        place = []
        for p in w.place:
            if p[0] in ("li", "quote", "h", "code", "table"):
                place.append(p[:-1] + (ids.setdefault((p[0], p[-1]), len(ids)),))
            else:
                place.append(p)
        out.append((w.tok, tuple(place)))
    return out


# ------------------------------------------------------------ from the document
SHOWN_URL_TWICE = ("inlineCard", "blockCard", "embedCard")


def leaf_text(n):
    """What a reader sees of a leaf (link targets are not visible text)."""
    t, a = n["type"], n.get("attrs", {})
    if t == "text":
        for m in n.get("marks", ()):
            if m["type"] == "link" and m["attrs"].get("title", "").strip():
                return m["attrs"]["title"]
        return n["text"]
    if t == "mention":
        return a.get("text", "@Unknown")
    if t == "emoji":
        return a.get("text", a["shortName"])
    if t == "status":
        return a["text"]
    if t in SHOWN_URL_TWICE:
        return a["url"]
    if t == "media":
        return "[media]" if a["type"] == "link" else a.get("alt", "media")
    if t == "extension":
        if a.get("text"):
            return "[Extension: %s] %s" % (a["extensionKey"], a["text"])
        return "[Extension: %s/%s]" % (a["extensionType"], a["extensionKey"])
    return ""


def leaf_formats(n):
    t, a = n["type"], n.get("attrs", {})
    out = []
    if t == "status":
        out.append("code")
    if t in SHOWN_URL_TWICE:
        out.append(("link", a["url"]))
    if t == "media" and a["type"] != "link":
        out.append(("image", a["url"] if a["type"] == "external" else "media:" + a["id"]))
    if t == "media" and a["type"] == "link":
        return frozenset()
    names = {"strong": "strong", "em": "em", "strike": "s", "code": "code"}
    for m in n.get("marks", ()):
        if m["type"] in names:
            out.append(names[m["type"]])
        elif m["type"] == "link":
            out.append(("link", m["attrs"]["href"]))
    return frozenset(out)


INVISIBLE = {"caption", "mediaGroup", "mediaInline"}


def expected(doc):
    """The words of a document with their places, computed from the ADF."""
    words = []
    counter = [0]

    def new():
        counter[0] += 1
        return counter[0]

    def visit(n, place):
        t = n["type"]
        if t in INVISIBLE:
            return
        if t == "codeBlock":
            lang = n.get("attrs", {}).get("language", "none")
            here = place + [("code", "" if lang == "none" else lang, new())]
            for c in n.get("content", ()):
                for m in TOKEN.findall(c["text"]):
                    words.append(Word(m, here))
            return
        if t == "table":
            rows = n["content"]
            grid = bool(rows and rows[0]["content"] and rows[0]["content"][0]["type"] == "tableHeader")
            tid = ("table", new())
            for r, row in enumerate(rows):
                for c, cell in enumerate(row["content"]):
                    # blocks in cells have no structure in Markdown, only text
                    mark = len(words)
                    for x in cell["content"]:
                        visit(x, [])
                    for w in words[mark:]:
                        w.place = tuple(place) + ((tid, ("cell", r, c)) if grid else ())
                        w.formats = None
            return
        if t == "heading":
            place = place + [("h", n["attrs"]["level"], new())]
        elif t in ("blockquote", "panel", "decisionItem"):
            place = place + [("quote", new())]
        elif t in ("bulletList", "taskList"):
            place = place + [("ul",)]
        elif t == "orderedList":
            place = place + [("ol",)]
        elif t in ("listItem", "taskItem"):
            place = place + [("li", new())]
        if t == "taskList":
            last = None
            for c in n["content"]:
                if c["type"] == "taskList":
                    # a nested list hangs below the task before it
                    visit(c, place + ([last] if last else []))
                else:
                    last = ("li", new())
                    for x in c.get("content", ()):
                        visit(x, place + [last])
            return
        if "content" in n:
            for c in n["content"]:
                visit(c, place)
            return
        for m in TOKEN.findall(leaf_text(n)):
            words.append(Word(m, place, leaf_formats(n)))

    visit(doc, [])
    return words


def blocks(doc):
    """token -> id of the innermost block that it belongs to."""
    out = {}
    counter = [0]

    def visit(n, bid):
        if n["type"] in ("paragraph", "heading", "taskItem", "decisionItem", "codeBlock", "mediaSingle",
                         "blockCard", "embedCard", "extension"):
            counter[0] += 1
            bid = counter[0]
        for m in TOKEN.findall(leaf_text(n)):
            out[m] = bid
        for c in n.get("content", ()):
            visit(c, bid)

    visit(doc, 0)
    return out
