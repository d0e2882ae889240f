import re

from hypothesis import strategies as st

from lib import tree
from lib.gen import built
from lib.sut import md, require, same

RULE = ("A document in which every visible text and every shown URL or id contains a unique word, and every hidden "
        "attribute another. The words found in the Markdown, in order, must be exactly the visible ones. A third of the "
        "documents has arbitrary texts instead, which must appear in order character for character. Non-trivial: "
        "at least three words.")
ASSUMPTIONS = ["captions, media groups, inline media and expand titles are left out by design (docs)",
               "lib/gen.py marks visible words w....w, shown URLs and ids c....c, hidden values h....h"]
EXAMPLES = {"quick": 3000, "thorough": 48000}
REQUIRED_CLASSES = ["depth>=8", "exact"] + [
    "text", "mention", "emoji", "date", "status", "inlineCard", "blockCard", "embedCard", "media", "extension",
    "codeBlock", "taskItem", "decisionItem", "panel", "blockquote", "expand", "nestedExpand", "tableCell",
    "tableHeader", "caption", "mediaGroup", "mark:link", "mark:code", "mark:indentation"]

WORD = re.compile(r"[wch]\d{4}[wch]")
KNOWN = re.compile(r"[A-Za-z][A-Za-z0-9]*")


def _case(g):
    d = g.doc()
    return d


def _exact(g):
    return {"exact": g.doc()}


def cases():
    return st.one_of(built(_case, wild=False), built(_case, wild=False), built(_exact, wild=True, loose=14))


def pieces(n, cells=0):
    """The visible texts below n in order, as far as they are the document's own, for a place in so many nested cells."""
    t, a = n["type"], n.get("attrs", {})
    if t in ("caption", "mediaGroup", "mediaInline"):
        return
    shown = []
    if t == "text":
        shown = [n["text"]]
    elif t == "mention":
        shown = [a.get("text", "@Unknown")]
    elif t == "emoji":
        shown = [a.get("text", a["shortName"])]
    elif t == "status":
        shown = [a["text"]]
    elif t in ("inlineCard", "blockCard", "embedCard"):
        shown = [a["url"], a["url"]]
    elif t == "media":
        shown = ["[media]"] if a["type"] == "link" else [a.get("alt", "media"), a["url"] if a["type"] == "external" else a["id"]]
    elif t == "extension":
        shown = [a["extensionKey"], a["text"]] if a.get("text") else [a["extensionType"], a["extensionKey"]]
    if t == "text" or t == "media" and a["type"] != "link":
        for m in n.get("marks", ()):
            if m["type"] == "link":
                if m["attrs"].get("title", "").strip():
                    shown = [m["attrs"]["title"]]
                shown.append(m["attrs"]["href"])
    for x in shown:
        for line in x.split("\n"):
            for _ in range(cells):
                line = line.replace("|", "\\|")
            yield t, line.strip()
    for c in n.get("content", ()):
        yield from pieces(c, cells + (t in ("tableCell", "tableHeader")))


def check_exact(d, note):
    """Every text, character for character, in order."""
    text = md(d)
    at = count = 0
    for t, piece in pieces(d):
        i = text.find(piece, at)
        require(i >= 0, "the %s %r is missing (or not in order) in\n%s", t, piece, text)
        at = i + len(piece)
        count += bool(piece)
    note("exact")
    note.nontrivial(count >= 3)


def words(n):
    """The words of the Markdown of n, from the ADF alone."""
    t, a = n["type"], n.get("attrs", {})
    if t in ("caption", "mediaGroup", "mediaInline"):
        return []
    own = []
    if t == "text":
        own = WORD.findall(n["text"])
    elif t == "mention":
        own = WORD.findall(a.get("text", ""))
    elif t == "emoji":
        own = WORD.findall(a.get("text", a["shortName"]))
    elif t == "status":
        own = WORD.findall(a["text"])
    elif t in ("inlineCard", "blockCard", "embedCard"):
        own = WORD.findall(a["url"]) * 2
    elif t == "media":
        if a["type"] == "link":
            return []
        own = WORD.findall(a.get("alt", "")) + WORD.findall(a["url"] if a["type"] == "external" else a["id"])
    elif t == "extension":
        if a.get("text"):
            own = WORD.findall(a["extensionKey"] + " " + a["text"])
        else:
            own = WORD.findall(a["extensionType"] + " " + a["extensionKey"])
    for c in n.get("content", ()):
        own += words(c)
    if t in ("text", "media"):
        for m in n.get("marks", ()):
            if m["type"] == "link":
                if m["attrs"].get("title", "").strip():
                    own = WORD.findall(m["attrs"]["title"])
                own = own + WORD.findall(m["attrs"]["href"])
    return own


def check(d, note):
    if "exact" in d:
        return check_exact(d["exact"], note)
    text = md(d)
    want = words(d)
    got = WORD.findall(text)
    if got != want:
        lost = [w for w in want if w not in got]
        extra = [w for w in got if w not in want]
        require(False, "words lost %r, unexpected %r, order %r instead of %r\n%s", lost, extra, got, want, text)
    # fixed texts: dates, unknown mentions, link media
    dates = sum(1 for n in tree.rendered_nodes(d) if n["type"] == "date")
    same(len(re.findall(r"\d{4}-\d\d-\d\d", text)), dates, "number of dates\n" + text)
    unknown = sum(1 for n in tree.rendered_nodes(d) if n["type"] == "mention" and "text" not in n["attrs"])
    same(text.count("@Unknown"), unknown, "number of unknown mentions\n" + text)
    linked = sum(1 for n in tree.rendered_nodes(d) if n["type"] == "media" and n["attrs"]["type"] == "link")
    same(text.count("[media]"), linked + sum(
        1 for n in tree.rendered_nodes(d) if n["type"] == "media" and n["attrs"]["type"] != "link"
        and "alt" not in n["attrs"]
        and not any(m.get("attrs", {}).get("title", "").strip() for m in n.get("marks", ()))), "number of media placeholders\n" + text)
    # nothing else appears as text
    allowed = {"media", "Extension", "https", "example", "p", "com", "nbsp", "br", "x", "def"}
    for n in tree.nodes(d):
        if n["type"] == "panel":
            allowed.add(n["attrs"]["panelType"].upper())
        if n["type"] == "codeBlock":
            allowed.update(KNOWN.findall(n.get("attrs", {}).get("language", "")))
    rest = WORD.sub(" ", text).replace("@Unknown", " ")
    alien = [x for x in KNOWN.findall(rest) if x not in allowed]
    require(not alien, "text that is not in the document: %r\n%s", alien, text)
    note(*tree.shape(d))
    note.nontrivial(len(want) >= 3)
