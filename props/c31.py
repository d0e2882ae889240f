import dataclasses
import importlib
import re

from hypothesis import strategies as st

from lib import faults, ref, spec, tree
from lib.gen import built
from lib.sut import HarnessError, api, outcome, parse, require, same

RULE = ("(a) the documented helper functions on generated lists of built-in nodes and nodes of own classes that write down "
        "how they are called or raise any exception, with any separator, in both modes, compared with the join of the parts' "
        "Markdown; (b) documents with such own nodes placed anywhere: each is rendered once per rendering, in the caller's "
        "mode; (c) marks on anything; (d) texts with runs of line feeds and any number of passes; (e) own nodes that are "
        "interrupted (KeyboardInterrupt, SystemExit, ...): the interrupt always comes out. Non-trivial: two or more "
        "parts, own nodes, marks or runs.")
ASSUMPTIONS = ["the data model page of the maintainer's guide and the docstrings of markdown_helpers.py say what the helpers do"]
EXAMPLES = {"quick": 3300, "thorough": 40000}
REQUIRED_CLASSES = ["content_to_markdown", "doc_content_to_markdown", "add_style_to_markdown", "strip_double_empty_line",
                    "own nodes anywhere", "unset content", "empty content", "default separator", "other separator",
                    "own node raises", "strict", "lenient", "own mark", "no marks field", "unset marks", "limited passes",
                    "own node called like a list", "in listItem", "in tableCell", "in tableHeader", "in taskItem",
                    "in decisionItem", "in panel", "in blockquote", "in expand", "in nestedExpand", "in heading",
                    "in paragraph", "in doc", "in mediaSingle", "in codeBlock", "the error of an own node", "interrupted helper",
                    "interrupted document"]
SEPARATORS = ["", "\n", "\n\n", "\n\n\n", " ", "---", "|", "x", "\t"]
PADDED = ("bulletList", "orderedList", "codeBlock", "taskList", "decisionList", "table")
PARENTS = ("doc", "paragraph", "heading", "taskItem", "decisionItem", "listItem", "tableCell", "tableHeader", "blockquote",
           "panel", "expand", "nestedExpand", "mediaSingle", "codeBlock")

LOG = []


class Stop(BaseException):
    pass


STOPS = {e.__name__: e for e in (KeyboardInterrupt, SystemExit, GeneratorExit, Stop)}


@dataclasses.dataclass(frozen=True)
class Spy(api.BaseNode):
    """Renders as its text (or raises) and writes down the mode."""
    type: str = "zz-spy"
    tag: str = ""
    text: str = ""
    error: str = ""

    def to_markdown(self, ignore_error=False):
        LOG.append((self.tag, ignore_error))
        if self.error:
            raise (faults.ERRORS.get(self.error) or STOPS[self.error])(self.tag)
        return self.text


@dataclasses.dataclass(frozen=True)
class SpyMark(api.BaseMark):
    type: str = "zz-spy"
    tag: str = ""

    def to_markdown(self, text):
        return self.tag + text + self.tag


def helpers():
    try:
        return importlib.import_module("atlas_doc_parser.markdown_helpers")
    except ImportError as e:
        raise HarnessError("no helpers: %s" % e)


# ------------------------------------------------------------------ cases
def _spy(g, error=3):
    kind = "zz-spy"
    if g.flip(3):
        kind = g.pick(PADDED + ("paragraph", "heading", "listItem", "rule", "doc"))
    return {"type": kind, "tag": g.tok("s"), "text": g.text(), "error": g.pick(list(faults.ERRORS)) if error and g.flip(error) else "",
            "spy": True}


def _parts(g):
    n = g.int(0, 5)
    parts = [_spy(g, 4) if g.flip() else g.block(g.pick(spec.BLOCKS + ["text", "hardBreak", "mention"]), 1) for _ in range(n)]
    return {"kind": "parts", "fn": g.pick(["content_to_markdown", "doc_content_to_markdown"]), "parts": parts,
            "unset": not n and g.flip(), "concat": g.pick(SEPARATORS) if g.flip() else None, "lenient": g.flip(),
            "positional": g.flip()}


def _style(g):
    marks = []
    for _ in range(g.int(0, 4)):
        marks.append({"type": "zz-spy", "tag": g.tok("m")} if g.flip(3) else
                     g.mark(g.pick([t for t in spec.MARKS if t != "code"])))
    return {"kind": "style", "on": g.pick(["text", "paragraph", "mediaSingle", "media", "table", "none", "unset"]), "marks": marks,
            "md": g.text()}


def _strip(g):
    parts = []
    for _ in range(g.int(1, 6)):
        parts.append("\n" * (g.int(1, 12) if not g.flip(8) else g.int(13, 200)))
        parts.append(g.pick([g.tok(), " ", "\r", "\u2028", "", " \t", g.text(nl=False)]))
    if g.flip():
        parts.pop(0)
    n = g.pick([None, None, 0, 1, 2, 3, 4, 5, 100])
    return {"kind": "strip", "text": "".join(parts), "n": n}


def _anywhere(g):
    d = tree.clone(g.doc(lo=1) if g.flip() else g.node(g.pick(
        ["bulletList", "orderedList", "taskList", "decisionList", "table", "panel", "blockquote", "expand", "nestedExpand",
         "mediaSingle", "heading", "paragraph", "codeBlock"]), 4))
    hidden = {id(y) for x in tree.nodes(d) if x["type"] in ("caption", "mediaGroup") for y in tree.nodes(x)}
    places = [x for x in tree.nodes(d) if x["type"] in PARENTS and "content" in x and id(x) not in hidden]
    where = []
    failing = g.flip(3)
    for _ in range(g.int(1, 4)):
        if not places:
            break
        x = g.pick(places)
        x["content"].insert(g.int(0, len(x["content"])),
                            {"type": "zz-spy", "tag": g.tok("s"), "text": g.tok(), "error": g.pick(list(faults.ERRORS)) if failing else "", "spy": True})
        where.append(x["type"])
    return {"kind": "anywhere", "d": d, "where": where, "lenient": g.flip()}


def _interrupt(g):
    """A document or a list of parts, one own node of which is interrupted (Ctrl-C, exit), which is not an error."""
    base = _anywhere(g) if g.flip() else _parts(g)
    own = [n for x in (base["parts"] if base["kind"] == "parts" else [base["d"]]) for n in tree.nodes(x) if n.get("spy")]
    for n in own:
        n["error"] = ""
    if not own:
        n = _spy(g, 0)
        if base["kind"] == "parts":
            base["parts"].insert(g.int(0, len(base["parts"])), n)
        else:
            base = {"kind": "parts", "fn": "content_to_markdown", "parts": [base["d"], n], "concat": None}
        own = [n]
    g.pick(own)["error"] = g.pick(list(STOPS))
    return {"kind": "interrupt", "base": base, "lenient": not g.flip(3)}


def cases():
    return st.one_of(built(_interrupt, wild=True), built(_parts, wild=True), built(_parts, wild=True, bad=6), built(_style, wild=True), built(_strip, wild=True),
                     built(_anywhere, wild=True, loose=14), built(_anywhere, wild=True, loose=14))


# ------------------------------------------------------------------ objects
def build(n):
    if n.get("spy"):
        return Spy(type=n["type"], tag=n["tag"], text=n["text"], error=n["error"])
    if "content" not in n:
        return parse(n)
    return dataclasses.replace(parse(dict(n, content=[])), content=[build(c) for c in n["content"]])


def alone(n, lenient):
    """("ok", Markdown) or ("err", class, message) of a part."""
    kind, value = outcome(build(n).to_markdown, ignore_error=lenient)
    return (kind, value) if kind == "ok" else (kind, type(value), str(value))


def passes(text, n):
    """Runs of line feeds after so many passes, each of which makes two of every three."""
    def run(m):
        k = len(m.group())
        for _ in range(n):
            k = k // 3 * 2 + k % 3
        return "\n" * k
    return re.sub("\n+", run, text)


# ------------------------------------------------------------------ checks
def check(case, note):
    {"parts": check_parts, "style": check_style, "strip": check_strip, "anywhere": check_anywhere,
     "interrupt": check_interrupt}[case["kind"]](case, note)


def check_parts(case, note):
    fn = getattr(helpers(), case["fn"])
    doc = case["fn"].startswith("doc")
    concat, lenient, parts = case["concat"], case["lenient"], case["parts"]
    note(case["fn"], "lenient" if lenient else "strict", "default separator" if concat is None else "other separator")
    if any(p.get("spy") and p["type"] in PADDED for p in parts):
        note("own node called like a list")
    note.nontrivial(len(parts) > 1)
    want, error, called = [], None, []
    for p in parts:
        if p.get("spy"):
            called.append((p["tag"], lenient))
            if p["error"]:
                note("own node raises")
        got = alone(p, lenient)
        if got[0] == "err":
            if not lenient:
                error = got[1:]
                break
            continue
        text = got[1]
        if doc and p["type"] in PADDED:
            text = "\n" + text + "\n"
        want.append(text)
    sep = concat if concat is not None else "\n" if doc else ""
    want = sep.join(want)
    if doc:
        want = re.sub("\n{3,}", "\n\n", want)
    if not parts:
        note("unset content" if case["unset"] else "empty content")
    content = unset() if case["unset"] else [build(p) for p in parts]
    before = content if case["unset"] else list(content)
    LOG.clear()
    kw = {"ignore_error": lenient}
    args = ()
    if concat is not None:
        if case["positional"]:
            args = (concat,)
        else:
            kw["concat"] = concat
    kind, value = outcome(fn, content, *args, **kw)
    log = list(LOG)
    if error:
        require(kind == "err" and (type(value), str(value)) == error, "%s gives %r, not the error %r", case["fn"], value, error)
    else:
        require(kind == "ok", "%s raised %r", case["fn"], value)
        same(value, want, "%s with separator %r" % (case["fn"], concat))
    same(log, called, "which own nodes were rendered, in which mode")
    if not case["unset"]:
        require(len(before) == len(content) and all(x is y for x, y in zip(before, content)), "the list was changed")


def unset():
    return api.NodeParagraph().content


def check_style(case, note):
    fn = helpers().add_style_to_markdown
    note("add_style_to_markdown")
    marks = [SpyMark(tag=m["tag"]) if m["type"] == "zz-spy" else api.parse_mark(m) for m in case["marks"]]
    on = case["on"]
    bare = {"text": {"type": "text", "text": "t"}, "paragraph": {"type": "paragraph"}, "mediaSingle": {"type": "mediaSingle", "content": []},
            "media": {"type": "media", "attrs": {"type": "file", "id": "i"}}, "table": {"type": "table", "content": []},
            "none": {"type": "rule"}, "unset": {"type": "text", "text": "t"}}[on]
    node = parse(bare)
    want = case["md"]
    if on == "none":
        note("no marks field")
    elif on == "unset":
        note("unset marks")
    else:
        node = dataclasses.replace(node, marks=marks)
        for m, d in zip(marks, case["marks"]):
            if d["type"] == "zz-spy":
                note("own mark")
                want = d["tag"] + want + d["tag"]
            else:
                want = ref.apply_mark(d, want)
        note.nontrivial(len(marks) > 1)
    kind, got = outcome(fn, case["md"], node)
    require(kind == "ok", "add_style_to_markdown raised %r", got)
    same(got, want, "marks %s on %r" % ([d["type"] for d in case["marks"]], case["md"]))


def check_strip(case, note):
    fn = helpers().strip_double_empty_line
    text, n = case["text"], case["n"]
    note("strip_double_empty_line")
    note.nontrivial(len(re.findall("\n{3,}", text)) > 1)
    if n is None:
        kind, got = outcome(fn, text)
        want = re.sub("\n{3,}", "\n\n", text)
    else:
        note("limited passes")
        kind, got = outcome(fn, text, n)
        want = passes(text, n)
    require(kind == "ok", "strip_double_empty_line raised %r", got)
    same(got, want, "%r after %s passes" % (text, n))


def check_anywhere(case, note):
    d, lenient = case["d"], case["lenient"]
    spies = [n for n in tree.nodes(d) if n.get("spy")]
    note("own nodes anywhere", "lenient" if lenient else "strict", *["in " + w for w in case["where"]])
    note.nontrivial(len(spies) > 1)
    obj = build(d)
    LOG.clear()
    kind, value = outcome(obj.to_markdown, ignore_error=lenient)
    log = list(LOG)
    if kind == "ok":
        same(log, [(n["tag"], lenient) for n in spies], "which own nodes were rendered, in which mode\n%s" % value)
        at = -1
        for n in spies:
            if not n["error"]:
                i = value.find(n["text"], at + 1)
                require(i > at, "the Markdown of the own node %s is missing or out of order\n%s", n["tag"], value)
                at = i
    else:
        failing = [n for n in spies if n["error"]]
        require(not lenient and failing, "rendering raised %r", value)
        first = failing[0]
        require((type(value), str(value)) == (faults.ERRORS[first["error"]], str(faults.ERRORS[first["error"]](first["tag"]))),
                "rendering raised %r, not the error of %s", value, first["tag"])
        note("the error of an own node")
        same(log, [(n["tag"], lenient) for n in spies[:spies.index(first) + 1]], "which own nodes were rendered before the error")


def check_interrupt(case, note):
    base, lenient = case["base"], case["lenient"]
    note("lenient" if lenient else "strict")
    if base["kind"] == "parts":
        parts = base["parts"]
        note("interrupted helper")
        fn, args = getattr(helpers(), base["fn"]), ([build(p) for p in parts],)
    else:
        parts = [base["d"]]
        note("interrupted document")
        fn, args = build(base["d"]).to_markdown, ()
    if not lenient and any(not p.get("spy") and alone(p, False)[0] == "err" for p in base.get("parts", [])):
        return
    spies = [n for p in parts for n in tree.nodes(p) if n.get("spy")]
    note.nontrivial(len(spies) > 1)
    first = [n for n in spies if n["error"]][0]
    LOG.clear()
    try:
        value = fn(*args, ignore_error=lenient)
    except tuple(STOPS.values()) as e:
        require((type(e), e.args) == (STOPS[first["error"]], (first["tag"],)), "%r came out instead of the interrupt", e)
    except Exception as e:
        require(False, "an interrupted rendering raised %r", e)
    else:
        require(False, "an interrupt was ignored\n%s", value)
    same(LOG, [(n["tag"], lenient) for n in spies[:spies.index(first) + 1]], "which own nodes were rendered before the interrupt")
