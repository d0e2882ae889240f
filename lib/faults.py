"""Injected faults: nodes and marks of own classes that raise any exception when rendered, at any place of a tree."""
import dataclasses

from lib import tree
from lib.sut import api, parse


class Own(Exception):
    pass


ERRORS = {e.__name__: e for e in (
    ValueError, TypeError, KeyError, AttributeError, IndexError, RuntimeError, NotImplementedError, ZeroDivisionError,
    AssertionError, OSError, OverflowError, LookupError, RecursionError, Exception, Own)}
PARENTS = ("doc", "paragraph", "heading", "taskItem", "decisionItem", "listItem", "tableCell", "tableHeader", "blockquote",
           "panel", "expand", "nestedExpand", "mediaSingle", "codeBlock")


@dataclasses.dataclass(frozen=True)
class FaultNode(api.BaseNode):
    type: str = "zz-fault"
    error: str = ""
    tag: str = ""

    def to_markdown(self, ignore_error=False):
        raise ERRORS[self.error](self.tag)


@dataclasses.dataclass(frozen=True)
class FaultMark(api.BaseMark):
    type: str = "zz-fault"
    error: str = ""
    tag: str = ""

    def to_markdown(self, text):
        raise ERRORS[self.error](self.tag)


def inject(g, n, most=3):
    """A copy of the document with up to so many faults in it, and the parents of the faults."""
    n = tree.clone(n)
    places = [x for x in tree.nodes(n) if x["type"] in PARENTS and "content" in x or x["type"] == "text"]
    hidden = {id(y) for x in tree.nodes(n) if x["type"] in ("caption", "mediaGroup") for y in tree.nodes(x)}
    places = [x for x in places if id(x) not in hidden]
    out = []
    for _ in range(g.int(1, most)):
        if not places:
            break
        x = g.pick(places)
        fault = {"type": "zz-fault", "error": g.pick(list(ERRORS)), "tag": g.tok("f")}
        if x["type"] == "text":
            x.setdefault("marks", [])
            x["marks"].insert(g.int(0, len(x["marks"])), fault)
        else:
            x["content"].insert(g.int(0, len(x["content"])), fault)
        out.append([fault["error"], fault["tag"], x["type"]])
    return n, out


def build(n):
    """The object of a document with faults."""
    if n["type"] == "zz-fault":
        return FaultNode(error=n["error"], tag=n["tag"])
    parts = {}
    bare = dict(n)
    if "content" in n:
        bare["content"] = []
        parts["content"] = [build(c) for c in n["content"]]
    if any(m["type"] == "zz-fault" for m in n.get("marks", ())):
        bare["marks"] = []
        parts["marks"] = [FaultMark(error=m["error"], tag=m["tag"]) if m["type"] == "zz-fault" else api.parse_mark(m)
                          for m in n["marks"]]
    return dataclasses.replace(parse(bare), **parts)


def without(n):
    """The document without the leaves that fail."""
    if "content" not in n:
        return n
    return dict(n, content=[without(c) for c in n["content"] if c["type"] != "zz-fault" and not any(
        m["type"] == "zz-fault" for m in c.get("marks", ()))])
