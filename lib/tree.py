"""Small helpers over raw ADF trees."""

import copy
import json

from lib import spec


def clone(x):
    return json.loads(json.dumps(x))


def canon(x):
    """A text that differs whenever two JSON values differ (1, 1.0 and true are different)."""
    return json.dumps(x, sort_keys=True)


def nodes(n):
    """All nodes of implemented types, pre-order."""
    yield n
    for c in n.get("content", ()):
        yield from nodes(c)


def size(n):
    return sum(1 for _ in nodes(n))


def marks(n):
    """(node, index, mark) for every mark."""
    for x in nodes(n):
        for i, m in enumerate(x.get("marks", ())):
            yield x, i, m


def rendered_nodes(n):
    """Pre-order, without what is never rendered (captions, media groups)."""
    yield n
    if n["type"] in ("caption", "mediaGroup", "mediaInline"):
        return
    for c in n.get("content", ()):
        yield from rendered_nodes(c)


def json_equal(a, b):
    return canon(a) == canon(b)


def class_name(t, mark=False):
    return ("Mark" if mark else "Node") + t[0].upper() + t[1:]


def shape(n):
    """Labels describing a document, for the evidence."""
    out = set()
    depth = 0
    stack = [(n, 0)]
    while stack:
        x, d = stack.pop()
        depth = max(depth, d)
        out.add(x["type"])
        for m in x.get("marks", ()):
            out.add("mark:" + m["type"])
        stack += [(c, d + 1) for c in x.get("content", ())]
    out.add("depth>=%d" % (depth // 2 * 2))
    return out


def falsy_values(n):
    """Whether any attribute has a falsy value or an optional part is empty."""
    for x in nodes(n):
        if x.get("content", 1) == [] or x.get("marks", 1) == [] or x.get("attrs", 1) == {}:
            return True
        if any(v in ("", 0, False, [], {}) for v in x.get("attrs", {}).values() if not isinstance(v, float)):
            return True
    return False


def without_nulls(n):
    """The same with every attribute that is null left out."""
    if isinstance(n, list):
        return [without_nulls(x) for x in n]
    out = dict(n)
    if isinstance(n.get("attrs"), dict):
        out["attrs"] = {k: v for k, v in n["attrs"].items() if v is not None}
    for k in ("content", "marks"):
        if isinstance(n.get(k), list):
            out[k] = without_nulls(n[k])
    return out
