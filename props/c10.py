from lib import spec, tree
from lib.gen import built
from lib.sut import Violation, parse, render, require

RULE = ("A document, or a node of any type, with every optional attribute, content list and mark list absent, empty or "
        "present; sometimes a chain of up to 40 nested containers. All leaves are convertible. Non-trivial: at least two "
        "nodes.")
ASSUMPTIONS = ["schema-valid and convertible as generated by lib/gen.py with bad=0"]
EXAMPLES = {"quick": 3000, "thorough": 48000}
REQUIRED_CLASSES = ["falsy", "deep"] + ["root:" + t for t in spec.NODES]


def strip(g, n, rate):
    """Remove or empty optional parts."""
    s = spec.NODES[n["type"]]
    for c in n.get("content", ()):
        strip(g, c, rate)
    if "attrs" in n and g.flip(rate):
        shown = spec.SHOWN.get(n["type"], set())
        if not s.attrs_required and g.flip():
            del n["attrs"]
        else:
            needed = {"media": {"type", "id", "url"}, "inlineCard": {"url"}, "blockCard": {"url"}}.get(n["type"], set())
            for k in list(n["attrs"]):
                if not s.attrs[k][0] and k not in needed:
                    del n["attrs"][k]
    if "content" in n and g.flip(rate):
        if s.content_required or g.flip():
            n["content"] = []
        else:
            del n["content"]
    if s.marks is not None and g.flip(rate):
        n.pop("marks", None)
        if g.flip():
            n["marks"] = []


def chain(g):
    n = {"type": "paragraph", "content": [{"type": "text", "text": "t"}]}
    kind = g.int(0, 3)
    for _ in range(g.int(5, 40)):
        if kind == 3 and n["type"] != "paragraph":
            n = {"type": "taskList", "attrs": {"localId": ""}, "content": [n]}
        elif kind == 3:
            n = {"type": "taskItem", "attrs": {"localId": "", "state": "DONE"}, "content": n["content"]}
        else:
            t = ["bulletList", "orderedList", g.pick(["bulletList", "orderedList"])][kind]
            n = {"type": t, "content": [{"type": "listItem", "content": [n]}]}
    if n["type"] == "taskItem":
        n = {"type": "taskList", "attrs": {"localId": ""}, "content": [n]}
    return {"type": "doc", "version": 1, "content": [n]}


def _case(g):
    k = g.int(0, 9)
    if k == 0:
        return {"d": chain(g), "deep": True}
    n = g.node(g.pick(list(spec.NODES))) if k < 6 else g.doc()
    rate = g.pick([2, 4, 10, 1000])
    strip(g, n, rate)
    return {"d": n, "deep": False}


def cases():
    return built(_case, wild=True, loose=14, extras=3)


def check(case, note):
    d = case["d"]
    obj = parse(d)
    for flag in (False, True):
        render(obj, ignore_error=flag)
    note("root:" + d["type"])
    if case["deep"]:
        note("deep")
    if tree.falsy_values(d):
        note("falsy")
    note.nontrivial(tree.size(d) >= 2)
