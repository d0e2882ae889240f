import re

from lib import spec, tree, words
from lib.gen import JSON_VALUES, built
from lib.sut import Capture, api, call, require, same, to_dict

RULE = ("A document, node or mark and the same with unknown fields (new names, or names of fields that other types "
        "have) holding arbitrary JSON inserted into any elements and attribute objects. Non-trivial: at least one "
        "field inserted.")
ASSUMPTIONS = ["a field is unknown to a type if lib/spec.py does not list it for that type"]
EXAMPLES = {"quick": 1800, "thorough": 32000}
REQUIRED_CLASSES = ["in node", "in attrs", "in mark", "in mark attrs", "foreign content", "foreign marks"]

NAMES = ["x", "foo", "Content", "_type", "class", "self", "cls", "dct", "kwargs", "version", "text", "attrs",
         "content", "marks", "order", "level", "localId", "url", "title", "href", "state", "data", "id", "type_",
         "language", "fields", "to_dict", "from_dict", "__class__", "", " ", "é", "0", "new-field"]
NAMES += sorted({a for s in spec.NODES.values() for a in s.attrs or ()} | {"type", "subtype"}) + words.HOT_NAMES
VALUES = JSON_VALUES + ["text", [None], [{"type": "nope"}], [{"type": "text"}], [[]], {"type": "nope"}, [{}], ["x"],
                        [{"type": "strong"}, {"type": "zzz"}], "em", "strong", "rule", "true", "1"]


TYPES = ["em", "strong", "strike", "code", "rule", "hardBreak", "paragraph", "text", "zzz"] + sorted(spec.NODES) + sorted(spec.MARKS)


def another_spelling(g, name):
    return g.pick([str.lower, str.upper, str.capitalize, str.swapcase, lambda x: "_" + x, lambda x: x + "_", lambda x: x + "s",
                   lambda x: x[:-1], lambda x: re.sub("([A-Z])", r"_\1", x).lower(), lambda x: x + " ", lambda x: "data-" + x,
                   lambda x: re.sub("([A-Z])", r"-\1", x).lower(), lambda x: x.replace("_", ""), lambda x: x[::-1]])(name)


def sprinkle(g, x, known, where, log, rate):
    """Insert unknown fields into dictionary x."""
    out = dict(x)
    for _ in range(2):
        if g.flip(rate):
            k = g.pick(NAMES)
            if known and g.flip():
                k = another_spelling(g, g.pick(sorted(known)))
            elif g.flip(3):
                k = g.pick(["type", "text", "content", "marks", "attrs"])
            if k in known or k in out:
                continue
            out[k] = g.pick(TYPES if k == "type" and not g.flip(4) else VALUES)
            log.append(where)
            if k in ("content", "marks") and where != "attrs":
                log.append("foreign " + k)
    if g.flip(4):  # put the unknown ones first
        out = dict(reversed(list(out.items())))
    return out


def dirty_mark(g, m, log, rate):
    kinds = spec.MARKS[m["type"]]
    out = dict(m)
    if "attrs" in m and kinds is not None:
        out["attrs"] = sprinkle(g, m["attrs"], kinds, "in mark attrs", log, rate)
    known = {"type"} if kinds is None else {"type", "attrs"}
    return sprinkle(g, out, known, "in mark", log, rate)


def dirty(g, n, log, rate):
    s = spec.NODES[n["type"]]
    out = dict(n)
    if "attrs" in n:
        out["attrs"] = sprinkle(g, n["attrs"], s.attrs, "in attrs", log, rate)
    if "content" in n:
        out["content"] = [dirty(g, c, log, rate) for c in n["content"]]
    if "marks" in n:
        out["marks"] = [dirty_mark(g, m, log, rate) for m in n["marks"]]
    return sprinkle(g, out, s.known(), "in node", log, rate)


def _case(g):
    log = []
    k = g.int(0, 4)
    rate = g.pick([2, 5, 20])
    if k == 0:
        d = g.mark(g.pick(list(spec.MARKS)))
        e = dirty_mark(g, d, log, 2)
        kind = "mark"
    else:
        d = g.node(g.pick(list(spec.NODES))) if k == 1 else g.doc()
        e = dirty(g, d, log, rate)
        kind = "node"
    return {"kind": kind, "clean": d, "dirty": e, "where": sorted(set(log))}


def cases():
    return built(_case, wild=True, loose=14, bad=10)


def observe(d, mark):
    with Capture() as cap:
        obj = call("parsing", api.parse_mark if mark else api.parse_node, d)
        out = to_dict(obj)
        if mark:
            md = _md(lambda: obj.to_markdown("text"))
        else:
            md = _md(obj.to_markdown), _md(lambda: obj.to_markdown(ignore_error=True))
    return obj, out, md, cap.records


def _md(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "err", type(e).__name__, str(e)


def check(case, note):
    mark = case["kind"] == "mark"
    a = observe(case["clean"], mark)
    b = observe(case["dirty"], mark)
    require(a[0] == b[0], "unknown fields change the parsed object")
    same(b[1], a[1], "unknown fields change the serialisation")
    require(tree.canon(a[1]) == tree.canon(b[1]), "unknown fields change the serialisation")
    same(b[2], a[2], "unknown fields change the Markdown")
    same(b[3], a[3], "unknown fields change what is logged")
    note(*case["where"])
    note.nontrivial(bool(case["where"]))
